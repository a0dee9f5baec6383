"""What the standard library does, for the abstract interpreter.

Keyed by 'Type::method' or 'Type.Trait::method'; a model returns the value, or
NotImplemented to have the real body analysed, or ('CALL', fn, args).
"""
from dom import *
from values import *
from interp import UNDEF, Finding, Stop, expose, shift, tidy, byte_at

M = {}


def model(*keys):
    def d(f):
        for k in keys:
            M[k] = f
        return f
    return d


def deref(m, st, p):
    """Load through any number of references."""
    while True:
        if type(p) is not tuple:
            return p
        if p[0] == 'R':
            v = st.get(p[1], p[2])
            if type(v) is tuple and v[0] in ('R', 'S', 'SL', 'D', 'SB'):
                p = v
                continue
            return v
        if p[0] == 'A' and p[2] and p[2][0][0] in ('R', 'S', 'SL'):
            p = p[2][0]
            continue
        return p


def norm(st, n):
    return st.facts.norm(n)


# ---------------------------------------------------------------- panics
def panicking(what):
    def f(m, st, th, fn, args, dest, target):
        m.panic(st, th, st.thr[th][-1], what)
    return f


for k, w in [('core::option::expect_failed', 'expect() on None'), ('core::option::unwrap_failed', 'unwrap() on None'),
             ('core::result::unwrap_failed', 'unwrap() on Err'),
             ('core::str::slice_error_fail', 'string slice out of range'),
             ('core::panicking::assert_failed', 'assert_eq!/assert_ne! fails'),
             ('core::panicking::panic', 'panic'), ('core::panicking::panic_fmt', 'panic'),
             ('core::panicking::panic_bounds_check', 'index out of bounds'),
             ('core::panicking::unreachable_display', 'unreachable!'),
             ('core::panicking::panic_display', 'panic'), ('core::panicking::panic_str_2015', 'panic'),
             ('core::panicking::panic_explicit', 'panic'), ('core::panicking::panic_nounwind', 'panic'),
             ('std::rt::begin_panic', 'panic'), ('core::cell::panic_already_borrowed', 'already borrowed'),
             ('core::slice::index::slice_index_fail', 'slice index out of range')]:
    M[k] = panicking(w)


# ---------------------------------------------------------------- mem
@model('core::mem::swap', 'core::intrinsics::typed_swap_nonoverlapping', 'core::ptr::swap')
def mem_swap(m, st, th, fn, a, dest, target):
    x, y = m.load(st, a[0]), m.load(st, a[1])
    m.store(st, a[0], y)
    m.store(st, a[1], x)
    return UNIT


@model('core::mem::replace')
def mem_replace(m, st, th, fn, a, dest, target):
    x = m.load(st, a[0])
    m.store(st, a[0], a[1])
    return x


@model('core::mem::take')
def mem_take(m, st, th, fn, a, dest, target):
    t = fn['args'][0]
    h = m.head(t)
    x = m.load(st, a[0])
    z = {'Vec': ('seq', ()), 'String': ('str', ('lit', b''), 0, 0), 'Option': NONE, 'bool': False,
         'HashMap': ('map', ())}.get(h)
    if m.ty(t)['k'] == 'int':
        z = 0
    if z is None:
        return NotImplemented
    m.store(st, a[0], z)
    return x


@model('Box.Drop::drop', 'Rc.Drop::drop', 'Arc.Drop::drop', 'Vec.Drop::drop', 'core::mem::drop', 'core::mem::forget', 'core::intrinsics::assume', 'core::hint::black_box',
       'core::intrinsics::assert_inhabited', 'core::hint::assert_unchecked')
def nothing(m, st, th, fn, a, dest, target):
    return UNIT


@model('core::intrinsics::cold_path')
def cold(m, st, th, fn, a, dest, target):
    return UNIT


@model('core::intrinsics::likely', 'core::intrinsics::unlikely', 'core::intrinsics::black_box')
def likely(m, st, th, fn, a, dest, target):
    return a[0]


@model('core::intrinsics::compare_bytes')
def cmpb(m, st, th, fn, a, dest, target):
    raise Unsupported('compare_bytes')


@model('core::intrinsics::discriminant_value')
def discv(m, st, th, fn, a, dest, target):
    v = m.load(st, a[0])
    return v[1]


# ---------------------------------------------------------------- boxes
@model('Box::new', 'Rc::new', 'Arc::new', 'alloc::boxed::box_new', 'Box.From::from')
def box_new(m, st, th, fn, a, dest, target):
    return st.alloc(a[0])


@model('Box::new_uninit')
def box_new_uninit(m, st, th, fn, a, dest, target):
    return st.alloc(('A', 0, (UNIT, ('A', 0, (UNDEF,)))))


@model('Box::pin')
def box_pin(m, st, th, fn, a, dest, target):
    return tup(st.alloc(a[0]))


@model('Box.Deref::deref', 'Box.DerefMut::deref_mut', 'Box.AsRef::as_ref', 'Box.Borrow::borrow', 'Rc.Deref::deref',
       'Arc.Deref::deref', 'Rc.AsRef::as_ref', 'Arc.AsRef::as_ref', 'Box.AsMut::as_mut')
def box_deref(m, st, th, fn, a, dest, target):
    return m.load(st, a[0])


@model('Rc.Clone::clone', 'Arc.Clone::clone')
def rc_clone(m, st, th, fn, a, dest, target):
    return m.load(st, a[0])


@model('Box::into_raw', 'Box::leak', 'Box::from_raw', 'Box::into_inner_ptr', 'Rc::as_ptr', 'Arc::as_ptr')
def ident(m, st, th, fn, a, dest, target):
    v = a[0]
    if fn['path'].endswith('as_ptr'):
        v = m.load(st, v)
    return v


@model('Rc::ptr_eq', 'Arc::ptr_eq')
def rc_ptr_eq(m, st, th, fn, a, dest, target):
    return m.load(st, a[0]) == m.load(st, a[1])


@model('core::ptr::eq', 'core::ptr::addr_eq')
def ptr_eq(m, st, th, fn, a, dest, target):
    return a[0] == a[1]


@model('Pin.Deref::deref')
def pin_deref(m, st, th, fn, a, dest, target):
    v = m.load(st, a[0])
    while v[0] == 'A':
        v = v[2][0]
    return v


@model('Pin::new', 'Pin::new_unchecked', 'Pin::into_inner', 'Pin::get_ref')
def pin_new(m, st, th, fn, a, dest, target):
    if fn['path'].split('::')[-1] in ('new', 'new_unchecked'):
        return tup(a[0])
    return a[0][2][0]


@model('*.Clone::clone')
def clone_any(m, st, th, fn, a, dest, target):
    h = m.head(fn['self'])
    if h in ('Vec', 'String', 'Box', 'HashMap', 'BTreeMap', 'HashSet') or m.ty(fn['self'])['k'] in ('int', 'bool', 'char', 'ref', 'tuple'):
        if h == 'Box' or m.ty(fn['self'])['k'] == 'tuple' and fn.get('body'):
            return NotImplemented
        return m.load(st, a[0])
    return NotImplemented


# ---------------------------------------------------------------- Vec and slices
def vget(m, st, p):
    v = m.load(st, p)
    if v[0] != 'seq':
        raise Unsupported('not a list: ' + repr(v)[:80])
    return v[1]


def vput(m, st, p, items):
    m.store(st, p, ('seq', tidy(st, items)))


@model('Vec::new', 'Vec::with_capacity', 'Vec.Default::default', 'VecDeque::new', 'VecDeque::with_capacity',
       'VecDeque.Default::default')
def vec_new(m, st, th, fn, a, dest, target):
    return ('seq', ())


@model('Vec::len', 'VecDeque::len')
def vec_len(m, st, th, fn, a, dest, target):
    return norm(st, seq_len(vget(m, st, a[0])))


@model('Vec::is_empty', 'VecDeque::is_empty')
def vec_is_empty(m, st, th, fn, a, dest, target):
    return st.facts.is_eq(seq_len(vget(m, st, a[0])))


@model('Vec::push', 'VecDeque::push_back', 'Vec::push_mut')
def vec_push(m, st, th, fn, a, dest, target):
    vput(m, st, a[0], vget(m, st, a[0]) + (('i', a[1]),))
    return UNIT


@model('Vec::reserve', 'Vec::shrink_to_fit', 'Vec::reserve_exact')
def vec_reserve(m, st, th, fn, a, dest, target):
    return UNIT


@model('Vec::clear', 'VecDeque::clear')
def vec_clear(m, st, th, fn, a, dest, target):
    vput(m, st, a[0], ())
    return UNIT


def pop_items(st, items):
    """-> (items, value) or None"""
    while items:
        x = items[-1]
        if x[0] == 'i':
            return items[:-1], x[1]
        d = norm(st, sub(x[3], x[2]))
        if st.facts.is_eq(d):
            items = items[:-1]
            continue
        hi = norm(st, add(x[3], -1))
        v = vmap(inst(x[1], hi), st.facts.norm)
        return items[:-1] + (('seg', x[1], x[2], hi),), v
    return None


@model('Vec::pop', 'VecDeque::pop_back')
def vec_pop(m, st, th, fn, a, dest, target):
    r = pop_items(st, vget(m, st, a[0]))
    if r is None:
        vput(m, st, a[0], ())
        return NONE
    vput(m, st, a[0], r[0])
    return some(r[1])


@model('Vec::pop_if')
def vec_pop_if(m, st, th, fn, a, dest, target):
    raise Unsupported('pop_if')


def cut(st, items, n):
    """(first n, rest); the rest is renumbered from 0"""
    f = st.facts
    n = f.norm(n)
    out = []
    pos = 0
    items = list(items)
    for i, x in enumerate(items):
        if f.is_eq(sub(n, pos)):
            return tuple(out), shift(items[i:], mul(n, -1))
        ln = 1 if x[0] == 'i' else sub(x[3], x[2])
        if x[0] == 'seg' and not f.is_ge(sub(n, add(pos, ln))):
            a = ('seg', x[1], x[2], n)
            b = ('seg', x[1], n, x[3])
            return tuple(out) + (a,), shift((b,) + tuple(items[i + 1:]), mul(n, -1))
        out.append(x)
        pos = f.norm(add(pos, ln))
    if f.is_eq(sub(n, pos)):
        return tuple(out), ()
    return None


@model('Vec::truncate', 'VecDeque::truncate')
def vec_truncate(m, st, th, fn, a, dest, target):
    items = vget(m, st, a[0])
    if st.facts.is_ge(sub(a[1], seq_len(items))):
        return UNIT
    vput(m, st, a[0], cut(st, items, a[1])[0])
    return UNIT


@model('Vec::remove', 'Vec::swap_remove')
def vec_remove(m, st, th, fn, a, dest, target):
    if fn['path'].endswith('swap_remove'):
        raise Unsupported('swap_remove')
    items = vget(m, st, a[0])
    if not st.facts.is_ge(add(sub(seq_len(items), a[1]), -1)):
        m.panic(st, th, st.thr[th][-1], 'remove() out of range')
    items = expose(st, items, a[1])
    i, _ = st.locate(items, a[1])
    v = items[i][1]
    vput(m, st, a[0], items[:i] + shift(items[i + 1:], -1))
    return v


@model('slice::rotate_left', 'slice::rotate_right', 'VecDeque::rotate_left', 'VecDeque::rotate_right')
def sl_rotate(m, st, th, fn, a, dest, target):
    p = a[0]
    n = None
    if p[0] == 'SL':
        v, n = st.get(p[1], p[2]), sub(p[4], p[3])
        if p[3] != 0 or norm(st, sub(n, seq_len(v[1]))) != 0:
            raise Unsupported('rotate part of a slice')
        p = ('R', p[1], p[2])
    items = vget(m, st, p)
    n = seq_len(items)
    if not st.facts.is_ge(sub(n, a[1])):
        m.panic(st, th, st.thr[th][-1], 'rotate out of range')
    k = a[1] if 'left' in fn['path'].split('::')[-1] else sub(n, a[1])
    x, y = cut(st, items, k)
    vput(m, st, p, y + shift(x, sub(n, k)))
    return UNIT


@model('Vec::split_off', 'VecDeque::split_off')
def vec_split_off(m, st, th, fn, a, dest, target):
    r = cut(st, vget(m, st, a[0]), a[1])
    if r is None:
        m.panic(st, th, st.thr[th][-1], 'split_off() out of range')
    vput(m, st, a[0], r[0])
    return ('seq', r[1])


@model('Vec::append', 'VecDeque::append')
def vec_append(m, st, th, fn, a, dest, target):
    x, y = vget(m, st, a[0]), vget(m, st, a[1])
    vput(m, st, a[0], x + shift(y, seq_len(x)))
    vput(m, st, a[1], ())
    return UNIT


@model('VecDeque.From::from', 'Vec.From::from')
def vec_from(m, st, th, fn, a, dest, target):
    return a[0] if type(a[0]) is tuple and a[0][0] == 'seq' else NotImplemented


@model('VecDeque::pop_front')
def vd_pop_front(m, st, th, fn, a, dest, target):
    items = vget(m, st, a[0])
    if st.facts.is_eq(seq_len(items)):
        return NONE
    items = expose(st, items, 0)
    i, _ = st.locate(items, 0)
    v = items[i][1]
    vput(m, st, a[0], shift(items[i + 1:], -1))
    return some(v)


@model('Vec::insert', 'VecDeque::push_front')
def vec_insert(m, st, th, fn, a, dest, target):
    items = vget(m, st, a[0])
    if fn['path'].endswith('push_front'):
        vput(m, st, a[0], (('i', a[1]),) + shift(items, 1))
        return UNIT
    r = cut(st, items, a[1])
    if r is None:
        m.panic(st, th, st.thr[th][-1], 'insert() out of range')
    x, y = r
    k = add(a[1], 1)
    vput(m, st, a[0], x + (('i', a[2]),) + shift(y, k))
    return UNIT


@model('Vec.Deref::deref', 'Vec.DerefMut::deref_mut', 'Vec::as_slice', 'Vec::as_mut_slice', 'Vec.AsRef::as_ref',
       'Vec.Borrow::borrow', 'VecDeque::make_contiguous')
def vec_deref(m, st, th, fn, a, dest, target):
    p = a[0]
    return ('SL', p[1], p[2], 0, norm(st, seq_len(vget(m, st, p))))


@model('Vec::into_boxed_slice', 'slice::into_vec')
def vec_boxed(m, st, th, fn, a, dest, target):
    if a[0][0] == 'seq':
        p = st.alloc(a[0])
        return ('SL', p[1], (), 0, norm(st, seq_len(a[0][1])))
    if a[0][0] == 'SL':
        v = st.get(a[0][1], a[0][2])
        if v[0] == 'seq' and a[0][3] == 0:
            return v
    if a[0][0] == 'R':
        return m.load(st, a[0])
    raise Unsupported('boxed slice')


@model('slice::into_vec', 'alloc::slice::hack::into_vec')
def into_vec(m, st, th, fn, a, dest, target):
    return vec_boxed(m, st, th, fn, a, dest, target)


@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def bai(m, st, th, fn, a, dest, target):
    v = deref(m, st, a[0])
    while v[0] == 'A' and v[2]:
        v = v[2][-1]
    if v[0] != 'seq':
        raise Unsupported('vec! of ' + repr(v)[:80])
    return v


def slice_of(m, st, p):
    if p[0] == 'SL':
        return p
    if p[0] == 'R':
        v = st.get(p[1], p[2])
        if v[0] == 'seq':
            return ('SL', p[1], p[2], 0, norm(st, seq_len(v[1])))
        return slice_of(m, st, v)
    if p[0] == 'A' and p[2]:
        return slice_of(m, st, p[2][0])
    raise Unsupported('not a slice: ' + repr(p)[:60])


def bytes_of(m, st, p):
    while type(p) is tuple and p[0] == 'R':
        p = st.get(p[1], p[2])
    return p if type(p) is tuple and p and p[0] == 'SB' else None


def part_of_bytes(m, st, b, x, y):
    f = st.facts
    n = norm(st, sub(b[3], b[2]))
    if not (f.is_ge(sub(y, x)) and f.is_ge(sub(n, y))):
        return None
    lo, hi = norm(st, add(b[2], x)), norm(st, add(b[2], y))
    for q in (lo, hi):
        if b[1] == 'T' and not f.is_boundary(b[1], q):
            raise Unsupported('part of a character')
    return ('SB', b[1], lo, hi)


def el(st, s, n):
    return ('R', s[1], s[2] + (('ix', norm(st, add(s[3], n))),))


@model('slice::len')
def sl_len(m, st, th, fn, a, dest, target):
    return m.length(st, a[0])


@model('slice::is_empty')
def sl_is_empty(m, st, th, fn, a, dest, target):
    return st.facts.is_eq(m.length(st, a[0]))


def settle(m, st, s, n):
    """Make element n of s an item of its own, in place, so that it can be referred to."""
    v = st.get(s[1], s[2])
    if v[0] == 'seq':
        n = add(s[3], n)
        items = expose(st, v[1], n)
        if items != v[1]:
            st.put(s[1], s[2], ('seq', items))
    return


def byte_in(m, st, s, i):
    """s.get(i) of the bytes of a text"""
    f = st.facts
    s = (s[0],) + tuple(norm(st, x) if j else x for j, x in enumerate(s[1:]))
    if not f.is_ge(i) or not f.is_ge(add(sub(sub(s[3], s[2]), i), -1)):
        return NONE
    plain(s)
    q = norm(st, add(s[2], i))
    if s[1] == 'T':
        last_of_char(st, s[1], q)
    return some(st.alloc(byte_at(st, s[1], q) if s[1] != 'T' else f.ch(s[1], q)))


@model('slice::last', 'slice::last_mut', 'VecDeque::back', 'VecDeque::back_mut')
def sl_last(m, st, th, fn, a, dest, target):
    if a[0][0] == 'SB':
        return byte_in(m, st, a[0], add(sub(a[0][3], a[0][2]), -1))
    s = slice_of(m, st, a[0])
    n = norm(st, sub(s[4], s[3]))
    if st.facts.is_eq(n):
        return NONE
    settle(m, st, s, add(n, -1))
    return some(el(st, s, add(n, -1)))


@model('slice::first', 'slice::first_mut', 'VecDeque::front', 'VecDeque::front_mut')
def sl_first(m, st, th, fn, a, dest, target):
    if a[0][0] == 'SB':
        return byte_in(m, st, a[0], 0)
    s = slice_of(m, st, a[0])
    n = norm(st, sub(s[4], s[3]))
    if st.facts.is_eq(n):
        return NONE
    settle(m, st, s, 0)
    return some(el(st, s, 0))


@model('slice::split_last', 'slice::split_first', 'slice::split_last_mut', 'slice::split_first_mut')
def sl_split_last(m, st, th, fn, a, dest, target):
    s = slice_of(m, st, a[0])
    n = norm(st, sub(s[4], s[3]))
    if st.facts.is_eq(n):
        return NONE
    if 'last' in fn['path'].split('::')[-1]:
        settle(m, st, s, add(n, -1))
        return some(tup(el(st, s, add(n, -1)), ('SL', s[1], s[2], s[3], add(s[4], -1))))
    settle(m, st, s, 0)
    return some(tup(el(st, s, 0), ('SL', s[1], s[2], add(s[3], 1), s[4])))


def rng(m, st, s, t, r, length):
    """(start, end) of a range value of type t"""
    h = m.head(t)
    if h == 'Range':
        return r[2][0], r[2][1]
    if h == 'RangeFrom':
        return r[2][0], length
    if h == 'RangeTo':
        return 0, r[2][0]
    if h == 'RangeFull':
        return 0, length
    if h == 'RangeInclusive':
        return r[2][0], add(r[2][1], 1)
    if h == 'RangeToInclusive':
        return 0, add(r[2][0], 1)
    raise Unsupported('range ' + h)


@model('slice::get', 'slice::get_mut', 'Vec::get', 'Vec::get_mut', 'VecDeque::get', 'VecDeque::get_mut')
def sl_get(m, st, th, fn, a, dest, target):
    if a[0][0] == 'SB' and isnum(a[1]):
        return byte_in(m, st, a[0], a[1])
    s = slice_of(m, st, a[0])
    n = norm(st, sub(s[4], s[3]))
    if not isnum(a[1]):
        x, y = rng(m, st, s, fn['args'][-1], a[1], n)
        if not (st.facts.is_ge(sub(y, x)) and st.facts.is_ge(sub(n, y))):
            return NONE
        return some(('SL', s[1], s[2], add(s[3], x), add(s[3], y)))
    if not st.facts.is_ge(add(sub(n, a[1]), -1)) or not st.facts.is_ge(a[1]):
        return NONE
    settle(m, st, s, a[1])
    return some(el(st, s, a[1]))


@model('slice::get_unchecked', 'slice::get_unchecked_mut')
def sl_getu(m, st, th, fn, a, dest, target):
    s = slice_of(m, st, a[0])
    if not isnum(a[1]):
        raise Unsupported('get_unchecked range')
    settle(m, st, s, a[1])
    return el(st, s, a[1])


@model('Vec.Index::index', 'Vec.IndexMut::index_mut', 'slice.Index::index', 'slice.IndexMut::index_mut',
       'VecDeque.Index::index', 'array.Index::index', 'array.IndexMut::index_mut', 'VecDeque.IndexMut::index_mut')
def vec_index(m, st, th, fn, a, dest, target):
    b = None if isnum(a[1]) else bytes_of(m, st, a[0])
    if b is not None:
        t = [x for x in fn['args'] if 'Range' in m.head(x)]
        r = part_of_bytes(m, st, b, *rng(m, st, None, t[0], a[1], norm(st, sub(b[3], b[2]))))
        if r is None:
            m.panic(st, th, st.thr[th][-1], 'slice index out of range')
        return r
    s = slice_of(m, st, a[0])
    n = norm(st, sub(s[4], s[3]))
    if isnum(a[1]):
        if not st.facts.is_ge(add(sub(n, a[1]), -1)) or not st.facts.is_ge(a[1]):
            m.panic(st, th, st.thr[th][-1], 'index out of bounds')
        settle(m, st, s, a[1])
        return el(st, s, a[1])
    t = [x for x in fn['args'] if 'Range' in m.head(x)]
    x, y = rng(m, st, s, t[0], a[1], n)
    if not (st.facts.is_ge(sub(y, x)) and st.facts.is_ge(sub(n, y))):
        m.panic(st, th, st.thr[th][-1], 'slice index out of range')
    return ('SL', s[1], s[2], norm(st, add(s[3], x)), norm(st, add(s[3], y)))


@model('slice::swap')
def sl_swap(m, st, th, fn, a, dest, target):
    s = slice_of(m, st, a[0])
    n = norm(st, sub(s[4], s[3]))
    for i in a[1:3]:
        if not st.facts.is_ge(add(sub(n, i), -1)) or not st.facts.is_ge(i):
            m.panic(st, th, st.thr[th][-1], 'index out of bounds')
        settle(m, st, s, i)
    if st.facts.is_eq(sub(a[1], a[2])):
        return UNIT
    p, q = el(st, s, a[1]), el(st, s, a[2])
    x, y = m.load(st, p), m.load(st, q)
    m.store(st, p, y)
    m.store(st, q, x)
    return UNIT


@model('slice::reverse')
def sl_reverse(m, st, th, fn, a, dest, target):
    s = slice_of(m, st, a[0])
    v = st.get(s[1], s[2])
    if v[0] != 'seq':
        raise Unsupported('reverse')
    head, mid, tail = (), v[1], ()
    n = norm(st, sub(s[4], s[3]))
    if norm(st, sub(s[4], seq_len(mid))) != 0:
        c = cut(st, mid, s[4])
        if c is None:
            raise Unsupported('reverse')
        mid, tail = c
    if s[3] != 0:
        c = cut(st, mid, s[3])
        if c is None:
            raise Unsupported('reverse')
        head, mid = c
    out = []
    for x in mid:
        if x[0] == 'i':
            out.append(x)
        else:
            t = inst(x[1], sub(add(n, -1), atom(HASH)))
            out.append(('seg', t, norm(st, sub(n, x[3])), norm(st, sub(n, x[2]))))
    st.put(s[1], s[2], ('seq', tidy(st, head + shift(tuple(out[::-1]), s[3]) + shift(tail, s[4]))))
    return UNIT


# slice iterators: ('it', slice ptr, lo, hi)
@model('slice::iter', 'slice::iter_mut', 'Vec::iter', 'VecDeque::iter', 'slice.IntoIterator::into_iter',
       '&slice.IntoIterator::into_iter', '&Vec.IntoIterator::into_iter', '&VecDeque.IntoIterator::into_iter')
def sl_iter(m, st, th, fn, a, dest, target):
    b = bytes_of(m, st, a[0])
    if b is not None:
        return ('bytes&', ('S',) + b[1:], b[2], b[3])
    s = slice_of(m, st, a[0])
    return ('it', ('SL', s[1], s[2], 0, 0), s[3], s[4])


@model('Vec.IntoIterator::into_iter', 'VecDeque.IntoIterator::into_iter')
def vec_into_iter(m, st, th, fn, a, dest, target):
    v = a[0]
    if v[0] == 'seq':
        p = st.alloc(v)
        return ('ito', ('SL', p[1], (), 0, 0), 0, norm(st, seq_len(v[1])))
    return NotImplemented


@model('Vec::drain')
def vec_drain(m, st, th, fn, a, dest, target):
    t = [x for x in fn['args'] if 'Range' in m.head(x)]
    items = vget(m, st, a[0])
    n = norm(st, seq_len(items))
    x, y = rng(m, st, None, t[0], a[1], n)
    if not (st.facts.is_ge(sub(y, x)) and st.facts.is_ge(sub(n, y))):
        m.panic(st, th, st.thr[th][-1], 'drain range out of range')
    pre, rest = cut(st, items, x)
    mid, post = cut(st, rest, sub(y, x))
    vput(m, st, a[0], pre + shift(post, x))
    p = st.alloc(('seq', mid))
    return ('ito', ('SL', p[1], (), 0, 0), 0, norm(st, sub(y, x)))


def it_next(m, st, p, back):
    v = m.load(st, p)
    if v[0] == 'bytes&':
        r = (bytes_next_back if back else bytes_next)(m, st, 0, None, [p], None, None)
        return r if r == NONE else some(st.alloc(r[2][0]))
    if v[0] not in ('it', 'ito'):
        return NotImplemented
    k, s, lo, hi = v
    if st.facts.is_eq(sub(hi, lo)):
        return NONE
    n = norm(st, add(hi, -1)) if back else lo
    settle(m, st, s, n)
    r = el(st, s, n)
    m.store(st, p, (k, s, lo, n) if back else (k, s, norm(st, add(lo, 1)), hi))
    return some(m.load(st, r) if k == 'ito' else r)


@model('Iter.Iterator::next', 'IterMut.Iterator::next', 'IntoIter.Iterator::next', 'Drain.Iterator::next')
def iter_next(m, st, th, fn, a, dest, target):
    return it_next(m, st, a[0], False)


@model('Iter.DoubleEndedIterator::next_back', 'IterMut.DoubleEndedIterator::next_back', 'IntoIter.DoubleEndedIterator::next_back')
def iter_next_back(m, st, th, fn, a, dest, target):
    return it_next(m, st, a[0], True)


@model('Iter.ExactSizeIterator::len', 'IntoIter.ExactSizeIterator::len')
def iter_len(m, st, th, fn, a, dest, target):
    v = m.load(st, a[0])
    return norm(st, sub(v[3], v[2]))


@model('Iter.Iterator::size_hint', 'IntoIter.Iterator::size_hint', 'Map.Iterator::size_hint')
def iter_size_hint(m, st, th, fn, a, dest, target):
    v = m.load(st, a[0])
    while v[0] == 'A' and v[2]:
        v = v[2][0]
    n = norm(st, sub(v[3], v[2]))
    return tup(n, some(n))


@model('Iter.Clone::clone')
def iter_clone(m, st, th, fn, a, dest, target):
    return m.load(st, a[0])


# ---------------------------------------------------------------- text
def text_of(m, st, p):
    """('S', text, lo, hi) behind a reference to a str, String, &str, …"""
    while True:
        if p[0] == 'S':
            return p
        if p[0] in ('str', 'SB'):
            return ('S', p[1], p[2], p[3])
        if p[0] == 'R':
            p = st.get(p[1], p[2])
            continue
        if p[0] == 'unsized':
            p = p[1]
            continue
        raise Unsupported('not text: ' + repr(p)[:80])


def is_lit(s):
    return s[1][0] == 'lit' and s[1] != 'T' and type(s[2]) is int and type(s[3]) is int


def lit_bytes(s):
    return s[1][1][s[2]:s[3]]


def pat_bytes(m, st, p):
    if type(p) is int:
        return chr(p).encode()
    if type(p) is tuple and p[0] in ('S', 'R', 'str'):
        s = text_of(m, st, p)
        if is_lit(s):
            return lit_bytes(s)
    if type(p) is tuple and p[0] == 'seq' and len(p[1]) == 1:
        return pat_bytes(m, st, p[1][0][1])
    return None


def lits(b):
    return ('S', ('lit', bytes(b)), 0, len(b))


def units(b):
    """(offset, character number, width) of each character of b"""
    out = []
    i = 0
    try:
        for c in b.decode():
            w = len(c.encode())
            out.append((i, ord(c), w))
            i += w
    except UnicodeDecodeError:
        raise Unsupported('pattern is not UTF-8')
    return out


def last_of_char(st, t, p):
    """If p is known to be the last byte of a character: settle whether it is all of it."""
    f = st.facts
    if f.entails(sub(127, f.ch(t, p))) or f.entails(add(f.ch(t, p), -128)):
        return
    for a in set(x for x in list(f.sub) + [y for g in f.ge for y, _ in g[2]] if x[0] == 'w' and x[1] == t):
        if a[2] != p and f.norm(sub(add(a[2], atom(a)), add(p, 1))) == 0:
            if f.is_eq(sub(atom(a), 1)):
                if not f.add_eq(sub(a[2], p)) or not f.add_eq(sub(f.ch(t, p), f.ch(t, a[2]))):
                    raise Stop()
            elif not f.add_ge(add(f.ch(t, p), -128)):
                raise Stop()
            return


def plain(s):
    if s[1] != 'T' and s[1][0] in ('cat', 'fmt', 'char', 'dec', 'disp'):
        raise Unsupported('looking into a text put together')


def occurs_at(st, s, p, b):
    """Does b occur in text s (within its bounds) at absolute p?"""
    f = st.facts
    if len(b) == 0:
        return True
    if not f.is_ge(sub(s[3], add(p, len(b)))):
        return False
    if is_cat(s):
        return same_pieces(None, st, flat(st, ('S', s[1], norm(st, p), norm(st, add(p, len(b))))), [lits(b)])
    if s[1] != 'T' and s[1][0] == 'lit':
        return all(byte_at(st, s[1], add(p, i)) == c for i, c in enumerate(b))
    us = units(b)
    for i, c, w in us:
        if f.eq_known(sub(f.ch(s[1], add(p, i)), c)) is False:
            return False
    last_of_char(st, s[1], norm(st, p))
    for i, c, w in us:
        q = norm(st, add(p, i))
        if w > 1 and not boundary(st, s, q):
            return False
        if not f.is_eq(sub(f.ch(s[1], q), c)):
            return False
    return True


@model('str::len', 'String::len')
def str_len(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    return norm(st, sub(s[3], s[2]))


@model('str::is_empty', 'String::is_empty')
def str_is_empty(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    return st.facts.is_eq(sub(s[3], s[2]))


def boundary(st, s, p):
    """Is absolute p a boundary of s (p within its bounds)?"""
    if norm(st, sub(p, s[2])) == 0 or norm(st, sub(p, s[3])) == 0:
        return True
    if is_cat(s):
        fs = flat(st, ('S', s[1], norm(st, p), s[3]))
        return not fs or boundary(st, ('S', fs[0][1], 0, atom(('n', fs[0][1])) if fs[0][1] == 'T' else fs[0][3]), fs[0][2])
    if s[1] != 'T' and s[1][0] == 'lit':
        p = norm(st, p)
        if type(p) is int:
            b = s[1][1]
            return p >= len(b) or (b[p] & 0xC0) != 0x80
    return st.facts.is_boundary(s[1], p)


@model('str::is_char_boundary', 'String::is_char_boundary')
def str_icb(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    if not st.facts.is_ge(sub(sub(s[3], s[2]), a[1])):
        return False
    return boundary(st, s, add(s[2], a[1]))


def subtext(m, st, s, x, y):
    """s[x..y] or None if out of range"""
    f = st.facts
    if type(x) is tuple and x[0] == 'wrapped' or type(y) is tuple and y[0] == 'wrapped':
        return None
    n = norm(st, sub(s[3], s[2]))
    if not (f.is_ge(x) and f.is_ge(sub(y, x)) and f.is_ge(sub(n, y))):
        return None
    lo, hi = norm(st, add(s[2], x)), norm(st, add(s[2], y))
    if not boundary(st, s, lo) or not boundary(st, s, hi):
        return None
    return ('S', s[1], lo, hi)


@model('str.Index::index', 'String.Index::index')
def str_index(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    t = fn['args'][0]
    x, y = rng(m, st, s, t, a[1], sub(s[3], s[2]))
    r = subtext(m, st, s, x, y)
    if r is None:
        m.panic(st, th, st.thr[th][-1], 'string slice out of range or not on a char boundary')
    return r


@model('str::get')
def str_get(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    x, y = rng(m, st, s, fn['args'][0], a[1], sub(s[3], s[2]))
    r = subtext(m, st, s, x, y)
    return NONE if r is None else some(r)


@model('str::get_unchecked')
def str_getu(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    x, y = rng(m, st, s, fn['args'][0], a[1], sub(s[3], s[2]))
    r = subtext(m, st, s, x, y)
    if r is None:
        raise Unsupported('get_unchecked out of range')
    return r


@model('str::split_at', 'str::split_at_checked')
def str_split_at(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    n = sub(s[3], s[2])
    x = subtext(m, st, s, 0, a[1])
    chk = fn['path'].endswith('checked')
    if x is None:
        if chk:
            return NONE
        m.panic(st, th, st.thr[th][-1], 'split_at() out of range')
    y = ('S', s[1], x[3], s[3])
    return some(tup(x, y)) if chk else tup(x, y)


CHARFNS = {}


def match_char(m, st, th, p, c):
    """Does the one-character pattern p accept character number c? p: char, array or slice of chars."""
    if isnum(p):
        return st.facts.is_eq(sub(c, p))
    if type(p) is tuple and p[0] == 'seq':
        return any(match_char(m, st, th, x[1], c) for x in p[1] if x[0] == 'i')
    if type(p) is tuple and p[0] == 'R':
        return match_char(m, st, th, st.get(p[1], p[2]), c)
    if type(p) is tuple and p[0] == 'SL':
        v = st.get(p[1], p[2])
        return match_char(m, st, th, ('seq', v[1][p[3]:p[4]]), c)
    raise Unsupported('character pattern ' + repr(p)[:60])


def prefix(m, st, th, s, p):
    """length of the match of pattern p at the start of s, or None"""
    if type(p) is not int:
        try:
            q = text_of(m, st, p)
        except Unsupported:
            q = None
        if q is not None:
            if is_lit(q):
                b = lit_bytes(q)
            elif q[1] == s[1] and norm(st, sub(q[2], s[2])) == 0 and st.facts.is_ge(sub(s[3], q[3])):
                return norm(st, sub(q[3], q[2]))
            else:
                raise Unsupported('starts_with an unknown text')
            return len(b) if occurs_at(st, s, s[2], b) else None
        f = st.facts
        if not f.is_ge(add(sub(s[3], s[2]), -1)):
            return None
        c = f.ch(s[1], s[2])
        if match_char(m, st, th, p, c):
            return char_width(st, s, s[2])
        return None
    b = chr(p).encode()
    return char_at_is(st, s, p)


def char_at_is(st, s, p):
    """width if the first char of s is p, else None"""
    f = st.facts
    if s[1] != 'T' and s[1][0] == 'lit':
        b = chr(p).encode()
        return len(b) if occurs_at(st, s, s[2], b) else None
    if not f.is_ge(add(sub(s[3], s[2]), -1)):
        return None
    if p < 128:
        return 1 if f.is_eq(sub(f.ch(s[1], s[2]), p)) else None
    return char_width(st, s, s[2]) if f.is_eq(sub(f.ch(s[1], s[2]), p)) else None


def char_width(st, s, p):
    f = st.facts
    if s[1] != 'T' and s[1][0] == 'lit':
        return len(lit_char(st, s, p)[1])
    c = f.ch(s[1], p)
    if type(c) is int:
        w = len(chr(c).encode()) if c < 0x110000 else 1
        if w > 1 and not f.add_ge(sub(sub(s[3], p), w)):
            raise Stop()
        return w
    if f.entails(sub(127, c)):
        return 1
    w = f.norm(atom(('w', s[1], f.norm(p))))
    f.add_ge(sub(sub(s[3], p), w))
    return w


def lit_char(st, s, p):
    p = norm(st, p)
    if type(p) is not int:
        raise Unsupported('character of literal at unknown position')
    b = s[1][1]
    q = p + 1
    while q < len(b) and (b[q] & 0xC0) == 0x80:
        q += 1
    return ord(b[p:q].decode()), b[p:q]


@model('str::starts_with')
def str_starts_with(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    h = m.ty(fn['args'][0])['k']
    if h in ('closure', 'fndef', 'fnptr'):
        return NotImplemented
    return prefix(m, st, th, s, a[1]) is not None


@model('str::strip_prefix')
def str_strip_prefix(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    if m.ty(fn['args'][0])['k'] in ('closure', 'fndef', 'fnptr'):
        return NotImplemented
    w = prefix(m, st, th, s, a[1])
    return NONE if w is None else some(('S', s[1], norm(st, add(s[2], w)), s[3]))


def ends_with(m, st, s, p):
    b = pat_bytes(m, st, p)
    if b is None:
        raise Unsupported('ends_with pattern ' + repr(p)[:60])
    if not st.facts.is_ge(add(sub(s[3], s[2]), -len(b))):
        return None
    return len(b) if occurs_at(st, s, norm(st, add(s[3], -len(b))), b) else None


@model('str::ends_with')
def str_ends_with(m, st, th, fn, a, dest, target):
    return ends_with(m, st, text_of(m, st, a[0]), a[1]) is not None


@model('str::strip_suffix')
def str_strip_suffix(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    n = ends_with(m, st, s, a[1])
    return NONE if n is None else some(('S', s[1], s[2], norm(st, add(s[3], -n))))


@model('slice::starts_with', 'slice::ends_with')
def sl_starts_with(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    b = pat_bytes(m, st, a[1]) if a[1][0] != 'SL' else bytes(x[1] for x in st.get(a[1][1], a[1][2])[1])
    if b is None and a[1][0] == 'R':
        v = deref(m, st, a[1])
        b = bytes(x[1] for x in v[1])
    if fn['path'].endswith('starts_with'):
        return occurs_at(st, s, s[2], b)
    if not st.facts.is_ge(add(sub(s[3], s[2]), -len(b))):
        return False
    return occurs_at(st, s, norm(st, add(s[3], -len(b))), b)


def seek(m, st, s, b):
    """The first occurrence of b in s: absolute position, or None."""
    f = st.facts
    plain(s)
    n = len(b)
    if s[1] != 'T' and s[1][0] == 'lit':
        if not is_lit(s):
            raise Unsupported('find in part of a literal')
        i = lit_bytes(s).find(b)
        return None if i < 0 else s[2] + i
    lo, hi = norm(st, s[2]), norm(st, s[3])
    if n == 0:
        return lo
    last = norm(st, add(sub(hi, lo), -n))      # last possible start, relative
    if not f.is_ge(last):
        return None
    pat = ('lit', bytes(b))
    end = norm(st, add(hi, 1 - n))
    r = known_seek(f, s[1], pat, lo, end, n)
    if r is not None:
        return None if r == 'none' else r
    # open: divide
    text = s[1]

    def no(g):
        g.nost = g.nost + ((text, pat, lo, end),)
        return True

    st.nx += 1
    q = atom(('x', st.nx))
    nx = st.nx

    def yes(g):
        ok = g.add_ge(sub(q, lo)) and g.add_ge(sub(end, add(q, 1)))
        g.nost = g.nost + ((text, pat, lo, q),)
        g.occ = g.occ + ((text, pat, q),)
        g.bnd = g.bnd + ((text, q, True), (text, add(q, n), True))
        for i, c, w in units(b):
            ok = ok and g.add_eq(sub(g.ch(text, add(q, i)), c))
            if w > 1:
                g.bnd = g.bnd + ((text, add(q, i), True),)
        return ok and f_after(g, text, pat, q)
    yes.nx = nx
    raise Split([no, yes], ('find', bytes(b)))


def f_after(g, text, pat, q):
    """A first occurrence at q is not within ranges known to have none."""
    for t, p, lo, hi in g.nost:
        if t == text and p == pat and g.entails(sub(q, lo)) and g.entails(add(sub(hi, q), -1)):
            return False
    return True


def known_seek(f, text, pat, lo, end, n):
    """'none', a position, or None if open"""
    at = lo
    for _ in range(6):
        if f.entails(sub(at, end)):
            return 'none'
        if known_occ(f, text, pat, at):
            return at
        moved = False
        for t, p, a, b in f.nost:
            if t == text and p == pat and f.entails(sub(at, a)):
                if f.entails(sub(b, end)):
                    return 'none'
                if f.entails(sub(b, at)) and f.norm(sub(b, at)) != 0:
                    at = f.norm(b)
                    moved = True
                    break
        if not moved:
            bs = pat[1]
            # not here, for a single position
            if any(f.eq_known(sub(f.ch(text, add(at, i)), c)) is False for i, c in enumerate(bs)):
                at = f.norm(add(at, 1))
                moved = True
        if not moved:
            return None
    return None


def known_occ(f, text, pat, q):
    for t, p, x in f.occ:
        if t == text and p == pat and f.norm(sub(x, q)) == 0:
            return True
    return all(f.norm(sub(f.ch(text, add(q, i)), c)) == 0 for i, c in enumerate(pat[1])) and \
        f.entails(sub(sub(atom(('n', text)), q), len(pat[1])))


@model('str::find')
def str_find(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    b = pat_bytes(m, st, a[1]) if m.ty(fn['args'][0])['k'] not in ('closure', 'fndef', 'fnptr') else None
    if b is None and isnum(a[1]) and is_lit(s):
        for i, c, w in units(lit_bytes(s)):
            if st.facts.is_eq(sub(a[1], c)):
                return some(i)
        return NONE
    if b is None:
        return NotImplemented
    r = seek(m, st, s, b)
    return NONE if r is None else some(norm(st, sub(r, s[2])))


@model('str::contains')
def str_contains(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    b = pat_bytes(m, st, a[1]) if m.ty(fn['args'][0])['k'] not in ('closure', 'fndef', 'fnptr') else None
    if b is None and isnum(a[1]) and is_lit(s):
        return any(st.facts.is_eq(sub(a[1], c)) for i, c, w in units(lit_bytes(s)))
    if b is None:
        return NotImplemented
    return seek(m, st, s, b) is not None


@model('str::split_once')
def str_split_once(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    b = pat_bytes(m, st, a[1])
    if b is None:
        raise Unsupported('split_once')
    r = seek(m, st, s, b)
    if r is None:
        return NONE
    return some(tup(('S', s[1], s[2], r), ('S', s[1], norm(st, add(r, len(b))), s[3])))


@model('str::replace', 'str::replacen')
def str_replace(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    b = pat_bytes(m, st, a[1]) if m.ty(fn['args'][0])['k'] not in ('closure', 'fndef', 'fnptr') else None
    if b is None or len(b) == 0:
        raise Unsupported('replace')
    r = seek(m, st, s, b)
    if r is None:
        return mkstr(s)
    to = text_of(m, st, a[2])
    rest = ('S', s[1], norm(st, add(r, len(b))), s[3])
    if fn['path'].endswith('replacen'):
        raise Unsupported('replacen')
    if seek(m, st, rest, b) is None:
        return cat(st, [('S', s[1], s[2], r), to, rest])
    return cat(st, [('S', s[1], s[2], r), to, whole(('disp', 'replace', rest, ('with', lits(b), to)))])


@model('slice::concat', 'slice::join', 'slice::Join::join', 'slice::Concat::concat', 'slice.Join::join', 'slice.Concat::concat')
def sl_concat(m, st, th, fn, a, dest, target):
    try:
        s = slice_of(m, st, a[0])
        v = m.load(st, ('R', s[1], s[2])) if s[2] or True else None
        if v[0] != 'seq' or any(x[0] != 'i' for x in v[1]) or type(s[3]) is not int or type(s[4]) is not int:
            raise Unsupported('concat')
        ts = [text_of(m, st, x[1]) for x in v[1][s[3]:s[4]]]
        sep = text_of(m, st, a[1]) if len(a) > 1 else None
    except Unsupported:
        raise Unsupported('concat/join')
    out = []
    for i, x in enumerate(ts):
        if i and sep is not None:
            out.append(sep)
        out.append(x)
    return cat(st, out)


def rseek(m, st, s, b):
    f = st.facts
    plain(s)
    n = len(b)
    if s[1] != 'T' and s[1][0] == 'lit':
        i = lit_bytes(s).rfind(b)
        return None if i < 0 else s[2] + i
    lo, hi = norm(st, s[2]), norm(st, s[3])
    if not f.is_ge(norm(st, add(sub(hi, lo), -n))):
        return None
    pat = ('lit', bytes(b))
    end = norm(st, add(hi, 1 - n))
    # known?
    for t, p, q in f.occ:
        if t == s[1] and p == pat and f.entails(sub(q, lo)) and f.entails(sub(end, add(q, 1))):
            for t2, p2, a, c in f.nost:
                if t2 == t and p2 == p and f.entails(sub(add(q, 1), a)) and f.entails(sub(c, end)):
                    return q
            if f.entails(sub(add(q, 1), end)):
                return q
    if known_seek(f, s[1], pat, lo, end, n) == 'none':
        return None
    if known_occ(f, s[1], pat, norm(st, add(end, -1))):
        return norm(st, add(end, -1))
    text = s[1]

    def no(g):
        g.nost = g.nost + ((text, pat, lo, end),)
        return all(not (t == text and p == pat and g.entails(sub(x, lo)) and g.entails(sub(end, add(x, 1))))
                   for t, p, x in g.occ)
    st.nx += 1
    q = atom(('x', st.nx))

    def yes(g):
        ok = g.add_ge(sub(q, lo)) and g.add_ge(sub(end, add(q, 1)))
        g.nost = g.nost + ((text, pat, g.norm(add(q, 1)), end),)
        g.occ = g.occ + ((text, pat, q),)
        g.bnd = g.bnd + ((text, q, True), (text, add(q, n), True))
        for i, c, w in units(b):
            ok = ok and g.add_eq(sub(g.ch(text, add(q, i)), c))
            if w > 1:
                g.bnd = g.bnd + ((text, add(q, i), True),)
        return ok and f_after(g, text, pat, q)
    yes.nx = st.nx
    raise Split([no, yes], ('rfind', bytes(b)))


@model('str::rfind')
def str_rfind(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    b = pat_bytes(m, st, a[1]) if m.ty(fn['args'][0])['k'] not in ('closure', 'fndef', 'fnptr') else None
    if b is None and isnum(a[1]) and is_lit(s):
        for i, c, w in list(units(lit_bytes(s)))[::-1]:
            if st.facts.is_eq(sub(a[1], c)):
                return some(i)
        return NONE
    if b is None:
        raise Unsupported('rfind')
    r = rseek(m, st, s, b)
    return NONE if r is None else some(norm(st, sub(r, s[2])))


@model('str::rsplit_once')
def str_rsplit_once(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    b = pat_bytes(m, st, a[1])
    if b is None:
        raise Unsupported('rsplit_once')
    r = rseek(m, st, s, b)
    if r is None:
        return NONE
    return some(tup(('S', s[1], s[2], r), ('S', s[1], norm(st, add(r, len(b))), s[3])))


def same_text(m, st, a, b):
    f = st.facts
    la, lb = norm(st, sub(a[3], a[2])), norm(st, sub(b[3], b[2]))
    if a[1] == b[1]:
        if norm(st, sub(a[2], b[2])) == 0:
            return f.is_eq(sub(la, lb))
        if is_lit(a) and is_lit(b):
            return lit_bytes(a) == lit_bytes(b)
    if not f.is_eq(sub(la, lb)):
        return False
    if is_lit(a) and is_lit(b):
        return lit_bytes(a) == lit_bytes(b)
    if is_lit(b):
        a, b = b, a
    if is_lit(a):
        return occurs_at(st, b, b[2], lit_bytes(a))
    if f.is_eq(la):
        return True
    if a[1] == b[1] and f.is_eq(sub(a[2], b[2])):
        return True
    if is_cat(a) or is_cat(b):
        return same_pieces(m, st, flat(st, a), flat(st, b))
    if a[1] != 'T' and b[1] != 'T' and a[1][0] == b[1][0] == 'dec' and a[2:] == b[2:] and norm(st, sub(a[3], atom(('n', a[1])))) == 0:
        return f.is_eq(sub(a[1][1], b[1][1]))
    raise Unsupported('comparison of two unknown texts')


def same_pieces(m, st, a, b):
    f = st.facts
    a, b = list(a), list(b)
    while a and b:
        x, y = a[0], b[0]
        if x[1] != 'T' and y[1] != 'T' and x[1][0] == y[1][0] == 'dec':
            if not f.is_eq(sub(x[1][1], y[1][1])):
                return False
            a.pop(0)
            b.pop(0)
            continue
        n, k = norm(st, sub(x[3], x[2])), norm(st, sub(y[3], y[2]))
        if f.is_eq(n):
            a.pop(0)
            continue
        if f.is_eq(k):
            b.pop(0)
            continue
        if not f.is_ge(sub(n, k)):
            a, b = b, a
            x, y = y, x
            n, k = k, n
        # y is not longer
        x0 = ('S', x[1], x[2], norm(st, add(x[2], k)))
        if not same_text(m, st, x0, y):
            return False
        b.pop(0)
        if norm(st, sub(n, k)) == 0:
            a.pop(0)
        else:
            a[0] = ('S', x[1], x0[3], x[3])
    for x in a + b:
        if not f.is_eq(sub(x[3], x[2])):
            return False
    return True


@model('str.PartialEq::eq', '&str.PartialEq::eq', 'String.PartialEq::eq', 'str.PartialEq::ne', 'String.PartialEq::ne',
       '&str.PartialEq::ne', 'str.SpecEqual::eq')
def str_eq(m, st, th, fn, a, dest, target):
    try:
        x, y = text_of(m, st, a[0]), text_of(m, st, a[1])
    except Unsupported:
        return NotImplemented
    return same_text(m, st, x, y) == (not fn['path'].endswith('ne'))


@model('core::str::traits::<impl core::cmp::PartialEq for str>::eq')
def str_eq2(m, st, th, fn, a, dest, target):
    return str_eq(m, st, th, fn, a, dest, target)


def mkstr(s):
    return ('str', s[1], s[2], s[3])


@model('str.ToString::to_string', 'String.From::from', 'str.ToOwned::to_owned', 'String.ToString::to_string',
       'str::to_string', 'str::to_owned', '&str.ToString::to_string', 'String.Clone::clone', '&str.Into::into',
       'String.SpecToString::spec_to_string', 'str.SpecToString::spec_to_string', 'str::into_string',
       'str::into_boxed_str', 'String.FromStr::from_str')
def str_to_string(m, st, th, fn, a, dest, target):
    try:
        s = text_of(m, st, a[0])
    except Unsupported:
        return NotImplemented
    if fn['path'].endswith('from_str'):
        return ok(mkstr(s))
    return mkstr(s)


@model('String.Deref::deref', 'String::as_str', 'String.AsRef::as_ref', 'String.Borrow::borrow', 'str.AsRef::as_ref',
       'String::as_mut_str', 'str::as_str')
def string_deref(m, st, th, fn, a, dest, target):
    return text_of(m, st, a[0])


@model('String::new', 'String::with_capacity', 'String.Default::default')
def string_new(m, st, th, fn, a, dest, target):
    return ('str', ('lit', b''), 0, 0)


@model('str::as_bytes', 'String::as_bytes', 'str::as_ptr')
def as_bytes(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    return ('SB', s[1], s[2], s[3])


@model('String::into_bytes')
def into_bytes(m, st, th, fn, a, dest, target):
    return ('SB', a[0][1], a[0][2], a[0][3])


def text_len(st, t, lo, hi):
    return norm(st, sub(hi, lo))


def cat(st, pieces):
    """A String made of ('S', …) pieces."""
    out = []
    for s in pieces:
        for q in flat(st, s):
            if is_lit(q):
                q = lits(lit_bytes(q))
                if q[3] == 0:
                    continue
                if out and is_lit(out[-1]):
                    out[-1] = lits(lit_bytes(out[-1]) + lit_bytes(q))
                    continue
            elif out and out[-1][1] == q[1] and norm(st, sub(out[-1][3], q[2])) == 0 and not is_lit(q):
                out[-1] = ('S', q[1], out[-1][2], q[3])
                continue
            elif norm(st, sub(q[3], q[2])) == 0:
                continue
            out.append(q)
    if not out:
        return ('str', ('lit', b''), 0, 0)
    if len(out) == 1:
        return mkstr(out[0])
    t = ('cat',) + tuple(out)
    n = 0
    for q in out:
        n = add(n, sub(q[3], q[2]))
    return ('str', t, 0, norm(st, n))


def is_cat(s):
    return s[1] != 'T' and s[1][0] == 'cat'


def flat(st, s):
    """The pieces of a text, none of them put together."""
    if not is_cat(s):
        return [('S', s[1], norm(st, s[2]), norm(st, s[3]))]
    f = st.facts
    lo, hi = norm(st, s[2]), norm(st, s[3])
    pos = 0
    out = []
    for q in s[1][1:]:
        n = sub(q[3], q[2])
        end = norm(st, add(pos, n))
        # [pos, end) of the whole, cut to [lo, hi)
        if f.is_ge(sub(lo, end)):
            pos = end
            continue
        if f.is_ge(sub(pos, hi)):
            break
        a = q[2] if f.is_ge(sub(pos, lo)) else norm(st, add(q[2], sub(lo, pos)))
        b = q[3] if f.is_ge(sub(hi, end)) else norm(st, add(q[2], sub(hi, pos)))
        out += flat(st, ('S', q[1], a, b))
        pos = end
    return out


@model('String::push_str', 'String.AddAssign::add_assign')
def push_str(m, st, th, fn, a, dest, target):
    m.store(st, a[0], cat(st, [text_of(m, st, a[0]), text_of(m, st, a[1])]))
    return UNIT


@model('String::push')
def push_char(m, st, th, fn, a, dest, target):
    if type(a[1]) is not int:
        s = ('S', ('char', a[1]), 0, atom(('n', ('char', a[1]))))
    else:
        s = lits(chr(a[1]).encode())
    m.store(st, a[0], cat(st, [text_of(m, st, a[0]), s]))
    return UNIT


@model('String::pop')
def string_pop(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    if not st.facts.is_ge(norm(st, add(sub(s[3], s[2]), -1))):
        return NONE
    c, w = last_char(st, ('S', s[1], s[2], s[3]))
    m.store(st, a[0], mkstr(('S', s[1], s[2], norm(st, add(s[3], -w)))))
    return some(c)


@model('String::truncate')
def string_truncate(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    n = norm(st, sub(s[3], s[2]))
    if st.facts.is_ge(sub(a[1], n)):
        return UNIT
    r = subtext(m, st, s, 0, a[1])
    if r is None:
        m.panic(st, th, st.thr[th][-1], 'truncate() not at a character boundary')
    m.store(st, a[0], mkstr(r))
    return UNIT


@model('String::clear')
def string_clear(m, st, th, fn, a, dest, target):
    m.store(st, a[0], mkstr(lits(b'')))
    return UNIT


@model('String::insert', 'String::insert_str')
def string_insert(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    n = norm(st, sub(s[3], s[2]))
    x, y = subtext(m, st, s, 0, a[1]), subtext(m, st, s, a[1], n)
    if x is None or y is None:
        m.panic(st, th, st.thr[th][-1], 'insert() not at a character boundary')
    if fn['path'].endswith('insert_str'):
        p = text_of(m, st, a[2])
    elif type(a[2]) is int:
        p = lits(chr(a[2]).encode())
    else:
        p = ('S', ('char', a[2]), 0, atom(('n', ('char', a[2]))))
    m.store(st, a[0], cat(st, [x, p, y]))
    return UNIT


@model('String::remove')
def string_remove(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    n = norm(st, sub(s[3], s[2]))
    x, y = subtext(m, st, s, 0, a[1]), subtext(m, st, s, a[1], n)
    if x is None or y is None or not st.facts.is_ge(add(sub(n, a[1]), -1)):
        m.panic(st, th, st.thr[th][-1], 'remove() out of range')
    c, w = (lit_char(st, y, y[2])[0], len(lit_char(st, y, y[2])[1])) if is_lit(y) else \
        (st.facts.ch(y[1], y[2]), char_width(st, y, y[2]))
    m.store(st, a[0], cat(st, [x, ('S', y[1], norm(st, add(y[2], w)), y[3])]))
    return c


@model('String.Add::add')
def string_add(m, st, th, fn, a, dest, target):
    return cat(st, [text_of(m, st, a[0]), text_of(m, st, a[1])])


@model('char.ToString::to_string', 'String.From<char>::from')
def char_to_string(m, st, th, fn, a, dest, target):
    c = deref(m, st, a[0])
    if type(c) is int:
        return mkstr(lits(chr(c).encode()))
    t = ('char', c)
    return ('str', t, 0, atom(('n', t)))


@model('str::chars')
def str_chars(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    return ('chars', s, s[2], s[3])


@model('str::char_indices')
def str_char_indices(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    return ('charix', s, s[2], s[3])


@model('Chars.Iterator::next', 'CharIndices.Iterator::next')
def chars_next(m, st, th, fn, a, dest, target):
    v = m.load(st, a[0])
    k, s, lo, hi = v
    f = st.facts
    if not f.is_ge(add(sub(hi, lo), -1)):
        return NONE
    if is_lit(s):
        c, b = lit_char(st, s, lo)
        w = len(b)
    else:
        c = f.ch(s[1], lo)
        w = char_width(st, ('S', s[1], lo, hi), lo)
    m.store(st, a[0], (k, s, norm(st, add(lo, w)), hi))
    return some(tup(norm(st, sub(lo, s[2])), c) if k == 'charix' else c)


def last_char(st, s):
    """The last character of a text that is not empty, and its width."""
    f = st.facts
    if is_lit(s):
        c = ord(lit_bytes(s).decode()[-1])
        return c, len(chr(c).encode())
    t, lo, hi = s[1:]
    c = f.ch(t, norm(st, add(hi, -1)))
    if f.is_ge(sub(127, c)):
        return c, 1
    for k in (2, 3, 4):
        q = norm(st, add(hi, -k))
        if f.norm(sub(atom(('w', t, q)), k)) == 0 and (t, q, True) in f.bnd:
            return f.ch(t, q), k

    def way(k):
        q = norm(st, add(hi, -k))

        def g(f):
            if not f.add_ge(sub(q, lo)):
                return False
            f.bnd = f.bnd + ((t, q, True),)
            lo_, hi_ = {2: (128, 0x7FF), 3: (0x800, 0xFFFF), 4: (0x10000, MAXCH)}[k]
            return f.add_eq(sub(atom(('w', t, q)), k)) and f.add_ge(add(f.ch(t, q), -lo_)) and f.add_ge(sub(hi_, f.ch(t, q)))
        return g
    raise Split([way(2), way(3), way(4)], ('last-char', t, hi))


def trim(m, st, s, hit, end):
    """s without the characters at its end (start) that satisfy hit(span); exact for up to two of them."""
    f = st.facts
    t, lo, hi = s[1:]
    for n in range(3):
        if not f.is_ge(add(sub(hi, lo), -1)):
            return ('S', t, lo, hi)
        w = hit(('S', t, lo, hi))
        if w is None:
            return ('S', t, lo, hi)
        if n == 2:
            break
        if end:
            hi = norm(st, add(hi, -w))
        else:
            lo = norm(st, add(lo, w))
    # any number of them
    st.exact = False
    st.nx += 1
    q = atom(('x', st.nx))
    if not (f.add_ge(sub(q, lo)) and f.add_ge(sub(hi, add(q, 1)))):
        raise Stop()
    f.bnd = f.bnd + ((t, q, True),)
    return ('S', t, lo, q) if end else ('S', t, q, hi)


WS = '\t\n\x0b\x0c\r \x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000' + ''.join(map(chr, range(0x2000, 0x200b)))


def trimmer(end, kind):
    def g(m, st, th, fn, a, dest, target):
        s = text_of(m, st, a[0])
        if is_lit(s):
            b = lit_bytes(s).decode()
            if kind == 'ws':
                r = b.strip(WS) if end is None else b.rstrip(WS) if end else b.lstrip(WS)
                i = b.find(r) if r else len(b)
                x = len(b[:i].encode())
                return ('S', s[1], s[2] + x, s[2] + x + len(r.encode()))
        if kind == 'pat' and m.ty(fn['args'][0])['k'] in ('closure', 'fndef', 'fnptr'):
            raise Unsupported('trim with a function')

        def first(s):
            if kind == 'ws':
                c = st.facts.ch(s[1], s[2])
                return char_width(st, s, s[2]) if uni(st.facts, c, 'is_whitespace') else None
            return prefix(m, st, th, s, a[1])

        def last(s):
            if kind != 'ws':
                b = pat_bytes(m, st, a[1])
                if b is not None:
                    return ends_with(m, st, s, a[1])
            c, w = last_char(st, s)
            if kind == 'ws':
                return w if uni(st.facts, c, 'is_whitespace') else None
            return w if match_char(m, st, th, a[1], c) else None
        if end is not True:
            s = trim(m, st, s, first, False)
        if end is not False:
            s = trim(m, st, s, last, True)
        return s
    return g


for k, e in (('trim', None), ('trim_end', True), ('trim_start', False), ('trim_right', True), ('trim_left', False)):
    M['str::' + k] = trimmer(e, 'ws')
for k, e in (('trim_matches', None), ('trim_end_matches', True), ('trim_start_matches', False), ('trim_right_matches', True), ('trim_left_matches', False)):
    M['str::' + k] = trimmer(e, 'pat')


@model('Chars.DoubleEndedIterator::next_back', 'CharIndices.DoubleEndedIterator::next_back')
def chars_next_back(m, st, th, fn, a, dest, target):
    v = m.load(st, a[0])
    k, s, lo, hi = v
    f = st.facts
    if not f.is_ge(add(sub(hi, lo), -1)):
        return NONE
    if is_lit(s):
        b = lit_bytes(('S', s[1], lo, hi)).decode()
        c = ord(b[-1])
        m.store(st, a[0], (k, s, lo, hi - len(chr(c).encode())))
        return some(tup(hi - len(chr(c).encode()) - s[2], c) if k == 'charix' else c)
    c, w = last_char(st, ('S', s[1], lo, hi))
    m.store(st, a[0], (k, s, lo, norm(st, add(hi, -w))))
    return some(tup(norm(st, sub(add(hi, -w), s[2])), c) if k == 'charix' else c)


@model('model::iter_last', 'Chars.Iterator::last', 'CharIndices.Iterator::last', 'Bytes.Iterator::last')
def iter_last(m, st, th, fn, a, dest, target):
    v = a[0]
    if type(v) is tuple and v[0] in ('chars', 'charix', 'bytes'):
        p = st.alloc(v)
        return CHARS_BACK[v[0]](m, st, th, fn, [p], dest, target)
    return NotImplemented


@model('Chars::as_str', 'CharIndices::as_str')
def chars_as_str(m, st, th, fn, a, dest, target):
    k, s, lo, hi = m.load(st, a[0])
    return ('S', s[1], lo, hi)


@model('CharIndices::offset')
def charix_offset(m, st, th, fn, a, dest, target):
    k, s, lo, hi = m.load(st, a[0])
    return norm(st, sub(lo, s[2]))


@model('Chars.Clone::clone', 'CharIndices.Clone::clone', 'Bytes.Clone::clone')
def chars_clone(m, st, th, fn, a, dest, target):
    return m.load(st, a[0])


@model('str::bytes')
def str_bytes(m, st, th, fn, a, dest, target):
    s = text_of(m, st, a[0])
    return ('bytes', s, s[2], s[3])


@model('Bytes.Iterator::next')
def bytes_next(m, st, th, fn, a, dest, target):
    k, s, lo, hi = m.load(st, a[0])
    f = st.facts
    if not f.is_ge(add(sub(hi, lo), -1)):
        return NONE
    c = byte_at(st, s[1], lo) if is_lit(s) else f.ch(s[1], lo)
    m.store(st, a[0], (k, s, norm(st, add(lo, 1)), hi))
    return some(c)


@model('Bytes.DoubleEndedIterator::next_back')
def bytes_next_back(m, st, th, fn, a, dest, target):
    k, s, lo, hi = m.load(st, a[0])
    f = st.facts
    if not f.is_ge(add(sub(hi, lo), -1)):
        return NONE
    q = norm(st, add(hi, -1))
    if not is_lit(s):
        last_of_char(st, s[1], q)
    c = byte_at(st, s[1], q) if is_lit(s) else f.ch(s[1], q)
    m.store(st, a[0], (k, s, lo, q))
    return some(c)


CHARS_BACK = {'chars': chars_next_back, 'charix': chars_next_back, 'bytes': bytes_next_back}


# ---------------------------------------------------------------- characters
@model('char::len_utf8')
def len_utf8(m, st, th, fn, a, dest, target):
    c = deref(m, st, a[0]) if type(a[0]) is tuple and a[0][0] == 'R' else a[0]
    f = st.facts
    if type(c) is int:
        return len(chr(c).encode())
    if f.entails(sub(127, c)):
        return 1
    if type(c) is tuple and c[1] == 0 and len(c[2]) == 1 and c[2][0][1] == 1 and c[2][0][0][0] == 'ch':
        at = c[2][0][0]
        return f.norm(atom(('w', at[1], at[2])))
    raise Unsupported('len_utf8')


def in_range(f, c, lo, hi):
    if not f.is_ge(sub(c, lo)):
        return False
    return f.is_ge(sub(hi, c))


RANGES = {
    'is_ascii_digit': ['09'], 'is_ascii_alphabetic': ['AZ', 'az'], 'is_ascii_uppercase': ['AZ'],
    'is_ascii_lowercase': ['az'], 'is_ascii_alphanumeric': ['09', 'AZ', 'az'], 'is_ascii_hexdigit': ['09', 'AF', 'af'],
    'is_ascii': ['\0\x7f'],
    'is_ascii_whitespace': ['\t\n', '\x0c\r', '  '],
    'is_ascii_punctuation': ['!/', ':@', '[`', '{~'],
    'is_ascii_control': ['\0\x1f', '\x7f\x7f'], 'is_ascii_graphic': ['!~'],
}


def in_ranges(f, c, rs):
    for r in rs:
        if in_range(f, c, ord(r[0]), ord(r[1])):
            return True
    return False


def ascii_pred(name):
    def g(m, st, th, fn, a, dest, target):
        c = deref(m, st, a[0]) if type(a[0]) is tuple and a[0][0] == 'R' else a[0]
        return in_ranges(st.facts, c, RANGES[name])
    return g


for k in RANGES:
    M['char::' + k] = ascii_pred(k)
    M['u8::' + k] = ascii_pred(k)

UNI = {
    'is_alphabetic': (['AZ', 'az'], 'alphabetic'),
    'is_uppercase': (['AZ'], 'uppercase'),
    'is_lowercase': (['az'], 'lowercase'),
    'is_numeric': (['09'], 'numeric'),
    'is_whitespace': (['\t\r', '  '], 'whitespace'),
    'is_control': (['\0\x1f', '\x7f\x7f'], 'control'),
}


def uni(f, c, name):
    c = f.norm(c)
    rs, p = UNI[name]
    if type(c) is int:
        ch = chr(c)
        return {'is_alphabetic': ch.isalpha, 'is_uppercase': ch.isupper, 'is_lowercase': ch.islower,
                'is_numeric': ch.isnumeric, 'is_whitespace': ch.isspace}[name]() if c >= 128 \
            else any(ord(r[0]) <= c <= ord(r[1]) for r in rs)
    if f.is_ge(sub(127, c)):
        return in_ranges(f, c, rs)
    # cased letters are alphabetic; upper and lower case exclude each other (Unicode)
    known = {n: v for n, q, v in f.preds if f.norm(q) == c}
    if p in known:
        return known[p]
    if p == 'alphabetic' and (known.get('uppercase') or known.get('lowercase')):
        pass        # Other_Uppercase (circled letters) are not all alphabetic in the same way: left open
    if p == 'uppercase' and known.get('lowercase') or p == 'lowercase' and known.get('uppercase'):
        return False
    return f.pred(p, c)


def uni_pred(name):
    def g(m, st, th, fn, a, dest, target):
        return uni(st.facts, a[0], name)
    return g


for k in UNI:
    M['char::' + k] = uni_pred(k)


@model('char::is_alphanumeric')
def is_alnum(m, st, th, fn, a, dest, target):
    return uni(st.facts, a[0], 'is_alphabetic') or uni(st.facts, a[0], 'is_numeric')


def digit_value(f, c, radix):
    """the value of c as a digit, or None"""
    if type(c) is int:
        try:
            v = int(chr(c), 36) if c < 128 else 99
        except ValueError:
            return None
        return v if v < radix else None
    if in_range(f, c, 48, 47 + min(radix, 10)):
        return f.norm(add(c, -48))
    if radix > 10:
        if in_range(f, c, 97, 96 + radix - 10):
            return f.norm(add(c, -87))
        if in_range(f, c, 65, 64 + radix - 10):
            return f.norm(add(c, -55))
    return None


@model('char::to_digit', 'core::char::methods::<impl char>::to_digit')
def to_digit(m, st, th, fn, a, dest, target):
    if type(a[1]) is not int:
        raise Unsupported('to_digit')
    v = digit_value(st.facts, a[0], a[1])
    return NONE if v is None else some(v)


@model('char::is_digit')
def is_digit(m, st, th, fn, a, dest, target):
    return digit_value(st.facts, a[0], a[1]) is not None


@model('char::from_digit', 'core::char::from_digit')
def from_digit(m, st, th, fn, a, dest, target):
    if type(a[0]) is int and type(a[1]) is int:
        return some(ord('0123456789abcdefghijklmnopqrstuvwxyz'[a[0]])) if a[0] < a[1] else NONE
    raise Unsupported('from_digit')


@model('char::eq_ignore_ascii_case', 'u8::eq_ignore_ascii_case')
def eqic(m, st, th, fn, a, dest, target):
    x, y = deref(m, st, a[0]), deref(m, st, a[1])
    f = st.facts
    if type(x) is int and type(y) is not int:
        x, y = y, x
    if type(y) is not int:
        raise Unsupported('eq_ignore_ascii_case')
    if f.is_eq(sub(x, y)):
        return True
    o = ord(chr(y).swapcase()) if y < 128 and chr(y).isalpha() else y
    return o != y and f.is_eq(sub(x, o))


@model('char.PartialEq::eq', 'usize.PartialEq::eq', 'u8.PartialEq::eq', 'u32.PartialEq::eq')
def num_eq(m, st, th, fn, a, dest, target):
    x, y = deref(m, st, a[0]), deref(m, st, a[1])
    if isnum(x) and isnum(y):
        return st.facts.is_eq(sub(x, y))
    return NotImplemented


# ---------------------------------------------------------------- numbers
@model('usize::checked_sub', 'u32::checked_sub', 'u64::checked_sub')
def checked_sub(m, st, th, fn, a, dest, target):
    d = sub(a[0], a[1])
    return some(norm(st, d)) if st.facts.is_ge(d) else NONE


@model('usize::checked_add')
def checked_add(m, st, th, fn, a, dest, target):
    return some(norm(st, add(a[0], a[1])))


@model('usize::saturating_sub', 'u32::saturating_sub')
def sat_sub(m, st, th, fn, a, dest, target):
    d = sub(a[0], a[1])
    return norm(st, d) if st.facts.is_ge(d) else 0


@model('usize::saturating_add', 'usize::wrapping_add')
def sat_add(m, st, th, fn, a, dest, target):
    return norm(st, add(a[0], a[1]))


@model('usize::wrapping_sub')
def wr_sub(m, st, th, fn, a, dest, target):
    d = sub(a[0], a[1])
    if st.facts.is_ge(d):
        return norm(st, d)
    raise Unsupported('wrapping_sub wraps')


@model('usize.Ord::min', 'core::cmp::min', 'u32.Ord::min')
def ord_min(m, st, th, fn, a, dest, target):
    if not isnum(a[0]):
        return NotImplemented
    return a[0] if st.facts.is_ge(sub(a[1], a[0])) else a[1]


@model('usize.Ord::max', 'core::cmp::max', 'u32.Ord::max')
def ord_max(m, st, th, fn, a, dest, target):
    if not isnum(a[0]):
        return NotImplemented
    return a[1] if st.facts.is_ge(sub(a[1], a[0])) else a[0]


@model('usize.Ord::clamp')
def ord_clamp(m, st, th, fn, a, dest, target):
    f = st.facts
    if not f.is_ge(sub(a[0], a[1])):
        return a[1]
    return a[0] if f.is_ge(sub(a[2], a[0])) else a[2]


@model('Range.Iterator::next')
def range_next(m, st, th, fn, a, dest, target):
    r = m.load(st, a[0])
    if not isnum(r[2][0]):
        return NotImplemented
    lo, hi = r[2]
    if not st.facts.is_ge(add(sub(hi, lo), -1)):
        return NONE
    m.store(st, a[0], ('A', 0, (norm(st, add(lo, 1)), hi)))
    return some(lo)


@model('Range.DoubleEndedIterator::next_back')
def range_next_back(m, st, th, fn, a, dest, target):
    r = m.load(st, a[0])
    lo, hi = r[2]
    if not st.facts.is_ge(add(sub(hi, lo), -1)):
        return NONE
    h = norm(st, add(hi, -1))
    m.store(st, a[0], ('A', 0, (lo, h)))
    return some(h)


@model('Range::contains', 'RangeInclusive::contains', 'RangeInclusive::new')
def range_contains(m, st, th, fn, a, dest, target):
    if fn['path'].endswith('new'):
        return ('A', 0, (a[0], a[1], False))
    r = deref(m, st, a[0])
    x = deref(m, st, a[1])
    if not isnum(x):
        return NotImplemented
    hi = r[2][1] if m.head(fn['self']) == 'RangeInclusive' else add(r[2][1], -1)
    return st.facts.is_ge(sub(x, r[2][0])) and st.facts.is_ge(sub(hi, x))


@model('core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::RangeInclusive<A>>::next',
       'RangeInclusive.Iterator::next')
def rangei_next(m, st, th, fn, a, dest, target):
    r = m.load(st, a[0])
    lo, hi, ex = r[2]
    if ex or not st.facts.is_ge(sub(hi, lo)):
        return NONE
    if st.facts.is_eq(sub(hi, lo)):
        m.store(st, a[0], ('A', 0, (lo, hi, True)))
    else:
        m.store(st, a[0], ('A', 0, (norm(st, add(lo, 1)), hi, False)))
    return some(lo)


# ---------------------------------------------------------------- maps keyed by addresses
def known_key(st, a, b):
    """Are two keys the same? True/False"""
    if isnum(a) and isnum(b):
        return st.facts.is_eq(sub(a, b))
    na, nb = vmap(a, st.facts.norm), vmap(b, st.facts.norm)
    if na == nb:
        return True
    raise Unsupported('map keys')


def mget(m, st, p):
    v = m.load(st, p)
    if v[0] != 'map':
        raise Unsupported('not a map')
    return v[1][2]


@model('HashMap::insert', 'BTreeMap::insert')
def map_insert(m, st, th, fn, a, dest, target):
    es = mget(m, st, a[0])
    for i, e in enumerate(es):
        if known_key(st, e[2][0], a[1]):
            new = es[:i] + (tup(a[1], a[2]),) + es[i + 1:]
            m.store(st, a[0], ('map', ('A', 0, new)))
            return some(e[2][1])
    m.store(st, a[0], ('map', ('A', 0, es + (tup(a[1], a[2]),))))
    return NONE


@model('HashMap::get', 'BTreeMap::get', 'HashMap::get_mut', 'BTreeMap::get_mut')
def map_get(m, st, th, fn, a, dest, target):
    es = mget(m, st, a[0])
    k = deref(m, st, a[1])
    for i, e in enumerate(es):
        if known_key(st, e[2][0], k):
            return some(('R', a[0][1], a[0][2] + (0, i, 1)))
    return NONE


@model('HashMap.Index::index', 'BTreeMap.Index::index')
def map_index(m, st, th, fn, a, dest, target):
    r = map_get(m, st, th, fn, a, dest, target)
    if r[1] == 0:
        m.panic(st, th, st.thr[th][-1], 'map key missing')
    return r[2][0]


@model('HashMap::contains_key', 'BTreeMap::contains_key')
def map_contains(m, st, th, fn, a, dest, target):
    k = deref(m, st, a[1])
    return any(known_key(st, e[2][0], k) for e in mget(m, st, a[0]))


@model('HashMap::remove', 'BTreeMap::remove')
def map_remove(m, st, th, fn, a, dest, target):
    es = mget(m, st, a[0])
    k = deref(m, st, a[1])
    for i, e in enumerate(es):
        if known_key(st, e[2][0], k):
            m.store(st, a[0], ('map', ('A', 0, es[:i] + es[i + 1:])))
            return some(e[2][1])
    return NONE


@model('HashMap::clear')
def map_clear(m, st, th, fn, a, dest, target):
    m.store(st, a[0], ('map', ('A', 0, ())))
    return UNIT


@model('HashMap::is_empty')
def map_is_empty(m, st, th, fn, a, dest, target):
    return not mget(m, st, a[0])


@model('HashMap.Clone::clone')
def map_clone(m, st, th, fn, a, dest, target):
    return m.load(st, a[0])


# ---------------------------------------------------------------- Any
@model('dyn::downcast_ref', 'dyn::downcast_mut', 'dyn::is')
def downcast(m, st, th, fn, a, dest, target):
    v = a[0]
    while v[0] == 'R':
        v = m.load(st, v)
    if v[0] != 'D':
        raise Unsupported('downcast of ' + repr(v)[:60])
    same = v[2] == fn['args'][0]
    if fn['path'].endswith('is'):
        return same
    return some(v[1]) if same else NONE


@model('core::any::type_name')
def type_name(m, st, th, fn, a, dest, target):
    return lits(m.p.tn(fn['args'][0]).encode())


# ---------------------------------------------------------------- formatting
# An argument is ('fmt', trait, value, type); what it shows is a text of pieces: texts, ('char', c), ('dec', n), or
# ('disp', trait, value, type) of which nothing is known (but that equal values show the same).
OPAQUE = ('fmt', 'char', 'dec', 'disp')


def snap(m, st, x, d=0):
    """The contents behind a reference."""
    if d > 6:
        return ('deep',)
    if type(x) is tuple and x and x[0] == 'R':
        v = st.get(x[1], x[2])
        return snap(m, st, v, d + 1)
    if type(x) is tuple and x and x[0] == 'SL':
        try:
            return snap(m, st, st.get(x[1], x[2]), d + 1)
        except Unsupported:
            return ('slice',)
    if type(x) is tuple and x and x[0] == 'A':
        return ('A', x[1], tuple(snap(m, st, y, d + 1) for y in x[2]))
    return x


def whole(t):
    return ('S', t, 0, atom(('n', t)))


def bare(m, t):
    while m.ty(t)['k'] in ('ref', 'ptr'):
        t = m.ty(t)['e']
    return t


def shown(m, st, trait, x, t, th=0, raw=None):
    """The pieces that a value shows with {} or {:?} (t: its type, if known)."""
    x = snap(m, st, x)
    k = None
    if t is not None:
        t = bare(m, t)
        k = m.ty(t)['k']
    if trait == 'display':
        if t is not None and raw is not None and m.ty(t).get('disp') is not None:
            import counts
            return [counts.displayed(m, st, th, raw, t)]
        if type(x) is tuple and x and x[0] in ('S', 'str'):
            return [('S',) + tuple(x[1:])]
        if k == 'int':
            x = norm(st, x)
            if type(x) is int:
                return [lits(b'%d' % x)]
            return [whole(('dec', x))]
        if k == 'char':
            x = norm(st, x)
            if type(x) is int:
                return [lits(chr(x).encode())]
            return [whole(('char', x))]
        if k == 'bool' and type(x) is bool:
            return [lits(b'true' if x else b'false')]
    if type(x) is tuple and x and x[0] == 'fmt_args':
        return rendered(m, st, x)
    return [whole(('disp', trait, x, t if t is not None else -1))]


def rendered(m, st, args, th=0):
    """The pieces of a format_args!() (see library/core/src/fmt/mod.rs for the template)."""
    tmpl, vals = args[1], args[2]
    if type(tmpl) is tuple and tmpl[0] in ('S', 'str'):
        return [('S',) + tuple(tmpl[1:])]
    if tmpl[0] != 'seq' or any(x[0] != 'i' or type(x[1]) is not int for x in tmpl[1]):
        raise Unsupported('format template')
    b = [x[1] for x in tmpl[1]]
    vals = [x[1] for x in vals[1]]
    out, i, k = [], 0, 0
    while True:
        n = b[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(lits(bytes(b[i:i + n])))
            i += n
        elif n == 0x80:
            n = b[i] | b[i + 1] << 8
            out.append(lits(bytes(b[i + 2:i + 2 + n])))
            i += 2 + n
        else:
            o = n
            opts = []
            for bit, w in ((1, 4), (2, 2), (4, 2)):
                if o & bit:
                    opts.append((bit,) + tuple(b[i:i + w]))
                    i += w
            if o & 8:
                k = b[i] | b[i + 1] << 8
                i += 2
            v = vals[k]
            k += 1
            if opts or o & 0x30:
                out.append(whole(('disp', 'with', ('opts', o & 0x30) + tuple(opts), v)))
            else:
                out += shown(m, st, v[1], v[2], None if v[3] == -1 else v[3], th, v[4] if len(v) > 4 else None)


@model('alloc::fmt::format', 'alloc::fmt::format::format_inner')
def fmt_format(m, st, th, fn, a, dest, target):
    return cat(st, rendered(m, st, a[0], th))


def argument(trait):
    def g(m, st, th, fn, a, dest, target):
        t = fn['args'][0] if fn.get('args') and type(fn['args'][0]) is int else None
        r = ('fmt', trait, snap(m, st, a[0]), t if t is not None else -1)
        if trait == 'display' and t is not None and m.ty(bare(m, t)).get('disp') is not None:
            r += (a[0],)
        return r
    return g


for k in ('display', 'debug', 'lower_hex', 'upper_hex', 'binary', 'octal', 'lower_exp', 'upper_exp', 'pointer'):
    M['Argument::new_' + k] = argument(k)


@model('Argument::from_usize')
def arg_usize(m, st, th, fn, a, dest, target):
    return ('fmt', 'usize', snap(m, st, a[0]), -1)


@model('Arguments::new', 'Arguments::new_const', 'Arguments::new_v1', 'Arguments::from_str', 'Arguments::from_str_nonconst')
def arguments(m, st, th, fn, a, dest, target):
    return ('fmt_args',) + tuple(snap(m, st, x) for x in a)


@model('Arguments::as_str', 'Arguments::as_statically_known_str')
def args_as_str(m, st, th, fn, a, dest, target):
    return NONE


@model('*.ToString::to_string', 'alloc::string::<impl core::fmt::Display>::to_string')
def to_string_any(m, st, th, fn, a, dest, target):
    t = fn['args'][0] if fn.get('args') and type(fn['args'][0]) is int else None
    return cat(st, shown(m, st, 'display', a[0], t, th, a[0]))


