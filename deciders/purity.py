"""C24: an effect analysis. What code that can run during a parse may touch: nothing that outlives the parse.

Call graph of the crate (from the compiler's MIR), roots: everything that implements the parsing traits, the context and the errors.
"""
import json
import os
import re

ROOT_TRAITS = ('Parser', 'ParseIter', 'Mapping', 'Region', 'BinaryOp', 'MyDynParserTrait', 'RawOutputConcat', 'ParserOutput', 'Display', 'Debug')
CELL = re.compile(r'\b(Cell|RefCell|UnsafeCell|SyncUnsafeCell|Mutex|RwLock|ReentrantLock|Atomic\w+|OnceCell|OnceLock|LazyCell|LazyLock|Condvar|Atomic)\b')
HARD = re.compile(r'\b(Cell|RefCell|UnsafeCell|SyncUnsafeCell|Mutex|RwLock|Atomic\w*)\b')
MUTATORS = re.compile(
    r'(^|::)(Cell::<.*>::(set|replace|take|swap|update)|RefCell::<.*>::(borrow_mut|replace|take|swap|replace_with|try_borrow_mut)|UnsafeCell::<.*>::get|'
    r'atomic::.*::(store|swap|fetch_\w+|compare_\w+|update|try_update)|Mutex::<.*>::(lock|try_lock)|RwLock::<.*>::(write|try_write)|(^|::)ptr::(write\w*|mut_ptr::.*::write\w*))')
ONCE_SET = re.compile(r'(OnceCell|OnceLock)::<.*>::(set|get_or_init|get_or_try_init|take)')
OUTSIDE = [
    (re.compile(r'^std::io::stdio::_e?print|^std::io::(stdin|stdout|stderr)|^std::io::stdio::(stdin|stdout|stderr)|^std::io::Std'), 'does input or output'),
    (re.compile(r'^std::fs::|^std::net::|^std::os::'), 'does input or output'),
    (re.compile(r'^std::env::'), 'looks at the environment'),
    (re.compile(r'^std::time::(Instant|SystemTime)::now|^std::sys::.*time'), 'looks at the clock'),
    (re.compile(r'^std::process::'), 'looks at or ends the process'),
    (re.compile(r'^std::thread::(spawn|sleep|current|functions::\w+|id)|^std::thread::Thread::id'), 'depends on the thread'),
    (re.compile(r'^std::hash::random::RandomState::new|^std::collections::hash_map::RandomState::new'), 'draws a random number'),
]


def strip_phantom(t):
    while True:
        i = t.find('PhantomData<')
        if i < 0:
            return t
        d, j = 0, i + len('PhantomData')
        while j < len(t):
            if t[j] == '<':
                d += 1
            elif t[j] == '>' and t[j - 1] != '-':
                d -= 1
                if d == 0:
                    break
            j += 1
        t = t[:i] + 'Phantom' + t[j + 1:]


def base(p):
    return p.replace(' [unsafe]', '')


def decide(pid, out, repo, tier, ctx):
    fn = os.path.join(out or '/tmp/o1', 'items.json')
    if not os.path.exists(fn):
        return [], ['the crate was not analysed'], {}
    d = json.load(open(fn))
    fns = {}
    for f in d['fns']:
        fns.setdefault(f['path'], f)
    kids = {}
    for p in fns:
        m = re.match(r'(.*)::\{closure#\d+\}$', p)
        if m:
            kids.setdefault(m.group(1), []).append(p)
    last = {}
    for p in fns:
        last.setdefault(re.sub(r'<[^<>]*>', '', p).split('::')[-1], []).append(p)

    def is_root(p):
        m = re.match(r'<.* as (.+)>::\w+', p) or re.match(r'.*::<impl (.+) for .+>::\w+', p)
        if m:
            tr = re.sub(r'<.*', '', m.group(1)).split('::')[-1]
            return tr in ROOT_TRAITS
        return p.startswith(('traits::Parser::', 'traits::ParseIter::', 'context::ParseContext', 'util::aoc_parse'))
    # what a call of a function pointer, or of a value of a closure type given from outside, may run
    pointers = {q for x in d['inits'] + d['fns'] for q in x['ptrs']}
    values = pointers | {q for x in d['inits'] + d['fns'] for q in x['fns']}
    init_of = {x['path']: x for x in d['inits']}
    reach, why = set(), {}
    work = [p for p in fns if is_root(p)]
    roots = len(work)
    for p in work:
        why[p] = None
    edges = 0
    while work:
        p = work.pop()
        if p in reach:
            continue
        reach.add(p)
        f = fns[p]
        nxt = list(kids.get(p, []))
        for c in f['calls']:
            edges += 1
            for q in (base(c[0]), c[2]):
                if q and q in fns:
                    nxt.append(q)
            if c[2] is None and c[4] == 'aoc_parse':
                # a trait method: any implementation
                nm = base(c[0]).split('::')[-1]
                nxt += [q for q in last.get(nm, []) if q.startswith('<')]
            if c[0] == '<fn pointer>':
                nxt += sorted(q for q in pointers if q in fns)
            elif re.search(r'ops::function::(Fn|FnMut|FnOnce)::call', c[0]) and c[2] is None:
                nxt += sorted(q for q in values if q in fns)
        nxt += [q for q in f['fns'] if q in fns]
        for st in f['statics']:
            nxt += [q for q in init_of.get(st, {}).get('fns', []) if q in fns]
            nxt += [q for q in fns if q.startswith(st + '::') or st in q and q.startswith('<')]
        for q in nxt:
            if q not in reach:
                why.setdefault(q, p)
                work.append(q)

    def path(p):
        o = []
        while p is not None and len(o) < 8:
            o.append('%s (%s)' % (p, fns[p]['span']))
            p = why.get(p)
        return ' < '.join(o)
    viol, und = [], []

    def bad(kind, what, p):
        viol.append({'witness': 'effects', 'kind': kind, 'what': what, 'where': path(p), 'exact': True})
    statics = {s['path']: s for s in d['statics']}

    def mutates(p):
        """Calls in p or its closures that change something shared."""
        o = []
        for q in [p] + kids.get(p, []):
            o += [c for c in fns[q]['calls'] if MUTATORS.search(base(c[0])) or MUTATORS.search(c[2] or '')]
        return o

    def up(p):
        m = re.match(r'(.*?)(::\{closure#\d+\})+$', p)
        return m.group(1) if m else p
    ncalls = nstat = 0
    for p in sorted(reach):
        f = fns[p]
        for c in f['calls']:
            ncalls += 1
            q = base(c[0])
            for rx, what in OUTSIDE:
                if rx.search(q) or rx.search(c[2] or ''):
                    bad('outside', '%s %s, by calling %s, while parsing' % (p, what, q), p)
            if re.search(r'hash_?(map|set)', q + (c[2] or ''), re.I) and re.search(r'Hash(Map|Set)<|hash_(map|set)|HashMap|HashSet', q + ' '.join(c[1][:1])) and \
                    re.search(r'::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|into_iter)$', q):
                und.append('%s goes through a hash table in no fixed order' % p)
            if 'LocalKey' in q and re.search(r'LocalKey::<.*>::\w+$', q):
                t = strip_phantom(' '.join(c[1][:1]))
                g = re.search(r'LocalKey::<(.*)>::\w+$', q).group(1)
                if CELL.search(g):      # (a method of LocalKey<Cell<T>>)
                    t = '%s of %s' % (g, t)
                inner = re.sub(r'.*?(OnceCell|LazyCell|OnceLock|LazyLock)<', '', t, count=1)
                if HARD.search(t):
                    bad('thread-local', '%s uses a thread-local variable of type %s while parsing: it outlives the parse' % (p, t), p)
                elif CELL.search(inner) or re.search(r'OnceCell|OnceLock', t):
                    und.append('%s uses a thread-local %s' % (p, t))
        for s in f['statics']:
            nstat += 1
            st = statics.get(s)
            if st is None:
                continue
            t = strip_phantom(st['ty'])
            if st['mut']:
                bad('static', '%s uses the mutable static %s while parsing' % (p, s), p)
                continue
            if st['freeze'] and not CELL.search(t):
                continue
            inner = re.sub(r'^(?:[\w:]*::)?(Lazy|LazyLock|OnceLock|OnceCell)<(.*)>$', r'\2', t)
            if HARD.search(inner):
                ms = mutates(up(p))
                ms += [c for q in reach if s in fns[q]['statics'] for c in mutates(up(q))]
                if ms:
                    bad('static', '%s changes the static %s (%s) while parsing, by calling %s: it outlives the parse' % (p, s, t, base(ms[0][0])), p)
                else:
                    und.append('%s uses the static %s of type %s' % (p, s, t))
                continue
            if re.search(r'Once(Lock|Cell)<', t):
                for q in [up(p)] + kids.get(up(p), []):
                    for c in fns[q]['calls']:
                        if ONCE_SET.search(base(c[0])):
                            if base(c[0]).endswith(('set', 'take')) or any(n != '0' for n in (c[5] if len(c) > 5 else [])):
                                bad('static', '%s sets the static %s (%s) while parsing to what depends on the parse: it outlives it' % (q, s, t), p)
    # interior mutability in what parsers are made of
    adts = {a['path']: a for a in d['adts']}
    parsers = set()
    for i in d['impls']:
        if i['trait'].split('::')[-1] in ('Parser', 'Mapping', 'Region', 'BinaryOp', 'MyDynParserTrait'):
            for a in adts:
                if re.match(re.escape(a) + r'($|<|\b)', i['self'].lstrip('&')):
                    parsers.add(a)
    while True:
        more = {b for a in parsers for x in adts[a]['f'] for b in adts if re.search(r'\b' + re.escape(b) + r'\b', x[1])} - parsers
        if not more:
            break
        parsers |= more
    muts = [(p, c) for p in sorted(reach) for c in fns[p]['calls'] if MUTATORS.search(base(c[0])) or MUTATORS.search(c[2] or '')
            or ONCE_SET.search(base(c[0]))]
    nfields = 0
    for a in sorted(adts):
        for name, t, _ in adts[a]['f']:
            nfields += 1
            t = strip_phantom(t)
            m = CELL.search(t)
            if not m or a not in parsers:
                continue
            kind = m.group(1)
            hits = [(p, c) for p, c in muts if re.search(r'\b' + kind + r'\b', base(c[0])) or re.search(r'\b' + kind + r'\b', c[2] or '')]
            other = [b for b in adts if b not in parsers and any(re.search(r'\b' + kind + r'\b', strip_phantom(x[1])) for x in adts[b]['f'])]
            if hits and not other:
                p, c = hits[0]
                bad('parser-state', 'the parser %s has the field %s of type %s, which %s changes while parsing' % (a, name, t, p), p)
            else:
                und.append('the parser %s has a field %s of type %s' % (a, name, t))
    return viol, und, {
        'obligations': len(reach) + nstat + nfields,
        'rule': 'code reachable from the parsing traits calls nothing that reads or writes the outside world (I/O, environment, clock, thread, randomness), touches no mutable or '
                'interior-mutable static or thread-local, and no parser has a field it can change through a shared reference',
        'functions_reachable': len(reach), 'functions': len(fns), 'roots': roots, 'calls': ncalls, 'statics_used': nstat, 'statics': len(statics),
        'parser_types': sorted(parsers), 'fields': nfields, 'not_reachable': sorted(set(fns) - reach)[:60]}
