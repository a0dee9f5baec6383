//! Plain bodies for library functions that loop.
#[inline(never)] pub fn coll_new<B>() -> B { loop {} }
#[inline(never)] pub fn coll_push<B, T>(b: &mut B, t: T) { loop {} }

pub fn iter_collect<I: Iterator, B: FromIterator<I::Item>>(mut it: I) -> B {
    let mut b = coll_new::<B>();
    while let Some(x) = it.next() { coll_push(&mut b, x) }
    b
}
pub fn iter_count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() { n += 1 }
    n
}
pub fn iter_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut l = None;
    while let Some(x) = it.next() { l = Some(x) }
    l
}
pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut b = init;
    while let Some(x) = it.next() { b = f(b, x) }
    b
}
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() { f(x) }
}
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false } }
    true
}
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true } }
    false
}
pub fn iter_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() { if f(&x) { return Some(x) } }
    None
}
pub fn iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y) } }
    None
}
pub fn iter_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut n = 0;
    while let Some(x) = it.next() { if f(x) { return Some(n) } n += 1 }
    None
}
pub fn iter_nth<I: Iterator>(it: &mut I, k: usize) -> Option<I::Item> {
    let mut n = 0;
    while n < k { if it.next().is_none() { return None } n += 1 }
    it.next()
}
pub fn from_iter<B: FromIterator<T>, T, I: IntoIterator<Item = T>>(it: I) -> B {
    let mut it = it.into_iter();
    let mut b = coll_new::<B>();
    while let Some(x) = it.next() { coll_push(&mut b, x) }
    b
}
pub fn extend<C: Extend<T>, T, I: IntoIterator<Item = T>>(c: &mut C, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { coll_push(c, x) }
}

/// Once-initialised values: what the initialiser makes (each time anew).
pub fn lazy_get<T: 'static, F: FnOnce() -> T>(cell: *const (), f: F) -> &'static T { Box::leak(Box::new(f())) }
