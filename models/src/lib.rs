//! Models of the std functions the engine sees through, written as plain Rust
//! and turned into MIR by the same driver as /repo.  Never executed.
#![allow(dead_code, unused_variables, clippy::all)]

// ---- intrinsics interpreted by the engine --------------------------------
pub fn __len<T: ?Sized>(_t: &T) -> usize {
    loop {}
}
pub fn __ix<T: ?Sized, U>(_t: &T, _i: usize) -> U {
    loop {}
}
pub fn __slice<T: ?Sized, U>(_t: &T, _from: usize, _to: usize) -> U {
    loop {}
}
pub fn __push<V, U>(_v: &mut V, _x: U) {
    loop {}
}
pub fn __new<V>() -> V {
    loop {}
}
pub fn __havoc<V>() -> V {
    loop {}
}
pub trait It {
    type Item;
    // dispatched dynamically on the iterator value
    fn nx(&mut self) -> Option<Self::Item>;
    fn nb(&mut self) -> Option<Self::Item>;
}

// ---- Option / Result with closures ----------------------------------------
pub fn option_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> {
    match o {
        Some(x) => Some(f(x)),
        None => None,
    }
}
pub fn option_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> {
    match o {
        Some(x) => f(x),
        None => None,
    }
}
pub fn option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U {
    match o {
        Some(x) => f(x),
        None => d,
    }
}
pub fn option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U {
    match o {
        Some(x) => f(x),
        None => d(),
    }
}
pub fn option_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
    match o {
        Some(x) => f(x),
        None => false,
    }
}
pub fn option_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
    match o {
        Some(x) => f(x),
        None => true,
    }
}
pub fn option_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T {
    match o {
        Some(x) => x,
        None => f(),
    }
}
pub fn option_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> {
    match o {
        Some(x) => Ok(x),
        None => Err(f()),
    }
}
pub fn option_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> {
    match o {
        Some(x) => Some(x),
        None => f(),
    }
}
pub fn option_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> {
    match o {
        Some(x) => {
            if f(&x) {
                Some(x)
            } else {
                None
            }
        }
        None => None,
    }
}
pub fn option_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> {
    if let Some(x) = &o {
        f(x);
    }
    o
}
pub fn result_map<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> {
    match o {
        Ok(x) => Ok(f(x)),
        Err(e) => Err(e),
    }
}
pub fn result_map_err<T, E, G, F: FnOnce(E) -> G>(o: Result<T, E>, f: F) -> Result<T, G> {
    match o {
        Ok(x) => Ok(x),
        Err(e) => Err(f(e)),
    }
}
pub fn result_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> {
    match o {
        Ok(x) => f(x),
        Err(e) => Err(e),
    }
}
pub fn result_or_else<T, E, G, F: FnOnce(E) -> Result<T, G>>(o: Result<T, E>, f: F) -> Result<T, G> {
    match o {
        Ok(x) => Ok(x),
        Err(e) => f(e),
    }
}
pub fn result_map_or<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U {
    match o {
        Ok(x) => f(x),
        Err(_) => d,
    }
}
pub fn result_unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T {
    match o {
        Ok(x) => x,
        Err(e) => f(e),
    }
}
pub fn result_is_ok_and<T, E, F: FnOnce(T) -> bool>(o: Result<T, E>, f: F) -> bool {
    match o {
        Ok(x) => f(x),
        Err(_) => false,
    }
}
pub fn result_is_err_and<T, E, F: FnOnce(E) -> bool>(o: Result<T, E>, f: F) -> bool {
    match o {
        Ok(_) => false,
        Err(e) => f(e),
    }
}
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> {
    if b {
        Some(f())
    } else {
        None
    }
}
pub fn bool_then_some<T>(b: bool, v: T) -> Option<T> {
    if b {
        Some(v)
    } else {
        None
    }
}
pub fn mem_take_opt<T>(o: &mut Option<T>) -> Option<T> {
    match o {
        Some(_) => {
            let v = __havoc();
            *o = None;
            Some(v)
        }
        None => None,
    }
}

// ---- iterators -----------------------------------------------------------
/// Iterator over an indexable collection.
pub struct VIter<C> {
    pub coll: C,
    pub pos: usize,
    pub end: usize,
}
pub fn viter_new<C>(coll: C) -> VIter<C> {
    let end = __len(&coll);
    VIter { coll, pos: 0, end }
}
pub fn viter_next<C, T>(it: &mut VIter<C>) -> Option<T> {
    let p = it.pos;
    if p < it.end {
        it.pos = p + 1;
        Some(__ix(&it.coll, p))
    } else {
        None
    }
}
pub fn viter_next_back<C, T>(it: &mut VIter<C>) -> Option<T> {
    if it.pos < it.end {
        it.end = it.end - 1;
        Some(__ix(&it.coll, it.end))
    } else {
        None
    }
}
pub struct Rng<T> {
    pub start: T,
    pub end: T,
}
pub fn range_next(r: &mut std::ops::Range<u64>) -> Option<u64> {
    let s = r.start;
    if s < r.end {
        r.start = s + 1;
        Some(s)
    } else {
        None
    }
}
pub fn range_next_back(r: &mut std::ops::Range<u64>) -> Option<u64> {
    if r.start < r.end {
        r.end = r.end - 1;
        Some(r.end)
    } else {
        None
    }
}
/// a..=b as (start, end, exhausted)
pub struct RngI<T> {
    pub start: T,
    pub end: T,
    pub done: bool,
}
pub fn rangei_next(r: &mut RngI<u64>) -> Option<u64> {
    if r.done {
        return None;
    }
    let s = r.start;
    if s < r.end {
        r.start = s + 1;
        Some(s)
    } else if s == r.end {
        r.done = true;
        Some(s)
    } else {
        None
    }
}
pub fn rangei_next_back(r: &mut RngI<u64>) -> Option<u64> {
    if r.done {
        return None;
    }
    let e = r.end;
    if r.start < e {
        r.end = e - 1;
        Some(e)
    } else if r.start == e {
        r.done = true;
        Some(e)
    } else {
        None
    }
}
pub fn rangefrom_next(r: &mut std::ops::RangeFrom<u64>) -> Option<u64> {
    let s = r.start;
    r.start = s + 1;
    Some(s)
}

pub struct MMap<I, F> {
    pub it: I,
    pub f: F,
}
pub fn mmap_next<I: It, T, F: FnMut(I::Item) -> T>(m: &mut MMap<I, F>) -> Option<T> {
    match m.it.nx() {
        Some(x) => Some((m.f)(x)),
        None => None,
    }
}
pub fn mmap_next_back<I: It, T, F: FnMut(I::Item) -> T>(m: &mut MMap<I, F>) -> Option<T> {
    match m.it.nb() {
        Some(x) => Some((m.f)(x)),
        None => None,
    }
}
pub struct MFilter<I, F> {
    pub it: I,
    pub f: F,
}
pub fn mfilter_next<I: It, F: FnMut(&I::Item) -> bool>(m: &mut MFilter<I, F>) -> Option<I::Item> {
    loop {
        match m.it.nx() {
            Some(x) => {
                if (m.f)(&x) {
                    return Some(x);
                }
            }
            None => return None,
        }
    }
}
pub struct MFilterMap<I, F> {
    pub it: I,
    pub f: F,
}
pub fn mfiltermap_next<I: It, T, F: FnMut(I::Item) -> Option<T>>(m: &mut MFilterMap<I, F>) -> Option<T> {
    loop {
        match m.it.nx() {
            Some(x) => {
                if let Some(y) = (m.f)(x) {
                    return Some(y);
                }
            }
            None => return None,
        }
    }
}
pub struct MRev<I> {
    pub it: I,
}
pub fn mrev_next<I: It>(m: &mut MRev<I>) -> Option<I::Item> {
    m.it.nb()
}
pub fn mrev_next_back<I: It>(m: &mut MRev<I>) -> Option<I::Item> {
    m.it.nx()
}
pub struct MEnum<I> {
    pub it: I,
    pub n: usize,
}
pub fn menum_next<I: It>(m: &mut MEnum<I>) -> Option<(usize, I::Item)> {
    match m.it.nx() {
        Some(x) => {
            let n = m.n;
            m.n = n + 1;
            Some((n, x))
        }
        None => None,
    }
}
pub struct MZip<A, B> {
    pub a: A,
    pub b: B,
}
pub fn mzip_next<A: It, B: It>(m: &mut MZip<A, B>) -> Option<(A::Item, B::Item)> {
    match m.a.nx() {
        Some(x) => match m.b.nx() {
            Some(y) => Some((x, y)),
            None => None,
        },
        None => None,
    }
}
pub struct MChain<A, B> {
    pub a: A,
    pub b: B,
    pub first: bool,
}
pub fn mchain_next<A: It, B: It<Item = A::Item>>(m: &mut MChain<A, B>) -> Option<A::Item> {
    if m.first {
        match m.a.nx() {
            Some(x) => return Some(x),
            None => m.first = false,
        }
    }
    m.b.nx()
}
pub struct MTake<A> {
    pub it: A,
    pub n: usize,
}
pub fn mtake_next<A: It>(m: &mut MTake<A>) -> Option<A::Item> {
    if m.n == 0 {
        None
    } else {
        m.n = m.n - 1;
        m.it.nx()
    }
}
pub struct MSkip<A> {
    pub it: A,
    pub n: usize,
}
pub fn mskip_next<A: It>(m: &mut MSkip<A>) -> Option<A::Item> {
    while m.n > 0 {
        m.n = m.n - 1;
        match m.it.nx() {
            Some(_) => {}
            None => return None,
        }
    }
    m.it.nx()
}
pub struct MTakeWhile<A, F> {
    pub it: A,
    pub f: F,
    pub done: bool,
}
pub fn mtakewhile_next<A: It, F: FnMut(&A::Item) -> bool>(m: &mut MTakeWhile<A, F>) -> Option<A::Item> {
    if m.done {
        return None;
    }
    match m.it.nx() {
        Some(x) => {
            if (m.f)(&x) {
                Some(x)
            } else {
                m.done = true;
                None
            }
        }
        None => None,
    }
}
pub struct MWindows<C> {
    pub coll: C,
    pub pos: usize,
    pub n: usize,
}
pub fn mwindows_next<C, T>(m: &mut MWindows<C>) -> Option<T> {
    let p = m.pos;
    if p + m.n <= __len(&m.coll) {
        m.pos = p + 1;
        Some(__slice(&m.coll, p, p + m.n))
    } else {
        None
    }
}
pub struct MChunksExact<C> {
    pub coll: C,
    pub pos: usize,
    pub n: usize,
}
pub fn mchunksexact_next<C, T>(m: &mut MChunksExact<C>) -> Option<T> {
    let p = m.pos;
    if p + m.n <= __len(&m.coll) {
        m.pos = p + m.n;
        Some(__slice(&m.coll, p, p + m.n))
    } else {
        None
    }
}

pub fn iter_any<I: It, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    loop {
        match it.nx() {
            Some(x) => {
                if f(x) {
                    return true;
                }
            }
            None => return false,
        }
    }
}
pub fn iter_all<I: It, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    loop {
        match it.nx() {
            Some(x) => {
                if !f(x) {
                    return false;
                }
            }
            None => return true,
        }
    }
}
pub fn iter_find<I: It, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    loop {
        match it.nx() {
            Some(x) => {
                if f(&x) {
                    return Some(x);
                }
            }
            None => return None,
        }
    }
}
pub fn iter_find_map<I: It, T, F: FnMut(I::Item) -> Option<T>>(it: &mut I, mut f: F) -> Option<T> {
    loop {
        match it.nx() {
            Some(x) => {
                if let Some(y) = f(x) {
                    return Some(y);
                }
            }
            None => return None,
        }
    }
}
pub fn iter_position<I: It, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut n = 0;
    loop {
        match it.nx() {
            Some(x) => {
                if f(x) {
                    return Some(n);
                }
                n += 1;
            }
            None => return None,
        }
    }
}
pub fn iter_for_each<I: It, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    loop {
        match it.nx() {
            Some(x) => f(x),
            None => return,
        }
    }
}
pub fn iter_try_for_each<I: It, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    loop {
        match it.nx() {
            Some(x) => {
                if let Err(e) = f(x) {
                    return Err(e);
                }
            }
            None => return Ok(()),
        }
    }
}
pub fn iter_fold<I: It, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    loop {
        match it.nx() {
            Some(x) => acc = f(acc, x),
            None => return acc,
        }
    }
}
pub fn iter_try_fold<I: It, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    loop {
        match it.nx() {
            Some(x) => match f(acc, x) {
                Ok(a) => acc = a,
                Err(e) => return Err(e),
            },
            None => return Ok(acc),
        }
    }
}
pub fn iter_count<I: It>(mut it: I) -> usize {
    let mut n = 0;
    loop {
        match it.nx() {
            Some(_) => n += 1,
            None => return n,
        }
    }
}
macro_rules! sums {
    ($($n:ident $t:ty),*) => {$(
        pub fn $n<I: It<Item = $t>>(mut it: I) -> $t {
            let mut s: $t = 0;
            loop {
                match it.nx() {
                    Some(x) => s += x,
                    None => return s,
                }
            }
        }
    )*};
}
sums!(iter_sum_usize usize, iter_sum_u64 u64, iter_sum_u32 u32, iter_sum_u16 u16, iter_sum_u8 u8, iter_sum_u128 u128, iter_sum_i64 i64, iter_sum_i32 i32, iter_sum_i128 i128);
pub fn iter_last<I: It>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    loop {
        match it.nx() {
            Some(x) => r = Some(x),
            None => return r,
        }
    }
}
pub fn collect_vec<I: It, V>(mut it: I) -> V {
    let mut v: V = __new();
    loop {
        match it.nx() {
            Some(x) => __push(&mut v, x),
            None => return v,
        }
    }
}
pub fn collect_result<I: It<Item = Result<T, E>>, T, E, V>(mut it: I) -> Result<V, E> {
    let mut v: V = __new();
    loop {
        match it.nx() {
            Some(Ok(x)) => __push(&mut v, x),
            Some(Err(e)) => return Err(e),
            None => return Ok(v),
        }
    }
}
pub fn collect_option<I: It<Item = Option<T>>, T, V>(mut it: I) -> Option<V> {
    let mut v: V = __new();
    loop {
        match it.nx() {
            Some(Some(x)) => __push(&mut v, x),
            Some(None) => return None,
            None => return Some(v),
        }
    }
}
pub fn vec_extend<I: It, V>(v: &mut V, mut it: I) {
    loop {
        match it.nx() {
            Some(x) => __push(v, x),
            None => return,
        }
    }
}
pub fn vec_retain<V, T, F: FnMut(&T) -> bool>(v: &mut V, mut f: F) {
    let n = __len(v);
    let mut i = 0;
    let mut out: V = __new();
    while i < n {
        let x: T = __ix(v, i);
        if f(&x) {
            __push(&mut out, x);
        }
        i += 1;
    }
    *v = out;
}


pub struct OptIter<T> {
    pub o: Option<T>,
}
pub fn optiter_next<T>(it: &mut OptIter<T>) -> Option<T> {
    match it.o.take() {
        Some(x) => Some(x),
        None => None,
    }
}
pub fn optiter_next_back<T>(it: &mut OptIter<T>) -> Option<T> {
    match it.o.take() {
        Some(x) => Some(x),
        None => None,
    }
}
pub struct MMapWhile<I, F> {
    pub it: I,
    pub f: F,
}
pub fn mmapwhile_next<I: It, T, F: FnMut(I::Item) -> Option<T>>(m: &mut MMapWhile<I, F>) -> Option<T> {
    match m.it.nx() {
        Some(x) => (m.f)(x),
        None => None,
    }
}
pub struct MInspect<I, F> {
    pub it: I,
    pub f: F,
}
pub fn minspect_next<I: It, F: FnMut(&I::Item)>(m: &mut MInspect<I, F>) -> Option<I::Item> {
    match m.it.nx() {
        Some(x) => {
            (m.f)(&x);
            Some(x)
        }
        None => None,
    }
}
pub struct MSkipWhile<A, F> {
    pub it: A,
    pub f: F,
    pub done: bool,
}
pub fn mskipwhile_next<A: It, F: FnMut(&A::Item) -> bool>(m: &mut MSkipWhile<A, F>) -> Option<A::Item> {
    if m.done {
        return m.it.nx();
    }
    loop {
        match m.it.nx() {
            Some(x) => {
                if !(m.f)(&x) {
                    m.done = true;
                    return Some(x);
                }
            }
            None => return None,
        }
    }
}
pub struct MPeek<I: It> {
    pub it: I,
    pub p: Option<Option<I::Item>>,
}
pub fn mpeek_next<I: It>(m: &mut MPeek<I>) -> Option<I::Item> {
    match m.p.take() {
        Some(x) => x,
        None => m.it.nx(),
    }
}
pub fn mpeek_peek<I: It>(m: &mut MPeek<I>) -> Option<&I::Item> {
    if let None = &m.p {
        let x = m.it.nx();
        m.p = Some(x);
    }
    match &m.p {
        Some(Some(x)) => Some(x),
        _ => None,
    }
}
pub fn mfilter_next_back<I: It, F: FnMut(&I::Item) -> bool>(m: &mut MFilter<I, F>) -> Option<I::Item> {
    loop {
        match m.it.nb() {
            Some(x) => {
                if (m.f)(&x) {
                    return Some(x);
                }
            }
            None => return None,
        }
    }
}
pub fn mfiltermap_next_back<I: It, T, F: FnMut(I::Item) -> Option<T>>(m: &mut MFilterMap<I, F>) -> Option<T> {
    loop {
        match m.it.nb() {
            Some(x) => {
                if let Some(y) = (m.f)(x) {
                    return Some(y);
                }
            }
            None => return None,
        }
    }
}
pub fn menum_next_back<I: It>(m: &mut MEnum<I>) -> Option<(usize, I::Item)> {
    match m.it.nb() {
        Some(x) => Some((__havoc(), x)),
        None => None,
    }
}
pub fn mzip_next_back<A: It, B: It>(m: &mut MZip<A, B>) -> Option<(A::Item, B::Item)> {
    __havoc()
}
pub fn mchain_next_back<A: It, B: It<Item = A::Item>>(m: &mut MChain<A, B>) -> Option<A::Item> {
    match m.b.nb() {
        Some(x) => return Some(x),
        None => {}
    }
    if m.first {
        m.a.nb()
    } else {
        None
    }
}
pub fn result_map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(o: Result<T, E>, d: D, f: F) -> U {
    match o {
        Ok(x) => f(x),
        Err(e) => d(e),
    }
}
pub fn collect_set<T: Ord, I: It<Item = T>>(mut it: I) -> std::collections::BTreeSet<T> {
    let mut v: std::collections::BTreeSet<T> = std::collections::BTreeSet::new();
    loop {
        match it.nx() {
            Some(x) => {
                v.insert(x);
            }
            None => return v,
        }
    }
}
pub fn collect_map<K: Ord, V, I: It<Item = (K, V)>>(mut it: I) -> std::collections::BTreeMap<K, V> {
    let mut v: std::collections::BTreeMap<K, V> = std::collections::BTreeMap::new();
    loop {
        match it.nx() {
            Some((k, x)) => {
                v.insert(k, x);
            }
            None => return v,
        }
    }
}
pub fn set_extend<T: Ord, I: It<Item = T>>(v: &mut std::collections::BTreeSet<T>, mut it: I) {
    loop {
        match it.nx() {
            Some(x) => {
                v.insert(x);
            }
            None => return,
        }
    }
}
pub fn map_extend<K: Ord, V, I: It<Item = (K, V)>>(v: &mut std::collections::BTreeMap<K, V>, mut it: I) {
    loop {
        match it.nx() {
            Some((k, x)) => {
                v.insert(k, x);
            }
            None => return,
        }
    }
}

pub struct MSetDiff<'a, I, T> {
    pub it: I,
    pub b: &'a std::collections::BTreeSet<T>,
}
pub fn set_difference<'a, T: Ord, I: It<Item = &'a T>>(it: I, b: &'a std::collections::BTreeSet<T>) -> MSetDiff<'a, I, T> {
    MSetDiff { it, b }
}
pub fn msetdiff_next<'a, T: Ord, I: It<Item = &'a T>>(m: &mut MSetDiff<'a, I, T>) -> Option<&'a T> {
    loop {
        match m.it.nx() {
            Some(x) => {
                if !m.b.contains(x) {
                    return Some(x);
                }
            }
            None => return None,
        }
    }
}
pub struct MSetInter<'a, I, T> {
    pub it: I,
    pub b: &'a std::collections::BTreeSet<T>,
}
pub fn set_intersection<'a, T: Ord, I: It<Item = &'a T>>(it: I, b: &'a std::collections::BTreeSet<T>) -> MSetInter<'a, I, T> {
    MSetInter { it, b }
}
pub fn msetinter_next<'a, T: Ord, I: It<Item = &'a T>>(m: &mut MSetInter<'a, I, T>) -> Option<&'a T> {
    loop {
        match m.it.nx() {
            Some(x) => {
                if m.b.contains(x) {
                    return Some(x);
                }
            }
            None => return None,
        }
    }
}
pub fn set_is_disjoint<'a, T: Ord, I: It<Item = &'a T>>(mut it: I, b: &'a std::collections::BTreeSet<T>) -> bool {
    loop {
        match it.nx() {
            Some(x) => {
                if b.contains(x) {
                    return false;
                }
            }
            None => return true,
        }
    }
}
pub fn set_is_subset<'a, T: Ord, I: It<Item = &'a T>>(mut it: I, b: &'a std::collections::BTreeSet<T>) -> bool {
    loop {
        match it.nx() {
            Some(x) => {
                if !b.contains(x) {
                    return false;
                }
            }
            None => return true,
        }
    }
}

// positive examples for the zero-expected rules (self tests) -----------------
pub mod examples {
    pub fn unguarded_index(v: &[u8], i: usize) -> u8 {
        v[i]
    }
    pub fn guarded_index(v: &[u8], i: usize) -> u8 {
        if i < v.len() {
            v[i]
        } else {
            0
        }
    }
    pub fn unguarded_add(a: u16) -> u16 {
        a + 1
    }
    pub fn unbounded_alloc(n: usize) -> Vec<u8> {
        Vec::with_capacity(n)
    }
    pub fn bounded_alloc(n: usize) -> Option<Vec<u8>> {
        if n > 1024 {
            return None;
        }
        Some(Vec::with_capacity(n))
    }
    pub fn unwrap_opt(o: Option<u8>) -> u8 {
        o.unwrap()
    }
    pub fn loop_sum_index(v: &[u8]) -> u8 {
        let mut i = 0;
        let mut r = 0;
        while i < v.len() {
            r ^= v[i];
            i += 1;
        }
        r
    }
    pub fn parse(data: &[u8]) -> Result<Vec<[u8; 32]>, ()> {
        let mut pos = 0usize;
        if data.len() < 4 {
            return Err(());
        }
        let n = u32::from_be_bytes(data[0..4].try_into().map_err(|_| ())?) as usize;
        pos += 4;
        let mut out = vec![];
        for _ in 0..n {
            if pos + 32 > data.len() {
                return Err(());
            }
            out.push(data[pos..pos + 32].try_into().unwrap());
            pos += 32;
        }
        if pos != data.len() {
            return Err(());
        }
        Ok(out)
    }
    pub fn guard_any(v: &[(u16, Vec<u8>)], count: u16) -> Result<usize, ()> {
        if v.iter().any(|(p, _)| *p >= count) {
            return Err(());
        }
        Ok(v.len())
    }
    pub fn guard_loop(v: &[(u16, Vec<u8>)], count: u16) -> Result<usize, ()> {
        for (p, _) in v {
            if *p >= count {
                return Err(());
            }
        }
        Ok(v.len())
    }
    pub fn guard_while(v: &[(u16, Vec<u8>)], count: u16) -> Result<usize, ()> {
        let mut i = 0;
        while i < v.len() {
            let ok = v[i].0 < count;
            if !ok {
                return Err(());
            }
            i += 1;
        }
        Ok(v.len())
    }
    pub fn guard_off_by_one(v: &[(u16, Vec<u8>)], count: u16) -> Result<usize, ()> {
        for (p, _) in v {
            if *p > count {
                return Err(());
            }
        }
        Ok(v.len())
    }
}
