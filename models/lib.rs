//! Library semantics written as ordinary Rust, so that the abstract interpreter sees e.g.
//! `it.map(f).collect()` and a hand-written loop with `push` as the same program.
//! Never executed: only its MIR is read.
#![allow(clippy::all, unused)]

pub fn option_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn option_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn option_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn option_or<T>(o: Option<T>, p: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => p } }
pub fn option_and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> { match o { Some(_) => p, None => None } }
pub fn option_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn option_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn option_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn option_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn option_unwrap_or_default<T: Default>(o: Option<T>) -> T { match o { Some(x) => x, None => T::default() } }
pub fn option_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None } }
pub fn option_is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn option_is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn option_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn option_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn option_flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn option_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> { match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
pub fn option_zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> { match o { Some(x) => match p { Some(y) => Some((x, y)), None => None }, None => None } }
pub fn option_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => { f(&x); Some(x) } None => None } }

pub fn result_map<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn result_map_err<T, E, U, F: FnOnce(E) -> U>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn result_map_or<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U { match o { Ok(x) => f(x), Err(_) => d } }
pub fn result_map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(o: Result<T, E>, d: D, f: F) -> U { match o { Ok(x) => f(x), Err(e) => d(e) } }
pub fn result_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn result_or_else<T, E, U, F: FnOnce(E) -> Result<T, U>>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => f(e) } }
pub fn result_and<T, U, E>(o: Result<T, E>, p: Result<U, E>) -> Result<U, E> { match o { Ok(_) => p, Err(e) => Err(e) } }
pub fn result_or<T, U, E>(o: Result<T, E>, p: Result<T, U>) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(_) => p } }
pub fn result_ok<T, E>(o: Result<T, E>) -> Option<T> { match o { Ok(x) => Some(x), Err(_) => None } }
pub fn result_err<T, E>(o: Result<T, E>) -> Option<E> { match o { Ok(_) => None, Err(e) => Some(e) } }
pub fn result_unwrap_or<T, E>(o: Result<T, E>, d: T) -> T { match o { Ok(x) => x, Err(_) => d } }
pub fn result_unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T { match o { Ok(x) => x, Err(e) => f(e) } }
pub fn result_unwrap_or_default<T: Default, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => T::default() } }
pub fn result_is_ok<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => true, Err(_) => false } }
pub fn result_is_err<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => false, Err(_) => true } }
pub fn result_is_ok_and<T, E, F: FnOnce(T) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(x) => f(x), Err(_) => false } }
pub fn result_is_err_and<T, E, F: FnOnce(E) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(_) => false, Err(e) => f(e) } }
pub fn result_transpose<T, E>(o: Result<Option<T>, E>) -> Option<Result<T, E>> { match o { Ok(Some(x)) => Some(Ok(x)), Ok(None) => None, Err(e) => Some(Err(e)) } }
pub fn result_flatten<T, E>(o: Result<Result<T, E>, E>) -> Result<T, E> { match o { Ok(x) => x, Err(e) => Err(e) } }
pub fn result_inspect_err<T, E, F: FnOnce(&E)>(o: Result<T, E>, f: F) -> Result<T, E> { match o { Ok(x) => Ok(x), Err(e) => { f(&e); Err(e) } } }
pub fn result_inspect<T, E, F: FnOnce(&T)>(o: Result<T, E>, f: F) -> Result<T, E> { match o { Ok(x) => { f(&x); Ok(x) } Err(e) => Err(e) } }

pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool_then_some<T>(b: bool, t: T) -> Option<T> { if b { Some(t) } else { None } }

// ---- lazy adaptors -------------------------------------------------------------------------
pub struct MapM<I, F> { pub it: I, pub f: F }
pub fn mk_map<I, F>(it: I, f: F) -> MapM<I, F> { MapM { it, f } }
pub fn next_map<I: Iterator, B, F: FnMut(I::Item) -> B>(s: &mut MapM<I, F>) -> Option<B> { match s.it.next() { Some(x) => Some((s.f)(x)), None => None } }
pub struct FilterM<I, F> { pub it: I, pub f: F }
pub fn mk_filter<I, F>(it: I, f: F) -> FilterM<I, F> { FilterM { it, f } }
pub fn next_filter<I: Iterator, F: FnMut(&I::Item) -> bool>(s: &mut FilterM<I, F>) -> Option<I::Item> { loop { match s.it.next() { Some(x) => if (s.f)(&x) { return Some(x) }, None => return None } } }
pub struct FilterMapM<I, F> { pub it: I, pub f: F }
pub fn mk_filter_map<I, F>(it: I, f: F) -> FilterMapM<I, F> { FilterMapM { it, f } }
pub fn next_filter_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(s: &mut FilterMapM<I, F>) -> Option<B> { loop { match s.it.next() { Some(x) => if let Some(y) = (s.f)(x) { return Some(y) }, None => return None } } }
pub struct ChainM<A, B> { pub a: Option<A>, pub b: B }
pub fn mk_chain<A, B>(a: A, b: B) -> ChainM<A, B> { ChainM { a: Some(a), b } }
pub fn next_chain<A: Iterator, B: Iterator<Item = A::Item>>(s: &mut ChainM<A, B>) -> Option<A::Item> {
    if let Some(a) = &mut s.a { match a.next() { Some(x) => return Some(x), None => s.a = None } }
    s.b.next()
}
pub struct ZipM<A, B> { pub a: A, pub b: B }
pub fn mk_zip<A, B>(a: A, b: B) -> ZipM<A, B> { ZipM { a, b } }
pub fn next_zip<A: Iterator, B: Iterator>(s: &mut ZipM<A, B>) -> Option<(A::Item, B::Item)> { match s.a.next() { Some(x) => match s.b.next() { Some(y) => Some((x, y)), None => None }, None => None } }
pub struct EnumerateM<A> { pub a: A, pub n: usize }
pub fn mk_enumerate<A>(a: A) -> EnumerateM<A> { EnumerateM { a, n: 0 } }
pub fn next_enumerate<A: Iterator>(s: &mut EnumerateM<A>) -> Option<(usize, A::Item)> { match s.a.next() { Some(x) => { let n = s.n; s.n = n + 1; Some((n, x)) } None => None } }
pub struct PeekM<A: Iterator> { pub a: A, pub p: Option<Option<A::Item>> }
pub fn mk_peekable<A: Iterator>(a: A) -> PeekM<A> { PeekM { a, p: None } }
pub fn next_peekable<A: Iterator>(s: &mut PeekM<A>) -> Option<A::Item> { match s.p.take() { Some(x) => x, None => s.a.next() } }
pub fn peek_peekable<A: Iterator>(s: &mut PeekM<A>) -> Option<A::Item> where A::Item: Copy { match s.p { Some(x) => x, None => { let x = s.a.next(); s.p = Some(x); x } } }
pub struct OnceM<T> { pub v: Option<T> }
pub fn mk_once<T>(v: T) -> OnceM<T> { OnceM { v: Some(v) } }
pub fn next_once<T>(s: &mut OnceM<T>) -> Option<T> { s.v.take() }
pub struct FlatMapM<I, F, J> { pub it: I, pub f: F, pub cur: Option<J> }
pub fn mk_flat_map<I, F, J>(it: I, f: F) -> FlatMapM<I, F, J> { FlatMapM { it, f, cur: None } }
pub fn next_flat_map<I: Iterator, J: Iterator, F: FnMut(I::Item) -> J>(s: &mut FlatMapM<I, F, J>) -> Option<J::Item> {
    loop {
        if let Some(c) = &mut s.cur { match c.next() { Some(x) => return Some(x), None => s.cur = None } }
        match s.it.next() { Some(x) => s.cur = Some((s.f)(x)), None => return None }
    }
}
pub struct FlattenM<I, J> { pub it: I, pub cur: Option<J> }
pub fn mk_flatten<I, J>(it: I) -> FlattenM<I, J> { FlattenM { it, cur: None } }
pub fn next_flatten<I: Iterator<Item = J>, J: Iterator>(s: &mut FlattenM<I, J>) -> Option<J::Item> {
    loop {
        if let Some(c) = &mut s.cur { match c.next() { Some(x) => return Some(x), None => s.cur = None } }
        match s.it.next() { Some(x) => s.cur = Some(x), None => return None }
    }
}
pub struct SkipM<I> { pub it: I, pub n: usize }
pub fn next_skip<I: Iterator>(s: &mut SkipM<I>) -> Option<I::Item> { while s.n > 0 { s.n -= 1; match s.it.next() { Some(_) => {} None => return None } } s.it.next() }
pub struct TakeM<I> { pub it: I, pub n: usize }
pub fn next_take<I: Iterator>(s: &mut TakeM<I>) -> Option<I::Item> { if s.n == 0 { None } else { s.n -= 1; s.it.next() } }
pub struct RepeatM<T> { pub x: T }
pub fn mk_repeat<T>(x: T) -> RepeatM<T> { RepeatM { x } }
pub fn next_repeat<T: Clone>(s: &mut RepeatM<T>) -> Option<T> { Some(s.x.clone()) }
pub struct RepeatNM<T> { pub x: T, pub it: std::ops::Range<usize> }
pub fn mk_repeat_n<T>(x: T, n: usize) -> RepeatNM<T> { RepeatNM { x, it: 0..n } }
pub fn next_repeat_n<T: Clone>(s: &mut RepeatNM<T>) -> Option<T> { match s.it.next() { Some(_) => Some(s.x.clone()), None => None } }
pub fn vec_from_elem<T: Clone>(x: T, n: usize) -> Vec<T> { let mut v = Vec::new(); let mut it = 0..n; loop { match it.next() { Some(_) => v.push(x.clone()), None => return v } } }
pub struct TakeWhileM<I, F> { pub it: I, pub f: F }
pub fn mk_take_while<I, F>(it: I, f: F) -> TakeWhileM<I, F> { TakeWhileM { it, f } }
pub fn next_take_while<I: Iterator, F: FnMut(&I::Item) -> bool>(s: &mut TakeWhileM<I, F>) -> Option<I::Item> { match s.it.next() { Some(x) => if (s.f)(&x) { Some(x) } else { None }, None => None } }
pub struct InspectM<I, F> { pub it: I, pub f: F }
pub fn mk_inspect<I, F>(it: I, f: F) -> InspectM<I, F> { InspectM { it, f } }
pub fn next_inspect<I: Iterator, F: FnMut(&I::Item)>(s: &mut InspectM<I, F>) -> Option<I::Item> { match s.it.next() { Some(x) => { (s.f)(&x); Some(x) } None => None } }
pub struct FromFnM<F> { pub f: F }
pub fn mk_from_fn<F>(f: F) -> FromFnM<F> { FromFnM { f } }
pub fn next_from_fn<T, F: FnMut() -> Option<T>>(s: &mut FromFnM<F>) -> Option<T> { (s.f)() }
pub struct SuccM<T, F> { pub v: Option<T>, pub f: F }
pub fn mk_successors<T, F>(v: Option<T>, f: F) -> SuccM<T, F> { SuccM { v, f } }
pub fn next_successors<T: Copy, F: FnMut(&T) -> Option<T>>(s: &mut SuccM<T, F>) -> Option<T> { match s.v { Some(x) => { s.v = (s.f)(&x); Some(x) } None => None } }

// ---- consumers -----------------------------------------------------------------------------
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) { loop { match it.next() { Some(x) => f(x), None => return } } }
pub fn iter_try_for_each<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(mut it: I, mut f: F) -> Result<(), E> { loop { match it.next() { Some(x) => match f(x) { Ok(()) => {} Err(e) => return Err(e) }, None => return Ok(()) } } }
pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, b: B, mut f: F) -> B { let mut acc = b; loop { match it.next() { Some(x) => acc = f(acc, x), None => return acc } } }
pub fn iter_try_fold<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(mut it: I, b: B, mut f: F) -> Result<B, E> { let mut acc = b; loop { match it.next() { Some(x) => match f(acc, x) { Ok(v) => acc = v, Err(e) => return Err(e) }, None => return Ok(acc) } } }
pub fn iter_reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> { match it.next() { None => None, Some(a) => { let mut acc = a; loop { match it.next() { Some(x) => acc = f(acc, x), None => return Some(acc) } } } } }
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { loop { match it.next() { Some(x) => if f(x) { return true }, None => return false } } }
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { loop { match it.next() { Some(x) => if !f(x) { return false }, None => return true } } }
pub fn iter_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> { loop { match it.next() { Some(x) => if f(&x) { return Some(x) }, None => return None } } }
pub fn iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> { loop { match it.next() { Some(x) => if let Some(y) = f(x) { return Some(y) }, None => return None } } }
pub fn iter_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> { let mut n = 0; loop { match it.next() { Some(x) => { if f(x) { return Some(n) } n += 1; } None => return None } } }
pub fn iter_last<I: Iterator>(mut it: I) -> Option<I::Item> { let mut l = None; loop { match it.next() { Some(x) => l = Some(x), None => return l } } }
pub fn iter_collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> { let mut v = Vec::new(); loop { match it.next() { Some(x) => v.push(x), None => return v } } }
pub fn iter_collect_string<I: Iterator<Item = &'static str>>(mut it: I) -> String { let mut v = String::new(); loop { match it.next() { Some(x) => v.push_str(x), None => return v } } }
pub fn iter_collect_result<I: Iterator<Item = Result<T, E>>, T, E>(mut it: I) -> Result<Vec<T>, E> { let mut v = Vec::new(); loop { match it.next() { Some(Ok(x)) => v.push(x), Some(Err(e)) => return Err(e), None => return Ok(v) } } }
pub fn iter_collect_option<I: Iterator<Item = Option<T>>, T>(mut it: I) -> Option<Vec<T>> { let mut v = Vec::new(); loop { match it.next() { Some(Some(x)) => v.push(x), Some(None) => return None, None => return Some(v) } } }
pub fn list_freeze<T>(v: Vec<T>) -> Vec<T> { v }
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, it: impl Iterator<Item = T>, mut f: F) { let mut it = it; let mut k = Vec::new(); loop { match it.next() { Some(x) => if f(&x) { k.push(x) }, None => { *v = list_freeze(k); return } } } }
pub fn vec_extend<I: Iterator>(v: &mut Vec<I::Item>, mut it: I) { loop { match it.next() { Some(x) => v.push(x), None => return } } }
pub fn string_extend<I: Iterator<Item = &'static str>>(v: &mut String, mut it: I) { loop { match it.next() { Some(x) => v.push_str(x), None => return } } }
pub fn iter_unzip<A, B, I: Iterator<Item = (A, B)>>(mut it: I) -> (Vec<A>, Vec<B>) { let mut a = Vec::new(); let mut b = Vec::new(); loop { match it.next() { Some((x, y)) => { a.push(x); b.push(y) } None => return (a, b) } } }
pub fn iter_partition<I: Iterator, F: FnMut(&I::Item) -> bool>(mut it: I, mut f: F) -> (Vec<I::Item>, Vec<I::Item>) { let mut a = Vec::new(); let mut b = Vec::new(); loop { match it.next() { Some(x) => if f(&x) { a.push(x) } else { b.push(x) }, None => return (a, b) } } }

// ---- fallible-iterator ---------------------------------------------------------------------
pub trait FIter { type Item; type Error; fn fnext(&mut self) -> Result<Option<Self::Item>, Self::Error>; }
pub struct FMapM<I, F> { pub it: I, pub f: F }
pub fn mk_fmap<I, F>(it: I, f: F) -> FMapM<I, F> { FMapM { it, f } }
pub fn fnext_fmap<I: FIter, B, F: FnMut(I::Item) -> Result<B, I::Error>>(s: &mut FMapM<I, F>) -> Result<Option<B>, I::Error> { match s.it.fnext() { Ok(Some(x)) => match (s.f)(x) { Ok(y) => Ok(Some(y)), Err(e) => Err(e) }, Ok(None) => Ok(None), Err(e) => Err(e) } }
pub fn fiter_collect<I: FIter>(mut it: I) -> Result<Vec<I::Item>, I::Error> { let mut v = Vec::new(); loop { match it.fnext() { Ok(Some(x)) => v.push(x), Ok(None) => return Ok(v), Err(e) => return Err(e) } } }
pub fn fiter_nth<I: FIter>(it: &mut I, n: usize) -> Result<Option<I::Item>, I::Error> { let mut i = 0; loop { match it.fnext() { Ok(Some(x)) => { if i == n { return Ok(Some(x)); } i += 1; } Ok(None) => return Ok(None), Err(e) => return Err(e) } } }
pub fn fiter_last<I: FIter>(mut it: I) -> Result<Option<I::Item>, I::Error> { let mut l = None; loop { match it.fnext() { Ok(Some(x)) => l = Some(x), Ok(None) => return Ok(l), Err(e) => return Err(e) } } }
pub fn fiter_fold<I: FIter, B, F: FnMut(B, I::Item) -> Result<B, I::Error>>(mut it: I, init: B, mut f: F) -> Result<B, I::Error> { let mut acc = init; loop { match it.fnext() { Ok(Some(x)) => match f(acc, x) { Ok(b) => acc = b, Err(e) => return Err(e) }, Ok(None) => return Ok(acc), Err(e) => return Err(e) } } }
pub struct FFilterM<I, F> { pub it: I, pub f: F }
pub fn mk_ffilter<I, F>(it: I, f: F) -> FFilterM<I, F> { FFilterM { it, f } }
pub fn fnext_ffilter<I: FIter, F: FnMut(&I::Item) -> Result<bool, I::Error>>(s: &mut FFilterM<I, F>) -> Result<Option<I::Item>, I::Error> { loop { match s.it.fnext() { Ok(Some(x)) => match (s.f)(&x) { Ok(true) => return Ok(Some(x)), Ok(false) => {} Err(e) => return Err(e) }, Ok(None) => return Ok(None), Err(e) => return Err(e) } } }
pub fn fiter_for_each<I: FIter, F: FnMut(I::Item) -> Result<(), I::Error>>(mut it: I, mut f: F) -> Result<(), I::Error> { loop { match it.fnext() { Ok(Some(x)) => match f(x) { Ok(()) => {} Err(e) => return Err(e) }, Ok(None) => return Ok(()), Err(e) => return Err(e) } } }

// ---- OnceLock -------------------------------------------------------------------------------
pub fn once_get_or_init<T, F: FnOnce() -> T>(s: &std::sync::OnceLock<T>, f: F) -> &T { match s.get() { Some(x) => x, None => { let v = f(); let _ = s.set(v); match s.get() { Some(x) => x, None => panic!() } } } }
