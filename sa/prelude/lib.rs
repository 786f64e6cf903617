//! Models of the std functions the analysed crate uses, written in plain Rust so that the same
//! abstract interpreter can look through them.  Module and function names give the key
//! `Type::method` / `Trait::method` under which a call is looked up; the generics are listed in
//! the order std uses.  Never executed.
#![allow(non_snake_case, dead_code, unused, clippy::all)]

/// by-value read of a place (the interpreter gives it its meaning)
pub fn sa_read<T>(_x: &T) -> T { loop {} }

pub mod ad {
    use super::sa_read;
    pub struct SliceIter<'a, T> { pub s: &'a [T], pub i: usize, pub j: usize }
    impl<'a, T> Iterator for SliceIter<'a, T> {
        type Item = &'a T;
        fn next(&mut self) -> Option<&'a T> {
            if self.i < self.j { let k = self.i; self.i = k + 1; Some(&self.s[k]) } else { None }
        }
    }
    impl<'a, T> DoubleEndedIterator for SliceIter<'a, T> {
        fn next_back(&mut self) -> Option<&'a T> {
            if self.i < self.j { self.j = self.j - 1; Some(&self.s[self.j]) } else { None }
        }
    }
    pub struct SliceIterMut<T> { pub s: *mut [T], pub i: usize, pub j: usize }
    impl<T: 'static> Iterator for SliceIterMut<T> {
        type Item = &'static mut T;
        fn next(&mut self) -> Option<&'static mut T> {
            if self.i < self.j { let k = self.i; self.i = k + 1; unsafe { Some(&mut (&mut *self.s)[k]) } } else { None }
        }
    }
    impl<T: 'static> DoubleEndedIterator for SliceIterMut<T> {
        fn next_back(&mut self) -> Option<&'static mut T> {
            if self.i < self.j { self.j = self.j - 1; unsafe { Some(&mut (&mut *self.s)[self.j]) } } else { None }
        }
    }
    pub struct VecIntoIter<T> { pub v: Vec<T>, pub i: usize, pub j: usize }
    impl<T> Iterator for VecIntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            if self.i < self.j { let k = self.i; self.i = k + 1; Some(sa_read(&self.v[k])) } else { None }
        }
    }
    impl<T> DoubleEndedIterator for VecIntoIter<T> {
        fn next_back(&mut self) -> Option<T> {
            if self.i < self.j { self.j = self.j - 1; Some(sa_read(&self.v[self.j])) } else { None }
        }
    }
    pub struct OptIter<T> { pub o: Option<T> }
    impl<T> Iterator for OptIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> { match sa_read(&self.o) { Some(x) => { self.o = None; Some(x) } None => None } }
    }
    pub struct Map<I, F> { pub it: I, pub f: F }
    impl<B, I: Iterator, F: FnMut(I::Item) -> B> Iterator for Map<I, F> {
        type Item = B;
        fn next(&mut self) -> Option<B> { match self.it.next() { Some(x) => Some((self.f)(x)), None => None } }
    }
    impl<B, I: DoubleEndedIterator, F: FnMut(I::Item) -> B> DoubleEndedIterator for Map<I, F> {
        fn next_back(&mut self) -> Option<B> { match self.it.next_back() { Some(x) => Some((self.f)(x)), None => None } }
    }
    pub struct Filter<I, F> { pub it: I, pub f: F }
    impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for Filter<I, F> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            loop { match self.it.next() { Some(x) => { if (self.f)(&x) { return Some(x); } } None => return None } }
        }
    }
    impl<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool> DoubleEndedIterator for Filter<I, F> {
        fn next_back(&mut self) -> Option<I::Item> {
            loop { match self.it.next_back() { Some(x) => { if (self.f)(&x) { return Some(x); } } None => return None } }
        }
    }
    pub struct FilterMap<I, F> { pub it: I, pub f: F }
    impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> {
        type Item = B;
        fn next(&mut self) -> Option<B> {
            loop { match self.it.next() { Some(x) => { if let Some(y) = (self.f)(x) { return Some(y); } } None => return None } }
        }
    }
    pub struct Enumerate<I> { pub it: I, pub n: usize }
    impl<I: Iterator> Iterator for Enumerate<I> {
        type Item = (usize, I::Item);
        fn next(&mut self) -> Option<(usize, I::Item)> {
            match self.it.next() { Some(x) => { let k = self.n; self.n = k + 1; Some((k, x)) } None => None }
        }
    }
    pub struct Rev<I> { pub it: I }
    impl<I: DoubleEndedIterator> Iterator for Rev<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> { self.it.next_back() }
    }
    impl<I: DoubleEndedIterator> DoubleEndedIterator for Rev<I> {
        fn next_back(&mut self) -> Option<I::Item> { self.it.next() }
    }
    pub struct Zip<A, B> { pub a: A, pub b: B }
    impl<A: Iterator, B: Iterator> Iterator for Zip<A, B> {
        type Item = (A::Item, B::Item);
        fn next(&mut self) -> Option<(A::Item, B::Item)> {
            match self.a.next() { Some(x) => match self.b.next() { Some(y) => Some((x, y)), None => None }, None => None }
        }
    }
    pub struct Take<I> { pub it: I, pub n: usize }
    impl<I: Iterator> Iterator for Take<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> { if self.n > 0 { self.n = self.n - 1; self.it.next() } else { None } }
    }
    pub struct Skip<I> { pub it: I, pub n: usize }
    impl<I: Iterator> Iterator for Skip<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            while self.n > 0 { self.n = self.n - 1; if let None = self.it.next() { return None; } }
            self.it.next()
        }
    }
    pub struct StepBy<I> { pub it: I, pub step: usize, pub first: bool }
    impl<I: Iterator> Iterator for StepBy<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            if self.first { self.first = false; self.it.next() } else {
                let mut k = 1;
                while k < self.step { if let None = self.it.next() { return None; } k = k + 1; }
                self.it.next()
            }
        }
    }
    pub struct Chain<A, B> { pub a: A, pub b: B, pub in_b: bool }
    impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for Chain<A, B> {
        type Item = A::Item;
        fn next(&mut self) -> Option<A::Item> {
            if !self.in_b { match self.a.next() { Some(x) => return Some(x), None => { self.in_b = true; } } }
            self.b.next()
        }
    }
    pub struct Copied<I> { pub it: I }
    impl<'a, T: 'a, I: Iterator<Item = &'a T>> Iterator for Copied<I> {
        type Item = T;
        fn next(&mut self) -> Option<T> { match self.it.next() { Some(x) => Some(sa_read(x)), None => None } }
    }
    impl<'a, T: 'a, I: DoubleEndedIterator<Item = &'a T>> DoubleEndedIterator for Copied<I> {
        fn next_back(&mut self) -> Option<T> { match self.it.next_back() { Some(x) => Some(sa_read(x)), None => None } }
    }
    pub struct TakeWhile<I, F> { pub it: I, pub f: F, pub done: bool }
    impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, F> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            if self.done { return None; }
            match self.it.next() { Some(x) => if (self.f)(&x) { Some(x) } else { self.done = true; None }, None => None }
        }
    }
    pub struct SkipWhile<I, F> { pub it: I, pub f: F, pub started: bool }
    impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for SkipWhile<I, F> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            if self.started { return self.it.next(); }
            loop { match self.it.next() { Some(x) => if !(self.f)(&x) { self.started = true; return Some(x); }, None => return None } }
        }
    }
    pub struct Fuse<I> { pub it: I, pub done: bool }
    impl<I: Iterator> Iterator for Fuse<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            if self.done { return None; }
            match self.it.next() { Some(x) => Some(x), None => { self.done = true; None } }
        }
    }
    pub struct MapWhile<I, F> { pub it: I, pub f: F }
    impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for MapWhile<I, F> {
        type Item = B;
        fn next(&mut self) -> Option<B> { match self.it.next() { Some(x) => (self.f)(x), None => None } }
    }
    pub struct Inspect<I, F> { pub it: I, pub f: F }
    impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> { match self.it.next() { Some(x) => { (self.f)(&x); Some(x) } None => None } }
    }
    pub struct Scan<I, S, F> { pub it: I, pub s: S, pub f: F }
    impl<B, I: Iterator, S, F: FnMut(&mut S, I::Item) -> Option<B>> Iterator for Scan<I, S, F> {
        type Item = B;
        fn next(&mut self) -> Option<B> { match self.it.next() { Some(x) => (self.f)(&mut self.s, x), None => None } }
    }
    pub struct Flatten<I, U> { pub it: I, pub cur: Option<U> }
    impl<U: Iterator, I: Iterator> Iterator for Flatten<I, U> where I::Item: IntoIterator<IntoIter = U, Item = U::Item> {
        type Item = U::Item;
        fn next(&mut self) -> Option<U::Item> {
            loop {
                match &mut self.cur {
                    Some(c) => match c.next() { Some(x) => return Some(x), None => { self.cur = None; } },
                    None => match self.it.next() { Some(u) => { self.cur = Some(u.into_iter()); } None => return None },
                }
            }
        }
    }
    pub struct Successors<T, F> { pub cur: Option<T>, pub f: F }
    impl<T, F: FnMut(&T) -> Option<T>> Iterator for Successors<T, F> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            match sa_read(&self.cur) { Some(x) => { self.cur = (self.f)(&x); Some(x) } None => None }
        }
    }
    pub struct FromFn<F> { pub f: F }
    impl<T, F: FnMut() -> Option<T>> Iterator for FromFn<F> {
        type Item = T;
        fn next(&mut self) -> Option<T> { (self.f)() }
    }
}

pub mod iter {
    use super::ad;
    pub fn successors<T, F: FnMut(&T) -> Option<T>>(first: Option<T>, f: F) -> ad::Successors<T, F> { ad::Successors { cur: first, f } }
    pub fn from_fn<T, F: FnMut() -> Option<T>>(f: F) -> ad::FromFn<F> { ad::FromFn { f } }
    pub fn once<T>(x: T) -> ad::OptIter<T> { ad::OptIter { o: Some(x) } }
    pub fn empty<T>() -> ad::OptIter<T> { ad::OptIter { o: None } }
}
pub mod successors { pub use super::iter::successors; }

pub mod Iterator_ {}
pub mod Iterator {
    use super::ad;
    use std::iter::Iterator as It;
    pub fn map<S: It, B, F: FnMut(S::Item) -> B>(s: S, f: F) -> ad::Map<S, F> { ad::Map { it: s, f } }
    pub fn filter<S: It, P: FnMut(&S::Item) -> bool>(s: S, f: P) -> ad::Filter<S, P> { ad::Filter { it: s, f } }
    pub fn filter_map<S: It, B, F: FnMut(S::Item) -> Option<B>>(s: S, f: F) -> ad::FilterMap<S, F> { ad::FilterMap { it: s, f } }
    pub fn enumerate<S: It>(s: S) -> ad::Enumerate<S> { ad::Enumerate { it: s, n: 0 } }
    pub fn rev<S: It + DoubleEndedIterator>(s: S) -> ad::Rev<S> { ad::Rev { it: s } }
    pub fn zip<S: It, U: IntoIterator>(s: S, u: U) -> ad::Zip<S, U::IntoIter> { ad::Zip { a: s, b: u.into_iter() } }
    pub fn take<S: It>(s: S, n: usize) -> ad::Take<S> { ad::Take { it: s, n } }
    pub fn skip<S: It>(s: S, n: usize) -> ad::Skip<S> { ad::Skip { it: s, n } }
    pub fn chain<S: It, U: IntoIterator<Item = S::Item>>(s: S, u: U) -> ad::Chain<S, U::IntoIter> { ad::Chain { a: s, b: u.into_iter(), in_b: false } }
    pub fn copied<'a, S: It<Item = &'a T>, T: 'a>(s: S) -> ad::Copied<S> { ad::Copied { it: s } }
    pub fn cloned<'a, S: It<Item = &'a T>, T: 'a>(s: S) -> ad::Copied<S> { ad::Copied { it: s } }
    pub fn step_by<S: It>(s: S, step: usize) -> ad::StepBy<S> { ad::StepBy { it: s, step, first: true } }
    pub fn take_while<S: It, P: FnMut(&S::Item) -> bool>(s: S, f: P) -> ad::TakeWhile<S, P> { ad::TakeWhile { it: s, f, done: false } }
    pub fn skip_while<S: It, P: FnMut(&S::Item) -> bool>(s: S, f: P) -> ad::SkipWhile<S, P> { ad::SkipWhile { it: s, f, started: false } }
    pub fn fuse<S: It>(s: S) -> ad::Fuse<S> { ad::Fuse { it: s, done: false } }
    pub fn map_while<S: It, B, P: FnMut(S::Item) -> Option<B>>(s: S, f: P) -> ad::MapWhile<S, P> { ad::MapWhile { it: s, f } }
    pub fn inspect<S: It, F: FnMut(&S::Item)>(s: S, f: F) -> ad::Inspect<S, F> { ad::Inspect { it: s, f } }
    pub fn scan<S: It, St, B, F: FnMut(&mut St, S::Item) -> Option<B>>(s: S, i: St, f: F) -> ad::Scan<S, St, F> { ad::Scan { it: s, s: i, f } }
    pub fn flatten<S: It>(s: S) -> ad::Flatten<S, <S::Item as IntoIterator>::IntoIter> where S::Item: IntoIterator { ad::Flatten { it: s, cur: None } }
    pub fn flat_map<S: It, U: IntoIterator, F: FnMut(S::Item) -> U>(s: S, f: F) -> ad::Flatten<ad::Map<S, F>, U::IntoIter> { ad::Flatten { it: ad::Map { it: s, f }, cur: None } }
    pub fn reduce<S: It, F: FnMut(S::Item, S::Item) -> S::Item>(mut s: S, mut f: F) -> Option<S::Item> {
        match s.next() { None => None, Some(x) => { let mut a = x; while let Some(y) = s.next() { a = f(a, y); } Some(a) } }
    }
    pub fn by_ref<S: It>(s: &mut S) -> &mut S { s }
    pub fn for_each<S: It, F: FnMut(S::Item)>(mut s: S, mut f: F) { while let Some(x) = s.next() { f(x) } }
    pub fn fold<S: It, B, F: FnMut(B, S::Item) -> B>(mut s: S, init: B, mut f: F) -> B {
        let mut acc = init;
        while let Some(x) = s.next() { acc = f(acc, x); }
        acc
    }
    pub fn all<S: It, F: FnMut(S::Item) -> bool>(s: &mut S, mut f: F) -> bool {
        while let Some(x) = s.next() { if !f(x) { return false; } }
        true
    }
    pub fn any<S: It, F: FnMut(S::Item) -> bool>(s: &mut S, mut f: F) -> bool {
        while let Some(x) = s.next() { if f(x) { return true; } }
        false
    }
    pub fn find<S: It, P: FnMut(&S::Item) -> bool>(s: &mut S, mut f: P) -> Option<S::Item> {
        while let Some(x) = s.next() { if f(&x) { return Some(x); } }
        None
    }
    pub fn find_map<S: It, B, F: FnMut(S::Item) -> Option<B>>(s: &mut S, mut f: F) -> Option<B> {
        while let Some(x) = s.next() { if let Some(y) = f(x) { return Some(y); } }
        None
    }
    pub fn position<S: It, P: FnMut(S::Item) -> bool>(s: &mut S, mut f: P) -> Option<usize> {
        let mut k = 0;
        while let Some(x) = s.next() { if f(x) { return Some(k); } k += 1; }
        None
    }
    pub fn count<S: It>(mut s: S) -> usize { let mut k = 0; while let Some(_) = s.next() { k += 1; } k }
    pub fn last<S: It>(mut s: S) -> Option<S::Item> { let mut r = None; while let Some(x) = s.next() { r = Some(x); } r }
    pub fn nth<S: It>(s: &mut S, mut n: usize) -> Option<S::Item> {
        while n > 0 { if let None = s.next() { return None; } n -= 1; }
        s.next()
    }
    pub fn sum_model<S: It, X: std::ops::Add<S::Item, Output = X>>(mut s: S, z: X) -> X { let mut a = z; while let Some(x) = s.next() { a = a + x; } a }
    pub fn product_model<S: It, X: std::ops::Mul<S::Item, Output = X>>(mut s: S, z: X) -> X { let mut a = z; while let Some(x) = s.next() { a = a * x; } a }
    pub fn max_model<S: It>(mut s: S) -> Option<S::Item> where S::Item: PartialOrd { match s.next() { None => None, Some(x) => { let mut b = x; while let Some(y) = s.next() { if !(y < b) { b = y; } } Some(b) } } }
    pub fn min_model<S: It>(mut s: S) -> Option<S::Item> where S::Item: PartialOrd { match s.next() { None => None, Some(x) => { let mut b = x; while let Some(y) = s.next() { if y < b { b = y; } } Some(b) } } }
    pub fn collect_vec<S: It, B>(mut s: S) -> Vec<S::Item> { let mut v = Vec::new(); while let Some(x) = s.next() { v.push(x); } v }
    pub fn try_for_each<S: It, F: FnMut(S::Item) -> R, R>(s: &mut S, f: F) -> R { loop {} }
}
pub mod DoubleEndedIterator {
    use std::iter::DoubleEndedIterator as De;
    pub fn rfold<S: De, B, F: FnMut(B, S::Item) -> B>(mut s: S, init: B, mut f: F) -> B {
        let mut acc = init;
        while let Some(x) = s.next_back() { acc = f(acc, x); }
        acc
    }
    pub fn rfind<S: De, P: FnMut(&S::Item) -> bool>(s: &mut S, mut f: P) -> Option<S::Item> {
        while let Some(x) = s.next_back() { if f(&x) { return Some(x); } }
        None
    }
}
pub mod Extend {
    pub fn extend<T>(v: &mut Vec<T>, it: impl IntoIterator<Item = T>) { let mut s = it.into_iter(); while let Some(x) = s.next() { v.push(x); } }
}

pub mod Option {
    use std::option::Option as O;
    pub fn is_some<T>(x: &O<T>) -> bool { match x { Some(_) => true, None => false } }
    pub fn is_none<T>(x: &O<T>) -> bool { match x { Some(_) => false, None => true } }
    pub fn is_some_and<T>(x: O<T>, f: impl FnOnce(T) -> bool) -> bool { match x { Some(v) => f(v), None => false } }
    pub fn is_none_or<T>(x: O<T>, f: impl FnOnce(T) -> bool) -> bool { match x { Some(v) => f(v), None => true } }
    pub fn unwrap<T>(x: O<T>) -> T { match x { Some(v) => v, None => panic!("unwrap on None") } }
    pub fn expect<T>(x: O<T>, _m: &str) -> T { match x { Some(v) => v, None => panic!("expect on None") } }
    pub fn unwrap_or<T>(x: O<T>, d: T) -> T { match x { Some(v) => v, None => d } }
    pub fn unwrap_or_else<T, F: FnOnce() -> T>(x: O<T>, f: F) -> T { match x { Some(v) => v, None => f() } }
    pub fn unwrap_or_default<T: Default>(x: O<T>) -> T { match x { Some(v) => v, None => T::default() } }
    pub fn map<T, U, F: FnOnce(T) -> U>(x: O<T>, f: F) -> O<U> { match x { Some(v) => Some(f(v)), None => None } }
    pub fn map_or<T, U, F: FnOnce(T) -> U>(x: O<T>, d: U, f: F) -> U { match x { Some(v) => f(v), None => d } }
    pub fn map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(x: O<T>, d: D, f: F) -> U { match x { Some(v) => f(v), None => d() } }
    pub fn and_then<T, U, F: FnOnce(T) -> O<U>>(x: O<T>, f: F) -> O<U> { match x { Some(v) => f(v), None => None } }
    pub fn or<T>(x: O<T>, y: O<T>) -> O<T> { match x { Some(v) => Some(v), None => y } }
    pub fn or_else<T, F: FnOnce() -> O<T>>(x: O<T>, f: F) -> O<T> { match x { Some(v) => Some(v), None => f() } }
    pub fn filter<T, P: FnOnce(&T) -> bool>(x: O<T>, f: P) -> O<T> { match x { Some(v) => if f(&v) { Some(v) } else { None }, None => None } }
    pub fn as_ref<T>(x: &O<T>) -> O<&T> { match x { Some(v) => Some(v), None => None } }
    pub fn as_mut<T>(x: &mut O<T>) -> O<&mut T> { match x { Some(v) => Some(v), None => None } }
    pub fn copied<T: Copy>(x: O<&T>) -> O<T> { match x { Some(v) => Some(super::sa_read(v)), None => None } }
    pub fn cloned<T>(x: O<&T>) -> O<T> { match x { Some(v) => Some(super::sa_read(v)), None => None } }
    pub fn take<T>(x: &mut O<T>) -> O<T> { let r = super::sa_read(x); *x = None; r }
    pub fn replace<T>(x: &mut O<T>, v: T) -> O<T> { let r = super::sa_read(x); *x = Some(v); r }
    pub fn insert<T>(x: &mut O<T>, v: T) { *x = Some(v); }
    pub fn ok_or<T, E>(x: O<T>, e: E) -> Result<T, E> { match x { Some(v) => Ok(v), None => Err(e) } }
    pub fn into_iter<T>(x: O<T>) -> super::ad::OptIter<T> { super::ad::OptIter { o: x } }
    pub fn zip<T, U>(x: O<T>, y: O<U>) -> O<(T, U)> { match x { Some(a) => match y { Some(b) => Some((a, b)), None => None }, None => None } }
}
pub mod Result {
    use std::result::Result as R;
    pub fn unwrap<T, E>(x: R<T, E>) -> T { match x { Ok(v) => v, Err(_) => panic!("unwrap on Err") } }
    pub fn expect<T, E>(x: R<T, E>, _m: &str) -> T { match x { Ok(v) => v, Err(_) => panic!("expect on Err") } }
    pub fn ok<T, E>(x: R<T, E>) -> Option<T> { match x { Ok(v) => Some(v), Err(_) => None } }
    pub fn err<T, E>(x: R<T, E>) -> Option<E> { match x { Ok(_) => None, Err(e) => Some(e) } }
    pub fn is_ok<T, E>(x: &R<T, E>) -> bool { match x { Ok(_) => true, Err(_) => false } }
    pub fn is_err<T, E>(x: &R<T, E>) -> bool { match x { Ok(_) => false, Err(_) => true } }
    pub fn map<T, E, U, F: FnOnce(T) -> U>(x: R<T, E>, f: F) -> R<U, E> { match x { Ok(v) => Ok(f(v)), Err(e) => Err(e) } }
    pub fn map_err<T, E, F, O: FnOnce(E) -> F>(x: R<T, E>, f: O) -> R<T, F> { match x { Ok(v) => Ok(v), Err(e) => Err(f(e)) } }
    pub fn unwrap_or<T, E>(x: R<T, E>, d: T) -> T { match x { Ok(v) => v, Err(_) => d } }
    pub fn unwrap_or_else<T, E, F: FnOnce(E) -> T>(x: R<T, E>, f: F) -> T { match x { Ok(v) => v, Err(e) => f(e) } }
    pub fn unwrap_or_default<T: Default, E>(x: R<T, E>) -> T { match x { Ok(v) => v, Err(_) => T::default() } }
    pub fn and_then<T, E, U, F: FnOnce(T) -> R<U, E>>(x: R<T, E>, f: F) -> R<U, E> { match x { Ok(v) => f(v), Err(e) => Err(e) } }
}
pub mod Ord {
    pub fn min<S: PartialOrd>(a: S, b: S) -> S { if b < a { b } else { a } }
    pub fn max<S: PartialOrd>(a: S, b: S) -> S { if b < a { a } else { b } }
    pub fn clamp<S: PartialOrd>(a: S, lo: S, hi: S) -> S { if a < lo { lo } else if a > hi { hi } else { a } }
}
pub mod cmp {
    pub fn min<S: PartialOrd>(a: S, b: S) -> S { if b < a { b } else { a } }
    pub fn max<S: PartialOrd>(a: S, b: S) -> S { if b < a { a } else { b } }
}
pub mod Ordering {
    use std::cmp::Ordering as Or;
    pub fn reverse(o: Or) -> Or { match o { Or::Less => Or::Greater, Or::Equal => Or::Equal, Or::Greater => Or::Less } }
    pub fn is_lt(o: Or) -> bool { match o { Or::Less => true, _ => false } }
    pub fn is_le(o: Or) -> bool { match o { Or::Greater => false, _ => true } }
    pub fn is_gt(o: Or) -> bool { match o { Or::Greater => true, _ => false } }
    pub fn is_ge(o: Or) -> bool { match o { Or::Less => false, _ => true } }
    pub fn is_eq(o: Or) -> bool { match o { Or::Equal => true, _ => false } }
    pub fn is_ne(o: Or) -> bool { match o { Or::Equal => false, _ => true } }
}
pub mod slice {
    pub fn first<T>(s: &[T]) -> Option<&T> { if s.len() > 0 { Some(&s[0]) } else { None } }
    pub fn last<T>(s: &[T]) -> Option<&T> { if s.len() > 0 { Some(&s[s.len() - 1]) } else { None } }
    pub fn first_mut<T>(s: &mut [T]) -> Option<&mut T> { if s.len() > 0 { Some(&mut s[0]) } else { None } }
    pub fn last_mut<T>(s: &mut [T]) -> Option<&mut T> { let n = s.len(); if n > 0 { Some(&mut s[n - 1]) } else { None } }
    pub fn iter_model<T>(s: &[T]) -> super::ad::SliceIter<'_, T> { super::ad::SliceIter { i: 0, j: s.len(), s } }
    pub fn iter_mut_model<T>(s: &mut [T]) -> super::ad::SliceIterMut<T> { let j = s.len(); super::ad::SliceIterMut { i: 0, j, s: s as *mut [T] } }
    pub fn vec_into_iter<T>(v: Vec<T>) -> super::ad::VecIntoIter<T> { let j = v.len(); super::ad::VecIntoIter { v, i: 0, j } }
    pub fn contains<T: PartialEq>(s: &[T], x: &T) -> bool { let mut i = 0; while i < s.len() { if s[i] == *x { return true; } i += 1; } false }
}
pub mod Try {
    use std::ops::ControlFlow;
    pub fn branch_option<T>(x: Option<T>) -> ControlFlow<Option<std::convert::Infallible>, T> { match x { Some(v) => ControlFlow::Continue(v), None => ControlFlow::Break(None) } }
    pub fn branch_result<T, E>(x: Result<T, E>) -> ControlFlow<Result<std::convert::Infallible, E>, T> { match x { Ok(v) => ControlFlow::Continue(v), Err(e) => ControlFlow::Break(Err(e)) } }
}
pub mod FromResidual {
    pub fn from_residual_option<T>(_x: Option<std::convert::Infallible>) -> Option<T> { None }
    pub fn from_residual_result<T, E>(x: Result<std::convert::Infallible, E>) -> Result<T, E> { match x { Err(e) => Err(e), Ok(_) => loop {} } }
}
pub mod bool {
    pub fn then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
    pub fn then_some<T>(b: bool, x: T) -> Option<T> { if b { Some(x) } else { None } }
}
pub mod RangeInclusive {
}
