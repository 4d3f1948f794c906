//! What some iterator methods of std do, written plainly: the analyses interpret these bodies in place of std's
//! specialised ones (same type arguments, same order). Never executed.
#![allow(clippy::all)]

pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}

pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}

pub fn collect_vec<I: Iterator, C>(mut it: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}

pub fn extend_vec<T, A, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}

pub fn sum<I: Iterator<Item = usize>, S>(mut it: I) -> usize {
    let mut acc = 0;
    while let Some(x) = it.next() {
        acc += x;
    }
    acc
}

pub fn count<I: Iterator>(mut it: I) -> usize {
    let mut acc = 0;
    while let Some(_) = it.next() {
        acc += 1;
    }
    acc
}

pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}

pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}

pub fn find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}

pub fn position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut n = 0;
    while let Some(x) = it.next() {
        if p(x) {
            return Some(n);
        }
        n += 1;
    }
    None
}

pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut l = None;
    while let Some(x) = it.next() {
        l = Some(x);
    }
    l
}

pub fn try_for_each<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() {
        f(x)?;
    }
    Ok(())
}

pub fn try_fold<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x)?;
    }
    Ok(acc)
}

/// `Chain` as (first, second), each dropped when exhausted
pub fn chain_next<A: Iterator, B: Iterator<Item = A::Item>>(a: &mut Option<A>, b: &mut Option<B>) -> Option<A::Item> {
    if let Some(x) = a {
        match x.next() {
            None => *a = None,
            y => return y,
        }
    }
    match b {
        Some(x) => x.next(),
        None => None,
    }
}

pub fn array_map<T, F: FnMut(T) -> U, U>(v: Vec<T>, mut f: F) -> Vec<U> {
    let mut out = Vec::new();
    let mut it = v.into_iter();
    while let Some(x) = it.next() {
        out.push(f(x));
    }
    out
}

pub fn nth<I: Iterator>(it: &mut I, mut n: usize) -> Option<I::Item> {
    loop {
        let x = it.next();
        if n == 0 {
            return x;
        }
        if let None = x {
            return None;
        }
        n -= 1;
    }
}

pub fn windows_next<'a, T>(v: &mut &'a [T], size: usize) -> Option<&'a [T]> {
    if size > v.len() {
        None
    } else {
        let r = &v[..size];
        *v = &v[1..];
        Some(r)
    }
}

pub fn chunks_next<'a, T>(v: &mut &'a [T], size: usize) -> Option<&'a [T]> {
    if v.len() == 0 {
        None
    } else {
        let n = if size < v.len() { size } else { v.len() };
        let r = &v[..n];
        *v = &v[n..];
        Some(r)
    }
}
