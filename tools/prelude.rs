#![allow(dead_code, unused_imports, unused_macros)]
use std::{fmt, error};
use std::cell::RefCell;
use std::rc::Rc;
use triangulate::{Polygon, PolygonList, PolygonElement, FanFormat, FanBuilder, ListFormat, ListBuilder, Fan, Fans, List, TriangleWinding, TriangulationError, TrapezoidationError, Trapezoidation, Vertex};
use triangulate::formats::*;

#[derive(Debug, Clone, PartialEq)]
pub struct E(pub u32);
impl fmt::Display for E { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "E{}", self.0) } }
impl error::Error for E { }

/// What a builder was told to do
#[derive(Debug, Clone, PartialEq)]
pub enum Ev<I> { Init(I, I, I), New(I, I, I), Ext(I), Build, Fail(String) }

/// Records every step; step number `fail_at` (0 = initialize) returns E(step)
pub struct Rec<I> { pub log: Rc<RefCell<Vec<Ev<I>>>>, pub fail_at: Option<usize>, n: usize }
impl<I> Rec<I> {
    pub fn new(fail_at: Option<usize>) -> (Self, Rc<RefCell<Vec<Ev<I>>>>) {
        let log = Rc::new(RefCell::new(Vec::new()));
        (Rec { log: log.clone(), fail_at, n: 0 }, log)
    }
    fn step(&mut self, e: Ev<I>) -> Result<(), E> {
        self.log.borrow_mut().push(e);
        let n = self.n;
        self.n += 1;
        if self.fail_at == Some(n) { Err(E(n as u32)) } else { Ok(()) }
    }
}
impl<'p, P: PolygonList<'p> + ?Sized> FanFormat<'p, P> for Rec<P::Index> {
    type Builder = Self;
    fn initialize(mut self, _p: &'p P, a: P::Index, b: P::Index, c: P::Index) -> Result<Self, E> { self.step(Ev::Init(a, b, c))?; Ok(self) }
}
impl<'p, P: PolygonList<'p> + ?Sized> FanBuilder<'p, P> for Rec<P::Index> {
    type Output = ();
    type Error = E;
    fn new_fan(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), E> { self.step(Ev::New(a, b, c)) }
    fn extend_fan(&mut self, a: P::Index) -> Result<(), E> { self.step(Ev::Ext(a)) }
    fn build(mut self) -> Result<(), E> { self.step(Ev::Build) }
    fn fail(self, e: &TriangulationError<E>) { self.log.borrow_mut().push(Ev::Fail(format!("{}", e).lines().next().unwrap_or("").to_string())); }
}

/// Small deterministic generator
pub struct Lcg(pub u64);
impl Lcg { pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); self.0 >> 33 } 
           pub fn f(&mut self) -> f64 { self.next() as f64 / (1u64 << 31) as f64 } }

/// A star-shaped polygon with n vertices, clockwise or counter-clockwise
pub fn starry(n: usize, seed: u64) -> Vec<[f64; 2]> {
    let mut r = Lcg(seed * 7919 + 13);
    r.next();
    (0..n).map(|i| { let a = (i as f64 + 0.3 * r.f()) / n as f64 * std::f64::consts::TAU; let d = 1. + 9. * r.f(); [d * a.cos(), d * a.sin()] }).collect()
}
pub fn area2(a: [f64; 2], b: [f64; 2], c: [f64; 2]) -> f64 { (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]) }
pub fn poly_area2(p: &[[f64; 2]]) -> f64 { (0..p.len()).map(|i| { let (a, b) = (p[i], p[(i + 1) % p.len()]); a[0] * b[1] - a[1] * b[0] }).sum() }
/// The fans of a log as lists
pub fn fans<I: Clone>(log: &[Ev<I>]) -> Vec<Vec<I>> {
    let mut v: Vec<Vec<I>> = Vec::new();
    for e in log { match e { Ev::Init(a, b, c) | Ev::New(a, b, c) => v.push(vec![a.clone(), b.clone(), c.clone()]), Ev::Ext(a) => v.last_mut().unwrap().push(a.clone()), _ => {} } }
    v
}
pub fn tris<I: Clone>(f: &[Vec<I>]) -> Vec<[I; 3]> { f.iter().flat_map(|f| (1..f.len() - 1).map(move |i| [f[0].clone(), f[i].clone(), f[i + 1].clone()])).collect() }

/// Triangulate, reversing the format's winding if asked; Some(step) is the builder error
pub fn run<'p, P: Polygon<'p, Vertex = [f64; 2], Index = usize>>(p: &'p P, rev: bool, fail_at: Option<usize>) -> (Result<(), TriangulationError<E>>, Vec<Ev<usize>>) {
    let (f, log) = Rec::<usize>::new(fail_at);
    let r = if rev { p.triangulate(reversed(p.as_polygon_list(), f)) } else { p.triangulate(f) };
    let l = log.borrow().clone();
    (r, l)
}
pub fn reversed<'p, P: PolygonList<'p> + ?Sized, F: FanFormat<'p, P>>(_: &P, f: F) -> formats_alias::Reverse<'p, P, F> { f.reverse_winding() }
pub mod formats_alias { pub type Reverse<'p, P, F> = triangulate::formats::ReverseFanFormat<'p, P, F>; }
