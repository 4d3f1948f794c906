//! Most-general clients of the public interface. Never executed: the analyses read their type-checked form.
//! Methods of `Script` have no body; the analyses give them meaning (arbitrary choices, markers).
#![allow(dead_code, clippy::all)]
use triangulate::formats::*;
use triangulate::*;

pub enum Step<E> {
    Fan,
    Extend,
    Build,
    Abort(E),
}

/// Arbitrary choices of the environment, and markers telling the analysis what was asked
pub trait Script<I> {
    fn index(&mut self) -> I;
    fn next<E>(&mut self) -> Step<E>;
    fn fan(&mut self, a: &I, b: &I, c: &I);
    fn extend(&mut self, v: &I);
    fn ok(&mut self);
    fn failed<E>(&mut self, e: &E);
    fn built<O>(&mut self, o: O);
    fn done(&mut self);
}

/// Any sequence of builder steps: initialise, then fans and extensions in any number and order, then build or fail
pub fn drive<'p, P: PolygonList<'p> + ?Sized, F: FanFormat<'p, P>, S: Script<P::Index>>(f: F, p: &'p P, s: &mut S) {
    let (a, b, c) = (s.index(), s.index(), s.index());
    s.fan(&a, &b, &c);
    let mut fb = match f.initialize(p, a, b, c) {
        Ok(fb) => {
            s.ok();
            fb
        }
        Err(e) => {
            s.failed(&e);
            s.done();
            return;
        }
    };
    loop {
        match s.next::<TriangulationError<<F::Builder as FanBuilder<'p, P>>::Error>>() {
            Step::Fan => {
                let (a, b, c) = (s.index(), s.index(), s.index());
                s.fan(&a, &b, &c);
                match fb.new_fan(a, b, c) {
                    Ok(()) => s.ok(),
                    Err(e) => {
                        s.failed(&e);
                        fb.fail(&TriangulationError::FanBuilder(e));
                        break;
                    }
                }
            }
            Step::Extend => {
                let a = s.index();
                s.extend(&a);
                match fb.extend_fan(a) {
                    Ok(()) => s.ok(),
                    Err(e) => {
                        s.failed(&e);
                        fb.fail(&TriangulationError::FanBuilder(e));
                        break;
                    }
                }
            }
            Step::Build => {
                match fb.build() {
                    Ok(o) => s.built(o),
                    Err(e) => s.failed(&e),
                }
                break;
            }
            Step::Abort(e) => {
                s.failed(&e);
                fb.fail(&e);
                break;
            }
        }
    }
    s.done();
}

pub fn indexed_list<'p, P: PolygonList<'p> + ?Sized, L: List<P::Index>, S: Script<P::Index>>(p: &'p P, l: &mut L, s: &mut S) {
    drive(IndexedListFormat::new(l).into_fan_format(), p, s)
}
pub fn deindexed_list<'p, P: PolygonList<'p> + ?Sized, L: List<P::Vertex>, S: Script<P::Index>>(p: &'p P, l: &mut L, s: &mut S)
where P::Vertex: Clone {
    drive(DeindexedListFormat::new(l).into_fan_format(), p, s)
}
pub fn indexed_fans<'p, P: PolygonList<'p> + ?Sized, FS: Fans, S: Script<P::Index>>(p: &'p P, l: &mut FS, s: &mut S)
where FS::Fan: Fan<P::Index> {
    drive(IndexedFanFormat::new(l), p, s)
}
pub fn deindexed_fans<'p, P: PolygonList<'p> + ?Sized, FS: Fans, S: Script<P::Index>>(p: &'p P, l: &mut FS, s: &mut S)
where FS::Fan: Fan<P::Vertex>, P::Vertex: Clone {
    drive(DeindexedFanFormat::new(l), p, s)
}
pub fn delimited_fans<'p, P: PolygonList<'p> + ?Sized, FS: Fans<Fan = P::Index>, S: Script<P::Index>>(p: &'p P, l: &mut FS, d: P::Index, s: &mut S) {
    drive(DelimitedFanFormat::new(l, d), p, s)
}

// ---------------------------------------------------------------- the container traits on every provided type
macro_rules! list_ops {
    ($m:ident, [$($g:tt)*], $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn push<$($g)*>(l: &mut $t, a: V, b: V, c: V) { <$t as List<V>>::push(l, a, b, c) }
            pub fn len<$($g)*>(l: &$t) -> usize { <$t as List<V>>::len(l) }
            pub fn truncate<$($g)*>(l: &mut $t, n: usize) { <$t as List<V>>::truncate(l, n) }
            pub fn is_empty<$($g)*>(l: &$t) -> bool { <$t as List<V>>::is_empty(l) }
        }
    };
}
list_ops!(list_flat, [V], Vec<V>);
list_ops!(list_array, [V], Vec<[V; 3]>);
list_ops!(list_tuple, [V], Vec<(V, V, V)>);
list_ops!(list_ref, ['a, V, L: List<V>], &'a mut L);
list_ops!(list_ref_flat, ['a, V], &'a mut Vec<V>);

macro_rules! fans_ops {
    ($m:ident, [$($g:tt)*], $f:ty, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn push<$($g)*>(l: &mut $t, f: $f) { <$t as Fans>::push(l, f) }
            pub fn len<$($g)*>(l: &$t) -> usize { <$t as Fans>::len(l) }
            pub fn truncate<$($g)*>(l: &mut $t, n: usize) { <$t as Fans>::truncate(l, n) }
            pub fn is_empty<$($g)*>(l: &$t) -> bool { <$t as Fans>::is_empty(l) }
        }
    };
}
fans_ops!(fans_vec, [F], F, Vec<F>);
fans_ops!(fans_ref, ['a, FS: Fans], FS::Fan, &'a mut FS);

pub mod fan_vec {
    use super::*;
    pub fn new<V>(a: V, b: V, c: V) -> Vec<V> { <Vec<V> as Fan<V>>::new(a, b, c) }
    pub fn push<V>(l: &mut Vec<V>, a: V) { <Vec<V> as Fan<V>>::push(l, a) }
}

// ---------------------------------------------------------------- adapters around any format
pub fn reversed<'p, P: PolygonList<'p> + ?Sized, F: FanFormat<'p, P>, S: Script<P::Index>>(f: F, p: &'p P, s: &mut S) {
    drive(Wrap(f).reverse_winding(), p, s)
}
pub fn plain<'p, P: PolygonList<'p> + ?Sized, F: FanFormat<'p, P>, S: Script<P::Index>>(f: F, p: &'p P, s: &mut S) {
    drive(f, p, s)
}
pub fn reversed_twice<'p, P: PolygonList<'p> + ?Sized, F: FanFormat<'p, P>, S: Script<P::Index>>(f: F, p: &'p P, s: &mut S) {
    drive(Wrap(f).reverse_winding().reverse_winding(), p, s)
}
/// any format, not overriding the provided methods
pub struct Wrap<F>(F);
impl<'p, P: PolygonList<'p> + ?Sized, F: FanFormat<'p, P>> FanFormat<'p, P> for Wrap<F> {
    type Builder = F::Builder;
    fn initialize(self, p: &'p P, a: P::Index, b: P::Index, c: P::Index) -> Result<Self::Builder, <Self::Builder as FanBuilder<'p, P>>::Error> {
        self.0.initialize(p, a, b, c)
    }
}

pub type Bld<'p, P, F> = <F as FanFormat<'p, P>>::Builder;
pub type LBld<'p, P, F> = <F as ListFormat<'p, P>>::Builder;

/// builders that declare nothing
pub struct NoDecl;
impl<'p, P: PolygonList<'p> + ?Sized> FanBuilder<'p, P> for NoDecl {
    type Output = ();
    type Error = std::convert::Infallible;
    fn new_fan(&mut self, _: P::Index, _: P::Index, _: P::Index) -> Result<(), Self::Error> { Ok(()) }
    fn extend_fan(&mut self, _: P::Index) -> Result<(), Self::Error> { Ok(()) }
    fn build(self) -> Result<(), Self::Error> { Ok(()) }
    fn fail(self, _: &TriangulationError<Self::Error>) {}
}
pub struct NoDeclList;
impl<'p, P: PolygonList<'p> + ?Sized> ListBuilder<'p, P> for NoDeclList {
    type Output = ();
    type Error = std::convert::Infallible;
    fn add_triangle(&mut self, _: P::Index, _: P::Index, _: P::Index) -> Result<(), Self::Error> { Ok(()) }
    fn build(self) -> Result<(), Self::Error> { Ok(()) }
    fn fail(self, _: &TriangulationError<Self::Error>) {}
}

/// (asked for by the adapter, declared by the wrapped builder)
pub fn winding_reversed<'p, P: PolygonList<'p> + ?Sized, F: FanFormat<'p, P>>() -> (TriangleWinding, TriangleWinding) {
    (<Bld<'p, P, ReverseFanFormat<'p, P, F>> as FanBuilder<'p, P>>::WINDING, <F::Builder as FanBuilder<'p, P>>::WINDING)
}
pub fn winding_twice<'p, P: PolygonList<'p> + ?Sized, F: FanFormat<'p, P>>() -> (TriangleWinding, TriangleWinding) {
    (<Bld<'p, P, ReverseFanFormat<'p, P, ReverseFanFormat<'p, P, F>>> as FanBuilder<'p, P>>::WINDING, <F::Builder as FanBuilder<'p, P>>::WINDING)
}
pub fn winding_listed<'p, P: PolygonList<'p> + ?Sized, F: ListFormat<'p, P>>() -> (TriangleWinding, TriangleWinding) {
    (<Bld<'p, P, FanToListFormat<'p, P, F>> as FanBuilder<'p, P>>::WINDING, <F::Builder as ListBuilder<'p, P>>::WINDING)
}
pub fn winding_default<'p, P: PolygonList<'p> + ?Sized>() -> (TriangleWinding, TriangleWinding) {
    (<NoDecl as FanBuilder<'p, P>>::WINDING, <NoDeclList as ListBuilder<'p, P>>::WINDING)
}
/// the provided formats
pub fn winding_provided<'p, P: PolygonList<'p> + ?Sized, L: List<P::Index>, LV: List<P::Vertex>, FS: Fans, FV: Fans, FD: Fans<Fan = P::Index>>() -> [TriangleWinding; 5]
where FS::Fan: Fan<P::Index>, FV::Fan: Fan<P::Vertex>, P::Vertex: Clone {
    [
        <LBld<'p, P, IndexedListFormat<'p, P, L>> as ListBuilder<'p, P>>::WINDING,
        <LBld<'p, P, DeindexedListFormat<'p, P, LV>> as ListBuilder<'p, P>>::WINDING,
        <Bld<'p, P, IndexedFanFormat<'p, P, FS>> as FanBuilder<'p, P>>::WINDING,
        <Bld<'p, P, DeindexedFanFormat<'p, P, FV>> as FanBuilder<'p, P>>::WINDING,
        <Bld<'p, P, DelimitedFanFormat<'p, P, FD>> as FanBuilder<'p, P>>::WINDING,
    ]
}

// ---------------------------------------------------------------- enumeration of polygon lists
/// What a client sees when it enumerates a polygon list
pub trait Seen<I> {
    fn vertex(&mut self, i: &I);
    fn looked<V: ?Sized>(&mut self, v: &V);
    fn boundary(&mut self);
    fn end(&mut self);
    fn choose<T>(&mut self) -> T;
    fn converted<T>(&mut self, v: T);
}

pub fn walk<'p, P: PolygonList<'p> + ?Sized, S: Seen<P::Index>>(p: &'p P, s: &mut S) {
    let mut it = p.iter_indices();
    loop {
        match it.next() {
            Some(e) => match e.into() {
                PolygonElement::ContinuePolygon(i) => {
                    s.vertex(&i);
                    s.looked(p.get_vertex(i));
                }
                PolygonElement::NewPolygon => s.boundary(),
            },
            None => {
                s.end();
                break;
            }
        }
    }
}
pub fn walk_polygon<'p, P: Polygon<'p>, S: Seen<P::Index>>(p: &'p P, s: &mut S) {
    let mut it = p.iter_indices();
    loop {
        match it.next() {
            Some(i) => {
                s.vertex(&i);
                s.looked(p.get_vertex(i));
            }
            None => {
                s.end();
                break;
            }
        }
    }
}

pub mod lists {
    use super::*;
    use std::ops::Deref;
    /// any polygons with integer indices in any kind of vector or slice
    pub fn nested<'p, V: Vertex + 'p, Q: Polygon<'p, Vertex = V, Index = usize> + 'p, D: Deref<Target = [Q]> + 'p, S: Seen<[usize; 2]>>(p: &'p D, s: &mut S) {
        walk(p, s)
    }
    pub fn nested_count<'p, V: Vertex + 'p, Q: Polygon<'p, Vertex = V, Index = usize> + 'p, D: Deref<Target = [Q]> + 'p>(p: &'p D) -> usize {
        PolygonList::vertex_count(p)
    }
    pub fn nested_get<'p, V: Vertex + 'p, Q: Polygon<'p, Vertex = V, Index = usize> + 'p, D: Deref<Target = [Q]> + 'p>(p: &'p D, i: usize, j: usize) -> &'p V {
        PolygonList::get_vertex(p, [i, j])
    }
    /// vertices in any kind of vector or slice
    pub fn flat<'p, V: Vertex + 'p, D: Deref<Target = [V]> + 'p, S: Seen<usize>>(p: &'p D, s: &mut S) {
        walk_polygon(p, s)
    }
    pub fn flat_count<'p, V: Vertex + 'p, D: Deref<Target = [V]> + 'p>(p: &'p D) -> usize {
        Polygon::vertex_count(p)
    }
    pub fn flat_get<'p, V: Vertex + 'p, D: Deref<Target = [V]> + 'p>(p: &'p D, i: usize) -> &'p V {
        Polygon::get_vertex(p, i)
    }
    /// any polygon, not overriding the provided methods
    pub struct Any<Q>(pub Q);
    impl<'p, Q: Polygon<'p>> Polygon<'p> for Any<Q> {
        type Vertex = Q::Vertex;
        type Index = Q::Index;
        type Iter<'i> = Q::Iter<'i> where Self: 'i, Self::Vertex: 'i, 'p: 'i;
        fn vertex_count(&self) -> usize { self.0.vertex_count() }
        fn iter_indices<'i>(&'i self) -> Self::Iter<'i> where Self: 'i, Self::Vertex: 'i, 'p: 'i { self.0.iter_indices() }
        fn get_vertex(&self, index: Self::Index) -> &Self::Vertex { self.0.get_vertex(index) }
    }
    /// any polygon as a list
    pub fn single<'p, Q: Polygon<'p>, S: Seen<Q::Index>>(p: &'p Any<Q>, s: &mut S) {
        walk(p.as_polygon_list(), s)
    }
    pub fn single_count<'p, Q: Polygon<'p>>(p: &'p Any<Q>) -> usize {
        PolygonList::vertex_count(p.as_polygon_list())
    }
    pub fn single_get<'p, Q: Polygon<'p>>(p: &'p Any<Q>, i: Q::Index) -> &'p Q::Vertex {
        PolygonList::get_vertex(p.as_polygon_list(), i)
    }
    pub fn from_index<I: VertexIndex>(i: I) -> PolygonElement<I> {
        PolygonElement::from(i)
    }
    pub fn from_option<I: VertexIndex>(i: Option<I>) -> PolygonElement<I> {
        PolygonElement::from(i)
    }
}

// ---------------------------------------------------------------- substituted index types
/// any polygon list, not overriding the provided methods
pub struct AnyList<P>(pub P);
impl<'p, P: PolygonList<'p>> PolygonList<'p> for AnyList<P> {
    type Vertex = P::Vertex;
    type Index = P::Index;
    type IntoItem = P::IntoItem;
    type Iter<'i> = P::Iter<'i> where Self: 'i, Self::Vertex: 'i, 'p: 'i;
    fn vertex_count(&self) -> usize { self.0.vertex_count() }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i> where Self: 'i, Self::Vertex: 'i, 'p: 'i { self.0.iter_indices() }
    fn get_vertex<'a>(&'a self, index: Self::Index) -> &'a Self::Vertex where 'p: 'a { self.0.get_vertex(index) }
}
macro_rules! indexed {
    ($m:ident, [$($g:tt)*], $shape:ty, $new:ty) => {
        pub mod $m {
            use super::*;
            pub fn iterate<'p, Old: TryInto<New> + VertexIndex + 'p, New: TryInto<Old> + VertexIndex + 'p, P: PolygonList<'p, Index = $shape>, S: Seen<$new>>(p: AnyList<P>, s: &mut S) {
                let q = PolygonList::index_with::<Old, New>(p);
                let mut it = PolygonList::iter_indices(&q);
                loop {
                    match it.next() {
                        Some(e) => match e {
                            PolygonElement::ContinuePolygon(i) => s.converted(i),
                            PolygonElement::NewPolygon => s.boundary(),
                        },
                        None => {
                            s.end();
                            break;
                        }
                    }
                }
            }
            pub fn count<'p, Old: TryInto<New> + VertexIndex + 'p, New: TryInto<Old> + VertexIndex + 'p, P: PolygonList<'p, Index = $shape>>(p: AnyList<P>) -> usize {
                PolygonList::vertex_count(&PolygonList::index_with::<Old, New>(p))
            }
            pub fn get<'p, Old: TryInto<New> + VertexIndex + 'p, New: TryInto<Old> + VertexIndex + 'p, P: PolygonList<'p, Index = $shape>, S: Seen<$new>>(p: AnyList<P>, i: $new, s: &mut S) {
                let q = PolygonList::index_with::<Old, New>(p);
                s.looked(PolygonList::get_vertex(&q, i));
            }
        }
    };
}
indexed!(index_scalar, [], Old, New);
indexed!(index_array1, [], [Old; 1], [New; 1]);
indexed!(index_array2, [], [Old; 2], [New; 2]);
indexed!(index_array3, [], [Old; 3], [New; 3]);
indexed!(index_pair, [], (Old, Old), (New, New));
indexed!(index_triple, [], (Old, Old, Old), (New, New, New));
indexed!(index_vec, [], Vec<Old>, Vec<New>);

pub mod index_polygon {
    use super::*;
    pub fn iterate<'p, New: TryInto<Q::Index> + VertexIndex + Clone + 'p, Q: Polygon<'p>, S: Seen<New>>(p: lists::Any<Q>, s: &mut S)
    where Q::Index: TryInto<New> {
        let q = Polygon::index_with::<New>(p);
        let mut it = PolygonList::iter_indices(&q);
        loop {
            match it.next() {
                Some(e) => match e {
                    PolygonElement::ContinuePolygon(i) => s.converted(i),
                    PolygonElement::NewPolygon => s.boundary(),
                },
                None => {
                    s.end();
                    break;
                }
            }
        }
    }
}

// ---------------------------------------------------------------- any items a polygon list may enumerate
pub trait Items<I> {
    fn take() -> Option<PolygonElement<I>>
    where I: VertexIndex;
}
pub struct Feed<I, S>(std::marker::PhantomData<(I, S)>);
impl<I: VertexIndex, S: Items<I>> Iterator for Feed<I, S> {
    type Item = PolygonElement<I>;
    fn next(&mut self) -> Option<PolygonElement<I>> { S::take() }
}
pub struct FeedList<P, S>(pub P, pub std::marker::PhantomData<S>);
impl<'p, P: PolygonList<'p>, S: Items<P::Index> + 'p> PolygonList<'p> for FeedList<P, S> {
    type Vertex = P::Vertex;
    type Index = P::Index;
    type IntoItem = PolygonElement<P::Index>;
    type Iter<'i> = Feed<P::Index, S> where Self: 'i, Self::Vertex: 'i, 'p: 'i;
    fn vertex_count(&self) -> usize { self.0.vertex_count() }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i> where Self: 'i, Self::Vertex: 'i, 'p: 'i { Feed(std::marker::PhantomData) }
    fn get_vertex<'a>(&'a self, index: Self::Index) -> &'a Self::Vertex where 'p: 'a { self.0.get_vertex(index) }
}
pub fn trapezoidize<'p, P: PolygonList<'p>, S: Items<P::Index> + 'p>(p: &'p FeedList<P, S>) -> Result<(), TrapezoidationError> {
    match p.trapezoidize() {
        Ok(_) => Ok(()),
        Err(e) => Err(e),
    }
}
