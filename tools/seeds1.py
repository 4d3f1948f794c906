S='src/'
O=S+'outputs/formats/'
SEEDS=[
dict(id='c01-root-kept', property='C01', needs='two consecutive fans where the second fan has the same first vertex position as the last extension of the first and is then extended',
  breaks='a new fan starting with (a,b,c) where b is the last vertex of the previous fan keeps the old root, so its extensions use a vertex of the previous fan',
  edits=[(O+'fan_to_list.rs','        self.vi0 = vi0.clone();\n','        if self.vi1 != vi1 {\n            self.vi0 = vi0.clone();\n        }\n')],
  demo=r'''
fn main() {
    // drive the adapter directly through the public builder interface
    let p = vec![[0f64, 0.], [1., 0.], [1., 1.]];
    let pl = p.as_polygon_list();
    let mut out = Vec::<[usize; 3]>::new();
    let f = IndexedListFormat::new(&mut out).into_fan_format();
    let mut b = f.initialize(pl, 0, 1, 2).unwrap();
    b.extend_fan(3).unwrap();
    b.new_fan(4, 3, 5).unwrap();
    b.extend_fan(6).unwrap();
    b.build().unwrap();
    assert_eq!(out, vec![[0, 1, 2], [0, 2, 3], [4, 3, 5], [4, 5, 6]]);
}
'''),
dict(id='c02-last-fan', property='C02', needs='a collection that is not empty and a triangulation made of a single fan',
  breaks='the only fan is not delivered when the collection already held fans',
  edits=[(O+'generic_fans.rs','        self.fans.push(self.current_fan);\n        self.fans','        if self.initial_fan_count == 0 || self.fans.len() > self.initial_fan_count {\n            self.fans.push(self.current_fan);\n        }\n        self.fans')],
  demo=r'''
fn main() {
    let p = vec![[0f64, 0.], [2., 1.], [1., 3.]];
    let mut out = vec![vec![7usize, 8, 9]];
    p.triangulate(IndexedFanFormat::new(&mut out)).unwrap();
    assert_eq!(out.len(), 2);
    assert_eq!(out[0], vec![7, 8, 9]);
    assert_eq!(out[1].len(), 3);
}
'''),
dict(id='c03-first-delim', property='C03', needs='a container holding exactly one element before the call',
  breaks='no delimiter is written between the earlier content and the first fan',
  edits=[(O+'delimited_fan.rs','if fans.len() > 0 {','if fans.len() > 1 {')],
  demo=r'''
fn main() {
    let p = vec![[0f64, 0.], [2., 1.], [1., 3.]];
    let mut out = vec![5usize];
    p.triangulate(DelimitedFanFormat::new(&mut out, 99)).unwrap();
    assert_eq!(&out[..2], &[5, 99]);
    assert_eq!(out.len(), 5);
}
'''),
dict(id='c04-stale-vertex', property='C04', needs='a triangle whose first index equals the last index of the triangle before it',
  breaks='the de-indexed list reuses a remembered vertex that belongs to another index',
  edits=[(O+'deindexed_list.rs','    list: GenericList<L, P::Vertex>,\n','    list: GenericList<L, P::Vertex>,\n    last: Option<(P::Index, P::Vertex)>,\n'),
         (O+'deindexed_list.rs','            list,\n            polygon_list,','            list,\n            last: None,\n            polygon_list,'),
         (O+'deindexed_list.rs','@@BODY@@','')],
  demo='fn main() {}'),
dict(id='c05-rollback-mark', property='C05', needs='a non-empty container and a triangulation that fails after the first triangle',
  breaks='the roll-back length is taken after the delimiter was written, so a failed call leaves an extra delimiter behind',
  edits=[(O+'delimited_fan.rs','        let initial_vert_count = fans.len();\n\n        if fans.len() > 0 {\n            fans.push(delimiter.clone());\n        }\n','        if fans.len() > 0 {\n            fans.push(delimiter.clone());\n        }\n\n        let initial_vert_count = fans.len();\n')],
  demo=r'''
fn main() {
    let p = starry(9, 3);
    let mut failed = 0;
    for d in 0..9usize {
        let mut out = vec![100usize, 101];
        let r = p.triangulate(DelimitedFanFormat::new(&mut out, d)).is_err();
        if r { failed += 1; assert_eq!(out, vec![100, 101]); }
    }
    assert!(failed > 5);
}
'''),
dict(id='c06-truncate-zero', property='C06', needs='truncating a borrowed collection of fans that was empty at first, i.e. to length zero',
  breaks='a mutable reference used as a fan collection ignores truncation to zero',
  edits=[(S+'outputs/fan.rs','        (**self).truncate(len)','        if len > 0 {\n            (**self).truncate(len)\n        }')],
  demo=r'''
fn main() {
    let mut v: Vec<Vec<u8>> = vec![vec![1, 2, 3], vec![4, 5, 6]];
    { let mut r = &mut v; Fans::truncate(&mut r, 1); }
    assert_eq!(v.len(), 1);
    { let mut r = &mut v; Fans::truncate(&mut r, 0); }
    assert_eq!(v.len(), 0);
}
'''),
dict(id='c07-step-after-failure', property='C07', needs='a builder error on a step of a deferred fan that is not its last one',
  breaks='after an extend step failed the builder receives further extend steps of the same fan',
  edits=[(S+'monotone.rs','''                    for i in 1..dt {
                        if let Err(e) = fb.extend_fan(self.deferred_index(is_backtracking, i)) {
                            return Err(e.into());
                        }
                    }
''','''                    let mut result = Ok(());
                    for i in 1..dt {
                        result = result.and(fb.extend_fan(self.deferred_index(is_backtracking, i)));
                    }
                    result?;
''')],
  demo=r'''
fn main() {
    for n in [6usize, 9, 14] { for seed in 0..12 {
        let p = starry(n, seed);
        for rev in [false, true] { for k in 0..2 * n {
            let (r, log) = run(&p, rev, Some(k));
            if let Err(TriangulationError::FanBuilder(E(m))) = r {
                let steps = log.iter().filter(|e| !matches!(e, Ev::Fail(_))).count();
                assert_eq!(m as usize, k);
                assert_eq!(steps, k + 1, "builder was used after it failed");
            }
        } }
    } }
}
'''),
dict(id='c07-fail-lost', property='C07', needs='a new_fan step failing in a builder whose fail is observed',
  breaks='a builder whose new_fan failed never receives fail',
  edits=[(S+'fan_builder_state.rs','''                    Err(err) => {
                        *self = Self::Error(Some(fb));''','''                    Err(err) => {
                        drop(fb);''')],
  demo='fn main() {}'),
dict(id='c08-deferred-swallow', property='C08', needs='an error on the second or later extension of a deferred fan',
  breaks='the error is dropped and the call goes on',
  edits=[(S+'monotone.rs','''                        if let Err(e) = fb.extend_fan(self.deferred_index(is_backtracking, i)) {
                            return Err(e.into());
                        }
''','''                        if let Err(e) = fb.extend_fan(self.deferred_index(is_backtracking, i)) {
                            if i == 1 {
                                return Err(e.into());
                            }
                            break;
                        }
''')],
  demo=r'''
fn main() {
    for n in [6usize, 9, 14] { for seed in 0..12 {
        let p = starry(n, seed);
        for rev in [false, true] { for k in 0..2 * n {
            let (r, log) = run(&p, rev, Some(k));
            let hit = log.len() > k;
            match r {
                Err(TriangulationError::FanBuilder(E(m))) => assert_eq!(m as usize, k),
                Ok(()) => assert!(!hit, "an error was swallowed"),
                Err(_) => panic!("another error"),
            }
        } }
    } }
}
'''),
dict(id='c09-swap-side', property='C09', needs='a clockwise builder and a backtracking fan on a chain on the left',
  breaks='a fan emitted at once for a clockwise builder starts with the wrong vertex',
  edits=[(S+'monotone.rs','                    if is_backtracking {\n                        std::mem::swap','                    if is_backtracking && !self.is_left_chain {\n                        std::mem::swap')],
  demo=r'''
fn main() {
    for n in [5usize, 6, 8, 12, 20] { for seed in 0..20 {
        let p = starry(n, seed);
        for rev in [false, true] {
            let (r, log) = run(&p, rev, None);
            r.unwrap();
            let mut total = 0.;
            for t in tris(&fans(&log)) {
                let a = area2(p[t[0]], p[t[1]], p[t[2]]);
                assert!(if rev { a < 0. } else { a > 0. }, "wrong winding");
                total += a.abs();
            }
            assert!((total - poly_area2(&p).abs()).abs() < 1e-6 * total);
        }
    } }
}
'''),
dict(id='c11-reverse-twice', property='C11', needs='reversing a format twice, or reversing a clockwise format',
  breaks='a reversed format always asks for clockwise triangles',
  edits=[(O+'reverse_fan.rs','FB::WINDING.reverse()','TriangleWinding::Clockwise')],
  demo=r'''
fn w<'p, P: PolygonList<'p> + ?Sized + 'p, F: FanFormat<'p, P>>(_: &F, _: &'p P) -> TriangleWinding { <F::Builder as FanBuilder<'p, P>>::WINDING }
fn main() {
    let p = vec![[0f64, 0.], [2., 1.], [1., 3.]];
    let pl = p.as_polygon_list();
    let f = Rec::<usize>::new(None).0;
    assert!(w(&f, pl) == TriangleWinding::Counterclockwise);
    let f = reversed(pl, f);
    assert!(w(&f, pl) == TriangleWinding::Clockwise);
    let f = reversed(pl, f);
    assert!(w(&f, pl) == TriangleWinding::Counterclockwise);
}
'''),
dict(id='c12-triple-order', property='C12', needs='an index type made of three components, substituted',
  breaks='the second and third component of the index change places',
  edits=[(S+'mappable.rs','(f(a), f(b), f(c))','(f(a), f(c), f(b))')],
  demo=r'''
struct L(Vec<[f64; 2]>);
impl<'p> PolygonList<'p> for L {
    type Vertex = [f64; 2]; type Index = (usize, usize, usize); type IntoItem = (usize, usize, usize);
    type Iter<'i> = std::vec::IntoIter<(usize, usize, usize)> where Self: 'i, 'p: 'i;
    fn vertex_count(&self) -> usize { self.0.len() }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i> where Self: 'i, 'p: 'i { (0..self.0.len()).map(|i| (i, i + 10, i + 20)).collect::<Vec<_>>().into_iter() }
    fn get_vertex<'a>(&'a self, i: (usize, usize, usize)) -> &'a [f64; 2] where 'p: 'a { &self.0[i.0] }
}
fn main() {
    let l = L(vec![[0., 0.], [2., 1.], [1., 3.]]).index_with::<usize, u8>();
    let v: Vec<(u8, u8, u8)> = l.iter_indices().map(|e| match e { PolygonElement::ContinuePolygon(i) => i, _ => panic!() }).collect();
    assert_eq!(v, vec![(0, 10, 20), (1, 11, 21), (2, 12, 22)]);
}
'''),
dict(id='c13-count', property='C13', needs='a list of polygons one of which is empty or of different size',
  breaks='the vertex count of a list of polygons assumes that all polygons are of the size of the first',
  edits=[(S+'inputs/polygon_list.rs','(*self).iter().map(|p| (*p).vertex_count()).sum()','(*self).first().map_or(0, |p| (*p).vertex_count()) * (*self).len()')],
  demo=r'''
fn main() {
    let a = vec![[0f64, 0.], [2., 1.], [1., 3.]];
    let b = vec![[10f64, 0.], [12., 1.], [11., 3.], [10., 2.]];
    let l = vec![a, b];
    let n = l.iter_indices().filter(|e| matches!(e, PolygonElement::ContinuePolygon(_))).count();
    assert_eq!(n, 7);
    assert_eq!(PolygonList::vertex_count(&l), 7);
}
'''),
dict(id='c14-wrong-count', property='C14', needs='a too small polygon in a list of several polygons',
  breaks='the not-enough-vertices error carries the number of vertices of the whole list',
  edits=[(S+'trapezoidation.rs','NotEnoughVertices(v_count)','NotEnoughVertices(self.ps.vertex_count() % 3)')],
  demo=r'''
fn main() {
    for k in 1..3usize {
        let a = vec![[0f64, 0.], [2., 1.], [1., 3.]];
        let b: Vec<[f64; 2]> = (0..k).map(|i| [10. + i as f64, i as f64]).collect();
        let l = vec![a.clone(), b.clone(), b];
        match l.trapezoidize() { Err(TrapezoidationError::NotEnoughVertices(n)) => assert_eq!(n, k), _ => panic!() }
    }
}
'''),
dict(id='c14-leak', property='C14', needs='two polygons with a repeated boundary marker between them',
  breaks='a polygon list element',
  edits=[(S+'trapezoidation.rs','@@x@@','')], demo='fn main() {}'),
dict(id='c15-novertices', property='C15', needs='a polygon list without vertices',
  breaks='an internal error instead of the no-vertices error',
  edits=[(S+'fan_builder_state.rs','result.err().unwrap_or(TriangulationError::NoVertices)','result.err().unwrap_or_else(|| TriangulationError::internal("No triangle"))')],
  demo=r'''
fn main() {
    let l: Vec<Vec<[f64; 2]>> = vec![];
    let mut out = Vec::<Vec<[usize; 2]>>::new();
    assert!(matches!(l.triangulate(IndexedFanFormat::new(&mut out)), Err(TriangulationError::NoVertices)));
}
'''),
dict(id='c17-tie-low', property='C17', needs='a point level with the lower end of an edge that is also to the right of it and left of the line',
  breaks='the tie at the lower end of a line is decided against the upper end',
  edits=[(S+'math.rs','c.x() < c_min.x()','c.x() < c_max.x()')],
  demo='fn main() {}'),
dict(id='c19-unchecked', property='C19', needs='a caller-supplied index outside of the polygon',
  breaks='looking up a vertex by an index from the caller is unchecked',
  edits=[(S+'inputs/polygon_list.rs','&(*self)[index]','unsafe { (*self).get_unchecked(index) }')],
  demo=r'''
fn main() {
    let a = vec![[0f64, 0.], [2., 1.], [1., 3.]];
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| Polygon::get_vertex(&a, 3)[0]);
    assert!(r.is_err());
}
'''),
dict(id='c20-used-once', compile_fail=True, property='C20', needs='sharing one trapezoidation between threads',
  breaks='the trapezoidation keeps a counter of its uses in a cell, so it can no longer be shared between threads',
  edits=[(S+'trapezoidation.rs','    ps: PolygonListExt<\'p, P>,\n    ns: Box<','    ps: PolygonListExt<\'p, P>,\n    uses: std::cell::Cell<usize>,\n    ns: Box<'),
         (S+'trapezoidation.rs','Self { ps, ns, ss, ts, qs }','Self { ps, uses: std::cell::Cell::new(0), ns, ss, ts, qs }'),
         (S+'trapezoidation.rs','        let mut fbs = FanBuilderState::<\'p, P, FB>::Uninitialized(format);','        self.uses.set(self.uses.get() + 1);\n        let mut fbs = FanBuilderState::<\'p, P, FB>::Uninitialized(format);')],
  demo=r'''
fn main() {
    let a = vec![[0f64, 0.], [2., 1.], [1., 3.]];
    let t = a.trapezoidize().unwrap();
    std::thread::scope(|s| {
        for _ in 0..2 { s.spawn(|| { let mut o = Vec::<Vec<usize>>::new(); t.triangulate(IndexedFanFormat::new(&mut o)).unwrap(); assert_eq!(o.len(), 1); }); }
    });
}
''', demo_sh=None),
]
SEEDS=[s for s in SEEDS if s['demo']!='fn main() {}']
for s in SEEDS:
    if s.get('demo_sh','x') is None: del s['demo_sh']
