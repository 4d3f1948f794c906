S = 'src/'
GRID = r'''
/// A simple star-shaped polygon on the integer grid (None if rounding spoiled it)
fn grid(n: usize, seed: u64, k: f64) -> Option<Vec<[f64; 2]>> {
    let p: Vec<[f64; 2]> = starry(n, seed).iter().map(|v| [(v[0] * k).round(), (v[1] * k).round()]).collect();
    for i in 0..n { for j in 0..i {
        if p[i] == p[j] { return None; }
        let (a, b, c, d) = (p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]);
        let adjacent = (i + 1) % n == j || (j + 1) % n == i;
        let (o1, o2, o3, o4) = (area2(a, b, c), area2(a, b, d), area2(c, d, a), area2(c, d, b));
        if adjacent { if o1 == 0. && o2 == 0. { return None; } } else if o1 * o2 <= 0. && o3 * o4 <= 0. { return None; }
    } }
    // nothing exactly on a line
    for i in 0..n { let (a, b, c) = (p[i], p[(i + 1) % n], p[(i + 2) % n]); if area2(a, b, c) == 0. { return None; } }
    Some(p)
}
'''
SEEDS = [
dict(id='c04-second-fan', property='C04', needs='a result of several fans written to a collection of vertices',
  breaks='from the second fan on the second and third vertex are looked up in exchanged positions',
  edits=[(S+'outputs/formats/deindexed_fan.rs',
   'let (v0, v1, v2) = (self.polygon_list.get_vertex(vi0).clone(), self.polygon_list.get_vertex(vi1).clone(), self.polygon_list.get_vertex(vi2).clone());',
   'let (v0, v1, v2) = (self.polygon_list.get_vertex(vi0).clone(), self.polygon_list.get_vertex(vi2).clone(), self.polygon_list.get_vertex(vi1).clone());')],
  demo=r'''
fn main() {
    let mut several = 0;
    for seed in 0..40 {
        let p = starry(15, seed);
        let mut out = Vec::<Vec<[f64; 2]>>::new();
        p.triangulate(DeindexedFanFormat::new(&mut out)).unwrap();
        if out.len() > 1 { several += 1; }
        for t in tris(&out) { assert!(area2(t[0], t[1], t[2]) > 0., "a stored vertex is not the one reported"); }
    }
    assert!(several > 0);
}
'''),
dict(id='c09-deferred-pair', property='C09', needs='a clockwise builder and a fan that grows downwards along a left chain',
  breaks='a fan handed over in reverse starts with its first two vertices exchanged on left chains',
  edits=[(S+'monotone.rs','(vi0, vi1, self.deferred_index(is_backtracking, 0))\n','if self.is_left_chain { (vi1, vi0, self.deferred_index(is_backtracking, 0)) } else { (vi0, vi1, self.deferred_index(is_backtracking, 0)) }\n')],
  demo=r'''
fn main() {
    for n in [5usize, 6, 8, 12, 20] { for seed in 0..20 {
        let p = starry(n, seed);
        for rev in [false, true] {
            let (r, log) = run(&p, rev, None);
            r.unwrap();
            for t in tris(&fans(&log)) {
                let a = area2(p[t[0]], p[t[1]], p[t[2]]);
                assert!(if rev { a < 0. } else { a > 0. }, "wrong winding");
            }
        }
    } }
}
'''),
dict(id='c10-reset-drop', property='C10', needs='a monotone piece that cannot be finished in one pass over its vertices',
  breaks='starting the next pass over a piece forgets its last vertex, so a triangle is missing',
  edits=[(S+'monotone.rs','self.skipped_and_pending.truncate(self.skipped_top);','self.skipped_and_pending.truncate(self.skipped_top - 1);')],
  demo=r'''
fn main() {
    for n in [6usize, 8, 12, 20, 40] { for seed in 0..150 {
        let p = starry(n, seed);
        let (r, log) = run(&p, false, None);
        r.unwrap();
        assert_eq!(tris(&fans(&log)).len(), n - 2);
    } }
}
'''),
dict(id='c10-untested-extension', property='C10', needs='a backtracking fan of at least three triangles whose next corner is reflex',
  breaks='a fan that has grown backwards twice is extended once more without testing the corner',
  edits=[(S+'monotone.rs','''                    while self.can_triangulate() {
                        self.skipped_pop();
                        bodt.add_triangle(self.skipped_peek().0)''','''                    while self.can_triangulate() || (self.skipped_top == 2 && self.remaining_vertices() > 20) {
                        self.skipped_pop();
                        bodt.add_triangle(self.skipped_peek().0)''')],
  demo=r'''
fn main() {}
'''),
dict(id='c16-level-edge', property='C16', needs='a polygon with a horizontal edge whose left end comes first',
  breaks='a horizontal edge running to the right is entered from its upper (right) end to its lower end',
  edits=[(S+'trapezoidation.rs','let (ni_min, ni_max, c_min, c_max) = if c0 < c1 {','let (ni_min, ni_max, c_min, c_max) = if c0.y() < c1.y() {')],
  demo=GRID+r'''
fn main() {
    let mut done = 0;
    for n in [4usize, 5, 7, 10] { for seed in 0..200 {
        if let Some(p) = grid(n, seed, 0.7) {
            done += 1;
            for _ in 0..4 {
                let mut out = Vec::<Vec<usize>>::new();
                p.triangulate(IndexedFanFormat::new(&mut out)).unwrap();
                let s: f64 = tris(&out).iter().map(|t| area2(p[t[0]], p[t[1]], p[t[2]]).abs()).sum();
                assert!((s - poly_area2(&p).abs()).abs() < 1e-9 * s);
            }
        }
    } }
    assert!(done > 50, "{}", done);
}
'''),
dict(id='c17-tie-low', property='C17', needs='a point level with the lower end of an edge, to the right of it, and to the left of its upper end',
  breaks='a point level with the lower end of a line is compared with the upper end',
  edits=[(S+'math.rs','c.x() < c_min.x()','c.x() < c_max.x()')],
  demo=GRID+r'''
fn main() {
    let mut done = 0;
    for n in [4usize, 5, 7, 10] { for seed in 0..200 {
        if let Some(p) = grid(n, seed, 0.7) {
            done += 1;
            for _ in 0..4 {
                let mut out = Vec::<Vec<usize>>::new();
                p.triangulate(IndexedFanFormat::new(&mut out)).unwrap();
                let s: f64 = tris(&out).iter().map(|t| area2(p[t[0]], p[t[1]], p[t[2]]).abs()).sum();
                assert!((s - poly_area2(&p).abs()).abs() < 1e-9 * s);
            }
        }
    } }
    assert!(done > 50, "{}", done);
}
'''),
dict(id='c18-else-if', property='C18', needs='a piece whose last vertex is straight below its first and whose second vertex differs in height',
  breaks='such a piece is taken for a vertical line and silently discarded',
  edits=[(S+'monotone.rs','''        if !self.diff_x && c.x() != self.vec[0].1.x() {
            self.diff_x = true;
        }
        if !self.diff_y && c.y() != self.vec[0].1.y() {
            self.diff_y = true;
        }
''','''        if !self.diff_y && c.y() != self.vec[0].1.y() {
            self.diff_y = true;
        } else if !self.diff_x && c.x() != self.vec[0].1.x() {
            self.diff_x = true;
        }
''')],
  demo=r'''
fn main() {
    let l: Vec<Vec<[f64; 2]>> = vec![vec![[0., 0.], [5., 1.], [2., 5.]], vec![[20., 0.], [23., 2.], [20., 5.]]];
    let mut out = Vec::<Vec<[usize; 2]>>::new();
    l.triangulate(IndexedFanFormat::new(&mut out)).unwrap();
    assert_eq!(tris(&out).len(), 2, "a region was lost");
}
'''),
dict(id='c18-three-only', property='C18', needs='a piece of exactly three vertices beside other pieces of one polygon list',
  breaks='pieces of three vertices are discarded if their second vertex is level with the third',
  edits=[(S+'monotone.rs','if self.diff_x && self.diff_y {','if self.diff_x && self.diff_y && !(self.vec.len() == 3 && self.vec[1].1.y() == self.vec[2].1.y()) {')],
  demo=r'''
fn main() {
    let l: Vec<Vec<[f64; 2]>> = vec![vec![[0., 0.], [5., 1.], [2., 5.]], vec![[20., 0.], [23., 0.], [20., 5.]]];
    let mut out = Vec::<Vec<[usize; 2]>>::new();
    l.triangulate(IndexedFanFormat::new(&mut out)).unwrap();
    assert_eq!(tris(&out).len(), 2, "a region was lost");
}
'''),
]
SEEDS=[s for s in SEEDS if s['demo'].strip()!='fn main() {}']
