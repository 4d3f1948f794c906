S='src/'
SEEDS=[
dict(id='c21-walk-limit', property='C21', needs='an edge entered after more than 32 of the vertices it passes',
  breaks='an edge that runs past more than 32 entered vertices is not carried through to its lower end',
  edits=[(S+'trapezoidation.rs','''        while ni != ni_min {
            let ti = self''','''        // An edge never crosses more than a few regions
        let mut remaining = 32u8;
        while ni != ni_min && remaining > 0 {
            remaining -= 1;
            let ti = self''')],
  demo=r'''
fn main() {
    // a comb: a long straight back, many teeth
    let teeth = 120;
    let mut p = vec![[100.0f64, 0.25], [100.0, 2.0 * teeth as f64 + 1.0]];
    for k in (0..=teeth).rev() {
        p.push([(k as f64 * 0.7).sin() * 20.0, 2.0 * k as f64 + 0.5]);
        if k > 0 { p.push([60.0 + (k as f64).sin() * 20.0, 2.0 * k as f64 - 0.5]); }
    }
    for _ in 0..40 {
        let (r, log) = run(&p, false, None);
        r.expect("a valid polygon");
        let t = tris(&fans(&log));
        assert_eq!(t.len(), p.len() - 2);
        for t in t { assert!(area2(p[t[0]], p[t[1]], p[t[2]]) > 0.); }
    }
}
'''),
]
