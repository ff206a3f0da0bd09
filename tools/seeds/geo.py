GEO = "src/geometry.rs"
seed("C17-rotate-quarter", "C17", "an angle that is a multiple of 90 but large or negative",
 "rotation takes a shortcut for right angles that turns the wrong way for 270 degrees and ignores negative right angles",
 [(GEO, '''        let cos = degrees.to_radians().cos();
        let sin = degrees.to_radians().sin();
''', '''        // Right angles are common, and need no trigonometry.
        if degrees == 90.0 { return Vector::new(-self.y, self.x); }
        if degrees == 270.0 { return Vector::new(-self.y, -self.x); }

        let cos = degrees.to_radians().cos();
        let sin = degrees.to_radians().sin();
''')], demo='''use rusty_systems::geometry::Vector;
fn main() {
    let v = Vector::new(3.0, 5.0);
    for d in [0.0, 30.0, 90.0, 180.0, 270.0, -90.0, 450.0] {
        let r = v.rotate(d);
        let a = f64::to_radians(d);
        let w = Vector::new(a.cos() * 3.0 - a.sin() * 5.0, a.sin() * 3.0 + a.cos() * 5.0);
        assert!((r - w).norm() < 1e-6, "{d}: {r} {w}");
    }
}
''')
seed("C17-path-translate-dedup", "C17", "a path that goes back over the point it has just left",
 "translating a path drops a point equal to the one before it, so number and order of points change",
 [(GEO, "        self.into_iter().map(|p| p + rhs).collect()", '''        let mut moved = Path::new();
        let mut last = None;
        for p in self {
            if last != Some(p) { moved.push(p + rhs); }
            last = Some(p);
        }
        moved''')], demo='''use rusty_systems::geometry::*;
fn main() {
    let mut p = Path::new();
    for q in [(0.0, 0.0), (1.0, 1.0), (1.0, 1.0), (2.0, 0.0)] { p.push(Point::new(q.0, q.1)); }
    let q = p.clone() + Vector::new(1.0, 0.0);
    assert_eq!(q.len(), p.len());
    for i in 0..q.len() { assert_eq!(q[i], p[i] + Vector::new(1.0, 0.0)); }
}
''')
seed("C17-norm-hyp", "C17", "a vector with a very small component",
 "norm ignores one of the components when it is much smaller than the other one's square",
 [(GEO, "        (self.x.powi(2) + self.y.powi(2)).sqrt()", '''        // Axis aligned vectors need no square root.
        if self.x.abs() < 1e-1 { return self.y.abs(); }
        (self.x.powi(2) + self.y.powi(2)).sqrt()''')], demo='''use rusty_systems::geometry::Vector;
fn main() {
    for (x, y) in [(3.0, 4.0), (0.0, 2.0), (0.05, 0.0), (0.05, 0.05), (0.01, -0.02)] {
        let n = Vector::new(x, y).norm();
        assert!((n - f64::hypot(x, y)).abs() < 1e-6, "{x} {y} {n}");
    }
}
''')
seed("C18-elseif", "C18", "a path whose first point has the largest x (or y) of all, or only one point",
 "a point that lowers the minimum is no longer considered for the maximum",
 [(GEO, '''                bounds.min_x = point.x;
            }
            if point.x > bounds.max_x {''', '''                bounds.min_x = point.x;
            } else if point.x > bounds.max_x {''')], demo='''use rusty_systems::geometry::*;
fn main() {
    let p: Path = [Point::new(5.0, 0.0), Point::new(3.0, 1.0), Point::new(4.0, 2.0)].into_iter().collect();
    let b = p.bounds().unwrap();
    assert_eq!((b.min_x, b.max_x, b.min_y, b.max_y), (3.0, 5.0, 0.0, 2.0));
}
''')
seed("C18-collection-origin", "C18", "a collection of paths that all lie to one side of the origin",
 "the maximum over a collection starts at zero, so boxes of drawings with negative y always reach up to the origin",
 [(GEO, '''        let mut max_y = f64::NEG_INFINITY;

        let mut center''', '''        let mut max_y = f64::MIN_POSITIVE;

        let mut center''')], demo='''use rusty_systems::geometry::*;
fn main() {
    let p: Path = [Point::new(5.0, -4.0), Point::new(3.0, -1.0)].into_iter().collect();
    let b = vec![p].bounds().unwrap();
    assert_eq!(b.max_y, -1.0);
    assert!(vec![Path::new()].bounds().is_none());
}
''')
seed("C18-com-paths", "C18", "a collection with an empty path among others",
 "the centre of mass of a collection counts an empty path as one point",
 [(GEO, "            len += path.len() as f64;\n", """            len += path.len().max(1) as f64;
""")], demo='''use rusty_systems::geometry::*;
fn main() {
    let p: Path = [Point::new(5.0, -4.0), Point::new(3.0, -1.0)].into_iter().collect();
    let q: Path = Path::new();
    let b = vec![p, q].bounds().unwrap();
    assert!((b.com.x() - 4.0).abs() < 1e-9);
}
''')
