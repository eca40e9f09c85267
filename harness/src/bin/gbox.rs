//! Conformance driver for boxes.
use harness::geo::*;
use harness::*;
use pbrtrs::verif_hooks::boundingbox::{self, Bounds2, Bounds3};
use pbrtrs::verif_hooks::point::{Point2, Point3};
use pbrtrs::verif_hooks::ElemType;

fn pt<T: ElemType>(v: [T; 3]) -> Point3<T> {
    Point3::new(v[0], v[1], v[2])
}
fn arr<T: ElemType>(p: Point3<T>) -> [T; 3] {
    [p.x, p.y, p.z]
}
fn bx<T: ElemType>(lo: [T; 3], hi: [T; 3]) -> Bounds3<T> {
    Bounds3 { p_min: pt(lo), p_max: pt(hi) }
}
fn parts<T: ElemType>(b: &Bounds3<T>) -> ([T; 3], [T; 3]) {
    (arr(b.p_min), arr(b.p_max))
}

/// Boxes on an abstract grid: `co` gives each grid value its coordinate.
struct Grid<T> {
    co: Vec<T>,
    /// points strictly between grid coordinates
    mid: Vec<T>,
    kind: &'static str,
}

impl<T: ElemType + Scalar> Grid<T> {
    fn p(&self, v: &Value) -> [T; 3] {
        let a = tri(v);
        [self.co[a[0] as usize], self.co[a[1] as usize], self.co[a[2] as usize]]
    }
    fn b(&self, v: &Value) -> Bounds3<T> {
        bx(self.p(&v[0]), self.p(&v[1]))
    }
    fn same(&self, d: &mut Diffs, what: &str, got: Result<Bounds3<T>, String>, want: &Value) {
        let w = (self.p(&want[0]), self.p(&want[1]));
        match got {
            Err(p) => d.push(what, format!("{}: panicked: {}", self.kind, p)),
            Ok(g) => {
                if parts(&g) != w {
                    d.push(what, format!("{}: got {:?}, expected {:?}", self.kind, parts(&g), w));
                }
            }
        }
    }
    fn all_points(&self) -> Vec<[T; 3]> {
        let all: Vec<T> = self.co.iter().chain(&self.mid).cloned().collect();
        let mut v = vec![];
        for &x in &all {
            for &y in &all {
                for &z in &all {
                    v.push([x, y, z]);
                }
            }
        }
        v
    }
    fn run(&self, c: &Value, d: &mut Diffs) -> u64 {
        let mut n = 0;
        match c["f"].as_str().unwrap() {
            "box" => {
                let b = self.b(&c["b"]);
                for u in c["up"].as_array().unwrap() {
                    self.same(d, "union_pt", guarded(|| b.union_pt(&pt(self.p(&u[0])))), &u[1]);
                    n += 1;
                }
                for i in c["in"].as_array().unwrap() {
                    let p = pt(self.p(&i[0]));
                    d.flag("inside", guarded(|| b.inside(&p)), i[1].as_bool().unwrap());
                    d.flag("inside_exclusive", guarded(|| b.inside_exclusive(&p)), i[2].as_bool().unwrap());
                    n += 2;
                }
            }
            "box2" => {
                let (b, q) = (self.b(&c["b"]), self.b(&c["q"]));
                self.same(d, "union", guarded(|| b.union(&q)), &c["u"]);
                d.flag("overlaps", guarded(|| b.overlaps(&q)), c["o"].as_bool().unwrap());
                let i = guarded(|| b.intersect(&q));
                if c["ie"].as_bool().unwrap() {
                    match i {
                        Err(p) => d.push("intersect", format!("panicked: {}", p)),
                        Ok(i) => {
                            for p in self.all_points() {
                                if i.inside(&pt(p)) {
                                    d.push("intersect", format!("{}: {:?} of disjoint boxes contains {:?}", self.kind, parts(&i), p));
                                    break;
                                }
                            }
                        }
                    }
                } else {
                    self.same(d, "intersect", i, &c["i"]);
                }
                n += 3;
            }
            "boxnew" => {
                self.same(d, "new", guarded(|| Bounds3::new(pt(self.p(&c["p"])), pt(self.p(&c["q"])))), &c["e"]);
                n += 1;
                if c["p"] == c["q"] {
                    self.same(d, "new_pt", guarded(|| Bounds3::new_pt(pt(self.p(&c["p"])))), &c["e"]);
                    let p = pt(self.p(&c["p"]));
                    d.flag("new_inf contains the point", guarded(|| Bounds3::new_inf().inside(&p)), true);
                    n += 2;
                }
            }
            _ => (),
        }
        n
    }
}

/// Expansion needs a linear grid.
fn expand<T: ElemType + Scalar>(c: &Value, s: T, o: T, d: &mut Diffs) -> u64 {
    let at = |v: &Value| {
        let a = tri(v);
        [T::of(a[0], s) + o, T::of(a[1], s) + o, T::of(a[2], s) + o]
    };
    let b = bx(at(&c["b"][0]), at(&c["b"][1]));
    let mut n = 0;
    for e in c["ex"].as_array().unwrap() {
        let k = T::of(int(&e[0]), s);
        let w = (at(&e[1][0]), at(&e[1][1]));
        let close = |x: [T; 3], y: [T; 3]| (0..3).all(|i| (x[i] - y[i]).is(0, 1, s, 1, 50.0));
        match guarded(|| b.expand(k)) {
            Ok(g) if close(parts(&g).0, w.0) && close(parts(&g).1, w.1) => (),
            Ok(g) => d.push("expand", format!("by {:?}: got {:?}, expected {:?}", k, parts(&g), w)),
            Err(p) => d.push("expand", format!("panicked: {}", p)),
        }
        n += 1;
    }
    n
}

fn measure<T: ElemType + Scalar>(c: &Value, s: T, d: &mut Diffs, kind: &str) -> u64 {
    let at = |v: &Value| {
        let a = tri(v);
        [T::of(a[0], s), T::of(a[1], s), T::of(a[2], s)]
    };
    let b = bx(at(&c["b"][0]), at(&c["b"][1]));
    let m = mag(&c["b"]);
    let e = &c["e"];
    let w = |x: &str| format!("Bounds3<{}> {}", kind, x);
    d.result(&w("diagonal"), guarded(|| { let v = b.diagonal(); l3([v.x, v.y, v.z]) }), &e["diagonal"], s, m);
    d.result(&w("volume"), guarded(|| Tr::S(b.volume())), &e["volume"], s, m);
    d.result(&w("surface_area"), guarded(|| Tr::S(b.surface_area())), &e["area"], s, m);
    d.index(&w("maximum_extent"), guarded(|| b.maximum_extent()), &c["ax"]);
    let cs = guarded(|| Tr::L((0..8).map(|n| l3(arr(b.corner(n)))).collect()));
    match &cs {
        Ok(t) if same(t, &c["up"], 1, s, 1, m) || same(t, &c["dn"], 1, s, 1, m) => (),
        x => d.push(&w("corner"), format!("got {:?}, expected {} or {}", x, c["up"], c["dn"])),
    }
    5
}

/// Which side a set bit of a corner index means, if this box tells.
fn polarity<T: ElemType + Scalar>(c: &Value, one: T) -> Option<bool> {
    let at = |v: &Value| {
        let a = tri(v);
        [T::of(a[0], one), T::of(a[1], one), T::of(a[2], one)]
    };
    let b = bx(at(&c["b"][0]), at(&c["b"][1]));
    if c["up"] == c["dn"] {
        return None;
    }
    let t = Tr::L((0..8).map(|n| l3(arr(b.corner(n)))).collect());
    Some(same(&t, &c["up"], 1, one, 1, 10.0))
}

/// Relative coordinates and the sphere (floating point only).
fn relative(c: &Value, s: Float, o: Float, d: &mut Diffs) -> u64 {
    let at = |v: &Value| {
        let a = tri(v);
        [a[0] as Float * s + o, a[1] as Float * s + o, a[2] as Float * s + o]
    };
    let (lo, hi) = (at(&c["b"][0]), at(&c["b"][1]));
    let b = bx(lo, hi);
    let ext = tri(&c["ext"]);
    let size = lo.iter().chain(&hi).fold(0.0f64, |m, x| m.max((*x as f64).abs()));
    let mut n = 0;
    for t in [[0, 0, 0], [4, 4, 4], [2, 1, 3], [4, 0, 2], [0, 3, 4], [1, 4, 0], [-4, 8, 6], [40, -40, 64], [-64, 16, -12], [400, 1000, -400]] {
        let tf = [t[0] as Float / 4., t[1] as Float / 4., t[2] as Float / 4.];
        let want = |i: usize| lo[i] as f64 + (hi[i] as f64 - lo[i] as f64) * tf[i] as f64;
        match guarded(|| {
            let p = boundingbox::lerp(&b, &pt(tf));
            let o = b.offset(&p);
            (arr(p), [o.x, o.y, o.z])
        }) {
            Err(p) => d.push("lerp/offset", format!("panicked: {}", p)),
            Ok((p, off)) => {
                for i in 0..3 {
                    let far = 1.0 + tf[i].abs() as f64;
                    let tol = EPS * 4.0 * far * (size + (hi[i] - lo[i]).abs() as f64);
                    if (p[i] as f64 - want(i)).abs() > tol {
                        d.push("lerp", format!("of {:?} at {:?}: got {:?}, expected {}", (lo, hi), tf, p, want(i)));
                    }
                    if ext[i] > 0 && (off[i] as f64 - tf[i] as f64).abs() > 8.0 * EPS * far * (1.0 + size / (hi[i] - lo[i]).abs() as f64) {
                        d.push("offset", format!("of {:?} in {:?}: got {:?}, expected {:?}", p, (lo, hi), off, tf));
                    }
                }
            }
        }
        n += 2;
    }
    match guarded(|| boundingbox::bounding_sphere(&b)) {
        Err(p) => d.push("bounding_sphere", format!("panicked: {}", p)),
        Ok((ce, r)) => {
            let ce = arr(ce);
            for i in 0..3 {
                let want = int(&c["e"]["centre2"]["v"][i]) as f64 * s as f64 / 2.0 + o as f64;
                if (ce[i] as f64 - want).abs() > 4.0 * EPS * (size + s.abs() as f64) {
                    d.push("bounding_sphere", format!("centre {:?} of {:?}", ce, (lo, hi)));
                }
            }
            let want = (int(&c["e"]["radius2"]["v"]) as f64).sqrt() * s.abs() as f64 / 2.0;
            if (r as f64 - want).abs() > 4.0 * EPS * (size + want) {
                d.push("bounding_sphere", format!("radius {} of {:?}, expected {}", r, (lo, hi), want));
            }
        }
    }
    n + 1
}

/// Integer boxes: only the corners have integral relative coordinates.
fn relative_int(c: &Value, d: &mut Diffs) -> u64 {
    let (lo, hi) = (tri(&c["b"][0]), tri(&c["b"][1]));
    let b = bx(lo, hi);
    let ext = tri(&c["ext"]);
    for (p, w) in [(lo, 0), (hi, 1)] {
        match guarded(|| { let o = b.offset(&pt(p)); [o.x, o.y, o.z] }) {
            Ok(o) if (0..3).all(|i| ext[i] == 0 || o[i] == w) => (),
            x => d.push("Bounds3<i64> offset", format!("of {:?} in {:?}: got {:?}", p, (lo, hi), x)),
        }
    }
    2
}

fn iterate(b: &[i64], off: [i64; 2], cap: usize) -> Result<(Vec<[i64; 2]>, bool), String> {
    guarded(|| {
        let bb = Bounds2 {
            p_min: Point2::new(b[0] + off[0], b[1] + off[1]),
            p_max: Point2::new(b[2] + off[0], b[3] + off[1]),
        };
        let mut it = bb.into_iter();
        let mut v = vec![];
        while let Some(p) = it.next() {
            v.push([p.x - off[0], p.y - off[1]]);
            if v.len() > cap {
                break;
            }
        }
        let stays = (0..4).all(|_| it.next().is_none());
        (v, stays)
    })
}

/// Boxes too large to finish: the first points, up to the limits of the coordinates.
fn stretched(b: &[i64], d: &mut Diffs) -> u64 {
    let (lo, hi) = (i64::min_value(), i64::max_value());
    // lower x, lower y, upper x, upper y
    let boxes = [[b[0], b[1], hi, b[3]], [b[0], b[1], b[2], hi], [lo, b[1], b[2], b[3]], [b[0], lo, b[2], b[3]], [lo, lo, hi, hi],
                 [hi, b[1], b[2], b[3]], [b[0], hi, b[2], b[3]], [b[0], b[1], lo, b[3]], [b[0], b[1], b[2], lo], [hi, hi, lo, lo]];
    for x in boxes.iter() {
        let empty = x[0] >= x[2] || x[1] >= x[3];
        let w = x[2] as i128 - x[0] as i128;
        let want: Vec<[i64; 2]> = if empty { vec![] } else { (0..40i128)
            .map(|i| [x[0] as i128 + i % w, x[1] as i128 + i / w])
            .filter(|p| p[1] < x[3] as i128)
            .map(|p| [p[0] as i64, p[1] as i64]).collect() };
        let got = guarded(|| {
            let bb = Bounds2 { p_min: Point2::new(x[0], x[1]), p_max: Point2::new(x[2], x[3]) };
            bb.into_iter().take(40).map(|p| [p.x, p.y]).collect::<Vec<_>>()
        });
        if got != Ok(want.clone()) {
            d.push("iterate", format!("first points of {:?}: got {:?}, expected {:?}", x, got, want));
        }
    }
    boxes.len() as u64
}

/// The other ways to consume an iteration agree with taking one point after the other.
fn consume(b: &[i64], want: &[[i64; 2]], d: &mut Diffs) -> u64 {
    let bb = || Bounds2 { p_min: Point2::new(b[0], b[1]), p_max: Point2::new(b[2], b[3]) }.into_iter();
    let n = want.len();
    let mut ask = |what: &str, ok: Result<bool, String>| if ok != Ok(true) {
        d.push("iterate", format!("{} over {:?} is wrong: {:?}", what, b, ok));
    };
    let at = |p: Option<Point2<i64>>| p.map(|p| [p.x, p.y]);
    ask("size_hint", guarded(|| { let mut it = bb(); (0..n + 1).all(|k| { let (l, u) = it.size_hint(); it.next(); l <= n - k && u.map_or(true, |u| u >= n - k) }) }));
    ask("count", guarded(|| bb().count() == n));
    ask("last", guarded(|| at(bb().last()) == want.last().cloned()));
    for k in 0..n + 2 {
        ask("nth", guarded(|| { let mut it = bb(); at(it.nth(k)) == want.get(k).cloned() && at(it.next()) == if k < n { want.get(k + 1).cloned() } else { None } }));
    }
    ask("for", guarded(|| { let mut v = vec![]; for p in bb() { v.push([p.x, p.y]); } v == want }));
    ask("fold", guarded(|| bb().fold(0, |k, p| if k < n && [p.x, p.y] == want[k] { k + 1 } else { n + 1 }) == n));
    n as u64 + 7
}

fn grid(c: &Value, d: &mut Diffs) -> u64 {
    let b = ints(&c["b"]);
    let want: Vec<[i64; 2]> = c["e"].as_array().unwrap().iter().map(|p| { let a = ints(p); [a[0], a[1]] }).collect();
    let far = 1i64 << 40;
    let mut offs = vec![[0, 0], [1000, -1000], [-far, far], [17, 0]];
    // close to the limits of the coordinates
    let edge = i64::max_value() - 64;
    offs.push([edge, edge]);
    offs.push([-edge, edge]);
    offs.push([-edge, -edge]);
    for off in &offs {
        match iterate(&b, *off, want.len() + 20) {
            Ok((v, stays)) => {
                if v != want {
                    d.push("iterate", format!("{:?} moved by {:?}: got {:?}, expected {:?}", b, off, v, want));
                } else if !stays {
                    d.push("iterate", format!("{:?} moved by {:?}: goes on after its end", b, off));
                }
            }
            Err(p) => d.push("iterate", format!("{:?} moved by {:?}: panicked: {}", b, off, p)),
        }
    }
    offs.len() as u64 + stretched(&b, d) + consume(&b, &want, d)
}

fn replay_at(c: &Value, d: &mut Diffs, pol: &std::sync::Mutex<Option<bool>>) -> u64 {
    let mut n = 0;
    match c["f"].as_str().unwrap() {
        "box" | "box2" | "boxnew" => {
            let big: Float = 1e30;
            let inf = 1.0 as Float / 0.0;
            let (u, t) = (Float::EPSILON, Float::MIN_POSITIVE);
            let g = int(&c["G"]) as usize;
            let cut = |a: [Float; 4]| a[4 - g - 1..].to_vec();
            let icut = |a: [i64; 4]| a[4 - g - 1..].to_vec();
            for f in [
                Grid { co: cut([0.0, 1.0, 2.0, 3.0]), mid: vec![-1.0, 0.5, 1.5, 2.5, 4.0], kind: "Float" },
                Grid { co: cut([-7.5, -2.5, 0.0, 0.125]), mid: vec![-9.0, -5.0, -1.0, 0.1, 3.0], kind: "Float" },
                Grid { co: cut([-inf, -big, 1.0, inf]), mid: vec![0.0, 2.0], kind: "Float with infinities" },
                Grid { co: cut([1.0, 1.0 + u, 1.0 + 2.0 * u, 1.0 + 3.0 * u]), mid: vec![1.0 - u, 1.0 + 4.0 * u], kind: "adjacent Float" },
                Grid { co: cut([-3.0 * t, -t, 0.0, t]), mid: vec![-2.0 * t, 2.0 * t], kind: "tiny Float" },
                Grid { co: cut([-2.0, -1.0, -0.5, -0.25]), mid: vec![-0.75, 0.0], kind: "negative Float" },
            ] {
                n += f.run(c, d);
            }
            let (lo, hi) = (i64::min_value(), i64::max_value());
            for i in [
                Grid { co: icut([0, 1, 2, 3]), mid: vec![-1, 4], kind: "i64" },
                Grid { co: icut([-40, -20, -3, 50]), mid: vec![-50, -30, -10, 0, 60], kind: "i64" },
                Grid { co: icut([(1 << 53) - 1, 1 << 53, (1 << 53) + 1, (1 << 53) + 2]), mid: vec![1 << 52, (1 << 53) + 3], kind: "large i64" },
                Grid { co: icut([lo, -1, 0, hi]), mid: vec![-5, 5], kind: "extreme i64" },
            ] {
                n += i.run(c, d);
            }
            if c["f"] == "box" {
                n += expand::<i64>(c, 1, 0, d) + expand::<i64>(c, 7, -30, d);
                n += expand::<Float>(c, 1.0, 0.0, d) + expand::<Float>(c, 0.25, -3.0, d) + expand::<Float>(c, 1000.0, 500.0, d);
                n += expand::<i64>(c, (1 << 53) + 1, -(1 << 54), d) + expand::<Float>(c, 1e-9, 0.0, d) + expand::<Float>(c, 1e12, 0.0, d);
            }
        }
        "measure" => {
            n += measure::<i64>(c, 1, d, "i64") + measure::<i64>(c, 10, d, "i64") + measure::<i64>(c, 100_000, d, "i64");
            for s in [1.0 as Float, 0.5, 0.1, 4096.0, 1e-7, 1e9] {
                n += measure::<Float>(c, s, d, "Float");
            }
            for (s, o) in [(1.0, 0.0), (0.5, 0.0), (3.0, 10.0), (0.1, -1.0), (1e-9, 0.0), (1e9, 0.0), (4096.0, -7.0)] {
                n += relative(c, s, o, d);
            }
            n += relative_int(c, d);
            // bits mean the same side in all boxes and for all element types
            for p in [polarity::<i64>(c, 1), polarity::<Float>(c, 1.0)] {
                if let Some(x) = p {
                    let mut g = pol.lock().unwrap();
                    match *g {
                        None => *g = Some(x),
                        Some(y) if y != x => d.push("corner", "index bits change their meaning".to_owned()),
                        _ => (),
                    }
                }
            }
        }
        "grid" => n += grid(c, d),
        x => panic!("unknown family {}", x),
    }
    n
}

// ------------------------------------------------------------- recording

fn jb<T: ElemType + Scalar>(b: &Bounds3<T>) -> Value {
    json!([dump(&l3(arr(b.p_min)), 1), dump(&l3(arr(b.p_max)), 1)])
}

/// A history of operations on one box.
fn history<T: ElemType + Scalar>(c: &Value, one: T, kind: &str) -> Value {
    let at = |v: &Value| {
        let a = tri(v);
        [T::of(a[0], one), T::of(a[1], one), T::of(a[2], one)]
    };
    let mut cur = Bounds3::new_pt(pt([one, one, one]));
    let mut ev = vec![];
    for s in c["steps"].as_array().unwrap() {
        let op = s["op"].as_str().unwrap();
        let mut e = s.clone();
        let r = guarded(|| match op {
            "new" => (Some(Bounds3::new(pt(at(&s["p"])), pt(at(&s["q"])))), false, false),
            "point" => (Some(Bounds3::new_pt(pt(at(&s["p"])))), false, false),
            "union_pt" => (Some(cur.union_pt(&pt(at(&s["p"])))), false, false),
            "union" => (Some(cur.union(&Bounds3::new(pt(at(&s["p"])), pt(at(&s["q"]))))), false, false),
            "intersect" => (Some(cur.intersect(&Bounds3::new(pt(at(&s["p"])), pt(at(&s["q"]))))), false, false),
            "expand" => (Some(cur.expand(T::of(int(&s["k"]), one))), false, false),
            "overlaps" => (None, cur.overlaps(&Bounds3::new(pt(at(&s["p"])), pt(at(&s["q"])))), false),
            "inside" => (None, cur.inside(&pt(at(&s["p"]))), cur.inside_exclusive(&pt(at(&s["p"])))),
            x => panic!("unknown step {}", x),
        });
        match r {
            Err(p) => {
                e["panic"] = json!(p);
                ev.push(e);
                break;
            }
            Ok((Some(b), _, _)) => {
                e["box"] = jb(&b);
                e["flags"] = json!([false, false]);
                // whether the result holds its own corners and the history's points
                cur = b;
            }
            Ok((None, x, y)) => {
                e["box"] = jb(&cur);
                e["flags"] = json!([x, y]);
            }
        }
        e["panic"] = json!("");
        ev.push(e);
    }
    json!({"f": "boxhist", "kind": kind, "ev": ev})
}

fn rec_measure<T: ElemType + Scalar>(c: &Value, one: T, kind: &str) -> Value {
    let at = |v: &Value| {
        let a = tri(v);
        [T::of(a[0], one), T::of(a[1], one), T::of(a[2], one)]
    };
    let b = bx(at(&c["lo"]), at(&c["hi"]));
    let r = guarded(|| {
        let v = b.diagonal();
        let cs: Vec<Value> = (0..8).map(|n| dump(&l3(arr(b.corner(n))), 1)).collect();
        json!({"diagonal": dump(&l3([v.x, v.y, v.z]), 1), "volume": dump(&Tr::S(b.volume()), 1), "area": dump(&Tr::S(b.surface_area()), 1),
               "ax": b.maximum_extent(), "corners": cs})
    });
    let (r, p) = match r {
        Ok(r) => (r, String::new()),
        Err(p) => (json!({"diagonal": [0, 0, 0], "volume": 0, "area": 0, "ax": 0, "corners": []}), p),
    };
    json!({"f": "measure", "kind": kind, "ev": [{"lo": c["lo"], "hi": c["hi"], "r": r, "panic": p}]})
}

/// Interpolated points (in quarters), their relative coordinates (in quarters) and the sphere
/// (twice the centre, squared diameter).
fn rec_relative(c: &Value) -> Value {
    let at = |v: &Value| {
        let a = tri(v);
        [a[0] as Float, a[1] as Float, a[2] as Float]
    };
    let b = bx(at(&c["lo"]), at(&c["hi"]));
    let t = tri(&c["t"]);
    let tf = [t[0] as Float / 4., t[1] as Float / 4., t[2] as Float / 4.];
    let r = guarded(|| {
        let p = boundingbox::lerp(&b, &pt(tf));
        let o = b.offset(&p);
        let (ce, ra) = boundingbox::bounding_sphere(&b);
        json!({"lerp": dump(&l3(arr(p)), 4), "off": dump(&l3([o.x, o.y, o.z]), 4), "centre": dump(&l3(arr(ce)), 2), "diam": dump(&Tr::S(ra * ra), 4)})
    });
    let (r, p) = match r {
        Ok(r) => (r, String::new()),
        Err(p) => (json!({"lerp": [0, 0, 0], "off": [0, 0, 0], "centre": [0, 0, 0], "diam": 0}), p),
    };
    json!({"f": "relative", "kind": "Float", "ev": [{"lo": c["lo"], "hi": c["hi"], "t": t, "r": r, "panic": p}]})
}

fn record(c: &Value) -> Vec<Value> {
    match c["f"].as_str().unwrap() {
        "boxhist" => vec![history::<i64>(c, 1, "i64"), history::<Float>(c, 1.0, "Float")],
        "measure" => vec![rec_measure::<i64>(c, 1, "i64"), rec_measure::<Float>(c, 1.0, "Float"), rec_relative(c)],
        "grid" => {
            let b = ints(&c["b"]);
            let cap = ((b[2] - b[0]).max(0) * (b[3] - b[1]).max(0)) as usize + 20;
            let (v, stays, p) = match iterate(&b, [0, 0], cap) {
                Ok((v, s)) => (v, s, String::new()),
                Err(p) => (vec![], false, p),
            };
            // one event per visited point, and one for the end
            let mut ev: Vec<Value> = v.iter().map(|q| json!({"p": q, "end": false, "stays": true})).collect();
            ev.push(json!({"p": [0, 0], "end": true, "stays": stays && p.is_empty()}));
            vec![json!({"f": "grid", "kind": "i64", "b": b, "ev": ev})]
        }
        x => panic!("unknown family {}", x),
    }
}

fn main() {
    let pol = std::sync::Mutex::new(None);
    geo_main(move |c, d| replay_at(c, d, &pol), record)
}
