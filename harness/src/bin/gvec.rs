//! Conformance driver for vectors, normals and points.
use harness::geo::*;
use harness::*;
use pbrtrs::verif_hooks::normal::Normal3;
use pbrtrs::verif_hooks::point::{self, Point2, Point3};
use pbrtrs::verif_hooks::vector::{Vector2, Vector3};
use pbrtrs::verif_hooks::ElemType;

type Res<T> = Vec<(&'static str, Result<Tr<T>, String>)>;

macro_rules! tri_ops {
    ($name:ident, $ty:ident) => {
        /// Named results of the operations of one kind of triple, and the chosen dimension.
        fn $name<T: Scalar + ElemType>(a: [T; 3], b: [T; 3], ka: [T; 3], k: T) -> (Res<T>, Result<usize, String>, Result<Tr<T>, String>) {
            let mk = |v: [T; 3]| $ty::new(v[0], v[1], v[2]);
            let un = |v: $ty<T>| l3([v.x, v.y, v.z]);
            let (va, vb, vka) = (mk(a), mk(b), mk(ka));
            let mut r: Res<T> = vec![
                ("add", guarded(|| un(va + vb))),
                ("sub", guarded(|| un(va - vb))),
                ("neg", guarded(|| un(-va))),
                ("neg", guarded(|| un(-&va))),
                ("mul", guarded(|| un(va * k))),
                ("mul", guarded(|| un(&va * k))),
                ("div", guarded(|| un(vka / k))),
                ("dot", guarded(|| Tr::S(va.dot(&vb)))),
                ("cross", guarded(|| un(va.cross(&vb)))),
                ("lensq", guarded(|| Tr::S(va.len_sq()))),
                ("min", guarded(|| un(va.min(&vb)))),
                ("max", guarded(|| un(va.max(&vb)))),
                ("mincomp", guarded(|| Tr::S(va.min_component()))),
                ("maxcomp", guarded(|| Tr::S(va.max_component()))),
                ("comps", guarded(|| l3([va[0], va[1], va[2]]))),
            ];
            r.push(("perms", guarded(|| {
                Tr::L((0..27).map(|n| un(va.permute(n / 9, n / 3 % 3, n % 3))).collect())
            })));
            (r, guarded(|| va.max_dimension()), guarded(|| un(va.face_forward(&vb))))
        }
    };
}
tri_ops!(vector_ops, Vector3);
tri_ops!(normal_ops, Normal3);

fn point_ops<T: Scalar + ElemType>(a: [T; 3], b: [T; 3], ka: [T; 3], k: T) -> Res<T> {
    let p = |v: [T; 3]| Point3::new(v[0], v[1], v[2]);
    let w = |v: [T; 3]| Vector3::new(v[0], v[1], v[2]);
    let un = |v: Point3<T>| l3([v.x, v.y, v.z]);
    let unv = |v: Vector3<T>| l3([v.x, v.y, v.z]);
    vec![
        ("add", guarded(|| un(p(a) + w(b)))),
        ("sub", guarded(|| un(p(a) - w(b)))),
        ("sub", guarded(|| unv(p(a) - p(b)))),
        ("sub", guarded(|| unv(&p(a) - p(b)))),
        ("mul", guarded(|| un(p(a) * k))),
        ("mul", guarded(|| un(&p(a) * k))),
        ("div", guarded(|| un(p(ka) / k))),
        ("abs", guarded(|| un(p(a).abs()))),
        ("min", guarded(|| un(p(a).min(&p(b))))),
        ("max", guarded(|| un(p(a).max(&p(b))))),
        ("comps", guarded(|| un(Point3::from(w(a))))),
        ("comps", guarded(|| unv(Vector3::from(p(a))))),
        ("comps", guarded(|| { let n = Normal3::from(w(a)); l3([n.x, n.y, n.z]) })),
        ("xy", guarded(|| { let q = Point2::from(p(a)); l2([q.x, q.y]) })),
        ("absxy", guarded(|| { let q = Point2::new(a[0], a[1]).abs(); l2([q.x, q.y]) })),
        ("xy", guarded(|| { let q = Vector2::new(ka[0], ka[1]) / k; l2([q.x, q.y]) })),
        ("xy", guarded(|| { let q = Vector2::new(a[0], a[1]); l2([q[0], q[1]]) })),
    ]
}

/// k is a plain number, not scaled: division by it must give back the scaled vector.
fn run_vec<T: Scalar + ElemType>(c: &Value, s: T, one: T, d: &mut Diffs, kind: &str) -> u64 {
    let (a, b, k) = (tri(&c["a"]), tri(&c["b"]), int(&c["k"]));
    let m = mag(&json!([c["a"], c["b"], k]));
    let v = |t: [i64; 3]| [T::of(t[0], s), T::of(t[1], s), T::of(t[2], s)];
    let ka = v([k * a[0], k * a[1], k * a[2]]);
    let kk = T::of(k, one);
    let mut n = 0;
    let e = &c["e"];
    for (ty, (res, dim, ff)) in [("Vector3", vector_ops(v(a), v(b), ka, kk)), ("Normal3", normal_ops(v(a), v(b), ka, kk))] {
        for (name, r) in res {
            d.result(&format!("{}<{}> {}", ty, kind, name), r, &e[name], s, m * m.max(1.0));
            n += 1;
        }
        d.index(&format!("{}<{}> max_dimension", ty, kind), dim, &c["ch"]["maxdim"]["v"]);
        d.choice(&format!("{}<{}> face_forward", ty, kind), ff, &c["ch"]["ff"], s, m);
        n += 2;
    }
    for (name, r) in point_ops(v(a), v(b), ka, kk) {
        d.result(&format!("Point<{}> {}", kind, name), r, &e[name], s, m * m.max(1.0));
        n += 1;
    }
    n
}

/// Multiplication and division by a number of any magnitude.
fn run_by<T: Scalar + ElemType>(c: &Value, s: T, ks: T, d: &mut Diffs, kind: &str) -> u64 {
    let (a, k) = (tri(&c["a"]), int(&c["k"]));
    let v = |t: [i64; 3], s: T| [T::of(t[0], s), T::of(t[1], s), T::of(t[2], s)];
    let m = mag(&json!([c["a"], k]));
    let (x, kk) = (v(a, s), T::of(k, ks));
    let y = v([k * a[0], k * a[1], k * a[2]], s * ks);
    let uv = |v: Vector3<T>| l3([v.x, v.y, v.z]);
    let un = |v: Normal3<T>| l3([v.x, v.y, v.z]);
    let up = |v: Point3<T>| l3([v.x, v.y, v.z]);
    let vx = Vector3::new(x[0], x[1], x[2]);
    let nx = Normal3::new(x[0], x[1], x[2]);
    let px = Point3::new(x[0], x[1], x[2]);
    let e = &c["e"];
    for (ty, r) in vec![
        ("Vector3", guarded(|| uv(vx * kk))), ("Vector3", guarded(|| uv(&vx * kk))),
        ("Normal3", guarded(|| un(nx * kk))), ("Normal3", guarded(|| un(&nx * kk))),
        ("Point3", guarded(|| up(px * kk))), ("Point3", guarded(|| up(&px * kk))),
    ] {
        d.result(&format!("{}<{}> mul", ty, kind), r, &e["mul"], s * ks, m * m);
    }
    for (ty, r) in vec![
        ("Vector3", guarded(|| uv(Vector3::new(y[0], y[1], y[2]) / kk))),
        ("Normal3", guarded(|| un(Normal3::new(y[0], y[1], y[2]) / kk))),
        ("Point3", guarded(|| up(Point3::new(y[0], y[1], y[2]) / kk))),
    ] {
        d.result(&format!("{}<{}> div", ty, kind), r, &e["div"], s, m);
    }
    d.result(&format!("Vector2<{}> div", kind), guarded(|| { let q = Vector2::new(y[0], y[1]) / kk; l2([q.x, q.y]) }), &e["xy"], s, m);
    10
}

/// Operations that only order, move or negate components commute with every odd monotone map
/// of the components: `tab` gives the image of 0, 1, 2, ...
fn run_order<T: Scalar + ElemType>(c: &Value, tab: &[T], d: &mut Diffs, kind: &str) -> u64 {
    let to = |n: i64| if n < 0 { -tab[-n as usize] } else { tab[n as usize] };
    let v = |t: [i64; 3]| [to(t[0]), to(t[1]), to(t[2])];
    fn image<T: Copy>(v: &Value, to: &dyn Fn(i64) -> T) -> Tr<T> {
        match v {
            Value::Array(a) => Tr::L(a.iter().map(|x| image(x, to)).collect()),
            x => Tr::S(to(int(x))),
        }
    }
    fn eq<T: PartialEq>(a: &Tr<T>, b: &Tr<T>) -> bool {
        match (a, b) {
            (Tr::S(x), Tr::S(y)) => x == y,
            (Tr::L(x), Tr::L(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| eq(a, b)),
            _ => false,
        }
    }
    let (a, b) = (v(tri(&c["a"])), v(tri(&c["b"])));
    let mk = |v: [T; 3]| (Vector3::new(v[0], v[1], v[2]), Normal3::new(v[0], v[1], v[2]), Point3::new(v[0], v[1], v[2]));
    let ((va, na, pa), (vb, nb, pb)) = (mk(a), mk(b));
    let uv = |v: Vector3<T>| l3([v.x, v.y, v.z]);
    let un = |v: Normal3<T>| l3([v.x, v.y, v.z]);
    let up = |v: Point3<T>| l3([v.x, v.y, v.z]);
    let res: Vec<(&str, &str, Result<Tr<T>, String>)> = vec![
        ("Vector3", "min", guarded(|| uv(va.min(&vb)))), ("Vector3", "max", guarded(|| uv(va.max(&vb)))),
        ("Vector3", "neg", guarded(|| uv(-va))), ("Vector3", "neg", guarded(|| uv(-&va))),
        ("Vector3", "mincomp", guarded(|| Tr::S(va.min_component()))), ("Vector3", "maxcomp", guarded(|| Tr::S(va.max_component()))),
        ("Vector3", "comps", guarded(|| l3([va[0], va[1], va[2]]))), ("Vector3", "comps", guarded(|| uv(Vector3::from(pa)))),
        ("Vector3", "perms", guarded(|| Tr::L((0..27).map(|n| uv(va.permute(n / 9, n / 3 % 3, n % 3))).collect()))),
        ("Normal3", "min", guarded(|| un(na.min(&nb)))), ("Normal3", "max", guarded(|| un(na.max(&nb)))),
        ("Normal3", "neg", guarded(|| un(-na))), ("Normal3", "neg", guarded(|| un(-&na))),
        ("Normal3", "mincomp", guarded(|| Tr::S(na.min_component()))), ("Normal3", "maxcomp", guarded(|| Tr::S(na.max_component()))),
        ("Normal3", "comps", guarded(|| l3([na[0], na[1], na[2]]))), ("Normal3", "comps", guarded(|| un(Normal3::from(va)))),
        ("Normal3", "perms", guarded(|| Tr::L((0..27).map(|n| un(na.permute(n / 9, n / 3 % 3, n % 3))).collect()))),
        ("Point3", "min", guarded(|| up(pa.min(&pb)))), ("Point3", "max", guarded(|| up(pa.max(&pb)))),
        ("Point3", "abs", guarded(|| up(pa.abs()))), ("Point3", "comps", guarded(|| up(Point3::from(va)))),
        ("Point2", "xy", guarded(|| { let q = Point2::from(pa); l2([q.x, q.y]) })),
        ("Point2", "absxy", guarded(|| { let q = Point2::new(a[0], a[1]).abs(); l2([q.x, q.y]) })),
        ("Vector2", "xy", guarded(|| { let q = Vector2::new(a[0], a[1]); l2([q[0], q[1]]) })),
    ];
    let n = res.len() as u64 + 2;
    for (ty, name, got) in res {
        let want = image(&c["e"][name]["v"], &to);
        match got {
            Ok(ref t) if eq(t, &want) => (),
            g => d.push(&format!("{}<{}> {}", ty, kind, name), format!("of {:?}, {:?}: got {:?}, expected {:?}", a, b, g, want)),
        }
    }
    d.index(&format!("Vector3<{}> max_dimension of {:?}", kind, a), guarded(|| va.max_dimension()), &c["ch"]["maxdim"]["v"]);
    d.index(&format!("Normal3<{}> max_dimension of {:?}", kind, a), guarded(|| na.max_dimension()), &c["ch"]["maxdim"]["v"]);
    n
}

/// Indices that name no component are refused.
fn refusals(c: &Value, d: &mut Diffs) -> u64 {
    let a = tri(&c["a"]);
    let f = [a[0] as Float, a[1] as Float, a[2] as Float];
    let nan = Float::NAN;
    for (i, p) in [Point3::new(nan, f[1], f[2]), Point3::new(f[0], nan, f[2]), Point3::new(f[0], f[1], nan)].iter().enumerate() {
        if guarded(|| Point2::from(*p)).is_ok() {
            d.push("Point2<Float> from Point3", format!("accepts NaN in component {}", i));
        }
    }
    if guarded(|| Vector2::new(a[0], a[1]) / 0).is_ok() {
        d.push("Vector2<i64> / 0", "not refused".to_owned());
    }
    for z in [0.0 as Float, -0.0].iter() {
        if guarded(|| Vector2::new(f[0], f[1]) / *z).is_ok() {
            d.push("Vector2<Float> / 0", "not refused".to_owned());
        }
    }
    let bad = [3usize, 4, 5, 8, 255, 256, usize::max_value()];
    for &i in bad.iter().chain(&[2usize]) {
        let mut rs = vec![("Vector2<i64>", guarded(|| Vector2::new(a[0], a[1])[i]).is_ok()), ("Vector2<Float>", guarded(|| Vector2::new(f[0], f[1])[i]).is_ok())];
        if i > 2 {
            rs.push(("Vector3<i64>", guarded(|| Vector3::new(a[0], a[1], a[2])[i]).is_ok()));
            rs.push(("Vector3<Float>", guarded(|| Vector3::new(f[0], f[1], f[2])[i]).is_ok()));
            rs.push(("Normal3<i64>", guarded(|| Normal3::new(a[0], a[1], a[2])[i]).is_ok()));
            rs.push(("Normal3<Float>", guarded(|| Normal3::new(f[0], f[1], f[2])[i]).is_ok()));
        }
        for (ty, ok) in rs {
            if ok {
                d.push(&format!("{} index", ty), format!("component {} exists", i));
            }
        }
    }
    44
}

/// Length is the root of the squared length.
fn lens(c: &Value, d: &mut Diffs) {
    let a = tri(&c["a"]);
    let want = (int(&c["e"]["lensq"]["v"]) as f64).sqrt();
    let mut check = |what: &str, got: Result<Float, String>, want: f64| match got {
        Ok(x) if (x as f64 - want).abs() <= EPS * (want + want.min(1.0)) => (),
        x => d.push(what, format!("got {:?}, expected {}", x, want)),
    };
    for s in [1.0 as Float, 0.1, 1e-6, 1048576.0, 1e-12, 1e12].iter() {
        let f = [a[0] as Float * s, a[1] as Float * s, a[2] as Float * s];
        check("Vector3<Float> len", guarded(|| Vector3::new(f[0], f[1], f[2]).len()), want * *s as f64);
        check("Normal3<Float> len", guarded(|| Normal3::new(f[0], f[1], f[2]).len()), want * *s as f64);
    }
    for s in [1i64, 1_000_003, (1 << 27) + 1].iter() {
        let i = [a[0] * s, a[1] * s, a[2] * s];
        check("Vector3<i64> len", guarded(|| Vector3::new(i[0], i[1], i[2]).len()), want * *s as f64);
        check("Normal3<i64> len", guarded(|| Normal3::new(i[0], i[1], i[2]).len()), want * *s as f64);
    }
}

/// Floor and ceiling far from the origin: of quarters beside a large whole number, and of
/// numbers so large that all are whole.
fn far(c: &Value, d: &mut Diffs) -> u64 {
    let p = tri(&c["p"]);
    let un = |v: Point3<Float>| l3([v.x, v.y, v.z]);
    let o: i64 = if cfg!(feature = "f64") { 1 << 40 } else { 1 << 20 };
    for o in [o, -o].iter() {
        let q = Point3::new(p[0] as Float / 4. + *o as Float, p[1] as Float / 4. + *o as Float, p[2] as Float / 4. + *o as Float);
        let moved = |v: &Value| json!(ints(v).iter().map(|x| x + o).collect::<Vec<_>>());
        for (n, r) in vec![("floor", guarded(|| point::floor(&q))), ("ceil", guarded(|| point::ceil(&q)))] {
            match r {
                Ok(g) if json!([g.x as i64, g.y as i64, g.z as i64]) == moved(&c["e"][n]) && g.x.fract() == 0.0 && g.y.fract() == 0.0 && g.z.fract() == 0.0 => (),
                g => d.push(n, format!("of {:?}: got {:?}", q, g)),
            }
        }
    }
    for s in [(1u64 << 50) as Float, (1u64 << 63) as Float * 4.0, 1e25].iter() {
        let q = Point3::new(p[0] as Float * s, p[1] as Float * s, p[2] as Float * s);
        for (n, r) in vec![("floor", guarded(|| point::floor(&q))), ("ceil", guarded(|| point::ceil(&q)))] {
            match r {
                Ok(g) if g == q => (),
                g => d.push(n, format!("of the whole numbers {:?}: got {:?}", q, g.map(un))),
            }
        }
    }
    10
}

/// Interpolation between end points of very different size: an end is reached as exactly as
/// the other end is small there.
fn uneven(c: &Value, d: &mut Diffs) -> u64 {
    let (p, q, t) = (tri(&c["p"]), tri(&c["q"]), int(&c["t"]));
    let mut n = 0;
    for (sp, sq) in [(1e12 as Float, 1e-9 as Float), (1e-9, 1e12), (1e20, 1.0), (1.0, 1e20)].iter().cloned() {
        let mk = |v: [i64; 3], s: Float| Point3::new(v[0] as Float / 4. * s, v[1] as Float / 4. * s, v[2] as Float / 4. * s);
        let (a, b) = (mk(p, sp), mk(q, sq));
        let r = guarded(|| { let g = point::lerp(t as Float / 4., &a, &b); [g.x, g.y, g.z] });
        let (wa, wb) = ((4 - t) as f64 / 4.0, t as f64 / 4.0);
        for (i, (x, y)) in [(a.x, b.x), (a.y, b.y), (a.z, b.z)].iter().enumerate() {
            let (u, v) = (wa * *x as f64, wb * *y as f64);
            match &r {
                Ok(g) if (g[i] as f64 - u - v).abs() <= EPS * (u.abs() + v.abs()) => (),
                g => d.push("lerp", format!("of {:?} and {:?} at {}/4: got {:?}, expected {} in component {}", a, b, t, g, u + v, i)),
            }
        }
        n += 1;
    }
    n
}

fn pt_case(p: [i64; 3], q: [i64; 3], t: i64, s: Float) -> Vec<(&'static str, i64, Result<Tr<Float>, String>)> {
    let mk = |v: [i64; 3], s: Float| Point3::new(v[0] as Float / 4. * s, v[1] as Float / 4. * s, v[2] as Float / 4. * s);
    let un = |v: Point3<Float>| l3([v.x, v.y, v.z]);
    vec![
        ("lerp", 16, guarded(|| un(point::lerp(t as Float / 4., &mk(p, s), &mk(q, s))))),
        ("floor", 1, guarded(|| un(point::floor(&mk(p, 1.))))),
        ("ceil", 1, guarded(|| un(point::ceil(&mk(p, 1.))))),
    ]
}

fn replay(c: &Value, d: &mut Diffs) -> u64 {
    match c["f"].as_str().unwrap() {
        "vec" => {
            let mut n = 18;
            lens(c, d);
            // powers of two, down to denormal numbers and up close to overflow: all results are exact or nearly so
            let f64_ = cfg!(feature = "f64");
            let two = |e: i32| (if f64_ { (2.0f64).powi(e * 8 - e / 2) } else { (2.0f64).powi(e) }) as Float;
            for (s, ks) in [(two(0), two(-140)), (two(0), two(100)), (two(-60), two(110)), (two(60), two(-120)), (1e-3, 1e3)].iter() {
                n += run_by::<Float>(c, *s, *ks, d, "Float");
            }
            for (s, ks) in [(1i64, 1i64 << 40), (1 << 40, 1 << 10), (5, (1 << 54) + 1)].iter() {
                n += run_by::<i64>(c, *s, *ks, d, "i64");
            }
            for s in [1i64, 3, 1_000_003, (1 << 27) + 1] {
                n += run_vec::<i64>(c, s, 1, d, "i64");
            }
            for s in [1.0 as Float, 0.5, 0.1, 1048576.0, 1e-6, 3.0, 1e-12, 1e12] {
                n += run_vec::<Float>(c, s, 1.0, d, "Float");
            }
            if tri(&c["b"]) == [0, 0, 0] {
                n += refusals(c, d);
            }
            let u = Float::EPSILON;
            let t = Float::MIN_POSITIVE;
            n += run_order::<Float>(c, &[0.0, 1.0, 1.0 + u, 1.0 + 2.0 * u, 1.0 + 3.0 * u, 1.0 + 4.0 * u, 1.0 + 5.0 * u, 1.0 + 6.0 * u], d, "Float, adjacent");
            n += run_order::<Float>(c, &[0.0, t, 2.0 * t, 3.0 * t, 1e-30, 1.0, 1e30, 1.0 / 0.0], d, "Float, extreme");
            if mag(&json!([c["a"], c["b"]])) <= 3.0 {
                n += run_order::<Float>(c, &[0.0, 1e9, 1e30, 1.0 / 0.0], d, "Float, infinite");
            }
            let b = 1i64 << 53;
            let m = i64::max_value();
            n += run_order::<i64>(c, &[0, b, b + 1, b + 2, b + 3, m - 2, m - 1, m], d, "i64, extreme");
            n
        }
        "pt" => {
            let mut n = far(c, d) + uneven(c, d);
            for s in [1.0 as Float, 0.3, -1024.0, 1e-9, 1e9] {
                for (name, den, got) in pt_case(tri(&c["p"]), tri(&c["q"]), int(&c["t"]), s) {
                    let s = if name == "lerp" { s } else { 1.0 };
                    d.exact(name, got, &c["e"][name], den, s, 1, 40.0);
                    n += 1;
                }
            }
            n
        }
        x => panic!("unknown family {}", x),
    }
}

fn rec_res<T: Scalar>(rs: Res<T>, out: &mut Vec<Value>, pan: &mut Vec<String>) {
    for (name, r) in rs {
        match r {
            Ok(t) => out.push(json!([name, dump(&t, 1)])),
            Err(p) => pan.push(format!("{}: {}", name, p)),
        }
    }
}

fn rec_vec<T: Scalar + ElemType>(c: &Value, one: T, kind: &str) -> Value {
    let (a, b, k) = (tri(&c["a"]), tri(&c["b"]), int(&c["k"]));
    let v = |t: [i64; 3]| [T::of(t[0], one), T::of(t[1], one), T::of(t[2], one)];
    let ka = v([k * a[0], k * a[1], k * a[2]]);
    let kk = T::of(k, one);
    let mut r = vec![];
    let mut ch = vec![];
    let mut pan = vec![];
    for (res, dim, ff) in [vector_ops(v(a), v(b), ka, kk), normal_ops(v(a), v(b), ka, kk)] {
        rec_res(res, &mut r, &mut pan);
        ch.push(json!(["maxdim", dim.map(|x| x as i64).unwrap_or(ODD)]));
        ch.push(json!(["ff", ff.map(|t| dump(&t, 1)).unwrap_or(json!([]))]));
    }
    rec_res(point_ops(v(a), v(b), ka, kk), &mut r, &mut pan);
    json!({"f": "vec", "kind": kind, "ev": [{"a": a, "b": b, "k": k, "r": r, "ch": ch, "pan": pan}]})
}

fn record(c: &Value) -> Vec<Value> {
    match c["f"].as_str().unwrap() {
        "vec" => vec![rec_vec::<i64>(c, 1, "i64"), rec_vec::<Float>(c, 1.0, "Float")],
        "pt" => {
            let (p, q, t) = (tri(&c["p"]), tri(&c["q"]), int(&c["t"]));
            let r: Vec<Value> = pt_case(p, q, t, 1.0)
                .into_iter()
                .map(|(n, den, r)| json!([n, r.map(|t| dump(&t, den)).unwrap_or(json!([]))]))
                .collect();
            vec![json!({"f": "pt", "kind": "Float", "ev": [{"p": p, "q": q, "t": t, "r": r}]})]
        }
        x => panic!("unknown family {}", x),
    }
}

fn main() {
    geo_main(replay, record)
}
