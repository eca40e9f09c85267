//! Conformance driver for matrices.
use harness::geo::*;
use harness::*;
use pbrtrs::verif_hooks::ElemType;
use pbrtrs::Matrix4;

fn run_mat<T: ElemType + Scalar + Default>(c: &Value, sa: T, sb: T, d: &mut Diffs, kind: &str) -> u64 {
    let (a, b) = (mat(&c["a"]), mat(&c["b"]));
    let ma = Matrix4::new(mapm(a, |_, _, x| T::of(x, sa)));
    let mb = Matrix4::new(mapm(b, |_, _, x| T::of(x, sb)));
    let mb_a = Matrix4::new(mapm(b, |_, _, x| T::of(x, sa)));
    let m = mag(&json!([c["a"], c["b"]]));
    let w = |x: &str| format!("Matrix4<{}> {}", kind, x);
    d.exact(&w("product"), guarded(|| l4x4((ma * mb).mat)), &c["mul"], 1, sa * sb, 1, 4.0 * m * m);
    d.exact(&w("sum"), guarded(|| l4x4((ma + mb_a).mat)), &c["add"], 1, sa, 1, m);
    d.exact(&w("transpose"), guarded(|| l4x4(ma.transpose().mat)), &c["tr"], 1, sa, 1, m);
    d.exact(&w("rows"), guarded(|| l4x4([ma[0], ma[1], ma[2], ma[3]])), &c["a"], 1, sa, 1, m);
    for i in [4usize, 5, 7, 8, 255, 256, usize::max_value()].iter() {
        if guarded(|| ma[*i]).is_ok() {
            d.push(&w("rows"), format!("row {} exists", i));
        }
    }
    11
}

/// Sums and transposes of integers beyond what any float holds exactly.
fn big_ints(c: &Value, s: i64, o: i64, d: &mut Diffs) -> u64 {
    let at = |v: &Value| Matrix4::new(mapm(mat(v), |_, _, x| x * s));
    let (ma, mb) = (at(&c["a"]), at(&c["b"]));
    let one = |i: usize, j: usize| if i == j { o } else { 0 };
    let id = Matrix4::new(mapm([[0i64; 4]; 4], |i, j, _| one(i, j)));
    d.exact("Matrix4<i64> sum", guarded(|| l4x4((ma + mb).mat)), &c["add"], 1, s, 1, 0.0);
    d.exact("Matrix4<i64> transpose", guarded(|| l4x4(ma.transpose().mat)), &c["tr"], 1, s, 1, 0.0);
    d.exact("Matrix4<i64> rows", guarded(|| l4x4([ma[0], ma[1], ma[2], ma[3]])), &c["a"], 1, s, 1, 0.0);
    d.exact("Matrix4<i64> product with a multiple of the identity", guarded(|| l4x4((ma * id).mat)), &c["a"], 1, s * o, 1, 0.0);
    d.exact("Matrix4<i64> product with a multiple of the identity", guarded(|| l4x4((id * ma).mat)), &c["a"], 1, s * o, 1, 0.0);
    5
}

/// Entries at the limits of the integers.
fn edge_ints(c: &Value, d: &mut Diffs) -> u64 {
    let (a, b, add, tr) = (mat(&c["a"]), mat(&c["b"]), mat(&c["add"]), mat(&c["tr"]));
    let (lo, hi) = (i64::min_value(), i64::max_value());
    let mut want = |what: &str, got: Result<[[i64; 4]; 4], String>, w: [[i64; 4]; 4]| {
        if got != Ok(w) {
            d.push(what, format!("got {:?}, expected {:?}", got, w));
        }
    };
    // a number next to the limit on the far side of each entry of b
    let far = mapm(b, |_, _, x| if x >= 0 { lo } else { hi });
    let sum = mapm(far, |i, j, x| (x as i128 + add[i][j] as i128 - a[i][j] as i128) as i64);
    want("Matrix4<i64> sum", guarded(|| (Matrix4::new(far) + Matrix4::new(b)).mat), sum);
    want("Matrix4<i64> sum", guarded(|| (Matrix4::new(b) + Matrix4::new(far)).mat), sum);
    let ext = |m: [[i64; 4]; 4]| mapm(m, |_, _, x| if x > 0 { hi } else if x < 0 { lo } else { 0 });
    let id = mapm([[0i64; 4]; 4], |i, j, _| if i == j { 1 } else { 0 });
    let e = ext(a);
    want("Matrix4<i64> product with the identity", guarded(|| (Matrix4::new(e) * Matrix4::new(id)).mat), e);
    want("Matrix4<i64> product with the identity", guarded(|| (Matrix4::new(id) * Matrix4::new(e)).mat), e);
    want("Matrix4<i64> transpose", guarded(|| Matrix4::new(e).transpose().mat), ext(tr));
    want("Matrix4<i64> rows", guarded(|| { let m = Matrix4::new(e); [m[0], m[1], m[2], m[3]] }), e);
    6
}

/// Inverse against adj/det; `rs`, `cs` scale rows and columns by powers of two.
fn check_inv(what: &str, inv: Result<[[Float; 4]; 4], String>, adj: [[i64; 4]; 4], det: i64, rs: [f64; 4], cs: [f64; 4], m: f64, d: &mut Diffs) {
    let inv = match inv {
        Err(p) => return d.push(what, format!("panicked: {}", p)),
        Ok(x) => x,
    };
    // (Dr M Dc)^-1 = Dc^-1 M^-1 Dr^-1
    let want = mapm(adj, |i, j, x| x as f64 / det as f64 / cs[i] / rs[j]);
    let worst = |f: &dyn Fn(usize, usize) -> f64| (0..4).flat_map(|i| (0..4).map(move |j| (i, j))).map(|(i, j)| f(i, j)).fold(0.0, f64::max);
    let big = worst(&|i, j| (want[i][j] * cs[i] * rs[j]).abs());
    // condition: |M| |M^-1|
    let cond = 16.0 * m * big * worst(&|i, _| rs[i]) / (0..4).map(|i| rs[i]).fold(f64::INFINITY, f64::min)
        * worst(&|i, _| cs[i]) / (0..4).map(|i| cs[i]).fold(f64::INFINITY, f64::min);
    if cond > 1e4 {
        return;
    }
    for i in 0..4 {
        for j in 0..4 {
            let tol = EPS * cond * big.max(1.0) / cs[i] / rs[j];
            if !((inv[i][j] as f64 - want[i][j]).abs() <= tol) {
                return d.push(what, format!("got {:?}, expected {:?}", inv, want));
            }
        }
    }
}

fn inv_case(c: &Value, d: &mut Diffs) -> u64 {
    let m = mat(&c["m"]);
    let (adj, det) = (mat(&c["adj"]), int(&c["det"]));
    let one = [1.0; 4];
    let mg = mag(&c["m"]);
    for s in [1000i64, 1 << 30, (1 << 55) + 1].iter() {
        check_inv("Matrix4<i64> inverse", guarded(|| Matrix4::new(mapm(m, |_, _, x| x * s)).inverse().mat), adj, det, [*s as f64; 4], one, mg, d);
    }
    check_inv("Matrix4<i64> inverse", guarded(|| Matrix4::new(m).inverse().mat), adj, det, one, one, mg, d);
    let f = |rs: [f64; 4], cs: [f64; 4]| mapm(m, |i, j, x| (x as f64 * rs[i] * cs[j]) as Float);
    let all = |s: f64| [s; 4];
    let scalings = [
        (one, one), (all(1024.0), one), (all(1.0 / 4096.0), one), (all(-1.0), one),
        (all(1099511627776.0), one), (all(1.0 / 1099511627776.0), one), (all(1048576.0), all(0.0009765625)),
        ([8.0, 1.0, 1.0, 1.0], one), (one, [1.0, 8.0, 1.0, 1.0]), ([1.0, 1.0, 4.0, 2.0], [1.0, 2.0, 1.0, 0.5]),
    ];
    for (rs, cs) in scalings.iter() {
        let abs = |v: [f64; 4]| [v[0].abs(), v[1].abs(), v[2].abs(), v[3].abs()];
        let (sgn, adj2) = if rs[0] < 0.0 { (true, mapm(adj, |_, _, x| -x)) } else { (false, adj) };
        let _ = sgn;
        check_inv("Matrix4<Float> inverse", guarded(|| Matrix4::new(f(*rs, *cs)).inverse().mat), adj2, det, abs(*rs), abs(*cs), mg, d);
    }
    // zeros that are not quite zero: they must not serve as pivots
    let tiny: f64 = if cfg!(feature = "f64") { 1e-17 } else { 1e-8 };
    for k in 0..2 {
        let near = mapm(m, |i, j, x| (if x == 0 { tiny * (1.0 + (i + j) as f64) * if (i * j + k) % 2 == 0 { 1.0 } else { -1.0 } } else { x as f64 }) as Float);
        check_inv("Matrix4<Float> inverse", guarded(|| Matrix4::new(near).inverse().mat), adj, det, one, one, mg, d);
    }
    16
}

fn replay(c: &Value, d: &mut Diffs) -> u64 {
    match c["f"].as_str().unwrap() {
        "mat" => {
            let mut n = 0;
            for (sa, sb) in [(1i64, 1i64), (1000, -7), (3, 1_000_000)] {
                n += run_mat::<i64>(c, sa, sb, d, "i64");
            }
            for (sa, sb) in [(1.0 as Float, 1.0 as Float), (0.5, 256.0), (-0.1, 3.0), (1e-12, 1e-3), (1e10, 1e-7), (1e9, 1e9)] {
                n += run_mat::<Float>(c, sa, sb, d, "Float");
            }
            let m = mag(&json!([c["a"], c["b"], c["add"]])) as i64;
            for s in [(1i64 << 53) + 1, (1i64 << 56) + 3].iter().filter(|s| m < i64::max_value() / **s / 3) {
                n += big_ints(c, *s, 3, d);
            }
            n += edge_ints(c, d);
            let m = mag(&json!([c["mul"], c["a"], c["b"]])) * 4.0;
            let (sa, sb) = ((1i64 << 28) + 1, (1i64 << 27) + 3);
            if m * (sa as f64) * (sb as f64) < 9e18 {
                n += run_mat::<i64>(c, sa, sb, d, "i64");
            }
            n
        }
        "inv" => inv_case(c, d),
        "sing" => {
            let m = mat(&c["m"]);
            for (what, r) in [
                ("Matrix4<i64> inverse", guarded(|| Matrix4::new(m).inverse())),
                ("Matrix4<Float> inverse", guarded(|| Matrix4::new(mapm(m, |_, _, x| x as Float)).inverse())),
                ("Matrix4<Float> inverse", guarded(|| Matrix4::new(mapm(m, |_, _, x| x as Float * -0.01)).inverse())),
                ("Matrix4<Float> inverse", guarded(|| Matrix4::new(mapm(m, |_, _, x| x as Float * 1000.0)).inverse())),
                ("Matrix4<Float> inverse", guarded(|| Matrix4::new(mapm(m, |_, _, x| x as Float * 1e-9)).inverse())),
                ("Matrix4<Float> inverse", guarded(|| Matrix4::new(mapm(m, |_, _, x| x as Float * 1e9)).inverse())),
                ("Matrix4<Float> inverse with negative zeros", guarded(|| Matrix4::new(mapm(m, |_, _, x| if x == 0 { -0.0 } else { x as Float })).inverse())),
                ("Matrix4<i64> inverse", guarded(|| Matrix4::new(mapm(m, |_, _, x| x * 1_000_000)).inverse())),
            ] {
                if let Ok(x) = r {
                    d.push(what, format!("singular matrix inverted: {:?}", x.mat));
                }
            }
            8
        }
        x => panic!("unknown family {}", x),
    }
}

fn rec_mat<T: ElemType + Scalar + Default>(c: &Value, one: T, kind: &str) -> Value {
    let a = Matrix4::new(mapm(mat(&c["a"]), |_, _, x| T::of(x, one)));
    let b = Matrix4::new(mapm(mat(&c["b"]), |_, _, x| T::of(x, one)));
    let g = |r: Result<Matrix4<T>, String>| r.map(|m| dump(&l4x4(m.mat), 1)).unwrap_or(json!([]));
    json!({"f": "mat", "kind": kind, "ev": [{"a": c["a"], "b": c["b"], "mul": g(guarded(|| a * b)), "add": g(guarded(|| a + b)),
        "tr": g(guarded(|| a.transpose())), "rows": guarded(|| dump(&l4x4([a[0], a[1], a[2], a[3]]), 1)).unwrap_or(json!([]))}]})
}

/// An inverse in units of 1/4096.
fn rec_inv(c: &Value, kind: &str, r: Result<[[Float; 4]; 4], String>) -> Value {
    let q = 4096.0;
    let (x, refused) = match r {
        Ok(m) => (json!(mapm(m, |_, _, v| {
            let y = (v as f64 * q).round();
            if y.is_finite() && y.abs() < 1e7 { y as i64 } else { 10_000_000 }
        })), false),
        Err(_) => (json!(vec![vec![0; 4]; 4]), true),
    };
    json!({"f": "inv", "kind": kind, "ev": [{"m": c["m"], "x": x, "refused": refused}]})
}

fn record(c: &Value) -> Vec<Value> {
    match c["f"].as_str().unwrap() {
        "mat" => vec![rec_mat::<i64>(c, 1, "i64"), rec_mat::<Float>(c, 1.0, "Float")],
        "inv" => {
            let m = mat(&c["m"]);
            vec![rec_inv(c, "i64", guarded(|| Matrix4::new(m).inverse().mat)),
                 rec_inv(c, "Float", guarded(|| Matrix4::new(mapm(m, |_, _, x| x as Float)).inverse().mat))]
        }
        x => panic!("unknown family {}", x),
    }
}

fn main() {
    geo_main(replay, record)
}
