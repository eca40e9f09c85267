//! Conformance driver for vectors under transforms.
use harness::geo::*;
use harness::*;
use pbrtrs::verif_hooks::transform::Transform;
use pbrtrs::verif_hooks::vector::Vector3;
use pbrtrs::verif_hooks::ElemType;
use pbrtrs::Matrix4;

type M = [[i64; 4]; 4];

fn floats(m: M, s: Float) -> Matrix4<Float> {
    Matrix4::new(mapm(m, |_, _, x| x as Float * s))
}

/// A transform with this matrix; its inverse does not matter.
fn plain(m: M, s: Float) -> Transform {
    Transform::new(floats(m, s), floats(m, 1.0))
}

fn image<T: ElemType>(v: [T; 3], t: &Transform) -> [f64; 3] {
    let f = Vector3::new(v[0], v[1], v[2]).transform(t);
    [f.x as f64, f.y as f64, f.z as f64]
}

/// `got` against `want * scale`, where the terms of row i sum up to `size(i) * scale` in magnitude.
fn agree(d: &mut Diffs, what: &str, got: Result<[f64; 3], String>, want: [i64; 3], scale: f64, size: &dyn Fn(usize) -> f64) {
    match got {
        Ok(g) if (0..3).all(|i| (g[i] - want[i] as f64 * scale).abs() <= EPS * 4.0 * size(i) * scale.abs()) => (),
        g => d.push(what, format!("got {:?}, expected {:?} * {:e}", g, want, scale)),
    }
}

fn replay(c: &Value, d: &mut Diffs) -> u64 {
    let m = mat(&c["m"]);
    let mut n = 0;
    for iv in c["im"].as_array().unwrap() {
        let (v, want) = (tri(&iv[0]), tri(&iv[1]));
        let size = |i: usize| (0..3).map(|j| (m[i][j] * v[j]).abs() as f64).sum::<f64>();
        for (sm, sv) in [(1.0 as Float, 1.0 as Float), (0.1, 0.3), (1e-9, 1e9), (1e12, 1e-6), (1e12, 1e12), (1e-12, 1e-12), (4.0, -1.0)] {
            let t = plain(m, sm);
            agree(d, "Vector3<Float> transform", guarded(|| image([v[0] as Float * sv, v[1] as Float * sv, v[2] as Float * sv], &t)), want, sm as f64 * sv as f64, &size);
            n += 1;
        }
        for (sm, sv) in [(1.0 as Float, 1i64), (0.5, 1_000_003), (1e-9, 1 << 40), (4.0, -7), (1.0, (1 << 58) + 1)] {
            let t = plain(m, sm);
            agree(d, "Vector3<i64> transform", guarded(|| image([v[0] * sv, v[1] * sv, v[2] * sv], &t)), want, sm as f64 * sv as f64, &size);
            n += 1;
        }
    }
    if !c["aff"].as_bool().unwrap() {
        return n;
    }
    // one transform after the other, and both at once
    for two in c["two"].as_array().unwrap() {
        let (g, p) = (mat(&two["g"]), mat(&two["p"]));
        for (k, iv) in c["im"].as_array().unwrap().iter().enumerate() {
            let (v, want) = (tri(&iv[0]), tri(&two["im"][k]));
            let size = |i: usize| (0..3).map(|j| (0..3).map(|l| (g[i][l] * m[l][j] * v[j]).abs() as f64).sum::<f64>()).sum::<f64>() * 2.0;
            for s in [1.0 as Float, 0.1] {
                let f = Vector3::new(v[0] as Float * s, v[1] as Float * s, v[2] as Float * s);
                agree(d, "transform by two", guarded(|| { let x = f.transform(&plain(m, 1.0)).transform(&plain(g, 1.0)); [x.x as f64, x.y as f64, x.z as f64] }), want, s as f64, &size);
                agree(d, "transform by the product", guarded(|| { let x = f.transform(&plain(p, 1.0)); [x.x as f64, x.y as f64, x.z as f64] }), want, s as f64, &size);
                n += 2;
            }
        }
    }
    // there and back again
    let (det, adj) = (int(&c["det"]), mat(&c["adj"]));
    if det != 0 {
        let big = |m: M| m.iter().flat_map(|r| r.iter()).map(|x| x.abs()).max().unwrap() as f64;
        let cond = big(m) * big(adj) / det.abs() as f64;
        if cond < 1e3 {
            for iv in c["im"].as_array().unwrap() {
                let v = tri(&iv[0]);
                let len = v.iter().map(|x| x.abs()).max().unwrap() as f64;
                agree(d, "transform and back", guarded(|| {
                    let t = Transform::new_(floats(m, 1.0));
                    let x = Vector3::new(v[0] as Float, v[1] as Float, v[2] as Float).transform(&t).transform(&t.inverse());
                    [x.x as f64, x.y as f64, x.z as f64]
                }), v, 1.0, &|_| 20.0 * cond * len);
                n += 1;
            }
        }
    }
    n
}

fn record(c: &Value) -> Vec<Value> {
    let (m, v) = (mat(&c["m"]), tri(&c["v"]));
    let g = mat(&c["g"]);
    let q = |r: Result<[f64; 3], String>| match r {
        Ok(a) => json!(a.iter().map(|x| if x.is_finite() && x.fract() == 0.0 && x.abs() < 2e9 { *x as i64 } else { ODD }).collect::<Vec<_>>()),
        Err(_) => json!([ODD, ODD, ODD]),
    };
    let f = [v[0] as Float, v[1] as Float, v[2] as Float];
    let mut out = vec![];
    for (kind, im) in [("Float", guarded(|| image(f, &plain(m, 1.0)))), ("i64", guarded(|| image(v, &plain(m, 1.0))))] {
        let two = guarded(|| {
            let x = Vector3::new(f[0], f[1], f[2]).transform(&plain(m, 1.0)).transform(&plain(g, 1.0));
            [x.x as f64, x.y as f64, x.z as f64]
        });
        out.push(json!({"f": "apply", "kind": kind, "ev": [{"m": m, "g": g, "v": v, "im": q(im), "two": q(two)}]}));
    }
    out
}

fn main() {
    geo_main(replay, record)
}
