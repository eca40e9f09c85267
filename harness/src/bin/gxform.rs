//! Conformance driver for transforms.
use harness::geo::*;
use harness::*;
use pbrtrs::verif_hooks::transform::Transform;
use pbrtrs::verif_hooks::vector::Vector3;
use pbrtrs::Matrix4;

fn make(how: &Value) -> Transform {
    let v = &how["v"];
    match how["k"].as_str().unwrap() {
        "translate" => {
            let t = tri(v);
            Transform::translate(&Vector3::new(t[0] as Float, t[1] as Float, t[2] as Float))
        }
        "scale" => {
            let f = |i: usize| int(&v[i][0]) as Float / int(&v[i][1]) as Float;
            Transform::scale(f(0), f(1), f(2))
        }
        "new" => Transform::new_(Matrix4::new(mapm(mat(v), |_, _, x| x as Float))),
        "newq" => Transform::new_(Matrix4::new(mapm(mat(&v["n"]), |_, _, x| x as Float / int(&v["d"]) as Float))),
        "pow" => {
            let p = |i: usize| power(&v[i]) as Float;
            Transform::scale(p(0), p(1), p(2))
        }
        "near" => {
            let a = ints(v);
            let x = a[2] as f64 * 2f64.powi(-a[3] as i32);
            Transform::new_(Matrix4::new(mapm([[0u8; 4]; 4], |i, j, _| {
                ((if i == j { 1.0 } else { 0.0 }) + if (i as i64 + 1, j as i64 + 1) == (a[0], a[1]) { x } else { 0.0 }) as Float
            })))
        }
        x => panic!("unknown constructor {}", x),
    }
}

/// <<sign, exponent>>
fn power(v: &Value) -> f64 {
    int(&v[0]) as f64 * 2f64.powi(int(&v[1]) as i32)
}

/// Scalings by powers of two: everything is exact.
fn replay_pow(c: &Value, d: &mut Diffs) -> u64 {
    let r = guarded(|| {
        let mut t = make(&c["how"]);
        for op in c["h"].as_array().unwrap() {
            t = apply(&t, op.as_str().unwrap());
        }
        let f = Vector3::new(1. as Float, -2., 0.5).transform(&t);
        (t.m.mat, t.inverse().m.mat, t.is_identity(), t.has_scale(), [f.x, f.y, f.z])
    });
    let (m, inv, id, hs, im) = match r {
        Err(p) => {
            d.push("transform", format!("panicked: {}", p));
            return 1;
        }
        Ok(x) => x,
    };
    for (what, got, want) in [("matrix", m, &c["m"]["pow"]), ("inverse matrix", inv, &c["inv"]["pow"])].iter() {
        for i in 0..4 {
            for j in 0..4 {
                let w = if i != j { 0.0 } else if i == 3 { 1.0 } else { power(&want[i]) };
                if !((got[i][j] as f64 - w).abs() <= EPS * w.abs()) {
                    return { d.push(what, format!("got {:?}, expected {} at {},{}", got, w, i, j)); 1 };
                }
            }
        }
    }
    for i in 0..3 {
        let w = [1.0, -2.0, 0.5][i] * power(&c["m"]["pow"][i]);
        if !((im[i] as f64 - w).abs() <= EPS * w.abs()) {
            d.push("vector", format!("became {:?}, expected {} on axis {}", im, w, i));
        }
    }
    d.flag("is_identity", Ok(id), c["id"].as_bool().unwrap());
    d.flag("has_scale", Ok(hs), c["hs"].as_bool().unwrap());
    5
}

fn apply(t: &Transform, op: &str) -> Transform {
    match op {
        "inverse" => t.inverse(),
        "transpose" => t.transpose(),
        x => panic!("unknown operation {}", x),
    }
}

fn vecs() -> Vec<[i64; 3]> {
    vec![[1, 0, 0], [0, 1, 0], [0, 0, 1], [2, -3, 5], [-1, 4, 0]]
}

fn replay(c: &Value, d: &mut Diffs) -> u64 {
    if c["how"]["k"] == "pow" {
        return replay_pow(c, d);
    }
    let r = guarded(|| {
        let mut t = make(&c["how"]);
        for op in c["h"].as_array().unwrap() {
            t = apply(&t, op.as_str().unwrap());
        }
        let im: Vec<[Float; 3]> = vecs().iter().map(|v| {
            let f = Vector3::new(v[0] as Float, v[1] as Float, v[2] as Float).transform(&t);
            let i = Vector3::new(v[0], v[1], v[2]).transform(&t);
            assert!((f.x, f.y, f.z) == (i.x, i.y, i.z), "integer and float vectors are transformed differently");
            [f.x, f.y, f.z]
        }).collect();
        (t.m.mat, t.inverse().m.mat, t.is_identity(), t.has_scale(), im)
    });
    let (m, inv, id, hs, im) = match r {
        Err(p) => {
            d.push("transform", format!("panicked: {}", p));
            return 1;
        }
        Ok(x) => x,
    };
    // what the specification leaves out of a matrix that is nearly the identity
    let slack = if c["how"]["k"] == "near" { 1.01 * 2f64.powi(-int(&c["how"]["v"][3]) as i32) } else { 0.0 };
    let near = |what: &str, got: [[Float; 4]; 4], want: &Value, d: &mut Diffs| {
        let (n, den) = (mat(&want["n"]), int(&want["d"]));
        for i in 0..4 {
            for j in 0..4 {
                let w = n[i][j] as f64 / den as f64;
                if !((got[i][j] as f64 - w).abs() <= slack + EPS * 5.0 * (1.0 + w.abs())) {
                    return d.push(what, format!("got {:?}, expected {}", got, want));
                }
            }
        }
    };
    near("matrix", m, &c["m"], d);
    near("inverse matrix", inv, &c["inv"], d);
    let prod = (Matrix4::new(mapm(m, |_, _, x| x as Float)) * Matrix4::new(inv)).mat;
    for i in 0..4 {
        for j in 0..4 {
            let w = if i == j { 1.0 } else { 0.0 };
            let size = (0..4).map(|k| (m[i][k] as f64 * inv[k][j] as f64).abs()).fold(1.0, f64::max);
            if !((prod[i][j] as f64 - w).abs() <= EPS * 20.0 * size) {
                d.push("matrix times inverse", format!("{:?}", prod));
            }
        }
    }
    let (n, den) = (mat(&c["m"]["n"]), int(&c["m"]["d"]));
    for (v, got) in vecs().iter().zip(&im) {
        for i in 0..3 {
            let w = (0..3).map(|j| n[i][j] as f64 * v[j] as f64).sum::<f64>() / den as f64;
            let size = (0..3).map(|j| (n[i][j] as f64 * v[j] as f64).abs()).sum::<f64>() / den as f64;
            if !((got[i] as f64 - w).abs() <= 6.0 * slack + EPS * 5.0 * (1.0 + size)) {
                d.push("vector", format!("{:?} became {:?}, expected {} on axis {}", v, got, w, i));
            }
        }
    }
    // an identity that only rounding made is not judged
    let exact = c["how"]["k"] == "translate" || c["how"]["k"] == "scale" || c["how"]["k"] == "near" || !c["id"].as_bool().unwrap() || c["how"]["v"] == c["m"]["n"];
    if exact {
        d.flag("is_identity", Ok(id), c["id"].as_bool().unwrap());
    }
    d.flag("has_scale", Ok(hs), c["hs"].as_bool().unwrap());
    6
}

/// A history; matrices in units of 1/256.
fn record(c: &Value) -> Vec<Value> {
    let q = |m: [[Float; 4]; 4]| json!(mapm(m, |_, _, v| {
        let y = (v as f64 * 256.0).round();
        if y.is_finite() && y.abs() < 100_000.0 { y as i64 } else { 100_000 }
    }));
    let v = tri(&c["w"]);
    let snap = |t: &Transform| (q(t.m.mat), q(t.inverse().m.mat), t.is_identity(), t.has_scale(), {
        let f = Vector3::new(v[0], v[1], v[2]).transform(t);
        json!([f.x, f.y, f.z].iter().map(|x| { let y = (*x as f64 * 256.0).round(); if y.is_finite() && y.abs() < 2e9 { y as i64 } else { 2_000_000_000 } }).collect::<Vec<i64>>())
    });
    let none = || (json!(vec![vec![0; 4]; 4]), json!(vec![vec![0; 4]; 4]), false, false, json!([0, 0, 0]));
    let mut ev = vec![];
    let mut cur = guarded(|| make(&c["how"]));
    let mut op = "make".to_owned();
    let mut ops = c["h"].as_array().unwrap().iter();
    loop {
        let (m, inv, id, hs, im) = match &cur {
            Ok(t) => snap(t),
            Err(_) => none(),
        };
        ev.push(json!({"op": op, "how": c["how"], "m": m, "inv": inv, "id": id, "hs": hs, "v": v, "im": im, "panic": cur.is_err()}));
        match (ops.next(), &cur) {
            (Some(o), Ok(t)) => {
                op = o.as_str().unwrap().to_owned();
                let t = *t;
                let o2 = op.clone();
                cur = guarded(move || apply(&t, &o2));
            }
            _ => break,
        }
    }
    vec![json!({"f": "xform", "kind": "Float", "ev": ev})]
}

fn main() {
    geo_main(replay, record)
}
