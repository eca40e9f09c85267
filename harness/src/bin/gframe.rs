//! Driver for coordinate_system: records the frame of each unit vector, to be judged by the
//! specification.
//!
//!   gframe record <inputs> <trace> <progress>
//! where an input is [x, y, z] in floating point (normalised here) or a TLC case {v, d}.
use harness::geo::*;
use harness::*;
use pbrtrs::verif_hooks::vector::{self, Vector3};

type V = Vector3<Float>;

#[cfg(not(feature = "frame_plain"))]
fn frame(v: &V) -> (V, V) {
    vector::coordinate_system::<Float>(v)
}
#[cfg(feature = "frame_plain")]
fn frame(v: &V) -> (V, V) {
    vector::coordinate_system(v)
}

fn record(c: &Value) -> Vec<Value> {
    let f = |x: &Value| x.as_f64().unwrap();
    let v = match c.get("d") {
        Some(d) => [f(&c["v"][0]) / f(d), f(&c["v"][1]) / f(d), f(&c["v"][2]) / f(d)],
        None => {
            let v = [f(&c[0]), f(&c[1]), f(&c[2])];
            let l = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
            [v[0] / l, v[1] / l, v[2] / l]
        }
    };
    let a = V::new(v[0] as Float, v[1] as Float, v[2] as Float);
    let g = |v: V| [v.x as f64, v.y as f64, v.z as f64];
    let r = guarded(|| frame(&a));
    let (b, c3, panic) = match r {
        Ok((b, c)) => (g(b), g(c), false),
        Err(_) => ([0.0; 3], [0.0; 3], true),
    };
    let a = g(a);
    let lim = |x: f64| if x.is_finite() && x.abs() < 2e9 { x.round() as i64 } else { 2_000_000_000 };
    let q = |v: [f64; 3]| [lim(v[0] * 1e4), lim(v[1] * 1e4), lim(v[2] * 1e4)];
    let dot = |x: [f64; 3], y: [f64; 3]| x[0] * y[0] + x[1] * y[1] + x[2] * y[2];
    let fine = if cfg!(feature = "f64") { 1e13 } else { 1e6 };
    // residuals in units of `fine`
    let res: Vec<i64> = [dot(b, b) - 1.0, dot(c3, c3) - 1.0, dot(a, b), dot(a, c3), dot(b, c3)].iter().map(|x| lim(x * fine)).collect();
    vec![json!({"f": "frame", "kind": "Float", "ev": [{"a": q(a), "b": q(b), "c": q(c3), "res": res, "panic": panic}]})]
}

fn main() {
    geo_main(|_, _| panic!("frames are recorded"), record)
}
