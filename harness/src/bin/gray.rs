//! Conformance driver for rays and ray differentials.
use harness::geo::*;
use harness::*;
use pbrtrs::verif_hooks::point::Point3;
use pbrtrs::verif_hooks::ray::{Ray, RayDifferential};
use pbrtrs::verif_hooks::vector::Vector3;
use pbrtrs::verif_hooks::Medium;

type F3 = [Float; 3];

fn pt(v: F3) -> Point3<Float> {
    Point3::new(v[0], v[1], v[2])
}
fn ve(v: F3) -> Vector3<Float> {
    Vector3::new(v[0], v[1], v[2])
}
fn sc(v: [i64; 3], s: Float) -> F3 {
    [v[0] as Float * s, v[1] as Float * s, v[2] as Float * s]
}
fn plus(a: F3, b: F3) -> F3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}

struct Built {
    r: RayDifferential,
}

fn build(c: &Value, s: Float, t_max: Float, time: Float, has: bool) -> Built {
    let (o, d) = (sc(tri(&c["ray"]["o"]), s), sc(tri(&c["ray"]["d"]), s));
    let off: Vec<F3> = (0..4).map(|i| sc(tri(&c["off"][i]), s)).collect();
    let mut r = RayDifferential::new(Ray::new(pt(o), ve(d), t_max, time, Medium {}));
    r.rx_origin = pt(plus(o, off[0]));
    r.ry_origin = pt(plus(o, off[1]));
    r.rx_direction = ve(plus(d, off[2]));
    r.ry_direction = ve(plus(d, off[3]));
    r.has_differentials = has;
    Built { r }
}

fn aux(r: &RayDifferential) -> [F3; 4] {
    [
        [r.rx_origin.x, r.rx_origin.y, r.rx_origin.z],
        [r.ry_origin.x, r.ry_origin.y, r.ry_origin.z],
        [r.rx_direction.x, r.rx_direction.y, r.rx_direction.z],
        [r.ry_direction.x, r.ry_direction.y, r.ry_direction.z],
    ]
}
fn main_ray(r: &Ray) -> (F3, F3, Float, Float) {
    ([r.o.x, r.o.y, r.o.z], [r.d.x, r.d.y, r.d.z], r.t_max, r.time)
}

fn factors(c: &Value) -> Vec<f64> {
    c["h"].as_array().unwrap().iter().map(|f| int(&f[0]) as f64 / int(&f[1]) as f64).collect()
}

/// How far rounding can take a component at distance `off` from `o` along the history.
fn bound(c: &Value, o: f64, off: f64) -> f64 {
    let u = 8.0 * Float::EPSILON as f64;
    let (o, mut dist) = (o.abs(), off.abs());
    let mut e = u * (o + dist);
    for f in factors(c) {
        let f = f.abs();
        e = f * (e + u * (dist + o)) + 2.0 * u * (o + f * dist);
        dist *= f;
    }
    e
}

fn replay(c: &Value, d: &mut Diffs) -> u64 {
    let mut n = 0;
    for s in [1.0 as Float, 0.5, 0.3, -128.0, 1e-9, 1e9] {
        let b = guarded(|| {
            let has = s != 0.5;
            let mut b = build(c, s, 77.0, 0.25, has);
            let before = main_ray(&b.r.ray);
            for f in factors(c) {
                b.r.scale_differentials(f as Float);
            }
            let after = main_ray(&b.r.ray);
            (aux(&b.r), before == after, b.r.has_differentials == has)
        });
        match b {
            Err(p) => d.push("scale_differentials", format!("panicked: {}", p)),
            Ok((a, kept, has)) => {
                for i in 0..4 {
                    let w = &c["aux"][i];
                    let den = int(&w["d"]) as f64;
                    let (o, off) = (tri(&c["ray"][["o", "d"][i / 2]]), tri(&c["off"][i]));
                    for k in 0..3 {
                        let want = int(&w["n"][k]) as f64 / den * s as f64;
                        let tol = bound(c, o[k] as f64 * s as f64, off[k] as f64 * s as f64);
                        if !((a[i][k] as f64 - want).abs() <= tol) {
                            d.push(["rx_origin", "ry_origin", "rx_direction", "ry_direction"][i], format!("component {} got {:e}, expected {:e}", k, a[i][k], want));
                        }
                    }
                }
                d.flag("main ray unchanged by scaling", Ok(kept), true);
                d.flag("has_differentials unchanged by scaling", Ok(has), true);
            }
        }
        n += 6;
        if c["h"].as_array().unwrap().is_empty() {
            let (o, dd) = (sc(tri(&c["ray"]["o"]), s), sc(tri(&c["ray"]["d"]), s));
            for at in c["at"].as_array().unwrap() {
                let t = int(&at[0]) as Float / 2.0;
                for inf in [false, true] {
                    let p = guarded(|| {
                        let r = if inf { Ray::new_infinite(pt(o), ve(dd)) } else { Ray::new(pt(o), ve(dd), 1.0, 0.5, Medium {}) };
                        let p = r.at(t);
                        l3([p.x, p.y, p.z])
                    });
                    d.exact("at", p, &at[1], 2, s, 1, 100.0);
                    n += 1;
                }
            }
            let inf = guarded(|| {
                let r = Ray::new_infinite(pt(o), ve(dd));
                let (o2, d2, tm, time) = main_ray(&r);
                o2 == o && d2 == dd && tm == 1.0 as Float / 0.0 && time == 0.0
            });
            d.flag("new_infinite", inf, true);
            let plain = guarded(|| {
                let r = Ray::new(pt(o), ve(dd), 3.5, 0.75, Medium {});
                let (o2, d2, tm, time) = main_ray(&r);
                o2 == o && d2 == dd && tm == 3.5 && time == 0.75
            });
            d.flag("new", plain, true);
            let nd = guarded(|| {
                let r = RayDifferential::new(Ray::new(pt(o), ve(dd), 3.5, 0.75, Medium {}));
                !r.has_differentials && main_ray(&r.ray) == (o, dd, 3.5, 0.75)
            });
            d.flag("new differential", nd, true);
            n += 3;
        }
    }
    n
}

/// A history of scalings by halves; auxiliary values in units of 1/64.
fn record(c: &Value) -> Vec<Value> {
    let mut b = build(c, 1.0, 50.0, 1.0, c["ts"][0] != 2);
    let q = |a: [F3; 4]| Value::Array(a.iter().map(|v| dump(&l3(*v), 64)).collect());
    let mr = |b: &Built| json!([dump(&l3(main_ray(&b.r.ray).0), 64), dump(&l3(main_ray(&b.r.ray).1), 64)]);
    let mut ev = vec![json!({"op": "make", "k": 2, "aux": q(aux(&b.r)), "main": mr(&b), "off": c["off"], "ray": c["ray"], "panic": false})];
    for f in ints(&c["h"]) {
        let bad = guarded(|| b.r.scale_differentials(f as Float / 2.0)).is_err();
        ev.push(json!({"op": "scale", "k": f, "aux": q(aux(&b.r)), "main": mr(&b), "off": c["off"], "ray": c["ray"], "panic": bad}));
    }
    for t in ints(&c["ts"]) {
        let p = guarded(|| { let p = b.r.ray.at(t as Float / 2.0); dump(&l3([p.x, p.y, p.z]), 64) });
        ev.push(json!({"op": "at", "k": t, "aux": [p.clone().unwrap_or(json!([]))], "main": mr(&b), "off": c["off"], "ray": c["ray"], "panic": p.is_err()}));
    }
    vec![json!({"f": "ray", "kind": "Float", "ev": ev})]
}

fn main() {
    geo_main(replay, record)
}
