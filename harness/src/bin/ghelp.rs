//! Conformance driver for the helpers the geometry shares.
use harness::geo::*;
use harness::*;
use pbrtrs::verif_hooks::point::Point3;
use pbrtrs::verif_hooks::{self, ElemType, HasNan, ToFloat};

fn extremes<T: ElemType>(c: &Value, to: &dyn Fn(i64) -> T, d: &mut Diffs, kind: &str) -> u64 {
    let l: Vec<T> = ints(&c["l"]).iter().map(|x| to(*x)).collect();
    let (lo, hi) = (to(int(&c["min"])), to(int(&c["max"])));
    for (what, got, want) in [("pmin", guarded(|| verif_hooks::pmin(&l)), lo), ("pmax", guarded(|| verif_hooks::pmax(&l)), hi)] {
        if got != Ok(want) {
            d.push(what, format!("of {} {:?}: got {:?}, expected {:?}", kind, l, got, want));
        }
    }
    // the same far down a long list
    for k in [1usize, 7, 300] {
        let mut long = vec![l[0]; k];
        long.extend(&l);
        long.extend(vec![l[l.len() - 1]; k]);
        if guarded(|| (verif_hooks::pmin(&long), verif_hooks::pmax(&long))) != Ok((lo, hi)) {
            d.push("pmin/pmax", format!("of {} {:?} between {} repetitions", kind, l, k));
        }
    }
    // every value lies between the limits of its type
    for x in &l {
        if !(<T as ElemType>::min_value() <= *x && *x <= <T as ElemType>::max_value()) || x.is_nan_() {
            d.push("limits", format!("{} {:?}", kind, x));
        }
    }
    8 + l.len() as u64
}

trait Nan {
    fn is_nan_(&self) -> bool;
}
impl<T: ElemType> Nan for T {
    fn is_nan_(&self) -> bool {
        ElemType::is_nan(self)
    }
}

fn interpolate(c: &Value, s: Float, r: Float, d: &mut Diffs) -> u64 {
    let l = ints(&c["l"]);
    let (a, b) = (l[0], l[l.len() - 1]);
    let (x, y) = (a as Float * s, b as Float * r);
    for (i, q) in (-4..9i64).enumerate() {
        let (u, v) = ((4 - q) as f64 / 4.0 * x as f64, q as f64 / 4.0 * y as f64);
        let w = if s == r { int(&c["lerp"][i]) as f64 / 4.0 * s as f64 } else { u + v };
        match guarded(|| verif_hooks::lerp(q as Float / 4.0, x, y)) {
            Ok(g) if (g as f64 - w).abs() <= EPS * (u.abs() + v.abs()) => (),
            g => d.push("lerp", format!("from {:e} to {:e} at {}/4: got {:?}, expected {:e}", x, y, q, g, w)),
        }
    }
    13
}

fn conversions(c: &Value, d: &mut Diffs) -> u64 {
    let l = ints(&c["l"]);
    let mut n = 0;
    for &x in &l {
        for s in [1i64, 1 << 20, (1 << 40) + 1, i64::max_value() / 4] {
            let v = x * s;
            let f = v as Float;
            let ok = guarded(|| v.to_float() == f && f.to_float() == f && <Float as ElemType>::from_int(v as isize) == f && <i64 as ElemType>::from_int(v as isize) == v);
            if ok != Ok(true) {
                d.push("conversion", format!("of {}: {:?}", v, ok));
            }
            n += 1;
        }
    }
    // a number differs from one exactly beyond a thousandth
    for x in &l {
        for k in [0i64, 1, 9, 11, 20, 999, 1001, 3000, 9990, 10_000, 10_011, 19_980, 20_000, 20_005, 20_020, 30_000, 1_000_000] {
            for sign in [1.0, -1.0] {
                let y = (1.0 + sign * (k + 40_000 * x.abs() * (k > 10) as i64) as f64 / 10_000.0) as Float;
                if guarded(|| verif_hooks::not_one(y)) != Ok(k > 10) {
                    d.push("not_one", format!("of {}", y));
                }
            }
        }
        for y in [0.0, -0.0, Float::MAX, Float::MIN, Float::INFINITY, Float::NEG_INFINITY, Float::MIN_POSITIVE] {
            if guarded(|| verif_hooks::not_one(y)) != Ok(true) {
                d.push("not_one", format!("of {}", y));
            }
        }
        let f = *x as Float;
        let kinds = [f, -f, Float::INFINITY, Float::NEG_INFINITY, Float::MAX, Float::MIN_POSITIVE, Float::NAN, -Float::NAN];
        for k in 0..512usize {
            let (a, b, e) = (kinds[k & 7], kinds[k >> 3 & 7], kinds[k >> 6 & 7]);
            let want = k & 7 > 5 || k >> 3 & 7 > 5 || k >> 6 & 7 > 5;
            if guarded(|| Point3::new(a, b, e).has_nan()) != Ok(want) || guarded(|| ElemType::is_nan(&a)) != Ok(k & 7 > 5) {
                d.push("has_nan", format!("of {:?}", (a, b, e)));
            }
        }
        if guarded(|| Point3::new(*x, -x, 0).has_nan()) != Ok(false) {
            d.push("has_nan", "of integers".to_owned());
        }
        n += 24;
    }
    n
}

#[cfg(not(feature = "no_swap"))]
fn swap(c: &Value, d: &mut Diffs) -> u64 {
    let want = mat(&c["m"]);
    let mut i = mapm([[0u8; 4]; 4], |i, j, _| (4 * i + j + 1) as i64);
    let mut f = mapm(i, |_, _, x| x as Float * 0.1);
    for s in c["h"].as_array().unwrap() {
        let (p, q) = (ints(&s[0]), ints(&s[1]));
        let at = |v: &[i64]| (v[0] as usize - 1, v[1] as usize - 1);
        if guarded(|| {
            verif_hooks::matrix::mat4swap(&mut i, at(&p), at(&q));
            verif_hooks::matrix::mat4swap(&mut f, at(&p), at(&q));
        }).is_err() {
            d.push("mat4swap", "panicked".to_owned());
        }
    }
    if i != want || f != mapm(want, |_, _, x| x as Float * 0.1) {
        d.push("mat4swap", format!("got {:?}, expected {:?}", i, want));
    }
    2
}
#[cfg(feature = "no_swap")]
fn swap(_: &Value, _: &mut Diffs) -> u64 {
    0
}

#[cfg(not(feature = "no_tomat"))]
fn tomat(c: &Value, d: &mut Diffs) -> u64 {
    let m = mat(&c["m"]);
    for s in [1i64, -3, (1 << 40) + 1] {
        let x = mapm(m, |_, _, x| x * s);
        let got = guarded(|| verif_hooks::matrix::to_mat4f(&pbrtrs::Matrix4::new(x)).mat);
        if got != Ok(mapm(x, |_, _, x| x as Float)) {
            d.push("to_mat4f", format!("of {:?}: got {:?}", x, got));
        }
        let y = mapm(m, |_, _, x| x as Float * s as Float / 3.0);
        let got = guarded(|| verif_hooks::matrix::to_mat4f(&pbrtrs::Matrix4::new(y)).mat);
        if got != Ok(y) {
            d.push("to_mat4f", format!("of {:?}: got {:?}", y, got));
        }
    }
    6
}
#[cfg(feature = "no_tomat")]
fn tomat(_: &Value, _: &mut Diffs) -> u64 {
    0
}

fn replay(c: &Value, d: &mut Diffs) -> u64 {
    if c["f"] == "swap" {
        return swap(c, d) + tomat(c, d);
    }
    let mut n = 0;
    let (u, t) = (Float::EPSILON, Float::MIN_POSITIVE);
    n += extremes::<i64>(c, &|x| x, d, "i64");
    n += extremes::<i64>(c, &|x| match x { -3 => i64::min_value(), 3 => i64::max_value(), x => x * ((1 << 53) + 1) }, d, "i64");
    n += extremes::<Float>(c, &|x| x as Float * 0.3, d, "Float");
    n += extremes::<Float>(c, &|x| 1.0 + x as Float * u, d, "Float");
    n += extremes::<Float>(c, &|x| x as Float * t, d, "Float");
    n += extremes::<Float>(c, &|x| match x { -3 => -1.0 / 0.0, 3 => 1.0 / 0.0, x => x as Float * 1e30 }, d, "Float");
    for (s, r) in [(1.0 as Float, 1.0 as Float), (0.1, 0.1), (-1024.0, -1024.0), (1e-20, 1e-20), (1e20, 1e20), (1e12, 1e-9), (1e-9, 1e12)] {
        n += interpolate(c, s, r, d);
    }
    n + conversions(c, d)
}

fn record(c: &Value) -> Vec<Value> {
    let l = ints(&c["l"]);
    let f: Vec<Float> = l.iter().map(|x| *x as Float).collect();
    let pan = |_| (ODD, ODD);
    let t = int(&c["t"]);
    let lerp = guarded(|| verif_hooks::lerp(t as Float / 4.0, f[0], f[f.len() - 1])).ok().and_then(|x| Scalar::as_int(x, 4)).unwrap_or(ODD);
    let (a, b) = guarded(|| (verif_hooks::pmin(&l), verif_hooks::pmax(&l))).unwrap_or_else(pan);
    let (x, y) = guarded(|| (verif_hooks::pmin(&f) as i64, verif_hooks::pmax(&f) as i64)).unwrap_or_else(pan);
    vec![json!({"f": "help", "kind": "i64", "ev": [{"l": l, "min": a, "max": b, "t": t, "lerp": lerp}]}),
         json!({"f": "help", "kind": "Float", "ev": [{"l": l, "min": x, "max": y, "t": t, "lerp": lerp}]})]
}

fn main() {
    geo_main(replay, record)
}
