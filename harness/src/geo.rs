//! Shared pieces of the geometry drivers: trees of results, their comparison with what the
//! specification demands under a scaling of the arguments, and their recording as integers.
use crate::*;
use std::io::BufWriter;
use std::sync::Mutex;

/// Relative accuracy expected of floating-point results.
pub const EPS: f64 = if cfg!(feature = "f64") { 1e-12 } else { 2e-5 };

/// A result: a number or a list of results.
#[derive(Debug, Clone)]
pub enum Tr<T> {
    S(T),
    L(Vec<Tr<T>>),
}

pub fn l3<T: Copy>(v: [T; 3]) -> Tr<T> {
    Tr::L(v.iter().map(|x| Tr::S(*x)).collect())
}
pub fn l2<T: Copy>(v: [T; 2]) -> Tr<T> {
    Tr::L(v.iter().map(|x| Tr::S(*x)).collect())
}
pub fn l4x4<T: Copy>(m: [[T; 4]; 4]) -> Tr<T> {
    Tr::L(m.iter().map(|r| Tr::L(r.iter().map(|x| Tr::S(*x)).collect())).collect())
}

/// An element type together with a scale.
pub trait Scalar: Copy + std::fmt::Debug + PartialEq + PartialOrd + Send + Sync + 'static {
    fn of(n: i64, scale: Self) -> Self;
    /// Is this `num/den * scale^deg`, up to rounding at magnitude `mag^deg * scale^deg`?
    fn is(self, num: i64, den: i64, scale: Self, deg: u32, mag: f64) -> bool;
    /// The nearest integer to `self * den`, or None if it is not close to one.
    fn as_int(self, den: i64) -> Option<i64>;
}

impl Scalar for i64 {
    fn of(n: i64, scale: i64) -> i64 {
        n * scale
    }
    fn is(self, num: i64, den: i64, scale: i64, deg: u32, _mag: f64) -> bool {
        self as i128 * den as i128 == num as i128 * (scale as i128).pow(deg)
    }
    fn as_int(self, den: i64) -> Option<i64> {
        Some(self * den)
    }
}

impl Scalar for Float {
    fn of(n: i64, scale: Float) -> Float {
        n as Float * scale
    }
    fn is(self, num: i64, den: i64, scale: Float, deg: u32, mag: f64) -> bool {
        let s = (scale as f64).powi(deg as i32);
        let want = num as f64 / den as f64 * s;
        let tol = EPS * (want.abs() + mag.max(1.0).powi(deg.max(1) as i32) * s.abs());
        (self as f64 - want).abs() <= tol
    }
    fn as_int(self, den: i64) -> Option<i64> {
        let x = self as f64 * den as f64;
        let r = x.round();
        if x.is_finite() && (x - r).abs() <= 1e-3 + EPS * x.abs() && r.abs() < 2e9 {
            Some(r as i64)
        } else {
            None
        }
    }
}

pub fn int(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("integer expected: {}", v))
}
pub fn ints(v: &Value) -> Vec<i64> {
    v.as_array().unwrap_or_else(|| panic!("list expected: {}", v)).iter().map(int).collect()
}
pub fn tri(v: &Value) -> [i64; 3] {
    let a = ints(v);
    [a[0], a[1], a[2]]
}
pub fn mat(v: &Value) -> [[i64; 4]; 4] {
    let mut m = [[0; 4]; 4];
    for (i, r) in v.as_array().unwrap().iter().enumerate() {
        for (j, x) in ints(r).into_iter().enumerate() {
            m[i][j] = x;
        }
    }
    m
}
pub fn mapm<A: Copy, B: Copy + Default>(m: [[A; 4]; 4], f: impl Fn(usize, usize, A) -> B) -> [[B; 4]; 4] {
    let mut o = [[B::default(); 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            o[i][j] = f(i, j, m[i][j]);
        }
    }
    o
}

/// Largest absolute integer in a JSON value.
pub fn mag(v: &Value) -> f64 {
    match v {
        Value::Array(a) => a.iter().map(mag).fold(0.0, f64::max),
        Value::Object(o) => o.values().map(mag).fold(0.0, f64::max),
        Value::Number(n) => n.as_f64().unwrap().abs(),
        _ => 0.0,
    }
}

pub fn same<T: Scalar>(t: &Tr<T>, want: &Value, den: i64, scale: T, deg: u32, mag: f64) -> bool {
    match (t, want) {
        (Tr::S(x), Value::Number(n)) => x.is(n.as_i64().unwrap(), den, scale, deg, mag),
        (Tr::L(v), Value::Array(a)) => v.len() == a.len() && v.iter().zip(a).all(|(x, y)| same(x, y, den, scale, deg, mag)),
        _ => false,
    }
}

/// A number that no specification expects: stands for "not an integer".
pub const ODD: i64 = -2147480017;

pub fn dump<T: Scalar>(t: &Tr<T>, den: i64) -> Value {
    match t {
        Tr::S(x) => json!(x.as_int(den).unwrap_or(ODD)),
        Tr::L(v) => Value::Array(v.iter().map(|x| dump(x, den)).collect()),
    }
}

/// Collects the differences found in one case.
#[derive(Default)]
pub struct Diffs(pub Vec<(String, String)>);

impl Diffs {
    pub fn push(&mut self, what: &str, msg: String) {
        self.0.push((what.to_owned(), msg));
    }
    /// A result against `{v, d}` of the specification.
    pub fn result<T: Scalar>(&mut self, what: &str, got: Result<Tr<T>, String>, want: &Value, scale: T, mag: f64) {
        self.exact(what, got, &want["v"], 1, scale, want["d"].as_u64().unwrap() as u32, mag)
    }
    pub fn exact<T: Scalar>(&mut self, what: &str, got: Result<Tr<T>, String>, want: &Value, den: i64, scale: T, deg: u32, mag: f64) {
        match got {
            Err(p) => self.push(what, format!("panicked: {}", p)),
            Ok(t) => {
                if !same(&t, want, den, scale, deg, mag) {
                    self.push(what, format!("got {:?}, expected {}/{} * {:?}^{}", t, want, den, scale, deg));
                }
            }
        }
    }
    /// Any member of the list of the specification will do.
    pub fn choice<T: Scalar>(&mut self, what: &str, got: Result<Tr<T>, String>, want: &Value, scale: T, mag: f64) {
        let deg = want["d"].as_u64().unwrap() as u32;
        match got {
            Err(p) => self.push(what, format!("panicked: {}", p)),
            Ok(t) => {
                if !want["v"].as_array().unwrap().iter().any(|w| same(&t, w, 1, scale, deg, mag)) {
                    self.push(what, format!("got {:?}, expected one of {} * {:?}^{}", t, want["v"], scale, deg));
                }
            }
        }
    }
    pub fn index(&mut self, what: &str, got: Result<usize, String>, want: &Value) {
        match got {
            Ok(i) if ints(want).contains(&(i as i64)) => (),
            x => self.push(what, format!("got {:?}, expected one of {}", x, want)),
        }
    }
    pub fn flag(&mut self, what: &str, got: Result<bool, String>, want: bool) {
        if got != Ok(want) {
            self.push(what, format!("got {:?}, expected {}", got, want));
        }
    }
}

/// `replay <tlc-output> <mismatches> <progress>` and `record <inputs> <trace> <progress>`.
pub fn geo_main(
    replay: impl Fn(&Value, &mut Diffs) -> u64 + Send + 'static,
    record: impl Fn(&Value) -> Vec<Value> + Send + 'static,
) {
    let a: Vec<String> = std::env::args().collect();
    let limit = Duration::from_secs(60);
    match a[1].as_str() {
        "replay" => {
            let mut out = BufWriter::new(File::create(&a[3]).unwrap());
            let st = Arc::new(Mutex::new((0u64, 0u64, 0u64, vec![])));
            let s2 = st.clone();
            run_all(&a[4], limit, tlc_cases(&a[2]), move |i, c| {
                let mut d = Diffs::default();
                let n = replay(&c, &mut d);
                let mut st = s2.lock().unwrap();
                st.0 += 1;
                st.1 += n;
                if st.3.len() < 2 && i % 101 == 7 {
                    let s = c.to_string();
                    st.3.push(json!(s.chars().take(600).collect::<String>()));
                }
                if !d.0.is_empty() {
                    st.2 += 1;
                    if st.2 <= 50 {
                        let m: Vec<Value> = d.0.iter().take(5).map(|x| json!([x.0, x.1])).collect();
                        writeln!(out, "{}", json!({"case": i, "input": c, "differences": m})).unwrap();
                        out.flush().unwrap();
                    }
                }
            });
            let st = st.lock().unwrap();
            println!("{}", json!({"cases": st.0, "evaluations": st.1, "mismatches": st.2, "samples": st.3}));
        }
        "record" => {
            let mut out = BufWriter::new(File::create(&a[3]).unwrap());
            let st = Arc::new(Mutex::new(0u64));
            let s2 = st.clone();
            run_all(&a[4], limit, ndjson(&a[2]), move |_, c| {
                for v in record(&c) {
                    *s2.lock().unwrap() += 1;
                    writeln!(out, "{}", v).unwrap();
                }
                out.flush().unwrap();
            });
            println!("{}", json!({"recorded": *st.lock().unwrap()}));
        }
        m => panic!("unknown mode {}", m),
    }
}
