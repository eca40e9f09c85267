//! Shared pieces of the conformance drivers: symbolic characters, TLC output, crash-safe running.
pub mod geo;
pub use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufRead, BufReader, Seek, SeekFrom, Write};
use std::panic;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[cfg(feature = "f64")]
pub type Float = f64;
#[cfg(not(feature = "f64"))]
pub type Float = f32;

/// "<U+00E9>" stands for the character U+00E9, "<*3*U+000D,U+000A>" for three times CR LF.
pub fn decode(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut rest = s;
    while let Some(i) = rest.find('<') {
        out.push_str(&rest[..i]);
        let parsed = rest[i..].find('>').and_then(|j| symbol(&rest[i + 1..i + j]).map(|t| (t, i + j + 1)));
        match parsed {
            Some((t, j)) => {
                out.push_str(&t);
                rest = &rest[j..];
            }
            None => {
                out.push('<');
                rest = &rest[i + 1..];
            }
        }
    }
    out.push_str(rest);
    out
}

fn symbol(s: &str) -> Option<String> {
    if let Some(r) = s.strip_prefix('*') {
        let (k, cs) = r.split_once('*')?;
        let unit: Option<String> = cs.split(',').map(symbol).collect();
        return Some(unit?.repeat(k.parse().ok()?));
    }
    let c = u32::from_str_radix(s.strip_prefix("U+")?, 16).ok().and_then(char::from_u32)?;
    Some(c.to_string())
}

pub fn encode_char(c: char) -> String {
    if c.is_ascii() && (!c.is_ascii_control() || matches!(c, '\n' | '\r' | '\t' | '\x0c')) {
        c.to_string()
    } else {
        format!("<U+{:04X}>", c as u32)
    }
}

pub fn encode(s: &str) -> String {
    s.chars().map(encode_char).collect()
}

/// The JSON objects TLC printed as `"CASE {...}"`.
pub fn tlc_cases(path: &str) -> impl Iterator<Item = Value> {
    let f = File::open(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
    BufReader::with_capacity(1 << 20, f).lines().filter_map(|l| {
        let l = l.expect("reading TLC output");
        if !l.starts_with("\"CASE ") {
            return None;
        }
        let s: String = serde_json::from_str(&l).unwrap_or_else(|e| panic!("bad TLC line {}: {}", l, e));
        Some(serde_json::from_str(&s[5..]).unwrap_or_else(|e| panic!("bad case {}: {}", s, e)))
    })
}

pub fn ndjson(path: &str) -> impl Iterator<Item = Value> {
    let f = File::open(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
    BufReader::with_capacity(1 << 20, f)
        .lines()
        .map(|l| l.expect("reading"))
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).expect("json"))
}

/// Runs `f` on every case in a thread with an 8 MB stack. The index of the case being run is
/// kept in `progress`, so that the caller of this process can name the case that killed it
/// (stack overflow) or hung; a case that takes longer than `limit` ends the process with 42.
pub fn run_all<T: Send + 'static>(
    progress: &str,
    limit: Duration,
    cases: impl Iterator<Item = T> + Send + 'static,
    mut f: impl FnMut(usize, T) + Send + 'static,
) {
    panic::set_hook(Box::new(|_| {}));
    let started = Arc::new(AtomicU64::new(0));
    let t0 = Instant::now();
    let s2 = started.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let s = s2.load(Ordering::SeqCst);
        if s != 0 && t0.elapsed().as_millis() as u64 > s + limit.as_millis() as u64 {
            std::process::exit(42);
        }
    });
    let mut p = File::create(progress).expect("progress file");
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            for (i, c) in cases.enumerate() {
                p.seek(SeekFrom::Start(0)).unwrap();
                p.write_all(format!("{:012}", i).as_bytes()).unwrap();
                started.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                f(i, c);
                started.store(0, Ordering::SeqCst);
            }
        })
        .unwrap();
    if h.join().is_err() {
        eprintln!("driver panicked");
        std::process::exit(43);
    }
}

/// Runs code under test; a panic becomes its message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    panic::catch_unwind(panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".to_owned())
    })
}
