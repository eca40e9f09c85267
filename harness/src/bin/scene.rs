//! Conformance driver for scene texts: runs the public `Parser::parse` on texts and compares
//! what it returns (read off its Debug rendering) with what the specification demands.
//!
//!   scene replay <prop> <tlc-output> <mismatches> <progress>
//!   scene record <inputs.ndjson> <trace.ndjson> <progress>
//!   scene sweep  <prop> <tlc-output> <mismatches> <progress> <step>
//!   scene pump   <tlc-output> <mismatches> <progress> <repetitions,...>
//!   scene once   <text>
//!   scene calls  <tlc-output> <mismatches> <progress> <scratch directory>
//!   scene threads <inputs.ndjson> <trace.ndjson> <progress> <scratch directory>
use harness::*;
use pbrtrs::parser::Parser;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::io::{BufWriter, Write};
use std::sync::{Arc, Mutex};
use std::time::Duration;

// ------------------------------------------------------------- Debug trees

#[derive(Debug, Clone)]
enum D {
    /// name, fields (name or empty, value)
    Node(String, Vec<(String, D)>),
    List(Vec<D>),
    Str(String),
    Atom(String),
}

struct Rd<'a> {
    s: &'a [char],
    i: usize,
}

impl<'a> Rd<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> char {
        self.ws();
        *self.s.get(self.i).unwrap_or(&'\0')
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_alphanumeric() || "_.+-".contains(self.s[self.i])) {
            self.i += 1;
        }
        self.s[st..self.i].iter().collect()
    }
    fn string(&mut self) -> String {
        assert!(self.eat('"'));
        let mut out = String::new();
        loop {
            let c = self.s[self.i];
            self.i += 1;
            match c {
                '"' => return out,
                '\\' => {
                    let e = self.s[self.i];
                    self.i += 1;
                    match e {
                        'n' => out.push('\n'),
                        'r' => out.push('\r'),
                        't' => out.push('\t'),
                        '0' => out.push('\0'),
                        'u' => {
                            self.i += 1;
                            let st = self.i;
                            while self.s[self.i] != '}' {
                                self.i += 1;
                            }
                            let h: String = self.s[st..self.i].iter().collect();
                            self.i += 1;
                            out.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
                        }
                        x => out.push(x),
                    }
                }
                c => out.push(c),
            }
        }
    }
    fn seq(&mut self, close: char) -> Vec<D> {
        let mut v = vec![];
        while !self.eat(close) {
            v.push(self.value());
            self.eat(',');
        }
        v
    }
    fn value(&mut self) -> D {
        match self.peek() {
            '"' => D::Str(self.string()),
            '[' => {
                self.i += 1;
                D::List(self.seq(']'))
            }
            '(' => {
                self.i += 1;
                D::Node(String::new(), self.seq(')').into_iter().map(|d| (String::new(), d)).collect())
            }
            _ => {
                let w = self.word();
                if w.is_empty() {
                    panic!("unreadable debug output at {}", self.i);
                }
                match self.peek() {
                    '(' => {
                        self.i += 1;
                        D::Node(w, self.seq(')').into_iter().map(|d| (String::new(), d)).collect())
                    }
                    '{' => {
                        self.i += 1;
                        let mut fs = vec![];
                        while !self.eat('}') {
                            let n = self.word();
                            assert!(self.eat(':'), "field");
                            let v = self.value();
                            fs.push((n, v));
                            self.eat(',');
                        }
                        D::Node(w, fs)
                    }
                    _ => D::Atom(w),
                }
            }
        }
    }
}

// ------------------------------------------------------------- observations

#[derive(Debug, Clone, PartialEq)]
enum Val {
    Num(String),
    Str(String),
    Bool(bool),
}

#[derive(Debug, Clone, PartialEq)]
struct Prm {
    ty: String,
    name: String,
    pos: Option<(i64, i64)>,
    vals: Vec<Val>,
}

#[derive(Debug, Clone, PartialEq)]
struct Node {
    d: i64,
    k: String,
    pos: Option<(i64, i64)>,
    strs: Vec<String>,
    nums: Vec<String>,
    prms: Vec<Prm>,
}

#[derive(Debug, Clone, PartialEq)]
enum Obs {
    Ok(Vec<Node>),
    Err(String),
    Panic(String),
}

const BUCKETS: [(&str, &str); 8] = [
    ("bools", "bool"),
    ("ints", "integer"),
    ("floats", "float"),
    ("point2fs", "point2"),
    ("vector2fs", "vector2"),
    ("spectra", ""),
    ("strings", "string"),
    ("textures", "texture"),
];

fn is_num(a: &str) -> bool {
    a.trim_start_matches('-').starts_with(|c: char| c.is_ascii_digit()) || matches!(a, "inf" | "-inf" | "NaN")
}

fn as_pos(d: &D) -> Option<(i64, i64)> {
    if let D::Node(n, fs) = d {
        if n == "Pos" && fs.len() == 2 {
            let get = |names: &[&str], i: usize| -> Option<i64> {
                let v = fs.iter().find(|(n, _)| names.contains(&n.as_str())).map(|x| &x.1).unwrap_or(&fs[i].1);
                if let D::Atom(a) = v { a.parse().ok() } else { None }
            };
            return Some((get(&["r", "row", "line"], 0)?, get(&["c", "col", "column"], 1)?));
        }
    }
    None
}

fn flat_vals(d: &D, out: &mut Vec<Val>) {
    match d {
        D::Str(s) => out.push(Val::Str(s.clone())),
        D::Atom(a) if is_num(a) => out.push(Val::Num(a.clone())),
        D::Atom(a) if a == "true" || a == "false" => out.push(Val::Bool(a == "true")),
        D::Atom(a) => out.push(Val::Str(format!("?{}", a))),
        D::List(v) => v.iter().for_each(|x| flat_vals(x, out)),
        D::Node(_, fs) => fs.iter().for_each(|x| flat_vals(&x.1, out)),
    }
}

fn param(d: &D, bucket: &str, ty: &str) -> Prm {
    let mut p = Prm { ty: ty.to_owned(), name: String::new(), pos: None, vals: vec![] };
    if let D::Node(_, fs) = d {
        for (_, v) in fs {
            match v {
                D::Str(s) => p.name = s.clone(),
                D::List(vs) => {
                    if bucket == "spectra" {
                        p.ty = match vs.as_slice() {
                            [D::Node(n, _)] => match n.as_str() {
                                "Rgb" => "rgb",
                                "Xyz" => "xyz",
                                "Blackbody" => "blackbody",
                                "Spectrum" | "File" => "spectrum",
                                _ => "?",
                            },
                            _ => "?",
                        }
                        .to_owned();
                        if let [D::Node(n, fs)] = vs.as_slice() {
                            fs.iter().for_each(|x| flat_vals(&x.1, &mut p.vals));
                            // a sampled spectrum and a file name are told apart by their values
                            if n == "Spectrum" && p.vals.iter().any(|v| !matches!(v, Val::Num(_)))
                                || n == "File" && !matches!(p.vals.as_slice(), [Val::Str(_)])
                            {
                                p.ty = "?".to_owned();
                            }
                        }
                    } else {
                        vs.iter().for_each(|x| flat_vals(x, &mut p.vals));
                    }
                }
                x => {
                    if let Some(q) = as_pos(x) {
                        p.pos = Some(q)
                    }
                }
            }
        }
    }
    p
}

/// The collections of a parameter set; if they do not have the known names (they are private),
/// they are told apart by their order.
fn is_param_set(name: &str, fs: &[(String, D)]) -> bool {
    name == "ParamSet" || fs.len() == BUCKETS.len() && fs.iter().all(|f| matches!(f.1, D::List(_)))
}

fn params(fs: &[(String, D)]) -> Vec<Prm> {
    let known = fs.iter().filter(|f| BUCKETS.iter().any(|b| b.0 == f.0)).count();
    let fs: Vec<(String, D)> = if known != BUCKETS.len() && fs.len() == BUCKETS.len() {
        fs.iter().zip(BUCKETS.iter()).map(|(f, b)| (b.0.to_owned(), f.1.clone())).collect()
    } else {
        fs.to_vec()
    };
    let mut out = vec![];
    for (b, ty) in BUCKETS.iter() {
        for (n, v) in &fs {
            if n == b {
                if let D::List(ps) = v {
                    out.extend(ps.iter().map(|p| param(p, b, ty)));
                }
            }
        }
    }
    for (n, v) in &fs {
        if !BUCKETS.iter().any(|b| b.0 == n) {
            if let D::List(ps) = v {
                out.extend(ps.iter().map(|p| param(p, n, &format!("?{}", n))));
            }
        }
    }
    out
}

fn gather(d: &D, n: &mut Node, kids: &mut Vec<D>) {
    if let Some(p) = as_pos(d) {
        if n.pos.is_none() {
            n.pos = Some(p);
        }
        return;
    }
    match d {
        D::Str(s) => n.strs.push(s.clone()),
        D::Atom(a) if is_num(a) => n.nums.push(a.clone()),
        D::Atom(_) => (),
        D::List(v) => v.iter().for_each(|x| gather(x, n, kids)),
        D::Node(name, fs) if is_param_set(name, fs) => n.prms = params(fs),
        D::Node(name, fs) if name == "TextureStruct" => {
            for f in ["name", "ty", "class"] {
                if let Some((_, v)) = fs.iter().find(|x| x.0 == f) {
                    gather(v, n, kids);
                }
            }
            for (f, v) in fs {
                if !["name", "ty", "class"].contains(&f.as_str()) {
                    gather(v, n, kids);
                }
            }
        }
        D::Node(_, fs) => fs.iter().for_each(|x| gather(&x.1, n, kids)),
    }
}

/// A block: its position and its children (its only list).
fn block_parts(d: &D, n: &mut Node, kids: &mut Vec<D>) {
    match d {
        D::List(c) => kids.extend(c.iter().cloned()),
        D::Node(_, fs) if as_pos(d).is_none() => fs.iter().for_each(|x| block_parts(&x.1, n, kids)),
        x => gather(x, n, kids),
    }
}

fn directive(d: &D, depth: i64, world: bool, out: &mut Vec<Node>) {
    let (name, fs) = match d {
        D::Node(n, fs) => (n.clone(), fs.clone()),
        x => (format!("?{:?}", x), vec![]),
    };
    let mut n = Node { d: depth, k: name.clone(), pos: None, strs: vec![], nums: vec![], prms: vec![] };
    let mut kids = vec![];
    let block = world && ["Attribute", "Transform", "World"].contains(&name.as_str());
    if block {
        n.k = format!("{}Block", name);
        fs.iter().for_each(|x| block_parts(&x.1, &mut n, &mut kids));
    } else {
        fs.iter().for_each(|x| gather(&x.1, &mut n, &mut kids));
    }
    out.push(n);
    for k in &kids {
        directive(k, depth + 1, world, out);
    }
}

fn observe_once(text: &str) -> (Obs, String) {
    match guarded(|| Parser::parse(text).map(|x| format!("{:?}", x)).map_err(|e| format!("{}", e))) {
        Err(p) => (Obs::Panic(p.clone()), p),
        Ok(Err(e)) => (Obs::Err(e.clone()), e),
        Ok(Ok(s)) => {
            let cs: Vec<char> = s.chars().collect();
            let mut rd = Rd { s: &cs, i: 0 };
            let tree = rd.value();
            let mut nodes = vec![];
            if let D::Node(_, parts) = &tree {
                if let Some((_, D::List(pre))) = parts.first() {
                    pre.iter().for_each(|p| directive(p, 0, false, &mut nodes));
                }
                if let Some((_, w)) = parts.get(1) {
                    directive(w, 0, true, &mut nodes);
                }
            }
            (Obs::Ok(nodes), s)
        }
    }
}

fn err_pos(msg: &str) -> Option<(i64, i64)> {
    let m = msg.strip_prefix('(')?;
    let (a, rest) = m.split_once(", ")?;
    let (b, _) = rest.split_once(')')?;
    Some((a.parse().ok()?, b.parse().ok()?))
}

// ------------------------------------------------------------- comparison

fn vpos(v: &Value) -> Option<(i64, i64)> {
    let a = v.as_array()?;
    Some((a.first()?.as_i64()?, a.get(1)?.as_i64()?))
}

/// Does the observed number have the value the specification gives?
fn same_num(exp: &Value, got: &str) -> bool {
    let m = exp["m"].as_str().unwrap();
    if exp["t"] == "i" {
        return m.parse::<i128>().ok() == got.parse::<i128>().ok() && !got.contains('.');
    }
    if !(got.contains('.') || got.contains('e') || got.contains("inf") || got.contains("NaN")) {
        return false; // a float must be observed as a float
    }
    let want: Float = format!("{}e{}", m, exp["ex"].as_i64().unwrap()).parse().unwrap();
    let have: Float = match got.parse() {
        Ok(h) => h,
        Err(_) => return false,
    };
    match exp["q"].as_str().unwrap() {
        "near" => want == have,
        "wide" if !cfg!(feature = "f64") => true,
        "wide" => (want - have).abs() <= (1e-12 as Float) * want.abs() || want == have,
        q if q.starts_with('e') => {
            let want = want as f64 * 10f64.powf(q[1..].parse().unwrap());
            let rel = if cfg!(feature = "f64") { 1e-12 } else { 2e-5 };
            (want - have as f64).abs() <= rel * want.abs()
        }
        "approx" => {
            let (rel, abs) = if cfg!(feature = "f64") { (1e-13, 1e-300) } else { (4e-6, 1e-37) };
            (want as f64 - have as f64).abs() <= rel * (want as f64).abs() + abs || want == have
        }
        _ => true,
    }
}

fn same_val(exp: &Value, got: &Val) -> bool {
    let m = exp["m"].as_str().unwrap();
    match (exp["t"].as_str().unwrap(), got) {
        ("s", Val::Str(s)) => decode(m) == *s,
        ("b", Val::Bool(b)) => m == if *b { "true" } else { "false" },
        ("i", Val::Num(g)) | ("f", Val::Num(g)) => same_num(exp, g),
        _ => false,
    }
}

fn bucket_rank(ty: &str) -> usize {
    match ty {
        "bool" => 0,
        "integer" => 1,
        "float" => 2,
        "point2" => 3,
        "vector2" => 4,
        "rgb" | "xyz" | "blackbody" | "spectrum" => 5,
        "string" => 6,
        "texture" => 7,
        _ => 8,
    }
}

/// Discrepancies as (aspect, description).
fn compare(text: &str, exp: &Value, got: &Obs) -> Vec<(&'static str, String)> {
    let mut out = vec![];
    let eok = exp["ok"].as_bool().unwrap();
    match got {
        Obs::Panic(p) => out.push(("panic", format!("panicked: {}", p))),
        Obs::Err(e) => {
            if eok {
                out.push(("rejected", format!("well-formed text rejected: {}", e)));
            } else if let Some(p) = err_pos(e) {
                let want: Vec<(i64, i64)> =
                    [&exp["pos"], &exp["pos2"]].iter().filter_map(|x| vpos(x)).collect();
                let norm = text.replace("\r\n", "\n");
                let lines: Vec<&str> = norm.split('\n').collect();
                let inside = p.0 >= 1
                    && p.1 >= 1
                    && (p.0 as usize) <= lines.len()
                    && (p.1 as usize) <= lines[p.0 as usize - 1].chars().count() + 1;
                if !inside {
                    out.push(("errpos", format!("error position {:?} outside the text: {}", p, e)));
                } else if !want.is_empty() && !want.contains(&p) {
                    out.push(("errpos", format!("error position {:?}, expected one of {:?}: {}", p, want, e)));
                }
            }
        }
        Obs::Ok(nodes) => {
            if !eok {
                out.push(("accepted", "malformed text accepted".to_owned()));
                return out;
            }
            let en = exp["nodes"].as_array().unwrap();
            let ekinds: Vec<(i64, String)> =
                en.iter().map(|x| (x["d"].as_i64().unwrap(), x["k"].as_str().unwrap().to_owned())).collect();
            let gkinds: Vec<(i64, String)> = nodes.iter().map(|x| (x.d, x.k.clone())).collect();
            if ekinds != gkinds {
                out.push(("tree", format!("directives {:?}, expected {:?}", gkinds, ekinds)));
                return out;
            }
            for (e, g) in en.iter().zip(nodes) {
                if vpos(&e["pos"]) != g.pos {
                    out.push(("pos", format!("{} at {:?}, expected {}", g.k, g.pos, e["pos"])));
                }
                let es: Vec<String> =
                    e["strs"].as_array().unwrap().iter().map(|s| decode(s.as_str().unwrap())).collect();
                if es != g.strs {
                    out.push(("strs", format!("{} has strings {:?}, expected {:?}", g.k, g.strs, es)));
                }
                let ens = e["nums"].as_array().unwrap();
                if ens.len() != g.nums.len() || ens.iter().zip(&g.nums).any(|(a, b)| !same_num(a, b)) {
                    out.push(("nums", format!("{} has numbers {:?}, expected {}", g.k, g.nums, e["nums"])));
                }
                let mut eps: Vec<&Value> = e["prms"].as_array().unwrap().iter().collect();
                eps.sort_by_key(|p| bucket_rank(p["ty"].as_str().unwrap()));
                if eps.len() != g.prms.len() {
                    out.push(("params", format!("{} has parameters {:?}, expected {:?}", g.k, g.prms, eps)));
                    continue;
                }
                for (a, b) in eps.iter().zip(&g.prms) {
                    if a["ty"].as_str().unwrap() != b.ty || decode(a["name"].as_str().unwrap()) != b.name {
                        out.push(("params", format!("parameter {:?}, expected {}", b, a)));
                    }
                    let evs = a["vals"].as_array().unwrap();
                    if evs.len() != b.vals.len() {
                        out.push(("params", format!("parameter {:?}, expected {}", b, a)));
                    } else {
                        for (x, y) in evs.iter().zip(&b.vals) {
                            if !same_val(x, y) {
                                let aspect = match x["t"].as_str().unwrap() {
                                    "s" => "pstr",
                                    "b" => "pbool",
                                    _ => "pnum",
                                };
                                out.push((aspect, format!("parameter {:?}, expected {}", b, a)));
                            }
                        }
                    }
                    if vpos(&a["pos"]) != b.pos {
                        out.push(("pos", format!("parameter {} at {:?}, expected {}", b.name, b.pos, a["pos"])));
                    }
                }
            }
        }
    }
    out
}

/// An outcome without positions and messages.
fn bare(o: &Obs) -> Option<Vec<Node>> {
    match o {
        Obs::Ok(ns) => {
            let mut ns = ns.clone();
            for n in ns.iter_mut() {
                n.pos = None;
                n.prms.iter_mut().for_each(|p| p.pos = None);
            }
            Some(ns)
        }
        _ => None,
    }
}

/// The aspects that belong to a property.
fn aspects(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" => &["panic", "repeat"],
        "C02" => &["panic", "rejected", "accepted", "nums", "pnum"],
        "C03" => &["panic", "rejected", "accepted", "strs", "pstr"],
        "C04" => &["panic", "layout"],
        "C05" => &["panic", "pos", "errpos"],
        "C06" => &["panic", "rejected", "params", "pnum", "pstr", "pbool"],
        "C07" => &["panic", "accepted"],
        "C08" => &["panic", "rejected", "tree", "strs"],
        "C09" => &["panic", "accepted"],
        "C10" => &["panic", "rejected", "accepted", "tree", "strs", "nums"],
        p => panic!("unknown property {}", p),
    }
}

// ------------------------------------------------------------- recording

/// Shortest decimal of a float as canonical (negative, digits, exponent).
fn canon(t: &str) -> Option<(bool, String, i64)> {
    if t.contains("inf") || t.contains("NaN") {
        return None;
    }
    let (neg, u) = match t.strip_prefix('-') {
        Some(u) => (true, u),
        None => (false, t),
    };
    let (m, e) = match u.split_once('e') {
        Some((m, e)) => (m, e.parse::<i64>().unwrap()),
        None => (u, 0),
    };
    let (ip, fp) = m.split_once('.').unwrap_or((m, ""));
    let mut ds: String = format!("{}{}", ip, fp);
    let mut ex = e - fp.len() as i64;
    while ds.ends_with('0') {
        ds.pop();
        ex += 1;
    }
    let ds = ds.trim_start_matches('0').to_owned();
    if ds.is_empty() {
        return Some((false, "0".to_owned(), 0));
    }
    Some((neg, ds, ex))
}

fn jval(v: &Val, int: bool) -> Value {
    match v {
        Val::Str(s) => json!({"t": "s", "neg": false, "ds": [encode(s)], "ex": 0}),
        Val::Bool(b) => json!({"t": "b", "neg": false, "ds": [b.to_string()], "ex": 0}),
        Val::Num(n) if int => {
            let neg = n.starts_with('-');
            let ds: Vec<String> = n.trim_start_matches('-').chars().map(|c| c.to_string()).collect();
            json!({"t": "i", "neg": neg, "ds": ds, "ex": 0})
        }
        Val::Num(n) => match canon(n) {
            Some((neg, ds, ex)) => {
                json!({"t": "f", "neg": neg, "ds": ds.chars().map(|c| c.to_string()).collect::<Vec<_>>(), "ex": ex})
            }
            None => json!({"t": "f", "neg": false, "ds": [n.clone()], "ex": 0}),
        },
    }
}

fn jpos(p: Option<(i64, i64)>) -> Value {
    match p {
        Some((r, c)) => json!([r, c]),
        None => json!([]),
    }
}

fn jobs(o: &Obs) -> Value {
    match o {
        Obs::Panic(p) => json!({"kind": "panic", "pos": [], "nodes": [], "msg": encode(p)}),
        Obs::Err(e) => json!({"kind": "err", "pos": jpos(err_pos(e)), "nodes": [], "msg": encode(e)}),
        Obs::Ok(ns) => {
            let nodes: Vec<Value> = ns
                .iter()
                .map(|n| {
                    let prms: Vec<Value> = n
                        .prms
                        .iter()
                        .map(|p| {
                            let vals: Vec<Value> =
                                p.vals.iter().map(|v| jval(v, p.ty == "integer")).collect();
                            json!({"ty": p.ty, "name": encode(&p.name), "pos": jpos(p.pos), "vals": vals})
                        })
                        .collect();
                    let nums: Vec<Value> =
                        n.nums.iter().map(|x| jval(&Val::Num(x.clone()), false)).collect();
                    let strs: Vec<String> = n.strs.iter().map(|s| encode(s)).collect();
                    json!({"d": n.d, "k": n.k, "pos": jpos(n.pos), "strs": strs, "nums": nums, "prms": prms})
                })
                .collect();
            json!({"kind": "ok", "pos": [], "nodes": nodes, "msg": ""})
        }
    }
}

/// The class of a character in the specification; None for the characters it names one by one.
fn class(c: char) -> Option<&'static str> {
    if "\n\r\"#[]\\+-.en".contains(c) || c.is_ascii_digit() {
        return None;
    }
    Some(match (c.is_alphabetic(), c.is_numeric(), c.is_whitespace()) {
        (true, false, _) => "alpha",
        (true, true, _) => "alnum",
        (false, true, _) => "num",
        (_, _, true) => "white",
        _ => "other",
    })
}

fn substitute(v: &Value, from: &str, to: &str) -> Value {
    match v {
        Value::String(s) => Value::String(s.replace(from, to)),
        Value::Array(a) => Value::Array(a.iter().map(|x| substitute(x, from, to)).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), substitute(x, from, to))).collect()),
        x => x.clone(),
    }
}

fn hash(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

// ------------------------------------------------------------- histories of calls

/// The whole outcome of a parse, as the thread calling it sees it.
fn answer(text: &str) -> String {
    match guarded(|| Parser::parse(text).map(|x| format!("{:?}", x)).map_err(|e| format!("{}", e))) {
        Err(p) => format!("panic: {}", p),
        Ok(Err(e)) => format!("error: {}", e),
        Ok(Ok(s)) => s,
    }
}

/// The outcome in a process of its own.
fn alone(sym: &str) -> u64 {
    let me = std::env::current_exe().unwrap();
    let o = std::process::Command::new(me).args(&["once", sym]).output().expect("running a process of its own");
    match String::from_utf8_lossy(&o.stdout).trim().parse() {
        Ok(d) => d,
        Err(_) => hash(&format!("died: {:?}", o.status)),
    }
}

/// The files that scenes name, in the current directory.
fn set_files(on: bool) {
    for (name, body) in [("f.pbrt", "Translate 7 8 9 WorldBegin Shape \"included\" WorldEnd"), ("f.spd", "300 1\n400 2\n")] {
        if on {
            std::fs::write(name, body).unwrap();
        } else {
            let _ = std::fs::remove_file(name);
        }
    }
}

/// A thread that parses what it is sent.
fn caller() -> (std::sync::mpsc::Sender<String>, std::sync::mpsc::Receiver<String>) {
    let (tx, rx) = std::sync::mpsc::channel::<String>();
    let (tx2, rx2) = std::sync::mpsc::channel();
    std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        for t in rx {
            if tx2.send(answer(&t)).is_err() {
                break;
            }
        }
    }).unwrap();
    (tx, rx2)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let limit = Duration::from_secs(60);
    match a[1].as_str() {
        "replay" => {
            let prop = a[2].clone();
            let stats = Arc::new(Mutex::new((0u64, 0u64, 0u64, 0u64, HashSet::new(), vec![], BTreeMap::<String, u64>::new())));
            let s2 = stats.clone();
            let mut out = BufWriter::new(File::create(&a[4]).unwrap());
            let mut canon_cache: BTreeMap<String, Obs> = BTreeMap::new();
            run_all(&a[5], limit, tlc_cases(&a[3]), move |i, c| {
                let text = decode(c["i"].as_str().unwrap());
                let exp = &c["o"];
                let (got, raw) = observe_once(&text);
                let mut ds = compare(&text, exp, &got);
                if prop == "C01" && observe_once(&text).1 != raw {
                    ds.push(("repeat", "a second parse gave another outcome".to_owned()));
                }
                if prop == "C04" && c["c"] != "" {
                    let canon = canon_cache.entry(c["c"].as_str().unwrap().to_owned()).or_insert_with_key(|k| observe_once(&decode(k)).0);
                    if bare(&got) != bare(canon) {
                        ds.push(("layout", format!("another outcome than {:?}: {:?} instead of {:?}", c["c"], got, canon)));
                    }
                }
                let mine: Vec<_> = ds.iter().filter(|d| aspects(&prop).contains(&d.0)).collect();
                let mut st = s2.lock().unwrap();
                st.0 += 1;
                if exp["ok"].as_bool().unwrap() { st.1 += 1 } else { st.2 += 1 }
                st.4.insert(hash(&text));
                for n in exp["nodes"].as_array().unwrap() {
                    *st.6.entry(n["k"].as_str().unwrap().to_owned()).or_insert(0) += 1;
                }
                if st.5.len() < 3 && (i % 997 == 5 || exp["ok"].as_bool().unwrap()) {
                    let obs = jobs(&got);
                    st.5.push(json!({"text": c["i"], "outcome": obs["kind"], "msg": obs["msg"]}));
                }
                if !mine.is_empty() {
                    st.3 += 1;
                    if st.3 <= 50 {
                        let m: Vec<Value> = mine.iter().map(|d| json!([d.0, encode(&d.1)])).collect();
                        writeln!(out, "{}", json!({"case": i, "text": c["i"], "expected": exp, "observed": jobs(&got), "differences": m})).unwrap();
                        out.flush().unwrap();
                    }
                }
            });
            let st = stats.lock().unwrap();
            println!("{}", json!({"cases": st.0, "accept": st.1, "reject": st.2, "mismatches": st.3, "distinct": st.4.len(), "samples": st.5, "directives": st.6}));
        }
        "record" => {
            let mut out = BufWriter::new(File::create(&a[3]).unwrap());
            let n = Arc::new(Mutex::new((0u64, 0u64, 0u64)));
            let n2 = n.clone();
            run_all(&a[4], limit, ndjson(&a[2]), move |_, c| {
                let sym = c.as_str().unwrap();
                let text = decode(sym);
                let (got, raw) = observe_once(&text);
                let same = observe_once(&text).1 == raw;
                let chars: Vec<String> = text.chars().map(encode_char).collect();
                let mut st = n2.lock().unwrap();
                st.0 += 1;
                match got { Obs::Ok(_) => st.1 += 1, _ => st.2 += 1 }
                writeln!(out, "{}", json!({"c": chars, "o": jobs(&got), "same": same})).unwrap();
                out.flush().unwrap();
            });
            let st = n.lock().unwrap();
            println!("{}", json!({"recorded": st.0, "ok": st.1, "err": st.2}));
        }
        "once" => {
            let text = decode(&a[2]);
            let (tx, rx) = caller();
            std::panic::set_hook(Box::new(|_| {}));
            tx.send(text).unwrap();
            println!("{}", hash(&rx.recv().unwrap()));
        }
        "calls" => {
            // histories {h: [{e, th, x}]} over the texts TLC printed first
            let line = std::io::BufRead::lines(std::io::BufReader::new(File::open(&a[2]).unwrap()))
                .map(|l| l.unwrap()).find(|l| l.starts_with("\"TEXTS ")).expect("texts");
            let line: String = serde_json::from_str(&line).unwrap();
            let texts: Vec<String> = serde_json::from_str::<Vec<String>>(&line[6..]).unwrap();
            std::env::set_current_dir(&a[5]).unwrap();
            set_files(false);
            let want: Vec<u64> = texts.iter().map(|t| alone(t)).collect();
            let stats = Arc::new(Mutex::new((0u64, 0u64, 0u64)));
            let s2 = stats.clone();
            let mut out = BufWriter::new(File::create(&a[3]).unwrap());
            run_all(&a[4], limit, tlc_cases(&a[2]), move |i, c| {
                let th = [caller(), caller()];
                let (mut on, mut bad) = (false, vec![]);
                let mut st = s2.lock().unwrap();
                set_files(false);
                for e in c["h"].as_array().unwrap() {
                    let (t, x) = (e["th"].as_u64().unwrap() as usize, e["x"].as_u64().unwrap() as usize);
                    match e["e"].as_str().unwrap() {
                        "files" => {
                            on = !on;
                            set_files(on);
                        }
                        "call" => th[t - 1].0.send(decode(&texts[x - 1])).unwrap(),
                        _ => {
                            let got = th[t - 1].1.recv().expect("an answer");
                            st.1 += 1;
                            if hash(&got) != want[x - 1] {
                                bad.push(json!(["history", encode(&format!("{:?} gives another outcome than in a process of its own: {}", texts[x - 1], got))]));
                            }
                        }
                    }
                }
                set_files(false);
                st.0 += 1;
                if !bad.is_empty() {
                    st.2 += 1;
                    if st.2 <= 20 {
                        let h: Vec<Value> = c["h"].as_array().unwrap().iter().map(|e| json!([e["e"], e["th"], e["x"].as_u64().filter(|x| *x > 0).map(|x| texts[x as usize - 1].clone())])).collect();
                        writeln!(out, "{}", json!({"case": i, "input": h, "differences": bad})).unwrap();
                        out.flush().unwrap();
                    }
                }
            });
            let st = stats.lock().unwrap();
            println!("{}", json!({"cases": st.0, "calls": st.1, "mismatches": st.2}));
        }
        "threads" => {
            // {texts, plan: for each thread the texts it parses (0: change the files)}
            let cases: Vec<Value> = ndjson(&a[2]).collect();
            std::env::set_current_dir(&a[5]).unwrap();
            let mut out = BufWriter::new(File::create(&a[3]).unwrap());
            let n = Arc::new(Mutex::new((0u64, 0u64)));
            let n2 = n.clone();
            run_all(&a[4], limit, cases.into_iter(), move |_, c| {
                set_files(false);
                let texts: Arc<Vec<String>> = Arc::new(c["texts"].as_array().unwrap().iter().map(|t| decode(t.as_str().unwrap())).collect());
                let plans: Vec<Vec<usize>> = c["plan"].as_array().unwrap().iter().map(|p| p.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()).collect();
                let log = Arc::new(Mutex::new(vec![]));
                for (i, t) in c["texts"].as_array().unwrap().iter().enumerate() {
                    log.lock().unwrap().push(json!({"e": "alone", "th": 0, "x": i + 1, "d": alone(t.as_str().unwrap()).to_string()}));
                }
                let gate = Arc::new(std::sync::Barrier::new(plans.len()));
                let hs: Vec<_> = plans.iter().cloned().enumerate().map(|(t, p)| {
                    let (texts, log, gate) = (texts.clone(), log.clone(), gate.clone());
                    std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
                        gate.wait();
                        let mut on = false;
                        for x in p {
                            if x == 0 {
                                let mut l = log.lock().unwrap();
                                on = !on;
                                set_files(on);
                                l.push(json!({"e": "files", "th": t + 1, "x": 0, "d": ""}));
                                continue;
                            }
                            log.lock().unwrap().push(json!({"e": "call", "th": t + 1, "x": x, "d": ""}));
                            let d = hash(&answer(&texts[x - 1])).to_string();
                            log.lock().unwrap().push(json!({"e": "ret", "th": t + 1, "x": x, "d": d}));
                        }
                    }).unwrap()
                }).collect();
                for h in hs {
                    h.join().unwrap();
                }
                set_files(false);
                let log = log.lock().unwrap();
                let mut st = n2.lock().unwrap();
                st.0 += 1;
                st.1 += log.iter().filter(|e| e["e"] == "ret").count() as u64;
                writeln!(out, "{}", json!({"threads": plans.len(), "texts": texts.len(), "ev": *log})).unwrap();
                out.flush().unwrap();
            });
            let st = n.lock().unwrap();
            println!("{}", json!({"recorded": st.0, "calls": st.1}));
        }
        "sweep" => {
            // texts with a representative of a class, for every character of that class
            let prop = a[2].clone();
            let step: u32 = a[6].parse().unwrap();
            let mut members: BTreeMap<&'static str, Vec<char>> = BTreeMap::new();
            for u in 0..0x110000u32 {
                if u >= 0x3100 && u % step != 0 {
                    continue;
                }
                if let Some(c) = char::from_u32(u) {
                    if let Some(k) = class(c) {
                        members.entry(k).or_insert(vec![]).push(c);
                    }
                }
            }
            let characters: usize = members.values().map(|v| v.len()).sum();
            let stats = Arc::new(Mutex::new((0u64, 0u64)));
            let s2 = stats.clone();
            let mut out = BufWriter::new(File::create(&a[4]).unwrap());
            let limit = limit * 10;
            run_all(&a[5], limit, tlc_cases(&a[3]), move |i, c| {
                let rep = c["rep"].as_str().unwrap();
                let parts: Vec<String> = c["i"].as_str().unwrap().split(rep).map(decode).collect();
                let blank = bare(&observe_once(&format!("{} {}", parts[0], parts[parts.len() - 1])).0);
                for &x in &members[c["cls"].as_str().unwrap()] {
                    let text = parts.join(&x.to_string());
                    let exp = substitute(&c["o"], rep, &format!("<U+{:04X}>", x as u32));
                    let got = observe_once(&text).0;
                    let mut ds = compare(&text, &exp, &got);
                    if c["same"].as_bool().unwrap() && bare(&got) != blank {
                        ds.push(("layout", format!("another outcome than with a blank instead: {:?}", got)));
                    }
                    let mine: Vec<_> = ds.iter().filter(|d| aspects(&prop).contains(&d.0)).collect();
                    let mut st = s2.lock().unwrap();
                    st.0 += 1;
                    if !mine.is_empty() {
                        st.1 += 1;
                        if st.1 <= 50 {
                            let m: Vec<Value> = mine.iter().map(|d| json!([d.0, encode(&d.1)])).collect();
                            writeln!(out, "{}", json!({"case": i, "text": encode(&text), "expected": exp, "observed": jobs(&got), "differences": m})).unwrap();
                            out.flush().unwrap();
                        }
                    }
                }
            });
            let st = stats.lock().unwrap();
            println!("{}", json!({"cases": st.0, "mismatches": st.1, "characters": characters}));
        }
        "pump" => {
            // recipes {head, unit, mid, unit2, tail, deep, ok} with many repetitions
            let times: Vec<usize> = a[5].split(',').map(|x| x.parse().unwrap()).collect();
            let mut cases = vec![];
            for c in tlc_cases(&a[2]) {
                if c["deep"].as_bool().unwrap() {
                    let per = if c["unit"].as_str().unwrap().matches("Begin").count() == 2 { 2 } else { 1 };
                    [2usize, 10, 50, 99].iter().for_each(|&k| cases.push((c.clone(), k / per)));
                } else {
                    times.iter().for_each(|&k| cases.push((c.clone(), k)));
                }
            }
            let mut out = BufWriter::new(File::create(&a[3]).unwrap());
            let n = Arc::new(Mutex::new((0u64, 0u64, 0u64, 0u64, 0usize)));
            let n2 = n.clone();
            let list: Vec<Value> = cases.iter().map(|(c, k)| json!({"recipe": c, "times": k})).collect();
            std::fs::write(format!("{}.cases", a[4]), serde_json::to_string(&list).unwrap()).unwrap();
            run_all(&a[4], limit, cases.into_iter(), move |i, (c, times)| {
                let g = |k: &str| decode(c[k].as_str().unwrap());
                let text = g("head") + &g("unit").repeat(times) + &g("mid") + &g("unit2").repeat(times) + &g("tail");
                let raw = guarded(|| Parser::parse(&text).map(|x| format!("{:?}", x)).map_err(|e| format!("{}", e)));
                let again = guarded(|| Parser::parse(&text).map(|x| format!("{:?}", x)).map_err(|e| format!("{}", e)));
                let mut st = n2.lock().unwrap();
                st.0 += 1;
                st.4 = st.4.max(text.len());
                let want = c["ok"].as_bool().unwrap();
                let bad = match &raw {
                    Err(p) => Some(format!("panicked: {}", p)),
                    _ if raw != again => Some("a second parse gave another outcome".to_owned()),
                    Ok(Err(e)) if want => Some(format!("well-formed text rejected: {}", e)),
                    Ok(Ok(_)) if !want => Some("malformed text accepted".to_owned()),
                    Ok(Ok(_)) => { st.1 += 1; None }
                    Ok(Err(_)) => { st.2 += 1; None }
                };
                if let Some(m) = bad {
                    st.3 += 1;
                    writeln!(out, "{}", json!({"case": i, "recipe": c, "times": times, "differences": [["panic", encode(&m)]]})).unwrap();
                    out.flush().unwrap();
                }
            });
            let st = n.lock().unwrap();
            println!("{}", json!({"cases": st.0, "accept": st.1, "reject": st.2, "mismatches": st.3, "longest": st.4}));
        }
        m => panic!("unknown mode {}", m),
    }
}
