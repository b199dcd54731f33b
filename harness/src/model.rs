//! Independent model of parameter spaces: own types, generator, YAML emitter, conformance checks.
use cambrian::{spec, value};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::Value as J;
use serde_yaml::Value as Y;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    Real { init: f64, scale: f64, min: Option<f64>, max: Option<f64> },
    Int { init: i64, scale: f64, min: Option<i64>, max: Option<i64> },
    Bool { init: bool },
    Sub(Vec<(String, M)>),
    Arr(Box<M>, usize),
    Map { vt: Box<M>, init: usize, min: Option<usize>, max: Option<usize> },
    Var { opts: Vec<(String, M)>, init: String },
    Enum { values: Vec<String>, init: String },
    Opt { vt: Box<M>, present: bool },
    Const,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mag {
    Small,
    Mixed,
    Huge,
    /// reals whose scale is absorbed by the magnitude of the value (steps never change them)
    Absorb,
}

#[derive(Clone, Debug)]
pub struct Gen {
    pub depth: usize,
    pub mag: Mag,
    pub hostile_names: bool,
    pub max_children: usize,
    pub max_map: usize,
    pub discrete_only: bool,
    pub ambiguous_opt: bool,
    pub consts: bool,
    /// how often a space that is large in one dimension is made instead
    pub wide: f64,
}

impl Gen {
    pub fn new(depth: usize, mag: Mag) -> Self {
        Gen { depth, mag, hostile_names: false, max_children: 4, max_map: 5, discrete_only: false, ambiguous_opt: true, consts: true, wide: 0.04 }
    }
}

pub const HOSTILE: &[&str] = &[
    "", " ", "a b", "quote\"s", "it's", "back\\slash", "new\nline", "tab\t", "$HOME", "`id`", "; rm", "-n", "--force",
    "{}", "[1]", "null", "true", "~", "1", "0", "01", "1e5", "é", "日本", "\u{1F600}", "\u{0}nul", "\u{7f}", "%s", "&", "|", "*",
    "typeDef", "typeDefault", "typedef x", "types", "Type", "init", "initial", "optional", "anon map", "valueType", "values", "size",
    "a;b", ",", "#c", "a: b", "- a", "!tag", "<<", ".inf", "no",
];

/// every accepted decimal must survive YAML emission: use f64s only through serde_yaml/ryu
pub fn next_up(x: f64) -> f64 {
    if x == 0.0 {
        return f64::from_bits(1);
    }
    let b = x.to_bits();
    f64::from_bits(if x > 0.0 { b + 1 } else { b - 1 })
}

fn small_real(r: &mut StdRng) -> f64 {
    match r.gen_range(0..8) {
        0 => 0.0,
        1 => 1.0,
        2 => -1.0,
        3 => r.gen_range(-10i32..10) as f64,
        _ => r.gen_range(-10.0..10.0),
    }
}

fn any_real(r: &mut StdRng, mag: Mag) -> f64 {
    match mag {
        Mag::Small => small_real(r),
        Mag::Absorb => {
            let s = if r.gen() { 1.0 } else { -1.0 };
            s * r.gen_range(1.0..100.0)
        }
        Mag::Mixed | Mag::Huge => match r.gen_range(0..10) {
            0 => 0.0,
            1 => -0.0,
            2 => 1e100,
            3 => -1e100,
            4 => 1e-100 * r.gen_range(0.1..1.0),
            5 => f64::from_bits(1),
            6 => r.gen_range(-1.0..1.0) * 10f64.powi(r.gen_range(-100..100)),
            7 => r.gen_range(-1.0..1.0) * 1e100,
            _ => small_real(r),
        },
    }
}

fn any_scale(r: &mut StdRng, mag: Mag) -> f64 {
    match mag {
        Mag::Small => *[0.01, 0.1, 1.0, 1.0, 10.0, 100.0].choose(r).unwrap(),
        Mag::Absorb => 1e-60,
        Mag::Huge => *[1e100, 1e99, 1e50, 1.0].choose(r).unwrap(),
        Mag::Mixed => match r.gen_range(0..6) {
            0 => 1e100,
            1 => 1e-100,
            2 => f64::from_bits(1),
            _ => 10f64.powi(r.gen_range(-5..6)),
        },
    }
}

fn any_int(r: &mut StdRng, mag: Mag) -> i64 {
    match mag {
        Mag::Small | Mag::Absorb => r.gen_range(-20..20),
        _ => match r.gen_range(0..9) {
            0 => i64::MAX,
            1 => i64::MIN,
            2 => i64::MAX - r.gen_range(0..2000),
            3 => i64::MIN + r.gen_range(0..2000),
            4 => (1i64 << 53) + r.gen_range(-3i64..4),
            5 => r.gen(),
            _ => r.gen_range(-20..20),
        },
    }
}

pub fn gen_name(r: &mut StdRng, g: &Gen, for_sub: bool) -> String {
    loop {
        let s = if g.hostile_names && r.gen_bool(0.6) {
            HOSTILE.choose(r).unwrap().to_string()
        } else {
            let n = r.gen_range(1..4);
            (0..n).map(|_| *b"abcdexyz".choose(r).unwrap() as char).collect()
        };
        if for_sub && (s == "type" || s.starts_with("typeDef ")) {
            continue;
        }
        if !for_sub && (s == "type" || s == "init") {
            continue;
        }
        return s;
    }
}

fn names(r: &mut StdRng, g: &Gen, n: usize, for_sub: bool) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    while out.len() < n {
        let s = gen_name(r, g, for_sub);
        if !out.contains(&s) {
            out.push(s);
        }
    }
    out
}

pub fn gen_real(r: &mut StdRng, mag: Mag) -> M {
    let (mut a, mut b) = (any_real(r, mag), any_real(r, mag));
    if r.gen_bool(0.15) {
        b = next_up(a);
    }
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    let (min, max) = match r.gen_range(0..5) {
        0 => (None, None),
        1 => (Some(a), None),
        2 => (None, Some(b)),
        _ if a < b => (Some(a), Some(b)),
        _ => (None, None),
    };
    let init = match (min, max) {
        (Some(a), Some(b)) => match r.gen_range(0..4) {
            0 => a,
            1 => b,
            _ => {
                let t: f64 = r.gen();
                let x = a * (1.0 - t) + b * t;
                if x.is_finite() && x >= a && x <= b { x } else { a }
            }
        },
        (Some(a), None) => if r.gen() { a } else { let x = any_real(r, mag); if x >= a { x } else { a } },
        (None, Some(b)) => if r.gen() { b } else { let x = any_real(r, mag); if x <= b { x } else { b } },
        _ => any_real(r, mag),
    };
    let init = if mag == Mag::Absorb && init.abs() < 1.0 { a_abs(min, max) } else { init };
    M::Real { init, scale: any_scale(r, mag), min, max }
}

fn a_abs(min: Option<f64>, max: Option<f64>) -> f64 {
    // an in-bounds value of magnitude >= 1 (Absorb bounds always have magnitude >= 1)
    min.or(max).unwrap_or(1.0)
}

pub fn gen_int(r: &mut StdRng, mag: Mag) -> M {
    let (mut a, mut b) = (any_int(r, mag), any_int(r, mag));
    if r.gen_bool(0.15) {
        b = a.saturating_add(1);
    }
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    let (min, max) = match r.gen_range(0..5) {
        0 => (None, None),
        1 => (Some(a), None),
        2 => (None, Some(b)),
        _ if a < b => (Some(a), Some(b)),
        _ => (None, None),
    };
    let init = {
        let x = match r.gen_range(0..4) {
            0 => a,
            1 => b,
            _ => any_int(r, mag),
        };
        x.max(min.unwrap_or(i64::MIN)).min(max.unwrap_or(i64::MAX))
    };
    let scale = if mag == Mag::Absorb { 1e-60 } else { any_scale(r, mag) };
    M::Int { init, scale, min, max }
}

pub fn gen(r: &mut StdRng, g: &Gen) -> M {
    gen_at(r, g, g.depth, true)
}

/// sometimes, siblings of exactly the same type
fn twins(r: &mut StdRng, c: &mut Vec<(String, M)>) {
    if c.len() > 1 && r.gen_bool(0.2) {
        let from = r.gen_range(0..c.len());
        let m = c[from].1.clone();
        for i in 0..c.len() {
            if r.gen_bool(0.6) {
                c[i].1 = m.clone();
            }
        }
    }
}

pub fn gen_at(r: &mut StdRng, g: &Gen, depth: usize, root: bool) -> M {
    let leaf = depth == 0 || (!root && r.gen_bool(0.25));
    if leaf {
        return match r.gen_range(0..10) {
            0..=3 if !g.discrete_only => gen_real(r, g.mag),
            4..=5 if !g.discrete_only => gen_int(r, g.mag),
            6 | 0 | 1 | 4 => M::Bool { init: r.gen() },
            7 if g.consts => M::Const,
            _ => {
                let n = r.gen_range(2..5);
                let mut values = names(r, g, n, true);
                let init = values.choose(r).unwrap().clone();
                if r.gen_bool(0.1) {
                    values.push(values[0].clone()); // duplicates are fine as long as two are distinct
                }
                M::Enum { values, init }
            }
        };
    }
    match r.gen_range(0..7) {
        0 | 1 => {
            let n = r.gen_range(1..=g.max_children);
            let ks = names(r, g, n, true);
            let mut c = ks.into_iter().map(|k| (k, gen_at(r, g, depth - 1, false))).collect();
            twins(r, &mut c);
            M::Sub(c)
        }
        2 => M::Arr(Box::new(gen_at(r, g, depth - 1, false)), r.gen_range(2..=4)),
        3 | 4 => {
            let vt = Box::new(gen_at(r, g, depth - 1, false));
            let a = r.gen_range(0..g.max_map);
            let b = r.gen_range(a + 1..=g.max_map);
            let (min, max) = match r.gen_range(0..5) {
                0 => (None, None),
                1 => (Some(a), None),
                2 => (None, Some(b)),
                _ => (Some(a), Some(b)),
            };
            let lo = min.unwrap_or(0);
            let hi = max.unwrap_or(lo + 4);
            let init = match r.gen_range(0..4) {
                0 => lo,
                1 => hi,
                _ => r.gen_range(lo..=hi),
            };
            M::Map { vt, init, min, max }
        }
        5 => {
            let n = r.gen_range(2..=4);
            let ks = names(r, g, n, false);
            let init = ks.choose(r).unwrap().clone();
            let mut opts = ks.into_iter().map(|k| (k, gen_at(r, g, depth - 1, false))).collect();
            twins(r, &mut opts);
            M::Var { opts, init }
        }
        _ => loop {
            let vt = gen_at(r, g, depth - 1, false);
            if !g.ambiguous_opt && matches!(vt, M::Opt { .. } | M::Const) {
                if depth <= 1 {
                    return M::Opt { vt: Box::new(M::Bool { init: r.gen() }), present: r.gen() };
                }
                continue;
            }
            return M::Opt { vt: Box::new(vt), present: r.gen() };
        },
    }
}

impl M {
    pub fn nodes(&self) -> usize {
        1 + match self {
            M::Sub(c) | M::Var { opts: c, .. } => c.iter().map(|x| x.1.nodes()).sum(),
            M::Arr(v, _) | M::Map { vt: v, .. } | M::Opt { vt: v, .. } => v.nodes(),
            _ => 0,
        }
    }

    pub fn depth(&self) -> usize {
        1 + match self {
            M::Sub(c) | M::Var { opts: c, .. } => c.iter().map(|x| x.1.depth()).max().unwrap_or(0),
            M::Arr(v, _) | M::Map { vt: v, .. } | M::Opt { vt: v, .. } => v.depth(),
            _ => 0,
        }
    }

    pub fn kinds(&self, out: &mut BTreeSet<&'static str>) {
        out.insert(self.kind());
        match self {
            M::Sub(c) | M::Var { opts: c, .. } => c.iter().for_each(|x| x.1.kinds(out)),
            M::Arr(v, _) | M::Map { vt: v, .. } | M::Opt { vt: v, .. } => v.kinds(out),
            _ => {}
        }
    }

    pub fn kind(&self) -> &'static str {
        match self {
            M::Real { .. } => "real",
            M::Int { .. } => "int",
            M::Bool { .. } => "bool",
            M::Sub(_) => "sub",
            M::Arr(..) => "array",
            M::Map { .. } => "anon map",
            M::Var { .. } => "variant",
            M::Enum { .. } => "enum",
            M::Opt { .. } => "optional",
            M::Const => "const",
        }
    }

    /// number of leaf positions of a typical value (used to keep generated spaces small)
    pub fn weight(&self) -> usize {
        match self {
            M::Sub(c) => c.iter().map(|x| x.1.weight()).sum(),
            M::Var { opts, .. } => opts.iter().map(|x| x.1.weight()).max().unwrap(),
            M::Arr(v, n) => v.weight().saturating_mul(*n),
            M::Map { vt, init, max, .. } => vt.weight().saturating_mul(max.unwrap_or(init + 3)),
            M::Opt { vt, .. } => vt.weight(),
            _ => 1,
        }
    }

    pub fn has_ambiguous_opt(&self) -> bool {
        match self {
            M::Opt { vt, .. } => matches!(**vt, M::Opt { .. } | M::Const) || vt.has_ambiguous_opt(),
            M::Sub(c) | M::Var { opts: c, .. } => c.iter().any(|x| x.1.has_ambiguous_opt()),
            M::Arr(v, _) | M::Map { vt: v, .. } => v.has_ambiguous_opt(),
            _ => false,
        }
    }

    pub fn to_spec(&self) -> spec::Node {
        match self {
            M::Real { init, scale, min, max } => spec::Node::Real { init: *init, scale: *scale, min: *min, max: *max },
            M::Int { init, scale, min, max } => spec::Node::Int { init: *init, scale: *scale, min: *min, max: *max },
            M::Bool { init } => spec::Node::Bool { init: *init },
            M::Sub(c) => spec::Node::Sub { map: c.iter().map(|(k, v)| (k.clone(), Box::new(v.to_spec()))).collect() },
            M::Arr(v, n) => spec::Node::Array { value_type: Box::new(v.to_spec()), size: *n },
            M::Map { vt, init, min, max } => {
                spec::Node::AnonMap { value_type: Box::new(vt.to_spec()), init_size: *init, min_size: *min, max_size: *max }
            }
            M::Var { opts, init } => spec::Node::Variant {
                map: opts.iter().map(|(k, v)| (k.clone(), Box::new(v.to_spec()))).collect(),
                init: init.clone(),
            },
            M::Enum { values, init } => spec::Node::Enum { values: values.clone(), init: init.clone() },
            M::Opt { vt, present } => spec::Node::Optional { value_type: Box::new(vt.to_spec()), init_present: *present },
            M::Const => spec::Node::Const,
        }
    }

    pub fn from_spec(n: &spec::Node) -> M {
        match n {
            spec::Node::Real { init, scale, min, max } => M::Real { init: *init, scale: *scale, min: *min, max: *max },
            spec::Node::Int { init, scale, min, max } => M::Int { init: *init, scale: *scale, min: *min, max: *max },
            spec::Node::Bool { init } => M::Bool { init: *init },
            spec::Node::Sub { map } => M::Sub(sorted(map.iter().map(|(k, v)| (k.clone(), M::from_spec(v))).collect())),
            spec::Node::Array { value_type, size } => M::Arr(Box::new(M::from_spec(value_type)), *size),
            spec::Node::AnonMap { value_type, init_size, min_size, max_size } => {
                M::Map { vt: Box::new(M::from_spec(value_type)), init: *init_size, min: *min_size, max: *max_size }
            }
            spec::Node::Variant { map, init } => M::Var {
                opts: sorted(map.iter().map(|(k, v)| (k.clone(), M::from_spec(v))).collect()),
                init: init.clone(),
            },
            spec::Node::Enum { values, init } => M::Enum { values: values.clone(), init: init.clone() },
            spec::Node::Optional { value_type, init_present } => {
                M::Opt { vt: Box::new(M::from_spec(value_type)), present: *init_present }
            }
            spec::Node::Const => M::Const,
        }
    }

    pub fn canon(&self) -> M {
        match self {
            M::Sub(c) => M::Sub(sorted(c.iter().map(|(k, v)| (k.clone(), v.canon())).collect())),
            M::Var { opts, init } => {
                M::Var { opts: sorted(opts.iter().map(|(k, v)| (k.clone(), v.canon())).collect()), init: init.clone() }
            }
            M::Arr(v, n) => M::Arr(Box::new(v.canon()), *n),
            M::Map { vt, init, min, max } => M::Map { vt: Box::new(vt.canon()), init: *init, min: *min, max: *max },
            M::Opt { vt, present } => M::Opt { vt: Box::new(vt.canon()), present: *present },
            x => x.clone(),
        }
    }

    /// Is the space itself well-formed in the sense of C10? (None = yes)
    pub fn ill_formed(&self) -> Option<String> {
        match self {
            M::Real { init, scale, min, max } => {
                for x in [Some(*init), Some(*scale), *min, *max].into_iter().flatten() {
                    if !x.is_finite() {
                        return Some(format!("non-finite number {x} in real"));
                    }
                }
                if !(*scale > 0.0) {
                    return Some("scale not positive".into());
                }
                if let (Some(a), Some(b)) = (min, max) {
                    if !(a < b) {
                        return Some(format!("real min {a} >= max {b}"));
                    }
                }
                if min.map_or(false, |m| *init < m) || max.map_or(false, |m| *init > m) {
                    return Some("real init out of bounds".into());
                }
                None
            }
            M::Int { init, scale, min, max } => {
                if !scale.is_finite() || !(*scale > 0.0) {
                    return Some("int scale".into());
                }
                if let (Some(a), Some(b)) = (min, max) {
                    if a >= b {
                        return Some("int min >= max".into());
                    }
                }
                if min.map_or(false, |m| *init < m) || max.map_or(false, |m| *init > m) {
                    return Some("int init out of bounds".into());
                }
                None
            }
            M::Bool { .. } | M::Const => None,
            M::Sub(c) => {
                if c.is_empty() {
                    return Some("empty sub".into());
                }
                c.iter().find_map(|x| x.1.ill_formed())
            }
            M::Arr(v, n) => {
                if *n < 2 {
                    return Some("array size < 2".into());
                }
                v.ill_formed()
            }
            M::Map { vt, init, min, max } => {
                if let (Some(a), Some(b)) = (min, max) {
                    if a >= b {
                        return Some("map minSize > maxSize".into());
                    }
                }
                if *max == Some(0) {
                    return Some("map maxSize 0".into());
                }
                if min.map_or(false, |m| *init < m) || max.map_or(false, |m| *init > m) {
                    return Some("map initSize out of bounds".into());
                }
                vt.ill_formed()
            }
            M::Var { opts, init } => {
                if opts.len() < 2 {
                    return Some("variant with < 2 options".into());
                }
                if !opts.iter().any(|x| x.0 == *init) {
                    return Some("variant init unknown".into());
                }
                opts.iter().find_map(|x| x.1.ill_formed())
            }
            M::Enum { values, init } => {
                if values.iter().collect::<BTreeSet<_>>().len() < 2 {
                    return Some("enum with < 2 distinct values".into());
                }
                if !values.contains(init) {
                    return Some("enum init unknown".into());
                }
                None
            }
            M::Opt { vt, .. } => vt.ill_formed(),
        }
    }

    // ---------------------------------------------------------------- JSON side
    pub fn init_json(&self) -> J {
        match self {
            M::Real { init, .. } => J::from(*init),
            M::Int { init, .. } => J::from(*init),
            M::Bool { init } => J::from(*init),
            M::Sub(c) => J::Object(c.iter().map(|(k, v)| (k.clone(), v.init_json())).collect()),
            M::Arr(v, n) => J::Array(vec![v.init_json(); *n]),
            M::Map { vt, init, .. } => J::Object((0..*init).map(|i| (i.to_string(), vt.init_json())).collect()),
            M::Var { opts, init } => {
                let o = opts.iter().find(|x| x.0 == *init).unwrap();
                J::Object([(init.clone(), o.1.init_json())].into_iter().collect())
            }
            M::Enum { init, .. } => J::from(init.clone()),
            M::Opt { vt, present } => if *present { vt.init_json() } else { J::Null },
            M::Const => J::Null,
        }
    }

    /// (offending path, reason) if the JSON value is not a member of the space
    pub fn conforms(&self, j: &J) -> Result<(), String> {
        self.conf(j, &mut String::new())
    }

    fn conf(&self, j: &J, path: &mut String) -> Result<(), String> {
        let bad = |p: &String, m: String| Err(format!("at '{p}': {m}"));
        let len = path.len();
        match self {
            M::Real { min, max, .. } => {
                let Some(x) = j.as_f64() else { return bad(path, format!("not a number: {j}")) };
                if !x.is_finite() || min.map_or(false, |m| x < m) || max.map_or(false, |m| x > m) {
                    return bad(path, format!("real {x} outside [{min:?},{max:?}]"));
                }
                Ok(())
            }
            M::Int { min, max, .. } => {
                let Some(x) = j.as_i64() else { return bad(path, format!("not an integer: {j}")) };
                if min.map_or(false, |m| x < m) || max.map_or(false, |m| x > m) {
                    return bad(path, format!("int {x} outside [{min:?},{max:?}]"));
                }
                Ok(())
            }
            M::Bool { .. } => if j.is_boolean() { Ok(()) } else { bad(path, format!("not a bool: {j}")) },
            M::Sub(c) => {
                let Some(o) = j.as_object() else { return bad(path, format!("not an object: {j}")) };
                for k in o.keys() {
                    if !c.iter().any(|x| x.0 == *k) {
                        return bad(path, format!("undeclared key {k:?}"));
                    }
                }
                for (k, m) in c {
                    let Some(v) = o.get(k) else { return bad(path, format!("missing key {k:?}")) };
                    path.push('.');
                    path.push_str(k);
                    m.conf(v, path)?;
                    path.truncate(len);
                }
                Ok(())
            }
            M::Arr(m, n) => {
                let Some(a) = j.as_array() else { return bad(path, format!("not an array: {j}")) };
                if a.len() != *n {
                    return bad(path, format!("array length {} != {n}", a.len()));
                }
                for (i, v) in a.iter().enumerate() {
                    path.push_str(&format!("[{i}]"));
                    m.conf(v, path)?;
                    path.truncate(len);
                }
                Ok(())
            }
            M::Map { vt, min, max, .. } => {
                let Some(o) = j.as_object() else { return bad(path, format!("not an object: {j}")) };
                if min.map_or(false, |m| o.len() < m) || max.map_or(false, |m| o.len() > m) {
                    return bad(path, format!("map size {} outside [{min:?},{max:?}]", o.len()));
                }
                for (k, v) in o {
                    if k.parse::<usize>().map(|x| x.to_string()) != Ok(k.clone()) {
                        return bad(path, format!("map key {k:?}"));
                    }
                    path.push_str(&format!("#{k}"));
                    vt.conf(v, path)?;
                    path.truncate(len);
                }
                Ok(())
            }
            M::Var { opts, .. } => {
                let Some(o) = j.as_object() else { return bad(path, format!("not an object: {j}")) };
                if o.len() != 1 {
                    return bad(path, format!("variant with {} options", o.len()));
                }
                let (k, v) = o.iter().next().unwrap();
                let Some(m) = opts.iter().find(|x| x.0 == *k) else { return bad(path, format!("undeclared option {k:?}")) };
                path.push_str(&format!("<{k}>"));
                m.1.conf(v, path)?;
                path.truncate(len);
                Ok(())
            }
            M::Enum { values, .. } => match j.as_str() {
                Some(s) if values.iter().any(|v| v == s) => Ok(()),
                _ => bad(path, format!("undeclared enum value {j}")),
            },
            M::Opt { vt, .. } => {
                if j.is_null() {
                    return Ok(());
                }
                path.push('?');
                vt.conf(j, path)?;
                path.truncate(len);
                Ok(())
            }
            M::Const => if j.is_null() { Ok(()) } else { bad(path, format!("const is {j}")) },
        }
    }

    // ---------------------------------------------------------------- value::Node side
    pub fn conforms_node(&self, n: &value::Node) -> Result<(), String> {
        self.confn(n, &mut String::new())
    }

    fn confn(&self, n: &value::Node, path: &mut String) -> Result<(), String> {
        use value::Node as N;
        let bad = |p: &String, m: String| Err(format!("at '{p}': {m}"));
        let len = path.len();
        match (self, n) {
            (M::Real { min, max, .. }, N::Real(x)) => {
                if !x.is_finite() || min.map_or(false, |m| *x < m) || max.map_or(false, |m| *x > m) {
                    return bad(path, format!("real {x} outside [{min:?},{max:?}]"));
                }
                Ok(())
            }
            (M::Int { min, max, .. }, N::Int(x)) => {
                if min.map_or(false, |m| *x < m) || max.map_or(false, |m| *x > m) {
                    return bad(path, format!("int {x} outside [{min:?},{max:?}]"));
                }
                Ok(())
            }
            (M::Bool { .. }, N::Bool(_)) | (M::Const, N::Const) => Ok(()),
            (M::Sub(c), N::Sub(o)) => {
                if o.len() != c.len() {
                    return bad(path, format!("{} keys, {} declared", o.len(), c.len()));
                }
                for (k, m) in c {
                    let Some(v) = o.get(k) else { return bad(path, format!("missing key {k:?}")) };
                    path.push('.');
                    path.push_str(k);
                    m.confn(v, path)?;
                    path.truncate(len);
                }
                Ok(())
            }
            (M::Arr(m, n), N::Array(a)) => {
                if a.len() != *n {
                    return bad(path, format!("array length {} != {n}", a.len()));
                }
                for (i, v) in a.iter().enumerate() {
                    path.push_str(&format!("[{i}]"));
                    m.confn(v, path)?;
                    path.truncate(len);
                }
                Ok(())
            }
            (M::Map { vt, min, max, .. }, N::AnonMap(o)) => {
                if min.map_or(false, |m| o.len() < m) || max.map_or(false, |m| o.len() > m) {
                    return bad(path, format!("map size {} outside [{min:?},{max:?}]", o.len()));
                }
                for (k, v) in o {
                    path.push_str(&format!("#{k}"));
                    vt.confn(v, path)?;
                    path.truncate(len);
                }
                Ok(())
            }
            (M::Var { opts, .. }, N::Variant(k, v)) => {
                let Some(m) = opts.iter().find(|x| x.0 == *k) else { return bad(path, format!("undeclared option {k:?}")) };
                path.push_str(&format!("<{k}>"));
                m.1.confn(v, path)?;
                path.truncate(len);
                Ok(())
            }
            (M::Enum { values, .. }, N::Enum(s)) => if values.contains(s) { Ok(()) } else { bad(path, format!("undeclared enum value {s:?}")) },
            (M::Opt { vt, .. }, N::Optional(o)) => {
                if let Some(v) = o {
                    path.push('?');
                    vt.confn(v, path)?;
                    path.truncate(len);
                }
                Ok(())
            }
            (m, n) => bad(path, format!("{} expected, found {n:?}", m.kind())),
        }
    }

    pub fn init_node(&self) -> value::Node {
        use value::Node as N;
        match self {
            M::Real { init, .. } => N::Real(*init),
            M::Int { init, .. } => N::Int(*init),
            M::Bool { init } => N::Bool(*init),
            M::Sub(c) => N::Sub(c.iter().map(|(k, v)| (k.clone(), Box::new(v.init_node()))).collect()),
            M::Arr(v, n) => N::Array((0..*n).map(|_| Box::new(v.init_node())).collect()),
            M::Map { vt, init, .. } => N::AnonMap((0..*init).map(|i| (i, Box::new(vt.init_node()))).collect()),
            M::Var { opts, init } => {
                let o = opts.iter().find(|x| x.0 == *init).unwrap();
                N::Variant(init.clone(), Box::new(o.1.init_node()))
            }
            M::Enum { init, .. } => N::Enum(init.clone()),
            M::Opt { vt, present } => N::Optional(if *present { Some(Box::new(vt.init_node())) } else { None }),
            M::Const => N::Const,
        }
    }

    /// the member written as JSON (None if it is not a member); null for an optional always means absent
    pub fn decode(&self, j: &J) -> Option<value::Node> {
        use value::Node as N;
        Some(match self {
            M::Real { .. } => N::Real(j.as_f64()?),
            M::Int { .. } => N::Int(j.as_i64()?),
            M::Bool { .. } => N::Bool(j.as_bool()?),
            M::Sub(c) => {
                let o = j.as_object()?;
                if o.len() != c.len() {
                    return None;
                }
                N::Sub(c.iter().map(|(k, m)| Some((k.clone(), Box::new(m.decode(o.get(k)?)?)))).collect::<Option<_>>()?)
            }
            M::Arr(m, n) => {
                let a = j.as_array()?;
                if a.len() != *n {
                    return None;
                }
                N::Array(a.iter().map(|x| m.decode(x).map(Box::new)).collect::<Option<_>>()?)
            }
            M::Map { vt, .. } => N::AnonMap(j.as_object()?.iter().map(|(k, v)| Some((k.parse().ok()?, Box::new(vt.decode(v)?)))).collect::<Option<_>>()?),
            M::Var { opts, .. } => {
                let (k, v) = j.as_object()?.iter().next()?;
                N::Variant(k.clone(), Box::new(opts.iter().find(|o| o.0 == *k)?.1.decode(v)?))
            }
            M::Enum { .. } => N::Enum(j.as_str()?.to_string()),
            M::Opt { vt, .. } => N::Optional(if j.is_null() { None } else { Some(Box::new(vt.decode(j)?)) }),
            M::Const => N::Const,
        })
    }

    /// random member; `uniq` (if given) makes numeric leaves as distinct as the bounds allow
    pub fn gen_node(&self, r: &mut StdRng, key_space: usize) -> value::Node {
        use value::Node as N;
        match self {
            M::Real { init, min, max, scale } => N::Real(match (min, max) {
                (Some(a), Some(b)) => match r.gen_range(0..6) {
                    0 => *a,
                    1 => *b,
                    _ => {
                        let t: f64 = r.gen();
                        let x = a * (1.0 - t) + b * t;
                        if x.is_finite() && x >= *a && x <= *b { x } else { *a }
                    }
                },
                _ => {
                    let lo = min.unwrap_or(f64::MIN);
                    let hi = max.unwrap_or(f64::MAX);
                    let step = if init.abs() >= 1.0 && *scale < 1e-30 { init.abs() } else { *scale };
                    let x = init + step * r.gen_range(-5.0..5.0);
                    let x = if step != *scale && x.abs() < 1.0 { *init } else { x };
                    if x.is_finite() { x.max(lo).min(hi) } else { *init }
                }
            }),
            M::Int { init, min, max, .. } => {
                let lo = min.unwrap_or_else(|| init.saturating_sub(1000));
                let hi = max.unwrap_or_else(|| init.saturating_add(1000));
                let (lo, hi) = (lo.min(hi), hi.max(lo));
                N::Int(match r.gen_range(0..5) {
                    0 => lo,
                    1 => hi,
                    _ => r.gen_range(lo..=hi),
                })
            }
            M::Bool { .. } => N::Bool(r.gen()),
            M::Sub(c) => N::Sub(c.iter().map(|(k, v)| (k.clone(), Box::new(v.gen_node(r, key_space)))).collect()),
            M::Arr(v, n) => N::Array((0..*n).map(|_| Box::new(v.gen_node(r, key_space))).collect()),
            M::Map { vt, min, max, init } => {
                let lo = min.unwrap_or(0);
                let hi = max.unwrap_or_else(|| lo.max(*init) + 3);
                let n = match r.gen_range(0..5) {
                    0 => lo,
                    1 => hi,
                    _ => r.gen_range(lo..=hi),
                };
                let mut keys = BTreeSet::new();
                let far = r.gen_bool(0.15);
                while keys.len() < n {
                    keys.insert(match r.gen_range(0..20) {
                        0 => r.gen_range(0..1000),
                        1..=8 if far => *[9, 10, 99, 100, 999, 1000, 1001, 4096, 65_535, 65_536, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 53, (1 << 53) + 1, i64::MAX as usize, 1 << 63, usize::MAX - 1, usize::MAX].choose(r).unwrap(),
                        9..=14 if far => (r.gen::<u64>() >> r.gen_range(0..60)) as usize,
                        _ => r.gen_range(0..(key_space.max(1) + hi)),
                    });
                }
                let mut keys: Vec<usize> = keys.into_iter().collect();
                keys.shuffle(r);
                N::AnonMap(keys.into_iter().map(|k| (k, Box::new(vt.gen_node(r, key_space)))).collect())
            }
            M::Var { opts, .. } => {
                let o = opts.choose(r).unwrap();
                N::Variant(o.0.clone(), Box::new(o.1.gen_node(r, key_space)))
            }
            M::Enum { values, .. } => N::Enum(values.choose(r).unwrap().clone()),
            M::Opt { vt, .. } => N::Optional(if r.gen() { Some(Box::new(vt.gen_node(r, key_space))) } else { None }),
            M::Const => N::Const,
        }
    }

    // ---------------------------------------------------------------- YAML side
    pub fn to_yaml(&self) -> Y {
        let mut m = serde_yaml::Mapping::new();
        let s = |x: &str| Y::String(x.to_string());
        match self {
            M::Real { init, scale, min, max } => {
                m.insert(s("type"), s("real"));
                m.insert(s("init"), Y::from(*init));
                m.insert(s("scale"), Y::from(*scale));
                if let Some(x) = min {
                    m.insert(s("min"), Y::from(*x));
                }
                if let Some(x) = max {
                    m.insert(s("max"), Y::from(*x));
                }
            }
            M::Int { init, scale, min, max } => {
                m.insert(s("type"), s("int"));
                m.insert(s("init"), Y::from(*init));
                m.insert(s("scale"), Y::from(*scale));
                if let Some(x) = min {
                    m.insert(s("min"), Y::from(*x));
                }
                if let Some(x) = max {
                    m.insert(s("max"), Y::from(*x));
                }
            }
            M::Bool { init } => {
                m.insert(s("type"), s("bool"));
                m.insert(s("init"), Y::from(*init));
            }
            M::Sub(c) => {
                m.insert(s("type"), s("sub"));
                for (k, v) in c {
                    m.insert(s(k), v.to_yaml());
                }
            }
            M::Arr(v, n) => {
                m.insert(s("type"), s("array"));
                m.insert(s("size"), Y::from(*n as u64));
                m.insert(s("valueType"), v.to_yaml());
            }
            M::Map { vt, init, min, max } => {
                m.insert(s("type"), s("anon map"));
                m.insert(s("initSize"), Y::from(*init as u64));
                if let Some(x) = min {
                    m.insert(s("minSize"), Y::from(*x as u64));
                }
                if let Some(x) = max {
                    m.insert(s("maxSize"), Y::from(*x as u64));
                }
                m.insert(s("valueType"), vt.to_yaml());
            }
            M::Var { opts, init } => {
                m.insert(s("type"), s("variant"));
                m.insert(s("init"), s(init));
                for (k, v) in opts {
                    m.insert(s(k), v.to_yaml());
                }
            }
            M::Enum { values, init } => {
                m.insert(s("type"), s("enum"));
                m.insert(s("init"), s(init));
                m.insert(s("values"), Y::Sequence(values.iter().map(|v| s(v)).collect()));
            }
            M::Opt { vt, present } => {
                m.insert(s("type"), s("optional"));
                m.insert(s("initPresent"), Y::from(*present));
                m.insert(s("valueType"), vt.to_yaml());
            }
            M::Const => {
                m.insert(s("type"), s("const"));
            }
        }
        Y::Mapping(m)
    }

    pub fn yaml(&self) -> String {
        serde_yaml::to_string(&self.to_yaml()).unwrap()
    }
}

fn sorted(mut v: Vec<(String, M)>) -> Vec<(String, M)> {
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}

/// exact equality of JSON numbers etc. (serde_json's PartialEq already distinguishes 1 and 1.0)
pub fn same_json(a: &J, b: &J) -> bool {
    a == b && a.to_string() == b.to_string()
}

pub fn node_eq(a: &value::Node, b: &value::Node) -> bool {
    use value::Node as N;
    match (a, b) {
        (N::Real(x), N::Real(y)) => x.to_bits() == y.to_bits(),
        (N::Sub(x), N::Sub(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| node_eq(v, w))),
        (N::AnonMap(x), N::AnonMap(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| node_eq(v, w))),
        (N::Array(x), N::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(v, w)| node_eq(v, w)),
        (N::Variant(k, x), N::Variant(l, y)) => k == l && node_eq(x, y),
        (N::Optional(x), N::Optional(y)) => match (x, y) {
            (None, None) => true,
            (Some(x), Some(y)) => node_eq(x, y),
            _ => false,
        },
        (x, y) => x == y,
    }
}

/// rough structural signature used to count distinct cases
pub fn sig_json(j: &J) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    j.to_string().hash(&mut h);
    h.finish()
}

pub type Counters = BTreeMap<String, u64>;

/// a generated space that is not too big
pub fn gen_bounded(r: &mut StdRng, g: &Gen, max_weight: usize) -> M {
    if max_weight >= 15 && r.gen_bool(g.wide) {
        return gen_wide(r, g);
    }
    loop {
        let m = gen(r, g);
        if m.weight() <= max_weight {
            return m;
        }
    }
}

fn log_range(r: &mut StdRng, lo: usize, hi: usize) -> usize {
    ((lo as f64).ln() + r.gen::<f64>() * ((hi + 1) as f64 / lo as f64).ln()).exp().floor() as usize
}

/// a resizable map with any combination of bounds, nested in up to two other nodes
pub fn gen_map(r: &mut StdRng) -> M {
    let g = Gen::new(1, Mag::Small);
    let lo = match r.gen_range(0..4) {
        0 => r.gen_range(0..3),
        1 => r.gen_range(0..12),
        _ => log_range(r, 1, 150),
    };
    let hi = match r.gen_range(0..3) {
        0 => lo + r.gen_range(1..3),
        1 => lo + r.gen_range(1..10),
        _ => lo + log_range(r, 1, 100),
    };
    let init = match r.gen_range(0..3) {
        0 => lo,
        1 => hi,
        _ => r.gen_range(lo..=hi),
    };
    let d = (hi < 20 && r.gen_bool(0.3)) as usize;
    let vt = gen_at(r, &g, d, false);
    let mut m = M::Map { vt: Box::new(vt), init, min: if r.gen_bool(0.85) { Some(lo) } else { None }, max: if r.gen_bool(0.6) { Some(hi) } else { None } };
    for _ in 0..r.gen_range(0..3) {
        m = match r.gen_range(0..4) {
            0 => M::Opt { vt: Box::new(m), present: true },
            1 => M::Var { init: "a".into(), opts: vec![("a".into(), m), ("b".into(), M::Bool { init: false })] },
            2 => M::Sub(vec![("m".into(), m), ("x".into(), M::Bool { init: true })]),
            _ => M::Map { vt: Box::new(m), init: 1, min: Some(r.gen_range(0..=1)), max: Some(2) },
        };
    }
    m
}

/// large in one dimension: many elements, options, values or levels
pub fn gen_wide(r: &mut StdRng, g: &Gen) -> M {
    let many = |r: &mut StdRng, n: usize, sub: bool| -> Vec<(String, M)> {
        let same = if r.gen_bool(0.4) { Some(gen_at(r, g, 0, false)) } else { None };
        (0..n)
            .map(|i| {
                let k = format!("{}{}", gen_name(r, g, sub), i);
                (k, same.clone().unwrap_or_else(|| gen_at(r, g, (i % 3 == 0) as usize, false)))
            })
            .collect()
    };
    let inner = match r.gen_range(0..8) {
        0 => M::Arr(Box::new(gen_at(r, g, 0, false)), log_range(r, 5, 300)),
        1 | 2 => {
            let hi = log_range(r, 6, 200);
            let lo = r.gen_range(0..hi);
            let (min, max) = match r.gen_range(0..4) {
                0 => (Some(lo), None),
                1 => (None, Some(hi)),
                2 => (None, None),
                _ => (Some(lo), Some(hi)),
            };
            let init = match r.gen_range(0..3) {
                0 => lo,
                1 => hi,
                _ => r.gen_range(lo..=hi),
            };
            let d = r.gen_range(0..2);
            let mut vt = gen_at(r, g, d, false);
            if vt.weight() * hi > 400 {
                vt = gen_at(r, g, 0, false);
            }
            M::Map { vt: Box::new(vt), init, min, max }
        }
        3 => {
            let n = log_range(r, 5, 80);
            M::Sub(many(r, n, true))
        }
        4 => {
            let n = log_range(r, 5, 60);
            let opts = many(r, n, false);
            let init = opts.choose(r).unwrap().0.clone();
            M::Var { opts, init }
        }
        5 => {
            let n = log_range(r, 5, 300);
            let values: Vec<String> = (0..n).map(|i| format!("{}{}", gen_name(r, g, true), i)).collect();
            let init = values.choose(r).unwrap().clone();
            M::Enum { values, init }
        }
        6 => {
            let (a, b) = (r.gen_range(4..14), r.gen_range(4..14));
            M::Arr(Box::new(M::Arr(Box::new(gen_at(r, g, 0, false)), a)), b)
        }
        _ => {
            // a deep chain
            let mut m = gen_at(r, g, 0, false);
            for i in 0..log_range(r, 6, 60) {
                m = match r.gen_range(0..6) {
                    0 | 1 => M::Sub(vec![(gen_name(r, g, true), m)]),
                    2 if g.ambiguous_opt || !matches!(m, M::Opt { .. } | M::Const) => M::Opt { vt: Box::new(m), present: r.gen_bool(0.8) },
                    3 => {
                        let k = gen_name(r, g, false);
                        let other = format!("{k}{i}");
                        let init = if r.gen_bool(0.8) { k.clone() } else { other.clone() };
                        M::Var { opts: vec![(k, m), (other, gen_at(r, g, 0, false))], init }
                    }
                    4 => M::Map { vt: Box::new(m), init: 1, min: if r.gen() { Some(0) } else { None }, max: Some(1) },
                    _ => M::Sub(vec![(format!("{}a", gen_name(r, g, true)), m), (format!("{}b", gen_name(r, g, true)), gen_at(r, g, 0, false))]),
                };
            }
            m
        }
    };
    match r.gen_range(0..6) {
        0 if g.ambiguous_opt || !matches!(inner, M::Opt { .. } | M::Const) => M::Opt { vt: Box::new(inner), present: r.gen() },
        1 => {
            let k = gen_name(r, g, false);
            M::Var { opts: vec![(k.clone(), inner), (format!("{k}x"), gen_at(r, g, 1, false))], init: k }
        }
        2 => {
            let k = gen_name(r, g, true);
            M::Sub(vec![(k.clone(), inner), (format!("{k}x"), gen_at(r, g, 1, false))])
        }
        _ => inner,
    }
}
