//! Spec parsing against an independent reference reader of spec documents.
use super::*;
use crate::model::*;
use crate::{ensure, viol};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_yaml::{Mapping, Value as Y};

type Env = Vec<(String, Option<M>)>;

/// what the rules say about a document
#[derive(Debug)]
pub enum Ref {
    Ok(M),
    Bad(String),
    /// not settled by the stated rules
    Unclear(&'static str),
}

macro_rules! attempt {
    ($e:expr) => {
        match $e {
            Ref::Ok(m) => m,
            x => return x,
        }
    };
}

const BUILTIN: &[&str] = &["real", "int", "bool", "sub", "array", "anon map", "variant", "enum", "optional", "const"];

fn get<'a>(m: &'a Mapping, k: &str) -> Option<&'a Y> {
    m.iter().find(|x| matches!(x.0, Y::String(s) if s == k)).map(|x| x.1)
}

fn untag(y: &Y) -> Result<&Y, Ref> {
    match y {
        Y::Tagged(_) => Err(Ref::Unclear("tag")),
        y => Ok(y),
    }
}

pub fn refread(y: &Y, env: &Env) -> Ref {
    // several problems in one document: any Bad makes the document bad, Unclear only if nothing is bad
    let m = match y {
        Y::Mapping(m) => m,
        Y::Tagged(_) => return Ref::Unclear("tag"),
        _ => return Ref::Bad("not a mapping".into()),
    };
    if m.keys().any(|k| matches!(k, Y::Tagged(_))) {
        return Ref::Unclear("tagged key");
    }
    if m.keys().any(|k| !matches!(k, Y::String(_))) {
        return Ref::Unclear("key that is no string");
    }
    let ty = match get(m, "type") {
        None => "sub",
        Some(Y::String(s)) => s.as_str(),
        Some(Y::Tagged(_)) => return Ref::Unclear("tag"),
        Some(_) => return Ref::Bad("type is not a string".into()),
    };
    let only = |allowed: &[&str]| -> Option<Ref> {
        m.keys().find(|k| !allowed.contains(&k.as_str().unwrap())).map(|k| Ref::Bad(format!("unknown attribute {k:?}")))
    };
    macro_rules! val {
        ($k:expr) => {
            match get(m, $k).map(untag) {
                None => None,
                Some(Ok(x)) => Some(x),
                Some(Err(r)) => return r,
            }
        };
    }
    macro_rules! real {
        ($k:expr) => {
            match val!($k) {
                None => None,
                Some(Y::Number(n)) => match n.as_f64() {
                    Some(x) if x.is_finite() => Some(x),
                    _ => return Ref::Bad(format!("{} is not finite", $k)),
                },
                Some(_) => return Ref::Bad(format!("{} is not a number", $k)),
            }
        };
    }
    macro_rules! int {
        ($k:expr) => {
            match val!($k) {
                None => None,
                Some(Y::Number(n)) => match n.as_i64() {
                    Some(x) => Some(x),
                    None => return Ref::Bad(format!("{} is not an integer", $k)),
                },
                Some(_) => return Ref::Bad(format!("{} is not a number", $k)),
            }
        };
    }
    macro_rules! size {
        ($k:expr) => {
            match val!($k) {
                None => None,
                Some(Y::Number(n)) => match n.as_u64() {
                    Some(x) => Some(x as usize),
                    None => return Ref::Bad(format!("{} is not a size", $k)),
                },
                Some(_) => return Ref::Bad(format!("{} is not a number", $k)),
            }
        };
    }
    macro_rules! string {
        ($k:expr) => {
            match val!($k) {
                None => None,
                Some(Y::String(s)) => Some(s.clone()),
                Some(_) => return Ref::Bad(format!("{} is not a string", $k)),
            }
        };
    }
    macro_rules! boolean {
        ($k:expr) => {
            match val!($k) {
                None => None,
                Some(Y::Bool(s)) => Some(*s),
                Some(_) => return Ref::Bad(format!("{} is not a boolean", $k)),
            }
        };
    }
    macro_rules! wf {
        ($m:expr) => {{
            let x = $m;
            match x.ill_formed() {
                Some(e) => return Ref::Bad(e),
                None => Ref::Ok(x),
            }
        }};
    }
    match ty {
        "real" | "int" => {
            if let Some(b) = only(&["type", "min", "max", "scale", "init"]) {
                return b;
            }
            if ty == "real" {
                let (min, max, init, scale) = (real!("min"), real!("max"), real!("init"), real!("scale"));
                let probe = M::Real { init: init.or(min).or(max).unwrap_or(0.0), scale: scale.unwrap_or(1.0), min, max };
                let r = wf!(probe);
                if init.is_none() || scale.is_none() {
                    return Ref::Unclear("no init or scale");
                }
                r
            } else {
                let (min, max, init, scale) = (int!("min"), int!("max"), int!("init"), real!("scale"));
                let probe = M::Int { init: init.or(min).or(max).unwrap_or(0), scale: scale.unwrap_or(1.0), min, max };
                let r = wf!(probe);
                if init.is_none() || scale.is_none() {
                    return Ref::Unclear("no init or scale");
                }
                r
            }
        }
        "bool" => {
            if let Some(b) = only(&["type", "init"]) {
                return b;
            }
            match boolean!("init") {
                Some(init) => Ref::Ok(M::Bool { init }),
                None => Ref::Unclear("no init"),
            }
        }
        "const" => only(&["type"]).unwrap_or(Ref::Ok(M::Const)),
        "enum" => {
            if let Some(b) = only(&["type", "init", "values"]) {
                return b;
            }
            let init = string!("init");
            let values = match val!("values") {
                Some(Y::Sequence(s)) => s,
                _ => return Ref::Bad("values is not a sequence".into()),
            };
            let mut v = vec![];
            for x in values {
                match x {
                    Y::String(s) => v.push(s.clone()),
                    Y::Tagged(_) => return Ref::Unclear("tag"),
                    _ => return Ref::Bad("enum value is not a string".into()),
                }
            }
            match init {
                Some(init) => wf!(M::Enum { values: v, init }),
                None => match v.first() {
                    Some(i) => {
                        let i = i.clone();
                        let _ = wf!(M::Enum { values: v, init: i });
                        Ref::Unclear("no init")
                    }
                    None => Ref::Bad("no values".into()),
                },
            }
        }
        "array" => {
            if let Some(b) = only(&["type", "size", "valueType"]) {
                return b;
            }
            let Some(vt) = get(m, "valueType") else { return Ref::Bad("no valueType".into()) };
            let vt = attempt!(refread(vt, env));
            match size!("size") {
                Some(n) => wf!(M::Arr(Box::new(vt), n)),
                None => Ref::Bad("no size".into()),
            }
        }
        "optional" => {
            if let Some(b) = only(&["type", "initPresent", "valueType"]) {
                return b;
            }
            let Some(vt) = get(m, "valueType") else { return Ref::Bad("no valueType".into()) };
            let vt = attempt!(refread(vt, env));
            match boolean!("initPresent") {
                Some(p) => Ref::Ok(M::Opt { vt: Box::new(vt), present: p }),
                None => Ref::Unclear("no initPresent"),
            }
        }
        "anon map" => {
            if let Some(b) = only(&["type", "initSize", "minSize", "maxSize", "valueType"]) {
                return b;
            }
            let Some(vt) = get(m, "valueType") else { return Ref::Bad("no valueType".into()) };
            let vt = attempt!(refread(vt, env));
            let (min, max, init) = (size!("minSize"), size!("maxSize"), size!("initSize"));
            let r = wf!(M::Map { vt: Box::new(vt), init: init.or(min).or(max).unwrap_or(0), min, max });
            if init.is_none() {
                return Ref::Unclear("no initSize");
            }
            r
        }
        "variant" => {
            let init = string!("init");
            let mut opts = vec![];
            let mut unclear = None;
            for (k, v) in m {
                let k = k.as_str().unwrap();
                if k == "type" || k == "init" {
                    continue;
                }
                match refread(v, env) {
                    Ref::Ok(x) => opts.push((k.to_string(), x)),
                    Ref::Unclear(u) => unclear = Some(u),
                    b => return b,
                }
            }
            if let Some(u) = unclear {
                return Ref::Unclear(u);
            }
            match init {
                Some(init) => wf!(M::Var { opts, init }),
                None => Ref::Bad("variant without declared initial option".into()),
            }
        }
        "sub" => {
            let mut env = env.clone();
            let mut unclear = None;
            let local: Vec<&str> = m.keys().filter_map(|k| k.as_str().unwrap().strip_prefix("typeDef ")).collect();
            if let Some(b) = local.iter().find(|n| BUILTIN.contains(n)) {
                return Ref::Bad(format!("type definition of built-in {b}"));
            }
            for (k, v) in m {
                let Some(name) = k.as_str().unwrap().strip_prefix("typeDef ") else { continue };
                // names of this scope that are not defined yet: what they mean here is not stated
                let mut inner = env.clone();
                let done: Vec<&str> = local.iter().take_while(|n| **n != name).copied().collect();
                for l in &local {
                    if !done.contains(l) {
                        inner.push((l.to_string(), None));
                    }
                }
                match refread(v, &inner) {
                    Ref::Ok(x) => env.push((name.to_string(), Some(x))),
                    Ref::Unclear(u) => {
                        unclear = Some(u);
                        env.push((name.to_string(), None));
                    }
                    b => return b,
                }
            }
            let mut c = vec![];
            for (k, v) in m {
                let k = k.as_str().unwrap();
                if k == "type" || k.starts_with("typeDef ") {
                    continue;
                }
                match refread(v, &env) {
                    Ref::Ok(x) => c.push((k.to_string(), x)),
                    Ref::Unclear(u) => unclear = Some(u),
                    b => return b,
                }
            }
            if let Some(u) = unclear {
                return Ref::Unclear(u);
            }
            if c.is_empty() {
                return Ref::Unclear("empty sub");
            }
            wf!(M::Sub(c))
        }
        name => match env.iter().rev().find(|e| e.0 == name) {
            None => Ref::Bad(format!("unknown type {name:?}")),
            Some((_, None)) => Ref::Unclear("type not defined yet"),
            Some((_, Some(x))) => {
                if let Some(b) = only(&["type"]) {
                    return b;
                }
                Ref::Ok(x.clone())
            }
        },
    }
}

fn node_depth(m: &M) -> usize {
    m.depth()
}

fn initial_size(m: &M) -> usize {
    match m {
        M::Sub(c) => c.iter().fold(1usize, |a, x| a.saturating_add(initial_size(&x.1))),
        M::Var { opts, init } => opts.iter().find(|x| x.0 == *init).map_or(1, |x| initial_size(&x.1)),
        M::Arr(v, n) => initial_size(v).saturating_mul(*n),
        M::Map { vt, init, .. } => initial_size(vt).saturating_mul(*init),
        M::Opt { vt, .. } => initial_size(vt),
        _ => 1,
    }
}

/// parses one document with the real parser and judges the outcome
pub fn check_doc(c: &mut Case, text: &str, want: Option<&M>) -> R {
    c.note = format!("while parsing {text:?}");
    let got = cambrian::spec_util::from_yaml_str(text);
    let parsed: Result<Y, _> = serde_yaml::from_str(text);
    let reference = match &parsed {
        Err(_) => Ref::Bad("not YAML".into()),
        Ok(y) => refread(y, &vec![]),
    };
    match &got {
        Ok(s) => {
            let m = M::from_spec(&s.0);
            c.count("accepted", 1);
            c.distinct(format!("{:?}", m.canon()));
            if let Some(e) = m.ill_formed() {
                viol!("accepted parameter space is ill-formed: {e}\n{text}");
            }
            if initial_size(&m) < 100_000 {
                let v = s.initial_value();
                if let Err(e) = m.conforms_node(&v.0) {
                    viol!("initial value of an accepted space does not conform to it: {e}\n{text}");
                }
                if let Err(e) = m.conforms(&v.to_json()) {
                    viol!("initial value (JSON) of an accepted space does not conform to it: {e}\n{text}");
                }
                ensure!(node_eq(&v.0, &m.init_node()), "initial value is not made of the declared initial values\n {v:?}\n{text}");
            }
            match &reference {
                Ref::Ok(w) => {
                    ensure!(eq_m(&m.canon(), &w.canon()), "accepted space is not the one written\n got      {:?}\n written  {:?}\n{text}", m.canon(), w.canon());
                    c.count("accepted_and_compared", 1);
                }
                Ref::Bad(e) => viol!("accepted although it breaks a rule: {e}\n{text}"),
                Ref::Unclear(_) => c.count("accepted_unclear", 1),
            }
            if let Some(w) = want {
                ensure!(eq_m(&m.canon(), &w.canon()), "accepted space is not the one written\n got      {:?}\n written  {:?}\n{text}", m.canon(), w.canon());
            }
        }
        Err(e) => {
            c.count("rejected", 1);
            let t = e.to_string();
            ensure!(!t.trim().is_empty(), "rejected without a description");
            c.distinct(crate::sim::err_text(e).0);
            if let Ref::Ok(w) = &reference {
                if w.nodes() < 90_000 && node_depth(w) < 120 {
                    viol!("well-formed document rejected: {t}\n{text}");
                }
            }
            if matches!(reference, Ref::Unclear(_)) {
                c.count("rejected_unclear", 1);
            }
            if want.is_some() {
                viol!("well-formed document rejected: {t}\n{text}");
            }
        }
    }
    Ok(())
}

fn eq_m(a: &M, b: &M) -> bool {
    // bit-wise on numbers
    format!("{a:?}") == format!("{b:?}")
}

// ------------------------------------------------------------------ documents with type definitions
struct DocGen {
    g: Gen,
    names: Vec<String>,
}

fn ystr(s: &str) -> Y {
    Y::String(s.to_string())
}

fn shuffle_keys(r: &mut StdRng, y: Y) -> Y {
    if let Y::Mapping(m) = y {
        let mut v: Vec<(Y, Y)> = m.into_iter().collect();
        v.shuffle(r);
        Y::Mapping(v.into_iter().collect())
    } else {
        y
    }
}

impl DocGen {
    fn doc(&self, r: &mut StdRng, depth: usize, env: &Env) -> (Y, M) {
        let visible: Vec<&(String, Option<M>)> = env
            .iter()
            .enumerate()
            .filter(|(i, e)| e.1.is_some() && !env[i + 1..].iter().any(|f| f.0 == e.0))
            .map(|x| x.1)
            .collect();
        if !visible.is_empty() && r.gen_bool(0.4) {
            let e = visible.choose(r).unwrap();
            return (Y::Mapping([(ystr("type"), ystr(&e.0))].into_iter().collect()), e.1.clone().unwrap());
        }
        if depth == 0 {
            let m = gen_at(r, &self.g, 0, false);
            let y = { let y = loosen(r, m.to_yaml()); shuffle_keys(r, y) };
            return (y, m);
        }
        let s = ystr;
        let mut out = Mapping::new();
        match r.gen_range(0..8) {
            0..=3 => {
                // sub with type definitions
                let mut local = env.clone();
                let k = r.gen_range(0..4);
                let mut defs: Vec<String> = vec![];
                while defs.len() < k {
                    let n = self.names.choose(r).unwrap().clone();
                    if !defs.contains(&n) {
                        defs.push(n);
                    }
                }
                let mut items: Vec<(Y, Y)> = vec![];
                for (i, n) in defs.iter().enumerate() {
                    let mut e = local.clone();
                    // do not rely on what a name of this scope means before its definition
                    for later in &defs[i..] {
                        e.push((later.clone(), None));
                    }
                    let (y, m) = self.doc(r, depth - 1, &e);
                    items.push((s(&format!("typeDef {n}")), y));
                    local.push((n.clone(), Some(m)));
                }
                let mut children = vec![];
                let k = r.gen_range(1..=3);
                while children.len() < k {
                    let n = gen_name(r, &self.g, true);
                    if children.iter().any(|x: &(String, M)| x.0 == n) {
                        continue;
                    }
                    let (y, m) = self.doc(r, depth - 1, &local);
                    let at = r.gen_range(0..=items.len());
                    items.insert(at, (s(&n), y));
                    children.push((n, m));
                }
                if r.gen_bool(0.5) {
                    let at = r.gen_range(0..=items.len());
                    items.insert(at, (s("type"), s("sub")));
                }
                (Y::Mapping(items.into_iter().collect()), M::Sub(children))
            }
            4 => {
                let (y, m) = self.doc(r, depth - 1, env);
                let n = r.gen_range(2..5);
                out.insert(s("type"), s("array"));
                out.insert(s("size"), Y::from(n as u64));
                out.insert(s("valueType"), y);
                (shuffle_keys(r, Y::Mapping(out)), M::Arr(Box::new(m), n))
            }
            5 => {
                let (y, m) = self.doc(r, depth - 1, env);
                let present = r.gen();
                out.insert(s("type"), s("optional"));
                out.insert(s("initPresent"), Y::from(present));
                out.insert(s("valueType"), y);
                (shuffle_keys(r, Y::Mapping(out)), M::Opt { vt: Box::new(m), present })
            }
            6 => {
                let (y, m) = self.doc(r, depth - 1, env);
                let lo = r.gen_range(0..3usize);
                let hi = lo + r.gen_range(1..4usize);
                let (min, max) = (if r.gen() { Some(lo) } else { None }, if r.gen() { Some(hi) } else { None });
                let init = r.gen_range(lo..=hi);
                out.insert(s("type"), s("anon map"));
                out.insert(s("initSize"), Y::from(init as u64));
                if let Some(x) = min {
                    out.insert(s("minSize"), Y::from(x as u64));
                }
                if let Some(x) = max {
                    out.insert(s("maxSize"), Y::from(x as u64));
                }
                out.insert(s("valueType"), y);
                (shuffle_keys(r, Y::Mapping(out)), M::Map { vt: Box::new(m), init, min, max })
            }
            _ => {
                let mut opts: Vec<(String, M)> = vec![];
                let k = r.gen_range(2..4);
                while opts.len() < k {
                    let n = if r.gen_bool(0.2) {
                        ["typeDef x", "typeDef t1", "valueType", "min", "size"].choose(r).unwrap().to_string()
                    } else {
                        gen_name(r, &self.g, false)
                    };
                    if opts.iter().any(|x| x.0 == n) {
                        continue;
                    }
                    let (y, m) = self.doc(r, depth - 1, env);
                    out.insert(s(&n), y);
                    opts.push((n, m));
                }
                let init = opts.choose(r).unwrap().0.clone();
                out.insert(s("type"), s("variant"));
                out.insert(s("init"), s(&init));
                (shuffle_keys(r, Y::Mapping(out)), M::Var { opts, init })
            }
        }
    }
}

/// integral reals may be written as integers
fn loosen(r: &mut StdRng, y: Y) -> Y {
    if let Y::Mapping(mut m) = y {
        if m.get("type").and_then(|t| t.as_str()) == Some("real") {
            for (_, v) in m.iter_mut() {
                if let Some(x) = v.as_f64() {
                    if x.fract() == 0.0 && x.abs() < 1e15 && !(x == 0.0 && x.is_sign_negative()) && r.gen_bool(0.5) {
                        *v = Y::from(x as i64);
                    }
                }
            }
        }
        Y::Mapping(m)
    } else {
        y
    }
}

/// flow-style text, always with quoted strings
fn flow(y: &Y, out: &mut String) {
    match y {
        Y::String(s) => out.push_str(&serde_json::to_string(s).unwrap().replace('\u{7f}', "\\x7f")),
        Y::Mapping(m) => {
            out.push('{');
            for (i, (k, v)) in m.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                flow(k, out);
                out.push_str(": ");
                flow(v, out);
            }
            out.push('}');
        }
        Y::Sequence(a) => {
            out.push('[');
            for (i, v) in a.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                flow(v, out);
            }
            out.push(']');
        }
        Y::Number(n) => out.push_str(&n.to_string()),
        Y::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        Y::Null => out.push_str("null"),
        Y::Tagged(_) => out.push_str("null"),
    }
}

pub fn gen_doc(r: &mut StdRng) -> (Y, M) {
    let mut g = Gen::new(0, any_mag(r));
    g.hostile_names = r.gen_bool(0.4);
    let mut names: Vec<String> = ["t1", "t2", "t3"].iter().map(|x| x.to_string()).collect();
    if r.gen_bool(0.4) {
        names.extend(["", " real", "Real", "typeDef t1", "sub ", "anon  map", "init", "é", "1", "null"].iter().map(|x| x.to_string()));
    }
    if r.gen_bool(0.04) {
        let m = gen_wide(r, &g);
        return (m.to_yaml(), m);
    }
    let dg = DocGen { g, names };
    loop {
        let depth = r.gen_range(0..6);
        let (y, m) = dg.doc(r, depth, &vec![]);
        if m.nodes() < 3000 && initial_size(&m) < 20_000 {
            return (y, m);
        }
    }
}

pub fn text_of(r: &mut StdRng, y: &Y) -> String {
    if r.gen_bool(0.5) {
        serde_yaml::to_string(y).unwrap()
    } else {
        let mut s = String::new();
        if r.gen_bool(0.2) {
            s.push_str("# comment\n---\n");
        }
        flow(y, &mut s);
        s
    }
}

fn faithful(c: &mut Case) -> R {
    let (y, m) = gen_doc(&mut c.rng);
    let text = text_of(&mut c.rng, &y);
    c.sample(|| serde_json::json!({"document": text}));
    let mut kinds = Default::default();
    m.kinds(&mut kinds);
    for k in kinds {
        c.count(&format!("kind_{k}"), 1);
    }
    c.count("type_definitions", text.matches("typeDef ").count() as u64);
    check_doc(c, &text, Some(&m))
}

// ------------------------------------------------------------------ rule-breaking documents
fn paths(y: &Y, here: &mut Vec<Y>, out: &mut Vec<Vec<Y>>) {
    if let Y::Mapping(m) = y {
        out.push(here.clone());
        for (k, v) in m {
            here.push(k.clone());
            paths(v, here, out);
            here.pop();
        }
    }
}

fn at<'a>(y: &'a mut Y, path: &[Y]) -> &'a mut Mapping {
    let mut y = y;
    for k in path {
        y = y.as_mapping_mut().unwrap().get_mut(k).unwrap();
    }
    y.as_mapping_mut().unwrap()
}

fn f64_y(x: f64) -> Y {
    Y::from(x)
}

fn break_rule(r: &mut StdRng, m: &mut Mapping) -> Option<&'static str> {
    let ty = match m.get("type") {
        None => "sub".to_string(),
        Some(t) => t.as_str()?.to_string(),
    };
    let s = ystr;
    let set = |m: &mut Mapping, k: &str, v: Y| {
        m.insert(s(k), v);
    };
    let unknown = |r: &mut StdRng, m: &mut Mapping| {
        // made-up names, and attributes that only other kinds have
        let made_up = ["foo", "Init", "initial", "minimum", "sizes", "value", "typeDef x", "comment", "init ", "", "scales", "maxsize", "Type", "types", "name", "description"];
        let others = ["init", "min", "max", "scale", "values", "size", "valueType", "initSize", "minSize", "maxSize", "initPresent"];
        let allowed: &[&str] = match ty.as_str() {
            "real" | "int" => &["init", "min", "max", "scale"],
            "bool" => &["init"],
            "enum" => &["init", "values"],
            "array" => &["size", "valueType"],
            "anon map" => &["initSize", "minSize", "maxSize", "valueType"],
            "optional" => &["valueType", "initPresent"],
            _ => &[],
        };
        let k = if r.gen() {
            *made_up.choose(r).unwrap()
        } else {
            loop {
                let k = *others.choose(r).unwrap();
                if !allowed.contains(&k) {
                    break k;
                }
            }
        };
        let v = match r.gen_range(0..5) {
            0 => Y::from(1),
            1 => f64_y(1.5),
            2 => Y::from(true),
            3 => M::Bool { init: true }.to_yaml(),
            _ => match k {
                "values" => Y::Sequence(vec![s("a"), s("b")]),
                "valueType" => M::Const.to_yaml(),
                "initPresent" => Y::from(false),
                _ => s("x"),
            },
        };
        m.insert(s(k), v);
    };
    let f = |x: f64| Y::from(x);
    Some(match ty.as_str() {
        "real" => match r.gen_range(0..14) {
            0 => { let i = m.get("init")?.as_f64()?; set(m, "min", f(i)); set(m, "max", f(i)); "min == max" }
            1 => { let i = m.get("init")?.as_f64()?; let up = next_up(i); if !(up > i && up.is_finite()) { return None }; set(m, "min", f(up)); m.remove("max"); "init below min by one ulp" }
            2 => { let i = m.get("init")?.as_f64()?; let up = -next_up(-i); if !(up < i && up.is_finite()) { return None }; set(m, "max", f(up)); m.remove("min"); "init above max by one ulp" }
            3 => { let (a, b) = (m.get("min")?.clone(), m.get("max")?.clone()); set(m, "min", b); set(m, "max", a); "min > max" }
            4 => { set(m, "scale", f(0.0)); "scale 0" }
            5 => { set(m, "scale", f(-1.0)); "negative scale" }
            6 => { set(m, "scale", f(*[-0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -5e-324].choose(r).unwrap())); "scale not a positive number" }
            7 => { set(m, "init", f(*[f64::NAN, f64::INFINITY, f64::NEG_INFINITY].choose(r).unwrap())); "init not finite" }
            8 => { set(m, "min", f(*[f64::NAN, f64::NEG_INFINITY, f64::INFINITY].choose(r).unwrap())); "min not finite" }
            9 => { set(m, "max", f(*[f64::NAN, f64::INFINITY, f64::NEG_INFINITY].choose(r).unwrap())); "max not finite" }
            10 => { unknown(r, m); "unknown attribute" }
            11 => { set(m, ["init", "scale", "min", "max"].choose(r).unwrap(), [s("1"), Y::from(true), Y::Null, Y::Sequence(vec![])].choose(r).unwrap().clone()); "attribute of a wrong type" }
            12 => { set(m, "init", f(1e3)); set(m, "min", f(1e3 + 0.1)); m.remove("max"); "init below min" }
            _ => { set(m, "init", f(-1e3)); set(m, "max", f(-1e3 - 0.1)); m.remove("min"); "init above max" }
        },
        "int" => match r.gen_range(0..11) {
            0 => { let i = m.get("init")?.as_i64()?; set(m, "min", Y::from(i)); set(m, "max", Y::from(i)); "min == max" }
            1 => { let i = m.get("init")?.as_i64()?.checked_add(1)?; set(m, "min", Y::from(i)); m.remove("max"); "init below min by 1" }
            2 => { let i = m.get("init")?.as_i64()?.checked_sub(1)?; set(m, "max", Y::from(i)); m.remove("min"); "init above max by 1" }
            3 => { let (a, b) = (m.get("min")?.clone(), m.get("max")?.clone()); set(m, "min", b); set(m, "max", a); "min > max" }
            4 => { set(m, "scale", f(0.0)); "scale 0" }
            5 => { set(m, "scale", f(-1.0)); "negative scale" }
            6 => { set(m, "scale", f(*[-0.0, f64::NAN, f64::INFINITY].choose(r).unwrap())); "scale not a positive number" }
            7 => { set(m, "init", f(1.5)); "init not an integer" }
            8 => { set(m, "max", Y::from(u64::MAX)); "max out of the integer range" }
            9 => { unknown(r, m); "unknown attribute" }
            _ => { set(m, ["init", "min", "max", "scale"].choose(r).unwrap(), [s("1"), Y::from(true), Y::Null].choose(r).unwrap().clone()); "attribute of a wrong type" }
        },
        "bool" => match r.gen_range(0..2) {
            0 => { unknown(r, m); "unknown attribute" }
            _ => { set(m, "init", [s("true"), Y::from(1), Y::Null].choose(r).unwrap().clone()); "init not a boolean" }
        },
        "const" => { unknown(r, m); "unknown attribute" }
        "enum" => {
            let vals: Vec<Y> = m.get("values")?.as_sequence()?.clone();
            match r.gen_range(0..7) {
                0 => { set(m, "init", s("not a value")); "unknown init" }
                1 => { set(m, "values", Y::Sequence(vec![m.get("init")?.clone()])); "one value" }
                2 => { let i = m.get("init")?.clone(); set(m, "values", Y::Sequence(vec![i.clone(), i])); "one distinct value" }
                3 => { set(m, "values", Y::Sequence(vec![])); "no values" }
                4 => { let mut v = vals; v.push(Y::from(3)); set(m, "values", Y::Sequence(v)); "value not a string" }
                5 => { unknown(r, m); "unknown attribute" }
                _ => { let i = m.get("init")?.as_str()?.to_string() + " "; if vals.contains(&s(&i)) { return None }; set(m, "init", s(&i)); "init not exactly a value" }
            }
        }
        "array" => match r.gen_range(0..6) {
            0 => { set(m, "size", Y::from(1)); "size 1" }
            1 => { set(m, "size", Y::from(0)); "size 0" }
            2 => { set(m, "size", Y::from(-1)); "size -1" }
            3 => { set(m, "size", f(2.5)); "size 2.5" }
            4 => { unknown(r, m); "unknown attribute" }
            _ => { set(m, "valueType", [s("real"), Y::Null, Y::from(1)].choose(r).unwrap().clone()); "valueType not a mapping" }
        },
        "anon map" => match r.gen_range(0..10) {
            8 => { let k = r.gen_range(1..5u64); for a in ["initSize", "minSize", "maxSize"] { set(m, a, Y::from(k)); } "minSize = maxSize" }
            0 => { set(m, "minSize", Y::from(3)); set(m, "maxSize", Y::from(2)); "minSize > maxSize" }
            1 => { let i = m.get("initSize")?.as_u64()?; set(m, "minSize", Y::from(i + 1)); m.remove("maxSize"); "initSize below minSize" }
            2 => { let i = m.get("initSize")?.as_u64()?.checked_sub(1)?; set(m, "maxSize", Y::from(i)); m.remove("minSize"); "initSize above maxSize" }
            3 => { set(m, "initSize", Y::from(-1)); "initSize -1" }
            4 => { set(m, "maxSize", Y::from(-1)); "maxSize -1" }
            5 => { set(m, "minSize", f(0.5)); "minSize 0.5" }
            6 => { unknown(r, m); "unknown attribute" }
            7 => { let i = m.get("initSize")?.as_u64()?.checked_sub(1)?; set(m, "minSize", Y::from(0)); set(m, "maxSize", Y::from(i)); "initSize above maxSize (with minSize)" }
            _ => { set(m, "valueType", [s("real"), Y::Null].choose(r).unwrap().clone()); "valueType not a mapping" }
        },
        "variant" => match r.gen_range(0..5) {
            0 => { set(m, "init", s("no such option")); "unknown init" }
            1 => { m.remove("init"); "no init" }
            2 => {
                let ks: Vec<Y> = m.keys().filter(|k| !matches!(k.as_str(), Some("type") | Some("init"))).cloned().collect();
                let i = m.get("init")?.clone();
                for k in ks {
                    if k != i {
                        m.remove(&k);
                    }
                }
                "one option"
            }
            3 => { set(m, "init", s("type")); "init names the attribute 'type'" }
            _ => { set(m, "init", s("init")); if m.contains_key("other init") { return None }; "init names the attribute 'init'" }
        },
        "optional" => match r.gen_range(0..3) {
            0 => { unknown(r, m); "unknown attribute" }
            1 => { set(m, "initPresent", [s("true"), Y::from(1), Y::Null].choose(r).unwrap().clone()); "initPresent not a boolean" }
            _ => { m.remove("valueType"); "no valueType" }
        },
        "sub" => match r.gen_range(0..6) {
            0 => { set(m, "extra", Y::Mapping([(s("type"), s("noSuchType"))].into_iter().collect())); "unknown type" }
            1 => { set(m, "extra", [s("real"), Y::from(1), Y::Null, Y::Sequence(vec![])].choose(r).unwrap().clone()); "parameter not a mapping" }
            2 => { set(m, &format!("typeDef {}", BUILTIN.choose(r).unwrap()), M::Bool { init: true }.to_yaml()); "redefines a built-in type" }
            3 => { set(m, "typeDef selfRef", Y::Mapping([(s("x"), Y::Mapping([(s("type"), s("selfRef2"))].into_iter().collect()))].into_iter().collect())); "type definition using an unknown type" }
            4 => {
                // scoping: a type defined inside one parameter is not visible in its sibling
                let inner = Y::Mapping([(s("typeDef onlyHere"), M::Bool { init: true }.to_yaml()), (s("a"), M::Const.to_yaml())].into_iter().collect());
                set(m, "extra1", inner);
                set(m, "extra2", Y::Mapping([(s("type"), s("onlyHere"))].into_iter().collect()));
                "type used outside its scope"
            }
            _ => {
                set(m, "typeDef unusedBad", Y::Mapping([(s("type"), s("bool")), (s("init"), Y::from(true)), (s("x"), Y::from(1))].into_iter().collect()));
                "ill-formed type definition"
            }
        },
        _ => { unknown(r, m); "extra attribute on a type reference" }
    })
}

fn violations(c: &mut Case) -> R {
    let (y, _) = gen_doc(&mut c.rng);
    for _ in 0..20 {
        let mut z = y.clone();
        let mut ps = vec![];
        paths(&z, &mut vec![], &mut ps);
        let p = ps.choose(&mut c.rng).unwrap();
        let mp = at(&mut z, p);
        let Some(what) = break_rule(&mut c.rng, mp) else { continue };
        if matches!(refread(&z, &vec![]), Ref::Ok(_)) {
            // e.g. an option or parameter of that very name
            c.count("not_broken", 1);
            continue;
        }
        let text = text_of(&mut c.rng, &z);
        c.count(&format!("broken: {what}"), 1);
        c.note = format!("while parsing {text:?}");
        if c.idx < 3 {
            c.sample(|| serde_json::json!({"broken": what, "document": text}));
        }
        check_doc(c, &text, None)?;
        if cambrian::spec_util::from_yaml_str(&text).is_ok() && !matches!(refread(&z, &vec![]), Ref::Unclear(_)) {
            viol!("document with {what} accepted\n{text}");
        }
    }
    Ok(())
}

/// a document and the space it must be read as; None: it must be refused
pub fn document(r: &mut StdRng) -> (String, Option<M>) {
    loop {
        let (mut y, m) = gen_doc(r);
        if r.gen() {
            let t = text_of(r, &y);
            if !t.contains('\0') && t.len() < 20_000 && m.init_json().to_string().len() < 60_000 && !m.init_json().to_string().contains("\\u0000") {
                return (t, Some(m));
            }
            continue;
        }
        let mut ps = vec![];
        paths(&y, &mut vec![], &mut ps);
        let p = ps.choose(r).unwrap();
        let mp = at(&mut y, p);
        if break_rule(r, mp).is_none() || !matches!(refread(&y, &vec![]), Ref::Bad(_)) {
            continue;
        }
        let t = text_of(r, &y);
        if t.len() < 20_000 {
            return (t, None);
        }
    }
}

// ------------------------------------------------------------------ hostile text
const TOKENS: &[&str] = &[
    "type", "type:", ": ", "real", "int", "bool", "sub", "array", "anon map", "variant", "enum", "optional", "const", "init", "initSize",
    "initPresent", "minSize", "maxSize", "min", "max", "scale", "values", "valueType", "size", "typeDef x", "typeDef ", "x", "true", "false", "null", "~",
    "0", "1", "-1", "2", "1.5", "1e400", ".inf", "-.inf", ".nan", "18446744073709551615", "-9223372036854775809", "0x10", "'", "\"", "[", "]", "{", "}", ",",
    "\n", "\n  ", "\n    ", "- ", "? ", ": ", "&a ", "*a", "!t ", "!!str ", "!!int ", "!!float ", "!!binary ", "<<", "---\n", "...\n", "# c\n", "|\n", ">\n", "\t", "\u{0}", "\u{feff}", "é",
    "{type: bool, init: true}", "{type: int, init: 1, scale: 1}", "{type: x}", "foo", "\\", "%YAML 1.2\n",
];

fn fuzz(c: &mut Case) -> R {
    let r = &mut c.rng;
    let text = match r.gen_range(0..6) {
        0 => (0..r.gen_range(0..40)).map(|_| *TOKENS.choose(r).unwrap()).collect::<String>(),
        1 => {
            // random YAML value tree
            fn y(r: &mut StdRng, d: usize) -> Y {
                match r.gen_range(0..if d == 0 { 6 } else { 10 }) {
                    0 => Y::Null,
                    1 => Y::from(r.gen::<bool>()),
                    2 => Y::from(r.gen_range(-3i64..4)),
                    3 => Y::from(*[0.5, f64::NAN, f64::INFINITY, -1.0, 1e300].choose(r).unwrap()),
                    4 | 5 => Y::from(*TOKENS.choose(r).unwrap()),
                    6 => Y::Sequence((0..r.gen_range(0..3)).map(|_| y(r, d - 1)).collect()),
                    _ => {
                        let mut m = Mapping::new();
                        if r.gen_bool(0.6) {
                            m.insert(Y::from("type"), Y::from(*BUILTIN.choose(r).unwrap()));
                        }
                        for _ in 0..r.gen_range(0..5) {
                            let k = if r.gen_bool(0.9) {
                                Y::from(*["init", "min", "max", "scale", "size", "values", "valueType", "a", "b", "typeDef a", "typeDef b", "initSize", "initPresent"].choose(r).unwrap())
                            } else {
                                y(r, d - 1)
                            };
                            m.insert(k, y(r, d - 1));
                        }
                        Y::Mapping(m)
                    }
                }
            }
            let v = y(r, 5);
            match serde_yaml::to_string(&v) {
                Ok(s) => s,
                Err(_) => return Ok(()),
            }
        }
        k => {
            let (y, _) = gen_doc(r);
            let mut t = text_of(r, &y);
            for _ in 0..r.gen_range(1..if k == 5 { 12 } else { 4 }) {
                let chars: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
                let a = *chars.choose(r).unwrap();
                let b = *chars.choose(r).unwrap();
                let (a, b) = (a.min(b), a.max(b));
                match r.gen_range(0..6) {
                    0 if b - a < 30 => t.replace_range(a..b, ""),
                    1 => t.insert_str(a, TOKENS.choose(r).unwrap()),
                    2 if b - a < 200 => {
                        let s = t[a..b].to_string();
                        t.insert_str(b, &s);
                    }
                    3 => {
                        let mut l: Vec<&str> = t.lines().collect();
                        if l.len() > 1 {
                            let i = r.gen_range(0..l.len());
                            let x = l.remove(i);
                            if r.gen() {
                                l.insert(r.gen_range(0..=l.len()), x);
                            }
                        }
                        t = l.join("\n");
                    }
                    4 => {
                        // swap one word for another
                        let from = TOKENS.choose(r).unwrap();
                        if let Some(p) = t.find(from) {
                            t.replace_range(p..p + from.len(), TOKENS.choose(r).unwrap());
                        }
                    }
                    _ => {
                        if let Some(p) = t[a..].find(|ch: char| ch.is_ascii_digit()) {
                            t.replace_range(a + p..a + p + 1, ["0", "-1", "1e308", ".nan", "9223372036854775807", "true"].choose(r).unwrap());
                        }
                    }
                }
            }
            t
        }
    };
    if too_big(&text) {
        c.count("skipped_big", 1);
        return Ok(());
    }
    check_doc(c, &text, None)
}

fn too_big(t: &str) -> bool {
    t.len() > 60_000
}

// ------------------------------------------------------------------ deep and large documents, each in a process of its own
fn deep(c: &mut Case) -> R {
    let r = &mut c.rng;
    let wrap = |kind: usize, s: String| match kind {
        0 => format!("{{x: {s}}}"),
        1 => format!("{{type: optional, initPresent: true, valueType: {s}}}"),
        2 => format!("{{type: array, size: 2, valueType: {s}}}"),
        3 => format!("{{type: anon map, initSize: 1, valueType: {s}}}"),
        _ => format!("{{type: variant, init: a, a: {s}, b: {{type: const}}}}"),
    };
    let k = c.idx as usize;
    let (what, text) = match k % 10 {
        0 | 1 => {
            let (n, d, kind) = (*[3usize, 50, 300, 1000].choose(r).unwrap(), *[2usize, 20, 100].choose(r).unwrap(), r.gen_range(1..5));
            let mut t = String::from("typeDef t0: {type: bool, init: true}\n");
            for i in 1..n {
                let mut s = format!("{{type: t{}}}", i - 1);
                for _ in 0..d {
                    s = wrap(kind, s);
                }
                t += &format!("typeDef t{i}: {s}\n");
            }
            t += &format!("p: {{type: t{}}}\n", n - 1);
            (format!("{n} type definitions, each nested {d} deep, each using the previous one"), t)
        }
        2 => {
            let n = *[5usize, 12, 20, 30, 60].choose(r).unwrap();
            let mut t = String::from("typeDef t0: {type: bool, init: true}\n");
            for i in 1..n {
                t += &format!("typeDef t{i}: {{a: {{type: t{}}}, b: {{type: t{}}}}}\n", i - 1, i - 1);
            }
            t += &format!("p: {{type: t{}}}\n", n - 1);
            (format!("{n} type definitions, each twice as big as the previous one"), t)
        }
        3 | 4 => {
            let (n, kind) = (*[10usize, 60, 100, 120, 126, 127, 128, 129, 200, 2000, 10_000].choose(r).unwrap(), r.gen_range(0..5));
            let mut a = String::new();
            let w = wrap(kind, "\u{1}".into());
            let (pre, post) = w.split_once('\u{1}').unwrap();
            a.push_str(&pre.repeat(n));
            a.push_str("{type: bool, init: true}");
            a.push_str(&post.repeat(n));
            (format!("nested {n} deep"), a)
        }
        5 => {
            let n = *[1000usize, 20_000].choose(r).unwrap();
            let mut t = String::new();
            for i in 0..n {
                t += &format!("p{i}: {{type: int, init: {i}, scale: 1}}\n");
            }
            (format!("{n} parameters"), t)
        }
        6 => {
            let o = ["[", "{", "- ", "? ", "!x [", "{a: ", "&a [", "\"", "|\n "].choose(r).unwrap();
            let n = *[100usize, 1000, 100_000].choose(r).unwrap();
            (format!("{o:?} x {n}"), o.repeat(n))
        }
        7 => {
            let mut t = String::from("a0: &a0 {type: bool, init: true}\n");
            let n = r.gen_range(2..30);
            for i in 1..n {
                t += &format!("a{i}: &a{i} {{x: *a{}, y: *a{}, z: *a{}}}\n", i - 1, i - 1, i - 1);
            }
            (format!("{n} nested aliases"), t)
        }
        8 => {
            let n = *[1000usize, 1_000_000].choose(r).unwrap();
            (format!("name of {n} characters"), format!("{}: {{type: bool, init: true}}\n", "n".repeat(n.min(1000))) + &format!("q: {{type: enum, init: a, values: [a, {}]}}\n", "v".repeat(n)))
        }
        _ => {
            let t = ["a: &a {b: *a}\n", "&a {a: *a}", "typeDef t: {x: {type: t}}\np: {type: t}\n", "typeDef a: {x: {type: b}}\ntypeDef b: {x: {type: a}}\np: {type: a}\n"].choose(r).unwrap();
            ("recursive definition".to_string(), t.to_string())
        }
    };
    c.sample(|| serde_json::json!({"what": what, "bytes": text.len()}));
    use std::io::Write;
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    use std::process::{Command, Stdio};
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("spec").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        cmd.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let l = libc::rlimit { rlim_cur: 60, rlim_max: 60 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            Ok(())
        });
    }
    let mut ch = cmd.spawn().expect("spawn cverif spec");
    let mut stdin = ch.stdin.take().unwrap();
    let t2 = text.clone();
    let w = std::thread::Builder::new().name("case-w".into()).spawn(move || { stdin.write_all(t2.as_bytes()).ok(); }).unwrap();
    let out = ch.wait_with_output().unwrap();
    w.join().ok();
    let o = String::from_utf8_lossy(&out.stdout);
    c.distinct(&what);
    if !(out.status.success() && (o.starts_with("accepted") || o.starts_with("rejected"))) {
        let e: String = String::from_utf8_lossy(&out.stderr).chars().take(400).collect();
        viol!("parsing a document ({what}, {} bytes) crashes: exit {:?}, signal {:?}: {e}\n{}", text.len(), out.status.code(), out.status.signal(), text.chars().take(600).collect::<String>());
    }
    c.count(if o.starts_with("accepted") { "accepted" } else { "rejected" }, 1);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "distinct accepted parameter spaces (and kinds of rejection) among generated documents: with type definitions, scoping and shadowing; with one rule broken; mutated text; deep or large",
        assumptions: &[
            "documents whose meaning the stated rules leave open (type names used before their definition in the same scope, non-string or tagged keys, missing init/scale attributes) are only checked for crashes and for well-formedness when accepted",
            "serde_yaml's reading of the text into a value tree is taken as what the document says",
        ],
        suites: vec![
            suite("faithful", 20000, 600000, faithful),
            suite("violations", 6000, 200000, violations),
            suite("fuzz", 60000, 2_000_000, fuzz),
            suite("deep", 60, 400, deep),
            suite("cli_spec_file", 800, 12000, cli::spec_file).threads(12),
        ],
    }
}
