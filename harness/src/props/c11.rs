//! Value/JSON codec and validation of the initial guess.
use super::*;
use crate::model::*;
use crate::oracle::same_trace;
use crate::{ensure, viol};
use cambrian::value::{Node as N, Value};
use cambrian::value_util;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::Value as J;

/// Reads JSON text with every number read exactly (serde_json as built here does not, see known_findings).
pub fn exact_json(s: &str) -> Option<J> {
    struct P<'a>(&'a [u8], usize);
    impl P<'_> {
        fn ws(&mut self) {
            while self.1 < self.0.len() && matches!(self.0[self.1], b' ' | b'\n' | b'\t' | b'\r') {
                self.1 += 1;
            }
        }
        fn val(&mut self, d: usize) -> Option<J> {
            if d > 200 {
                return None;
            }
            self.ws();
            match *self.0.get(self.1)? {
                b'{' => {
                    self.1 += 1;
                    let mut m = serde_json::Map::new();
                    self.ws();
                    if *self.0.get(self.1)? == b'}' {
                        self.1 += 1;
                        return Some(J::Object(m));
                    }
                    loop {
                        self.ws();
                        let k = self.string()?;
                        self.ws();
                        if *self.0.get(self.1)? != b':' {
                            return None;
                        }
                        self.1 += 1;
                        let v = self.val(d + 1)?;
                        m.insert(k, v);
                        self.ws();
                        let c = *self.0.get(self.1)?;
                        self.1 += 1;
                        match c {
                            b',' => {}
                            b'}' => return Some(J::Object(m)),
                            _ => return None,
                        }
                    }
                }
                b'[' => {
                    self.1 += 1;
                    let mut a = vec![];
                    self.ws();
                    if *self.0.get(self.1)? == b']' {
                        self.1 += 1;
                        return Some(J::Array(a));
                    }
                    loop {
                        a.push(self.val(d + 1)?);
                        self.ws();
                        let c = *self.0.get(self.1)?;
                        self.1 += 1;
                        match c {
                            b',' => {}
                            b']' => return Some(J::Array(a)),
                            _ => return None,
                        }
                    }
                }
                b'"' => self.string().map(J::String),
                b't' => self.lit("true", J::Bool(true)),
                b'f' => self.lit("false", J::Bool(false)),
                b'n' => self.lit("null", J::Null),
                _ => {
                    let st = self.1;
                    while self.1 < self.0.len() && matches!(self.0[self.1], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                        self.1 += 1;
                    }
                    let t = std::str::from_utf8(&self.0[st..self.1]).ok()?;
                    if t.contains(['.', 'e', 'E']) {
                        serde_json::Number::from_f64(t.parse().ok()?).map(J::Number)
                    } else if let Ok(i) = t.parse::<i64>() {
                        Some(J::from(i))
                    } else if let Ok(u) = t.parse::<u64>() {
                        Some(J::from(u))
                    } else {
                        serde_json::Number::from_f64(t.parse().ok()?).map(J::Number)
                    }
                }
            }
        }
        fn lit(&mut self, t: &str, v: J) -> Option<J> {
            if self.0[self.1..].starts_with(t.as_bytes()) {
                self.1 += t.len();
                Some(v)
            } else {
                None
            }
        }
        fn string(&mut self) -> Option<String> {
            let st = self.1;
            if *self.0.get(self.1)? != b'"' {
                return None;
            }
            self.1 += 1;
            loop {
                match *self.0.get(self.1)? {
                    b'\\' => self.1 += 2,
                    b'"' => break,
                    _ => self.1 += 1,
                }
            }
            self.1 += 1;
            // strings hold no numbers: the library's reading of them is fine
            serde_json::from_slice::<String>(&self.0[st..self.1]).ok()
        }
    }
    let mut p = P(s.as_bytes(), 0);
    let v = p.val(0)?;
    p.ws();
    if p.1 == s.len() { Some(v) } else { None }
}

/// the same value with every real one that JSON text carries exactly
fn readable(m: &M, n: &N) -> N {
    match (m, n) {
        (M::Real { min, max, .. }, N::Real(x)) => {
            let t = x.to_string();
            let ok = |x: f64| x.is_finite() && min.map_or(true, |a| x >= a) && max.map_or(true, |b| x <= b);
            if serde_json::from_str::<f64>(&t).ok().map(f64::to_bits) == Some(x.to_bits()) && *x != 0.0 {
                return N::Real(*x);
            }
            let y = (x * 8.0).round() / 8.0;
            N::Real(if y.abs() < 1e9 && ok(y) { y } else { *x })
        }
        (M::Sub(ms), N::Sub(x)) => N::Sub(x.iter().map(|(k, v)| (k.clone(), Box::new(readable(&ms.iter().find(|y| y.0 == *k).unwrap().1, v)))).collect()),
        (M::Arr(mm, _), N::Array(a)) => N::Array(a.iter().map(|v| Box::new(readable(mm, v))).collect()),
        (M::Map { vt, .. }, N::AnonMap(x)) => N::AnonMap(x.iter().map(|(k, v)| (*k, Box::new(readable(vt, v)))).collect()),
        (M::Var { opts, .. }, N::Variant(k, v)) => N::Variant(k.clone(), Box::new(readable(&opts.iter().find(|y| y.0 == *k).unwrap().1, v))),
        (M::Opt { vt, .. }, N::Optional(Some(v))) => N::Optional(Some(Box::new(readable(vt, v)))),
        (_, n) => n.clone(),
    }
}

fn text_exact(s: &str) -> bool {
    matches!((serde_json::from_str::<J>(s), exact_json(s)), (Ok(a), Some(b)) if same_json(&a, &b))
}

fn space(r: &mut StdRng, w: usize) -> M {
    let mut g = Gen::new(r.gen_range(0..5), any_mag(r));
    g.hostile_names = r.gen_bool(0.3);
    g.max_map = *[3, 5, 12].choose(r).unwrap();
    gen_bounded(r, &g, w)
}

fn roundtrip(c: &mut Case) -> R {
    let m = space(&mut c.rng, 50);
    let spec = cambrian::spec::Spec(m.to_spec());
    let mut finding = None;
    for k in 0..6 {
        let mut n = if k == 0 { m.init_node() } else { m.gen_node(&mut c.rng, 6) };
        if k >= 3 {
            super::c13::rekey(&mut n, &mut c.rng);
        }
        if k % 2 == 1 {
            n = readable(&m, &n);
        }
        let j = Value(n.clone()).to_json();
        c.note = format!("value {j}, spec {}", m.yaml());
        if let Err(e) = m.conforms(&j) {
            viol!("the JSON form of a conforming value does not conform: {e}\n value {n:?}\n json {j}\n{}", m.yaml());
        }
        match m.decode(&j) {
            Some(x) => ensure!(m.has_ambiguous_opt() || node_eq(&x, &n), "the JSON form {j} says something else than the value {n:?}\n{}", m.yaml()),
            None => viol!("the JSON form {j} of {n:?} is no member\n{}", m.yaml()),
        }
        let back = match value_util::from_json_value(&j, &spec) {
            Ok(v) => v,
            Err(e) => viol!("a conforming value is rejected when read back: {e}\n {j}\n{}", m.yaml()),
        };
        ensure!(m.has_ambiguous_opt() || node_eq(&back.0, &n), "reading back {j} gives another value:\n {n:?}\n {:?}", back.0);
        ensure!(same_json(&back.to_json(), &j), "{j} read back serialises to {}", back.to_json());
        c.count("json_round_trips", 1);
        let text = if c.rng.gen() { j.to_string() } else { serde_json::to_string_pretty(&j).unwrap() };
        if text_exact(&text) {
            match value_util::from_json_str(&text, &spec) {
                Ok(v) => ensure!(same_json(&v.to_json(), &j), "{text} read back serialises to {}", v.to_json()),
                Err(e) => viol!("a conforming value is rejected when its text is read back: {e}\n {text}\n{}", m.yaml()),
            }
            c.count("text_round_trips", 1);
        } else {
            let r = value_util::from_json_str(&text, &spec);
            if !matches!(&r, Ok(v) if same_json(&v.to_json(), &j)) {
                finding = Some(Viol { sig: "serde_json-float-text".into(), msg: format!("{text} read back: {:?}", r.map(|v| v.to_json().to_string()).map_err(|e| e.to_string())) });
            }
            c.count("text_round_trips_with_inexact_reals", 1);
        }
        c.distinct(sig_json(&j));
        let y = m.yaml();
        c.sample(|| serde_json::json!({"spec": y, "value": j}));
    }
    match finding {
        Some(v) => Err(v),
        None => Ok(()),
    }
}

#[derive(Debug, PartialEq)]
pub enum Verdict {
    Accept,
    Reject(String),
    Unclear(String),
}

/// what has to happen to a guess
pub fn verdict(m: &M, j: &J) -> Verdict {
    use Verdict::*;
    fn join(out: &mut Verdict, v: Verdict) {
        match (&*out, &v) {
            (Reject(_), _) => {}
            (_, Reject(_)) => *out = v,
            (Unclear(_), _) => {}
            _ => *out = v,
        }
    }
    match (m, j) {
        (M::Real { min, max, .. }, J::Number(n)) => {
            let x = n.as_f64().unwrap();
            if min.map_or(false, |a| x < a) || max.map_or(false, |b| x > b) {
                // an integer outside the 2^53 range may be on the other side of a bound than its double
                if n.is_f64() || x.abs() < 9e15 {
                    return Reject(format!("{n} out of bounds"));
                }
                return Unclear("big integer for a real".into());
            }
            if n.is_f64() { Accept } else { Unclear("integer for a real".into()) }
        }
        (M::Int { min, max, .. }, J::Number(n)) => match n.as_i64() {
            Some(x) if min.map_or(false, |a| x < a) || max.map_or(false, |b| x > b) => Reject(format!("{x} out of bounds")),
            Some(_) => Accept,
            None if n.is_u64() => Reject("beyond the integers".into()),
            None => {
                let x = n.as_f64().unwrap();
                if x.fract() != 0.0 { Reject(format!("{n} for an integer")) } else { Unclear("1.0 for an integer".into()) }
            }
        },
        (M::Bool { .. }, J::Bool(_)) | (M::Const, J::Null) => Accept,
        (M::Enum { values, .. }, J::String(s)) => if values.contains(s) { Accept } else { Reject(format!("unknown value {s:?}")) },
        (M::Sub(ms), J::Object(o)) => {
            let mut v = Accept;
            for k in o.keys() {
                if !ms.iter().any(|x| x.0 == *k) {
                    return Reject(format!("unknown key {k:?}"));
                }
            }
            for (k, mm) in ms {
                match o.get(k) {
                    Some(x) => join(&mut v, verdict(mm, x)),
                    // leaving out an optional could be taken as leaving it absent
                    None => return Reject(format!("missing key {k:?}")),
                }
            }
            v
        }
        (M::Arr(mm, n), J::Array(a)) => {
            if a.len() != *n {
                return Reject(format!("array length {}", a.len()));
            }
            let mut v = Accept;
            a.iter().for_each(|x| join(&mut v, verdict(mm, x)));
            v
        }
        (M::Map { vt, min, max, .. }, J::Object(o)) => {
            let mut v = Accept;
            let mut keys = std::collections::BTreeSet::new();
            for (k, x) in o {
                match k.parse::<usize>() {
                    Ok(n) => {
                        if n.to_string() != *k {
                            join(&mut v, Unclear("map key in another notation".into()));
                        }
                        keys.insert(n);
                    }
                    Err(_) => return Reject(format!("map key {k:?}")),
                }
                join(&mut v, verdict(vt, x));
            }
            let bad = |n: usize| min.map_or(false, |m| n < m) || max.map_or(false, |m| n > m);
            if bad(o.len()) && bad(keys.len()) {
                return Reject(format!("map size {}", o.len()));
            }
            if bad(o.len()) || bad(keys.len()) {
                join(&mut v, Unclear("map size counts notations".into()));
            }
            v
        }
        // a convenience of this reader: the elements of a map as a list
        (M::Map { vt, min, max, .. }, J::Array(a)) => {
            if min.map_or(false, |m| a.len() < m) || max.map_or(false, |m| a.len() > m) {
                return Reject(format!("map size {}", a.len()));
            }
            let mut v = Unclear("list for a map".into());
            a.iter().for_each(|x| join(&mut v, verdict(vt, x)));
            v
        }
        (M::Var { opts, .. }, J::Object(o)) => {
            if o.len() != 1 {
                return Reject(format!("variant with {} options", o.len()));
            }
            let (k, x) = o.iter().next().unwrap();
            match opts.iter().find(|y| y.0 == *k) {
                Some(y) => verdict(&y.1, x),
                None => Reject(format!("unknown option {k:?}")),
            }
        }
        (M::Opt { .. }, J::Null) => Accept,
        (M::Opt { vt, .. }, x) => verdict(vt, x),
        (m, x) => Reject(format!("{x} for a {}", m.kind())),
    }
}

pub fn any_json(r: &mut StdRng, d: usize) -> J {
    match r.gen_range(0..if d == 0 { 10 } else { 13 }) {
        0 => J::Null,
        1 => J::Bool(r.gen()),
        2 => J::from(r.gen_range(-3i64..4)),
        3 => J::from(*[i64::MAX, i64::MIN, 1 << 53].choose(r).unwrap()),
        4 => J::from(*[u64::MAX, 1 << 63].choose(r).unwrap()),
        5 => J::from(*[0.5, -0.0, 1e300, -1e300, 1.0, f64::MAX, f64::MIN_POSITIVE, 9.3e18, -9.3e18].choose(r).unwrap()),
        6 => J::from(""),
        7 | 8 => J::from(*HOSTILE.choose(r).unwrap()),
        9 => J::from("a"),
        10 => J::Array((0..r.gen_range(0..4)).map(|_| any_json(r, d - 1)).collect()),
        _ => {
            let n = r.gen_range(0..4);
            J::Object((0..n).map(|_| (["0", "1", "a", "b", "01", "+1", "-1", "18446744073709551615", "18446744073709551616", " 1", "", "1.0"].choose(r).unwrap().to_string(), any_json(r, d - 1))).collect())
        }
    }
}

/// damages one place of a member (walks down spec and value together)
pub fn corrupt(m: &M, j: &mut J, r: &mut StdRng) {
    // go down?
    let down = r.gen_bool(0.75);
    match (m, &mut *j) {
        (M::Sub(ms), J::Object(o)) if down && !ms.is_empty() => {
            let (k, mm) = ms.choose(r).unwrap();
            if let Some(x) = o.get_mut(k) {
                return corrupt(mm, x, r);
            }
        }
        (M::Arr(mm, _), J::Array(a)) if down && !a.is_empty() => {
            let i = r.gen_range(0..a.len());
            return corrupt(mm, &mut a[i], r);
        }
        (M::Map { vt, .. }, J::Object(o)) if down && !o.is_empty() => {
            let k = o.keys().nth(r.gen_range(0..o.len())).unwrap().clone();
            return corrupt(vt, o.get_mut(&k).unwrap(), r);
        }
        (M::Var { opts, .. }, J::Object(o)) if down && o.len() == 1 => {
            let k = o.keys().next().unwrap().clone();
            if let Some(y) = opts.iter().find(|y| y.0 == k) {
                return corrupt(&y.1, o.get_mut(&k).unwrap(), r);
            }
        }
        (M::Opt { vt, .. }, x) if down && !x.is_null() => return corrupt(vt, x, r),
        _ => {}
    }
    if r.gen_bool(0.15) {
        *j = any_json(r, 2);
        return;
    }
    match (m, &mut *j) {
        (M::Real { min, max, .. }, j) => {
            let down = |x: f64| -next_up(-x);
            let mut c = vec![J::from("1.0"), J::from(true), J::Null, J::from(3), serde_json::json!([1.0])];
            if let Some(a) = min {
                c.extend([J::from(down(*a)), J::from(a - 1.0), J::from(*a), J::from(f64::MIN)]);
            }
            if let Some(b) = max {
                c.extend([J::from(next_up(*b)), J::from(b + 1.0), J::from(*b), J::from(f64::MAX)]);
            }
            *j = c.choose(r).unwrap().clone();
        }
        (M::Int { min, max, .. }, j) => {
            let mut c = vec![J::from("1"), J::from(0.5), J::from(1.0), J::Null, J::from(u64::MAX), J::from(9.3e18), J::from(i64::MAX as u64 + 1), J::from(false)];
            if let Some(a) = min {
                c.extend([J::from(a.wrapping_sub(1)), J::from(*a), J::from(i64::MIN)]);
            }
            if let Some(b) = max {
                c.extend([J::from(b.wrapping_add(1)), J::from(*b), J::from(i64::MAX)]);
            }
            *j = c.choose(r).unwrap().clone();
        }
        (M::Bool { .. }, j) => *j = [J::from(0), J::from(1), J::from("true"), J::Null].choose(r).unwrap().clone(),
        (M::Enum { values, .. }, j) => {
            let v = values.choose(r).unwrap();
            *j = [J::from(format!("{v} ")), J::from(v.to_uppercase()), J::from(""), J::from(0), serde_json::json!({ v.as_str(): null }), serde_json::json!([v])].choose(r).unwrap().clone();
        }
        (M::Sub(_), J::Object(o)) => {
            let k = o.keys().nth(r.gen_range(0..o.len().max(1))).cloned().unwrap_or_default();
            match r.gen_range(0..5) {
                0 => {
                    o.remove(&k);
                }
                1 => {
                    o.insert(format!("{k}x"), o.get(&k).cloned().unwrap_or(J::Null));
                }
                2 => {
                    let v = o.remove(&k).unwrap_or(J::Null);
                    o.insert(format!("{k} "), v);
                }
                3 => {
                    o.insert("zzz".into(), J::Null);
                }
                _ => *j = J::Array(o.values().cloned().collect()),
            }
        }
        (M::Arr(_, _), J::Array(a)) => match r.gen_range(0..5) {
            0 => {
                a.pop();
            }
            1 => {
                let x = a.last().cloned().unwrap_or(J::Null);
                a.push(x);
            }
            2 => a.clear(),
            3 => {
                let x = a.clone();
                a.extend(x);
            }
            _ => *j = J::Object(a.iter().cloned().enumerate().map(|(i, v)| (i.to_string(), v)).collect()),
        },
        (M::Map { vt, min, max, .. }, J::Object(o)) => match r.gen_range(0..8) {
            0 => {
                // below minSize
                while o.len() >= min.unwrap_or(0).max(1) {
                    let k = o.keys().next().unwrap().clone();
                    o.remove(&k);
                }
            }
            1 | 2 => {
                let mut k = 0usize;
                while o.len() <= max.unwrap_or(3) {
                    o.entry(k.to_string()).or_insert_with(|| vt.init_json());
                    k += 1;
                }
            }
            3 => {
                let k = ["x", "-1", "1.0", "", " 1", "1 ", "18446744073709551616", "0x1", "١", "1e0"].choose(r).unwrap().to_string();
                let v = o.values().next().cloned().unwrap_or_else(|| vt.init_json());
                if let Some(k) = o.keys().next().cloned() {
                    o.remove(&k);
                }
                o.insert(k, v);
            }
            4 => {
                let k = ["01", "+1", "00", "+0"].choose(r).unwrap().to_string();
                let v = vt.init_json();
                o.insert(k, v);
            }
            5 => {
                let k = ["18446744073709551615", "9223372036854775808", "4294967296"].choose(r).unwrap().to_string();
                if let Some(f) = o.keys().next().cloned() {
                    let v = o.remove(&f).unwrap();
                    o.insert(k, v);
                }
            }
            6 => o.clear(),
            _ => *j = J::Array(o.values().cloned().collect()),
        },
        (M::Var { opts, .. }, J::Object(o)) => {
            let other = opts.choose(r).unwrap();
            match r.gen_range(0..5) {
                0 => o.clear(),
                1 => {
                    o.insert(other.0.clone(), other.1.init_json());
                }
                2 => {
                    o.clear();
                    o.insert(format!("{}x", other.0), other.1.init_json());
                }
                3 => {
                    // the content of another option
                    let k = o.keys().next().cloned().unwrap_or_default();
                    o.insert(k, other.1.init_json());
                }
                _ => *j = J::from(other.0.clone()),
            }
        }
        (M::Opt { .. }, j) => *j = any_json(r, 1),
        (M::Const, j) => *j = any_json(r, 1),
        (_, j) => *j = any_json(r, 2),
    }
}

/// what the reader does with a guess must be what the rules say
fn judge_guess(c: &mut Case, m: &M, spec: &cambrian::spec::Spec, j: &J) -> R<Verdict> {
    let v = verdict(m, j);
    let got = value_util::from_json_value(j, spec);
    match (&v, &got) {
        (Verdict::Reject(why), Ok(x)) => viol!("a guess that does not conform ({why}) is accepted as {}\n guess {j}\n{}", x.to_json(), m.yaml()),
        (Verdict::Accept, Err(e)) => viol!("a conforming guess is rejected: {e}\n guess {j}\n{}", m.yaml()),
        (_, Ok(x)) => {
            if let Err(e) = m.conforms_node(&x.0) {
                viol!("an accepted guess yields a non-conforming value: {e}\n guess {j}\n value {:?}\n{}", x.0, m.yaml());
            }
            if v == Verdict::Accept {
                ensure!(same_json(&x.to_json(), j), "the guess {j} is taken for {}\n{}", x.to_json(), m.yaml());
            }
        }
        (_, Err(e)) => ensure!(!e.to_string().trim().is_empty(), "error without a description"),
    }
    match &v {
        Verdict::Accept => c.count("guesses_accepted", 1),
        Verdict::Reject(_) => c.count("guesses_rejected", 1),
        Verdict::Unclear(w) => c.count(&format!("unclear: {w}"), 1),
    }
    Ok(v)
}

fn guesses(c: &mut Case) -> R {
    let m = space(&mut c.rng, 40);
    let spec = cambrian::spec::Spec(m.to_spec());
    for k in 0..12 {
        let mut j = if k == 11 {
            any_json(&mut c.rng, 3)
        } else {
            let mut j = Value(m.gen_node(&mut c.rng, 4)).to_json();
            for _ in 0..c.rng.gen_range(1..3) {
                corrupt(&m, &mut j, &mut c.rng);
            }
            j
        };
        if c.rng.gen_bool(0.02) {
            j = serde_json::json!({ "x": j });
        }
        c.note = format!("guess {j}, spec {}", m.yaml());
        judge_guess(c, &m, &spec, &j)?;
        c.distinct((sig_json(&j), sig_json(&m.init_json())));
        let y = m.yaml();
        c.sample(|| serde_json::json!({"spec": y, "guess": j, "verdict": format!("{:?}", verdict(&m, &j))}));
        // text: never crashes, and agrees with the value it reads
        let mut text = j.to_string();
        if c.rng.gen_bool(0.3) {
            text = damage_text(&text, &mut c.rng);
        }
        let got = value_util::from_json_str(&text, &spec).map(|v| v.to_json().to_string()).map_err(|_| ());
        let want = match serde_json::from_str::<J>(&text) {
            Ok(j) => value_util::from_json_value(&j, &spec).map(|v| v.to_json().to_string()).map_err(|_| ()),
            Err(_) => Err(()),
        };
        ensure!(got == want, "guess text {text:?}: read from text {got:?}, from its value {want:?}");
        c.count("texts_read", 1);
    }
    Ok(())
}

fn damage_text(t: &str, r: &mut StdRng) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..r.gen_range(1..4) {
        let i = r.gen_range(0..=c.len());
        match r.gen_range(0..4) {
            0 if i < c.len() => {
                c.remove(i);
            }
            1 => c.truncate(i),
            2 => c.insert(i, *['{', '}', '[', ']', '"', '\\', ',', ':', '0', '-', 'e', '\u{0}', 'é', '.', '9', ' '].choose(r).unwrap()),
            _ if i < c.len() => c[i] = *['{', '}', '"', '\\', 'u', '0', 'E', '\n'].choose(r).unwrap(),
            _ => {}
        }
    }
    c.into_iter().collect()
}

/// text that is no conforming guess, and why
pub fn bad_text(r: &mut StdRng, m: &M) -> Option<(String, String)> {
    let mut j = Value(m.gen_node(r, 4)).to_json();
    if r.gen_bool(0.15) {
        let t = damage_text(&j.to_string(), r);
        // not JSON by either reader
        return (serde_json::from_str::<J>(&t).is_err() && exact_json(&t).is_none()).then(|| (t, "not JSON".into()));
    }
    for _ in 0..r.gen_range(1..3) {
        corrupt(m, &mut j, r);
    }
    let Verdict::Reject(why) = verdict(m, &j) else { return None };
    let t = j.to_string();
    // the text must say exactly this (known_findings.json)
    text_exact(&t).then_some((t, why))
}

/// runs started with a guess: rejected before anything is evaluated, or evaluated first exactly as given
fn guess_runs(c: &mut Case) -> R {
    let mut cfg = gen_cfg(&mut c.rng, Focus::Any);
    let j = {
        let mut j = Value(cfg.m.gen_node(&mut c.rng, 4)).to_json();
        if c.rng.gen_bool(0.8) {
            corrupt(&cfg.m, &mut j, &mut c.rng);
        }
        j
    };
    let v = verdict(&cfg.m, &j);
    cfg.guess = Some(j.clone());
    cfg.budget = Some(c.rng.gen_range(1..12));
    cfg.term = sim::Term::Never;
    let tr = sim_run(c, &cfg)?;
    oracle::no_hang(&tr)?;
    match v {
        Verdict::Reject(why) => {
            ensure!(tr.recs.is_empty(), "{} evaluations were started although the guess does not conform ({why})\n guess {j}\n{}", tr.recs.len(), cfg.m.yaml());
            match &tr.end {
                sim::End::Err(k, m) => ensure!(k != "NoIndividuals" && !m.is_empty(), "guess that does not conform ({why}): {k} {m}"),
                e => viol!("a run with a non-conforming guess ({why}) ends with {e:?}"),
            }
            c.count("runs_rejected", 1);
        }
        Verdict::Accept => {
            let Some(f) = tr.recs.first() else { viol!("nothing evaluated for a conforming guess {j}: {:?}\n{}", tr.end, cfg.m.yaml()) };
            ensure!(same_json(&f.value, &j), "the first individual is {} instead of the guess {j}", f.value);
            c.count("runs_accepted", 1);
        }
        _ => {
            if let (true, sim::End::Err(k, _)) = (tr.recs.is_empty(), &tr.end) {
                ensure!(k != "NoIndividuals", "?");
            }
        }
    }
    Ok(())
}

/// null for an optional whose own content can be null: the JSON form cannot tell which one is absent
fn init_is_ambiguous(m: &M) -> bool {
    match m {
        M::Opt { vt, present } => *present && (vt.init_json().is_null() || init_is_ambiguous(vt)),
        M::Sub(c) | M::Var { opts: c, .. } => c.iter().any(|x| init_is_ambiguous(&x.1)),
        M::Arr(v, _) | M::Map { vt: v, .. } => init_is_ambiguous(v),
        _ => false,
    }
}

fn same_as_none(c: &mut Case) -> R {
    let mut cfg = gen_cfg(&mut c.rng, if c.idx % 5 == 0 { Focus::Long } else { Focus::Any });
    cfg.guess = None;
    super::c09::no_races(&mut c.rng, &mut cfg);
    let a = sim_run(c, &cfg)?;
    cfg.guess = Some(cfg.m.init_json());
    let b = sim_run(c, &cfg)?;
    if let Err(v) = same_trace(&a, &b) {
        let sig = if init_is_ambiguous(&cfg.m) { "nested-optional-null".to_string() } else { v.sig };
        return Err(Viol { sig, msg: format!("supplying the initial value as the guess changes the run: {}\n in run {}", v.msg, describe(&cfg)) });
    }
    c.count("pairs_of_equal_runs", 1);
    Ok(())
}

/// a reported best-seen seeds the next run
fn chain(c: &mut Case) -> R {
    let mut cfg = gen_cfg(&mut c.rng, Focus::Any);
    cfg.fail.clear();
    cfg.nonfinite.clear();
    for _ in 0..4 {
        let tr = sim_run(c, &cfg)?;
        if let Some(g) = &cfg.guess {
            match tr.recs.first() {
                Some(f) => ensure!(same_json(&f.value, g), "first individual {} is not the guess {g}", f.value),
                None => ensure!(cfg.budget == Some(0) || matches!(cfg.term, sim::Term::BeforeStart), "nothing evaluated: {:?} in run {}", tr.end, describe(&cfg)),
            }
        }
        if let sim::End::Err(k, m) = &tr.end {
            ensure!(cfg.guess.is_none() || k == "NoIndividuals" || k == "Io", "run seeded with a reported best-seen fails: {k} {m}\n{}", describe(&cfg));
        }
        let sim::End::Ok { value, .. } = &tr.end else { break };
        if cfg.m.conforms(value).is_err() {
            break; // C01's business
        }
        cfg.guess = Some(value.clone());
        c.count("runs_seeded_with_a_best_seen", 1);
    }
    Ok(())
}

/// deep and odd text never crashes the reader
fn deep(c: &mut Case) -> R {
    let mut g = Gen::new(3, Mag::Mixed);
    g.hostile_names = true;
    let m = gen_bounded(&mut c.rng, &g, 40);
    let spec = cambrian::spec::Spec(m.to_spec());
    let o = ["[", "{\"0\":", "{\"a\":", "[[", "{", "\"", "[1,", "-", "1e"].choose(&mut c.rng).unwrap();
    let n = *[1usize, 10, 126, 127, 128, 129, 1000, 100_000].choose(&mut c.rng).unwrap();
    let close = c.rng.gen_bool(0.5);
    let mut t = o.repeat(n);
    if close {
        t.push('0');
        for ch in o.repeat(n).chars().rev() {
            match ch {
                '[' => t.push(']'),
                '{' => t.push('}'),
                _ => {}
            }
        }
    }
    c.note = format!("{o:?} x {n}");
    let _ = value_util::from_json_str(&t, &spec).map_err(|e| e.to_string().len());
    let digits = "9".repeat(n);
    for t in [digits.clone(), format!("-{digits}"), format!("0.{digits}"), format!("1e{digits}"), format!("1e-{digits}")] {
        for k in [M::Real { init: 0.0, scale: 1.0, min: None, max: None }, M::Int { init: 0, scale: 1.0, min: None, max: None }] {
            let spec = cambrian::spec::Spec(k.to_spec());
            if let Ok(v) = value_util::from_json_str(&t, &spec) {
                if let Err(e) = k.conforms_node(&v.0) {
                    viol!("guess text {}... accepted as {:?}: {e}", t.chars().take(40).collect::<String>(), v.0);
                }
            }
        }
    }
    c.distinct((o, n, close));
    c.count("texts_read", 11);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "distinct values and guesses read or written, and distinct interleavings of runs started with guesses",
        assumptions: &[
            "left open by the statement, checked only for conformance of what is accepted: an integer for a real, 1.0 for an integer, a list for a map, map keys in another notation",
            "text whose numbers serde_json (as configured) misreads by an ulp is the recorded finding serde_json-float-text",
        ],
        suites: vec![
            suite("roundtrip", 20000, 600000, roundtrip),
            suite("guesses", 20000, 600000, guesses),
            suite("guess_runs", 4000, 100000, guess_runs),
            suite("same_as_none", 1500, 40000, same_as_none),
            suite("chain", 1500, 40000, chain),
            suite("deep", 300, 5000, deep),
            suite("cli_reseed", 320, 6000, cli::reseed).threads(12),
            suite("cli_own_init", 240, 4000, cli::own_init).threads(12),
            suite("cli_bad_guess", 600, 10000, cli::bad_guess).threads(12),
        ],
    }
}
