//! Encodings shared with the specification.
use fitsrs::card::{Card, Value};
use serde_json::{json, Value as J};
use std::cell::RefCell;

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn set_panic(s: String) {
    PANIC.with(|p| *p.borrow_mut() = s);
}
pub fn take_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

/// little-endian base-10^4 limbs
pub fn big(mut n: u64) -> J {
    let mut v = vec![];
    while n > 0 {
        v.push(n % 10000);
        n /= 10000;
    }
    json!(v)
}
pub fn codes(s: &str) -> J {
    json!(s.chars().map(|c| c as u32).collect::<Vec<_>>())
}
pub fn bytes(b: &[u8]) -> J {
    json!(b)
}
fn comment(c: &Option<String>) -> (J, bool) {
    match c {
        Some(c) => (codes(c), true),
        None => (json!([]), false),
    }
}
/// significant decimal digits and exponent of the shortest representation
pub fn float(v: f64) -> (String, i64) {
    if v.is_nan() {
        return ("nan".into(), 0);
    }
    if v.is_infinite() {
        return (if v < 0.0 { "-inf" } else { "inf" }.into(), 0);
    }
    digits(&format!("{v:e}"))
}
pub fn float32(v: f32) -> (String, i64) {
    if !v.is_finite() {
        return float(v as f64);
    }
    digits(&format!("{v:e}"))
}
fn digits(s: &str) -> (String, i64) {
    let (m, e) = s.split_once('e').unwrap();
    let mut e: i64 = e.parse().unwrap();
    let (neg, m) = match m.strip_prefix('-') {
        Some(m) => (true, m),
        None => (false, m),
    };
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    e -= f.len() as i64;
    let mut d = format!("{i}{f}");
    let t = d.trim_start_matches('0').to_owned();
    d = if t.is_empty() { "0".into() } else { t };
    if d == "0" {
        e = 0;
    } else {
        while d.ends_with('0') {
            d.pop();
            e += 1;
        }
    }
    (format!("{}{d}", if neg { "-" } else { "" }), e)
}
pub fn value(v: &Value) -> J {
    let (t, s, e, c) = match v {
        Value::Integer { value, comment } => ("int", codes(&value.to_string()), 0, comment.clone()),
        Value::Float { value, comment } => {
            let (s, e) = float(*value);
            ("flt", codes(&s), e, comment.clone())
        }
        Value::Logical { value, comment } => {
            ("log", codes(if *value { "T" } else { "F" }), 0, comment.clone())
        }
        Value::String { value, comment } => ("str", codes(value), 0, comment.clone()),
        Value::Undefined => ("und", json!([]), 0, None),
        Value::Invalid(s) => ("inv", codes(s), 0, None),
    };
    let (c, hc) = comment(&c);
    json!({"t": t, "s": s, "e": e, "c": c, "hc": hc})
}
pub fn card(c: &Card) -> J {
    let und = value(&Value::Undefined);
    let none = json!([]);
    let mk = |k: &str, name: J, v: J, s: J, c: &Option<String>| {
        let (c, hc) = comment(c);
        json!({"k": k, "name": name, "v": v, "s": s, "c": c, "hc": hc})
    };
    match c {
        Card::Value { name, value: v } => mk("Value", codes(name), value(v), none, &None),
        Card::Hierarch { name, value: v } => mk("Hierarch", codes(name), value(v), none, &None),
        Card::Continuation { string, comment } => mk(
            "Continuation",
            none,
            und,
            codes(string.as_deref().unwrap_or("")),
            comment,
        ),
        Card::Xtension { x, comment } => mk("Xtension", none, und, codes(x.as_str()), comment),
        Card::Comment(s) => mk("Comment", none, und, codes(s), &None),
        Card::History(s) => mk("History", none, und, codes(s), &None),
        Card::Space => mk("Space", none, und, json!([]), &None),
        Card::End => mk("End", none, und, json!([]), &None),
        Card::Undefined(s) => mk("Undefined", none, und, codes(s), &None),
    }
}
