//! What a header reports: cards, the key/value view, typed access.
use crate::obs::*;
use fitsrs::card::{Card, Value};
use fitsrs::hdu::header::{Header, Xtension};
use serde::de::{Deserialize, Deserializer, IntoDeserializer, MapAccess, Visitor};
use serde_json::{json, Value as J};
use std::fmt::Debug;

fn opt(s: Option<&str>) -> J {
    match s {
        Some(s) => json!({"has": true, "s": codes(s)}),
        None => json!({"has": false, "s": []}),
    }
}

/// anything, as deserialized
struct Any(J);
struct AnyVisitor;
impl<'de> Visitor<'de> for AnyVisitor {
    type Value = Any;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "a value")
    }
    fn visit_i64<E>(self, v: i64) -> Result<Any, E> {
        Ok(Any(json!({"t": "int", "s": codes(&v.to_string()), "e": 0})))
    }
    fn visit_u64<E>(self, v: u64) -> Result<Any, E> {
        Ok(Any(json!({"t": "int", "s": codes(&v.to_string()), "e": 0})))
    }
    fn visit_f64<E>(self, v: f64) -> Result<Any, E> {
        let (s, e) = float(v);
        Ok(Any(json!({"t": "flt", "s": codes(&s), "e": e})))
    }
    fn visit_bool<E>(self, v: bool) -> Result<Any, E> {
        Ok(Any(json!({"t": "log", "s": codes(if v { "T" } else { "F" }), "e": 0})))
    }
    fn visit_str<E>(self, v: &str) -> Result<Any, E> {
        Ok(Any(json!({"t": "str", "s": codes(v), "e": 0})))
    }
    fn visit_unit<E>(self) -> Result<Any, E> {
        Ok(Any(json!({"t": "und", "s": [], "e": 0})))
    }
}
impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_any(AnyVisitor)
    }
}
/// a whole map, in order
struct Pairs(Vec<(String, Any)>);
struct PairsVisitor;
impl<'de> Visitor<'de> for PairsVisitor {
    type Value = Pairs;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "a map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Pairs, A::Error> {
        let mut v = vec![];
        while let Some(kv) = a.next_entry()? {
            v.push(kv);
        }
        Ok(Pairs(v))
    }
}
impl<'de> Deserialize<'de> for Pairs {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_map(PairsVisitor)
    }
}

fn typed<X: Xtension + Debug>(h: &Header<X>, k: &str, ty: &str) -> J {
    let no = || json!({"st": "err", "s": [], "e": 0});
    macro_rules! int {
        ($t:ty) => {
            match h.get_parsed::<$t>(k) {
                Ok(v) => json!({"st": "ok", "s": codes(&v.to_string()), "e": 0}),
                Err(_) => no(),
            }
        };
    }
    macro_rules! optional {
        ($t:ty, $f:expr) => {
            match h.get_parsed::<Option<$t>>(k) {
                Ok(Some(v)) => {
                    let f: fn($t) -> (String, i64) = $f;
                    let (s, e) = f(v);
                    json!({"st": "ok", "s": codes(&s), "e": e})
                }
                Ok(None) => json!({"st": "none", "s": [], "e": 0}),
                Err(_) => no(),
            }
        };
    }
    match ty {
        "u8" => int!(u8),
        "u16" => int!(u16),
        "u32" => int!(u32),
        "u64" => int!(u64),
        "i8" => int!(i8),
        "i16" => int!(i16),
        "i32" => int!(i32),
        "i64" => int!(i64),
        "char" => int!(char),
        "str" => int!(String),
        "bstr" => int!(&str),
        "bool" => match h.get_parsed::<bool>(k) {
            Ok(v) => json!({"st": "ok", "s": codes(if v { "T" } else { "F" }), "e": 0}),
            Err(_) => no(),
        },
        "f64" => match h.get_parsed::<f64>(k) {
            Ok(v) => {
                let (s, e) = float(v);
                json!({"st": "ok", "s": codes(&s), "e": e})
            }
            Err(_) => no(),
        },
        "f32" => match h.get_parsed::<f32>(k) {
            Ok(v) => {
                let (s, e) = float32(v);
                json!({"st": "ok", "s": codes(&s), "e": e})
            }
            Err(_) => no(),
        },
        "oi64" => optional!(i64, |v| (v.to_string(), 0)),
        "ou8" => optional!(u8, |v| (v.to_string(), 0)),
        "of64" => optional!(f64, float),
        "ostr" => optional!(String, |v| (v, 0)),
        "obool" => optional!(bool, |v| (if v { "T" } else { "F" }.to_string(), 0)),
        t => panic!("harness: type {t}"),
    }
}

fn splices(cards: &[Card]) -> Vec<J> {
    let mut out = vec![];
    for (i, c) in cards.iter().enumerate() {
        if !matches!(c, Card::Value { .. } | Card::Hierarch { .. }) || !c.continued() {
            continue;
        }
        let mut one = c.clone();
        let mut other = c.clone();
        for n in &cards[i + 1..] {
            if !one.continued() || !matches!(n, Card::Continuation { .. }) {
                break;
            }
            one.append(n);
            other = other.splice(n.clone());
        }
        out.push(json!({"i": i + 1, "c": card(&one), "same": one == other}));
    }
    out
}

pub fn header<X: Xtension + Debug>(h: &Header<X>, op: &J) -> J {
    let cs: Vec<Card> = h.cards().cloned().collect();
    let map: Vec<J> = h
        .iter()
        .map(|(k, v)| {
            json!({"k": codes(k), "v": value(v), "u": opt(v.unit()), "r": opt(h.get_keyword(v))})
        })
        .collect();
    let keys: Vec<J> = h.keywords().map(|k| codes(k)).collect();
    let hist: Vec<J> = h.history().map(|k| codes(k)).collect();
    let empty = vec![];
    let q = op["q"].as_array().unwrap_or(&empty);
    let get: Vec<J> = q
        .iter()
        .map(|q| {
            let k = q["key"].as_str().unwrap();
            let g = h.get(k);
            let o = typed(h, k, q["ty"].as_str().unwrap());
            json!({"has": g.is_some(), "v": value(g.unwrap_or(&Value::Undefined)), "o": o})
        })
        .collect();
    let de = match Pairs::deserialize((&**h).into_deserializer()) {
        Ok(p) => p
            .0
            .into_iter()
            .map(|(k, v)| json!({"k": codes(&k), "v": v.0}))
            .collect::<Vec<_>>(),
        Err(_) => vec![json!("error")],
    };
    json!({"t": "hdr", "cards": cs.iter().map(card).collect::<Vec<_>>(), "map": map, "keys": keys,
           "hist": hist, "get": get, "de": de, "splice": splices(&cs)})
}
