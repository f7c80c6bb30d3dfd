//! Numbers: order, equality, hashes and conversions.

use crate::{guarded, MORE};
use pddl::{Number, Parser};
use serde_json::{json, Value};
use std::cmp::Ordering as Cmp;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use std::sync::atomic::Ordering;

fn float(x: &Value) -> f32 {
    let g = |k: &str| x[k].as_u64().unwrap() as u32;
    f32::from_bits(g("s") << 31 | g("e") << 23 | g("f"))
}

/// The key of a value, like in the specification.
fn key(x: f32) -> i64 {
    let m = (x.to_bits() & 0x7fff_ffff) as i64;
    if x.is_sign_negative() {
        -m
    } else {
        m
    }
}

fn hash(n: &Number) -> u64 {
    let mut h = DefaultHasher::new();
    n.hash(&mut h);
    h.finish()
}

/// The same value, made in other ways.
fn ways(x: f32) -> Result<Vec<(&'static str, Number)>, String> {
    guarded(|| {
        let n = Number::new(x);
        let mut w = vec![
            ("new", n),
            ("try_new", Number::try_new(x).expect("finite")),
            ("from f32", Number::from(x)),
            ("from f64", Number::from(x as f64)),
            ("copied", { n }),
            ("cloned", Clone::clone(&n)),
            ("from text", <Number as FromStr>::from_str(&x.to_string()).expect("its own text")),
            ("from its text", <Number as FromStr>::from_str(&n.to_string()).expect("its text")),
        ];
        if x.is_sign_positive() {
            let t = n.to_string();
            w.push(("parsed", Number::parse(t.as_str()).expect("its text").1));
        }
        w
    })
}

pub fn pairs(c: &Value) -> Vec<Value> {
    let (x, y) = (float(&c["a"]), float(&c["b"]));
    let bad = |why: String| vec![json!({"case": c, "text": format!("{x:e} and {y:e}"), "why": why})];
    if !x.is_finite() || !y.is_finite() {
        // No numbers; each on its own has to be refused.
        for z in [x, y] {
            let made = guarded(|| Number::new(z)).is_ok()
                || guarded(|| Number::from(z)).is_ok()
                || guarded(|| Number::from(z as f64)).is_ok()
                || guarded(|| <Number as FromStr>::from_str(&z.to_string())).map(|r| r.is_ok()) == Ok(true);
            if (Number::try_new(z).is_ok() || made) != z.is_finite() {
                return bad(format!("{z} is a number or not, depending on how it is made"));
            }
        }
        return vec![];
    }
    let want = match c["cmp"].as_str().unwrap() {
        "less" => Cmp::Less,
        "equal" => Cmp::Equal,
        _ => Cmp::Greater,
    };
    let (all, b) = match (ways(x), guarded(|| Number::new(y))) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(p), _) | (_, Err(p)) => return bad(format!("panicked: {p}")),
    };
    let eq = want == Cmp::Equal;
    for (how, a) in all {
        MORE.fetch_add(1, Ordering::Relaxed);
        if a.to_bits() != x.to_bits() || *a != x {
            return bad(format!("{how}, it is {:e}", *a));
        }
        let r = guarded(|| {
            (
                a.cmp(&b) == want && b.cmp(&a) == want.reverse(),
                a.partial_cmp(&b) == Some(want),
                (a == b, b == a, a != b) == (eq, eq, !eq),
                (a < b, a <= b, a > b, a >= b)
                    == (want == Cmp::Less, want != Cmp::Greater, want == Cmp::Greater, want != Cmp::Less),
                (a == y, a == y as f64) == (eq, eq),
                !eq || hash(&a) == hash(&b),
                *a.max(b) == x.max(y) && *a.min(b) == x.min(y),
            )
        });
        let what = ["cmp", "partial_cmp", "==", "<, <=, > or >=", "== with a native value", "hash", "min or max"];
        match r {
            Err(p) => return bad(format!("panicked: {p}")),
            Ok(r) => {
                for (ok, what) in [r.0, r.1, r.2, r.3, r.4, r.5, r.6].iter().zip(what) {
                    if !ok {
                        return bad(format!("{what} does not say {want:?} ({how})"));
                    }
                }
            }
        }
    }
    vec![]
}

/// All of them, in order and as keys.
pub fn order(c: &Value) -> Vec<Value> {
    let values: Vec<Number> =
        c["values"].as_array().unwrap().iter().map(|x| Number::new(float(x))).collect();
    let want: Vec<i64> = c["order"].as_array().unwrap().iter().map(|k| k.as_i64().unwrap()).collect();
    let bad = |why: String| vec![json!({"case": c, "text": "all values", "why": why})];
    let keys = |i: &mut dyn Iterator<Item = Number>| -> Vec<i64> {
        let mut k: Vec<i64> = i.map(|n| key(*n)).collect();
        k.dedup();
        k
    };
    for turn in 0..values.len() {
        MORE.fetch_add(1, Ordering::Relaxed);
        let mut v = values.clone();
        v.rotate_left(turn);
        let tree: BTreeSet<Number> = v.iter().copied().collect();
        let set: HashSet<Number> = v.iter().copied().collect();
        v.sort();
        if keys(&mut v.into_iter()) != want {
            return bad("are sorted in another order".into());
        }
        if keys(&mut tree.into_iter()) != want {
            return bad("are another ordered set".into());
        }
        if set.len() != want.len() {
            return bad(format!("are a set of {} and not {}", set.len(), want.len()));
        }
    }
    if Number::default() != 0 || *Number::default() != 0.0 {
        return bad("the default is not 0".into());
    }
    vec![]
}

pub fn convert(c: &Value) -> Vec<Value> {
    let neg = c["neg"].as_bool().unwrap();
    let k = c["key"].as_u64().unwrap() as u32;
    let want = f32::from_bits(k | if neg { 1 << 31 } else { 0 });
    let mut got: Vec<(&str, Result<Number, String>)> = vec![];
    let text;
    let mut same: Vec<(&str, bool)> = vec![];
    if let Some(bits) = c["int"].as_str() {
        let n = if bits.is_empty() { 0 } else { i64::from_str_radix(bits, 2).unwrap() };
        let n = if neg { -n } else { n };
        text = n.to_string();
        macro_rules! int {
            ($($t:ident)*) => {$(
                if let Ok(i) = $t::try_from(n) {
                    got.push((stringify!($t), guarded(|| Number::from(i))));
                    same.push((stringify!($t), guarded(|| Number::new(want) == i) == Ok(true)));
                }
            )*};
        }
        int!(i8 u8 i16 u16 i32 u32);
        // As text.
        got.push(("text", guarded(|| <Number as FromStr>::from_str(&text).expect("an integer"))));
    } else {
        let bits = u64::from_str_radix(c["double"].as_str().unwrap(), 2).unwrap();
        let e = c["e"].as_u64().unwrap();
        let d = f64::from_bits((neg as u64) << 63 | e << 52 | bits);
        text = format!("{d:e}");
        got.push(("f64", guarded(|| Number::from(d))));
        if want.is_finite() {
            same.push(("f64", guarded(|| Number::new(want) == d) == Ok(true)));
        }
    }
    let bad = |why: String| vec![json!({"case": c, "text": text, "why": why})];
    for (how, g) in got {
        MORE.fetch_add(1, Ordering::Relaxed);
        match g {
            Err(_) if !want.is_finite() => {}
            Err(p) => return bad(format!("converting it from {how} panics: {p}")),
            Ok(g) if *g != want => return bad(format!("converted from {how}, it is {:e}, not {want:e}", *g)),
            Ok(_) => {}
        }
    }
    for (how, s) in same {
        if !s {
            return bad(format!("does not equal the {how}"));
        }
    }
    vec![]
}
