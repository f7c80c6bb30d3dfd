//! Values: their views, the ways to construct them, what they equal.

use crate::ast::*;
use crate::roots::kit;
use crate::{guarded, render, strings, MORE};
use pddl::*;
use serde_json::{json, Value};
use std::sync::atomic::Ordering;

fn root_of(c: &Value) -> Box<dyn crate::roots::Kit> {
    let root = c["root"].as_str().unwrap_or("");
    kit(root).unwrap_or_else(|| panic!("no root {root}"))
}

/// The text of a case, if it has one.
fn text_of(c: &Value) -> Option<String> {
    let toks = strings(&c["toks"]);
    (!toks.is_empty()).then(|| render(&toks, &[]).0)
}

fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    (x ^ (x >> 31)) | 1
}

/// Some ways, that depend on the case only.
fn ways_of(ev: &[String], n: u64) -> Vec<u64> {
    let mut h = 0u64;
    for e in ev {
        for b in e.bytes() {
            h = mix(h ^ b as u64);
        }
    }
    (0..n).map(|k| mix(h.wrapping_add(k))).collect()
}

fn told(c: &Value, text: &str, odd: Vec<String>) -> Vec<Value> {
    match odd.first() {
        None => vec![],
        Some(w) => vec![json!({"case": c, "text": text, "why": w})],
    }
}

/// Every view shows what the specification says.
pub fn views(c: &Value) -> Vec<Value> {
    let k = root_of(c);
    let ev = strings(&c["ast"]);
    let text = text_of(c);
    let sources = match &text {
        Some(t) => vec![Some(t.as_str()), None],
        None => vec![None],
    };
    let items = |v: &Value| -> Vec<Vec<String>> {
        let at = |x: &Value| x.as_u64().unwrap() as usize - 1;
        v.as_array().unwrap().iter().map(|p| ev[at(&p[0])..at(&p[1])].to_vec()).collect()
    };
    for from in sources {
        let name = from.map(|t| t.to_string()).unwrap_or(format!("built of {}", ev.join(" ")));
        let saw = match guarded(|| k.views(from, &ev)) {
            Err(p) => return told(c, &name, vec![format!("panicked: {p}")]),
            Ok(Err(e)) => return told(c, &name, vec![e]),
            Ok(Ok(s)) => s,
        };
        for (at, view, saw) in saw {
            MORE.fetch_add(1, Ordering::Relaxed);
            let node = c["views"].as_array().unwrap().iter().find(|n| n[0] == at as u64 + 1);
            let want = node
                .and_then(|n| n[1].as_array().unwrap().iter().find(|v| v[0] == view))
                .unwrap_or_else(|| panic!("no view {view} at {at} of {}", ev.join(" ")));
            let want = match &saw {
                Saw::Yes(_) => Saw::Yes(want[1].as_bool().unwrap()),
                Saw::Count(_) => Saw::Count(want[1].as_u64().unwrap() as usize),
                Saw::Items(_) => Saw::Items(items(&want[1])),
            };
            if saw != want {
                let part = ev[at..].join(" ");
                return told(c, &name, vec![format!("{view} is {saw:?} and not {want:?} for {part}")]);
            }
        }
    }
    vec![]
}

/// However it is made and looked at, it is the same value.
pub fn ways(c: &Value) -> Vec<Value> {
    let k = root_of(c);
    let ev = strings(&c["ast"]);
    let text = text_of(c);
    let ws = ways_of(&ev, 6);
    MORE.fetch_add(ws.len(), Ordering::Relaxed);
    let odd = guarded(|| k.ways(text.as_deref(), &ev, &ws))
        .unwrap_or_else(|p| vec![format!("panicked: {p}")]);
    told(c, &text.unwrap_or(ev.join(" ")), odd)
}

/// Two values are equal exactly if they have the same parts.
pub fn alike(c: &Value) -> Vec<Value> {
    let k = root_of(c);
    let mut evs: Vec<Vec<String>> = vec![];
    if c.get("ast").is_some() {
        evs.push(strings(&c["ast"]));
        evs.push(strings(&c["ast"]));
    }
    evs.extend(c["near"].as_array().unwrap().iter().map(strings));
    let ws = ways_of(&evs[0], 5);
    match guarded(|| k.pairs(&evs, &ws)) {
        Err(p) => told(c, &evs[0].join(" "), vec![format!("panicked: {p}")]),
        Ok((n, odd)) => {
            MORE.fetch_add(n * n, Ordering::Relaxed);
            told(c, &evs[0].join(" "), odd)
        }
    }
}

fn make<T: Ast>(v: &Value) -> T {
    let ev = strings(v);
    let mut i = In::new(&ev);
    T::build(&mut i).unwrap_or_else(|e| panic!("{e} in {}", ev.join(" ")))
}

fn call_domain(d: Domain, part: &str, v: &Value, way: u64) -> Domain {
    let direct = way % 2 == 0;
    match part {
        "extends" if direct => d.with_extends(make::<Extends>(v).0),
        "extends" => d.with_extends(make::<Extends>(v).0.into_iter().filter(|_| true)),
        "requirements" => d.with_requirements(make(v)),
        "types" if direct => d.with_types(make::<Types>(v)),
        "types" => d.with_types(make::<TypedNames>(v)),
        "constants" if direct => d.with_constants(make::<Constants>(v)),
        "constants" => d.with_constants(make::<TypedNames>(v)),
        "predicates" if direct => d.with_predicates(make::<PredicateDefinitions>(v)),
        "predicates" => d.with_predicates(make::<PredicateDefinitions>(v).values().to_vec()),
        "functions" if direct => d.with_functions(make::<Functions>(v)),
        "functions" => d.with_functions(make::<FunctionTypedList<AtomicFunctionSkeleton>>(v)),
        "constraints" => d.with_constraints(make(v)),
        "timeless" => d.with_timeless(make(v)),
        _ => panic!("no part {part}"),
    }
}

fn call_problem(p: Problem, part: &str, v: &Value, way: u64) -> Problem {
    let direct = way % 2 == 0;
    match part {
        "requirements" if direct => p.with_requirements(make::<Requirements>(v)),
        "requirements" => p.with_requirements(make::<Requirements>(v).to_vec()),
        "objects" if direct => p.with_objects(make::<Objects>(v)),
        "objects" => p.with_objects(make::<TypedNames>(v)),
        "constraints" if direct => p.with_constraints(make::<ProblemConstraintsDef>(v)),
        "constraints" => p.with_constraints(make::<PrefConGDs>(v)),
        "metric" => p.with_metric_spec(make::<MetricSpec>(v)),
        "length" => p.with_length_spec(make::<LengthSpec>(v)),
        _ => panic!("no part {part}"),
    }
}

/// A history of calls of a builder.
fn history<T: Ast>(c: &Value, head: &Value, start: impl Fn() -> T, call: fn(T, &str, &Value, u64) -> T) -> Vec<String> {
    let order = strings(&head["order"]);
    let value = |p: &str, v: u64| &head["values"][p][v as usize - 1];
    let mut odd = vec![];
    let mut x = start();
    for (n, k) in c["calls"].as_array().unwrap().iter().enumerate() {
        MORE.fetch_add(1, Ordering::Relaxed);
        let before = x.clone();
        let (p, v) = (k[0].as_str().unwrap(), k[1].as_u64().unwrap());
        x = call(x, p, value(p, v), mix(n as u64 + v));
        if events(&x) != strings(&c["shows"][n]) {
            odd.push(format!("after call {n} it is {}", events(&x).join(" ")));
        }
        // The value that was there before is another one, or none has changed.
        if (before == x) != (events(&before) == events(&x)) && p != "timeless" {
            odd.push(format!("call {n} makes no difference, or makes one without need"));
        }
    }
    // The same parts, each called once in the usual order, if at all.
    let canon = |parts: &[u64]| {
        let mut y = start();
        for (p, &v) in order.iter().zip(parts) {
            if v > 1 {
                y = call(y, p, value(p, v), 0);
            }
        }
        y
    };
    let parts: Vec<u64> = c["parts"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap()).collect();
    if x.same(&canon(&parts)).contains(&false) || x.clone() != x {
        odd.push("is not what the same parts make in another order".into());
    }
    for i in 0..parts.len() {
        for v in 1..=3 {
            if v == parts[i] {
                continue;
            }
            MORE.fetch_add(1, Ordering::Relaxed);
            let mut other = parts.clone();
            other[i] = v;
            let y = canon(&other);
            if x.same(&y).contains(&true) || y.same(&x).contains(&true) {
                odd.push(format!("equals the value with other {}", order[i]));
            }
        }
    }
    odd
}

pub fn builder(c: &Value, head: &Value) -> Vec<Value> {
    let g = &head["given"];
    let text = c["calls"].to_string();
    let odd = guarded(|| match c["kind"].as_str().unwrap() {
        "Domain" => history(c, head, || Domain::builder(make(&g["name"]), make(&g["structure"])), call_domain),
        _ => {
            let start = || {
                let name: Name = make(&g["name"]);
                let domain: Name = make(&g["domain"]);
                Problem::builder(name, domain, make(&g["init"]), make(&g["goal"]))
            };
            history(c, head, start, call_problem)
        }
    });
    told(c, &text, odd.unwrap_or_else(|p| vec![format!("panicked: {p}")]))
}
