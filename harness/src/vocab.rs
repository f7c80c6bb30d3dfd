//! The closed vocabularies, and sets of requirements.

use crate::{guarded, spell, strings, MORE};
use pddl::{
    AssignOp, AssignOpT, BinaryComp, BinaryOp, DOp, Interval, MultiOp, Optimization, Parser,
    Requirement, Requirements, TimeSpecifier,
};
use serde_json::{json, Value};
use std::borrow::Borrow;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::Ordering;

trait Word: Sized + Clone + PartialEq + 'static {
    fn all() -> Vec<(&'static str, Self)>;
    fn of(text: &str) -> Option<Self>;
    /// The value and how many bytes were read.
    fn parsed(text: &str) -> Option<(Self, usize)>;
    fn shown(&self) -> String;
    /// Complaints about other views of a value that is written like that.
    fn views(&self, _word: &str) -> Vec<String> {
        vec![]
    }
    /// Whether it equals the text, as far as it can be asked.
    fn equals(&self, _text: &str) -> Vec<bool> {
        vec![]
    }

    fn id(&self) -> &'static str {
        let all = Self::all();
        all.iter().find(|x| x.1 == *self).map(|x| x.0).expect("a value of the vocabulary")
    }
}

macro_rules! word {
    ($t:ident: $($v:ident)* $(; $extra:item)*) => {
        impl Word for $t {
            fn all() -> Vec<(&'static str, Self)> {
                vec![$((stringify!($v), $t::$v)),*]
            }
            fn of(text: &str) -> Option<Self> {
                $t::try_from(text).ok()
            }
            fn parsed(text: &str) -> Option<(Self, usize)> {
                $t::parse(text).ok().map(|(r, x)| (x, text.len() - r.fragment().len()))
            }
            fn shown(&self) -> String {
                self.to_string()
            }
            $($extra)*
        }
    };
}

macro_rules! stringly {
    ($t:ident) => {
        fn stringly(x: &$t, word: &str) -> Vec<String> {
            let mut bad = vec![];
            if x.as_str() != word {
                bad.push(format!("as_str gives {:?}", x.as_str()));
            }
            if AsRef::<str>::as_ref(x) != word {
                bad.push("as_ref gives another text".into());
            }
            if Borrow::<str>::borrow(x) != word {
                bad.push("borrow gives another text".into());
            }
            if !(x == &x.clone() && &x.clone() == x) {
                bad.push("does not equal itself".into());
            }
            bad
        }
    };
}

mod req {
    use super::*;
    stringly!(Requirement);
    pub fn views(x: &Requirement, word: &str) -> Vec<String> {
        let mut bad = stringly(x, word);
        let hash = |f: &dyn Fn(&mut DefaultHasher)| {
            let mut h = DefaultHasher::new();
            f(&mut h);
            h.finish()
        };
        if hash(&|h| x.hash(h)) != hash(&|h| word.hash(h)) {
            bad.push("does not hash like its text".into());
        }
        let set: HashSet<Requirement> = [*x].into();
        if !set.contains(word) || !set.contains(x) {
            bad.push("is not found by its text".into());
        }
        bad
    }
}

mod assign {
    use super::*;
    stringly!(AssignOp);
    pub fn views(x: &AssignOp, word: &str) -> Vec<String> {
        stringly(x, word)
    }
}

word!(BinaryOp: Multiplication Addition Subtraction Division);
word!(MultiOp: Multiplication Addition);
word!(BinaryComp: GreaterThan LessThan Equal GreaterOrEqual LessThanOrEqual);
word!(DOp: Equal GreaterOrEqual LessThanOrEqual);
word!(AssignOp: Assign ScaleUp ScaleDown Increase Decrease;
    fn views(&self, word: &str) -> Vec<String> { assign::views(self, word) };
    fn equals(&self, text: &str) -> Vec<bool> { vec![*self == text, *self == text.to_string()] }
);
word!(AssignOpT: Increase Decrease);
word!(TimeSpecifier: Start End);
word!(Interval: All);
word!(Optimization: Minimize Maximize);
word!(Requirement: Strips Typing NegativePreconditions DisjunctivePreconditions Equality
    ExistentialPreconditions UniversalPreconditions QuantifiedPreconditions ConditionalEffects Fluents
    NumericFluents ObjectFluents Adl DurativeActions DurationInequalities ContinuousEffects
    DerivedPredicates TimedInitialLiterals Preferences Constraints ActionCosts;
    fn views(&self, word: &str) -> Vec<String> { req::views(self, word) };
    fn equals(&self, text: &str) -> Vec<bool> { vec![*self == text, *self == text.to_string()] }
);

fn ask<T: Word>(text: &str, a: &Value) -> Option<String> {
    MORE.fetch_add(1, Ordering::Relaxed);
    let ty = a["type"].as_str().unwrap();
    let id = a["id"].as_str().unwrap();
    let word = a["word"].as_str().unwrap();
    let got = T::of(text).map(|x| x.id()).unwrap_or("");
    if got != id {
        return Some(format!("{ty} converts {text:?} to {got:?} and not to {id:?}"));
    }
    let parse = a["parse"].as_str().unwrap();
    let (got, n) = T::parsed(text).map(|x| (x.0.id(), x.1)).unwrap_or(("", 0));
    let refused = got.is_empty() && a["sure"] == false;
    if !refused && (got != parse || n as u64 != a["n"].as_u64().unwrap()) {
        return Some(format!("{ty} parses {text:?} as {got:?}, {n} bytes, and not {parse:?}"));
    }
    for (i, v) in T::all() {
        let is = i == id && word == text;
        if let Some(k) = v.equals(text).iter().position(|&e| e != is) {
            return Some(format!("{ty}::{i} == {text:?} is {} (comparison {k})", !is));
        }
        if (v.shown() == text) != is {
            return Some(format!("{ty}::{i} is printed {:?}", v.shown()));
        }
        if is {
            if let Some(w) = v.views(text).first() {
                return Some(format!("{ty}::{i}: {w}"));
            }
        }
        for (j, w) in T::all() {
            if (v == w) != (i == j) || (v != w) == (i == j) {
                return Some(format!("{ty}::{i} == {ty}::{j} is {}", v == w));
            }
        }
    }
    None
}

/// A text, asked of all vocabularies.
pub fn words(c: &Value) -> Vec<Value> {
    let text = spell(c["text"].as_str().unwrap());
    let bad = |why: String| vec![json!({"case": c, "text": text, "why": why})];
    for a in c["answers"].as_array().unwrap() {
        let t = text.as_str();
        let r = guarded(|| match a["type"].as_str().unwrap() {
            "BinaryOp" => ask::<BinaryOp>(t, a),
            "MultiOp" => ask::<MultiOp>(t, a),
            "BinaryComp" => ask::<BinaryComp>(t, a),
            "DOp" => ask::<DOp>(t, a),
            "AssignOp" => ask::<AssignOp>(t, a),
            "AssignOpT" => ask::<AssignOpT>(t, a),
            "TimeSpecifier" => ask::<TimeSpecifier>(t, a),
            "Interval" => ask::<Interval>(t, a),
            "Optimization" => ask::<Optimization>(t, a),
            "Requirement" => ask::<Requirement>(t, a),
            other => panic!("no vocabulary {other}"),
        });
        match r {
            Err(p) => return bad(format!("panicked: {p}")),
            Ok(Some(w)) => return bad(w),
            Ok(None) => {}
        }
    }
    // What is a binary operator may be an operator of many operands.
    for w in c["wide"].as_array().unwrap() {
        let w = strings(w);
        let b = BinaryOp::of(&text).unwrap();
        let m = MultiOp::try_from(b).map(|m| m.id()).unwrap_or("");
        if m != w[1] {
            return bad(format!("as a MultiOp, it is {m:?} and not {:?}", w[1]));
        }
        if let Some(m) = MultiOp::of(&text) {
            if BinaryOp::from(m).id() != w[0] {
                return bad("as a BinaryOp, it is another one".into());
            }
        }
    }
    vec![]
}

fn requirement(id: &str) -> Requirement {
    Requirement::all().into_iter().find(|x| x.0 == id).expect("a requirement").1
}

fn ids<'a>(i: impl IntoIterator<Item = &'a Requirement>) -> BTreeSet<String> {
    i.into_iter().map(|r| r.id().to_string()).collect()
}

/// Sequences of requirements.
pub fn requires(c: &Value, head: &Value) -> Vec<Value> {
    let seq = strings(&c["seq"]);
    let reqs: Vec<Requirement> = seq.iter().map(|s| requirement(s)).collect();
    let spelling = |id: &str| head["spelling"][id].as_str().unwrap().to_string();
    let text = seq.iter().map(|s| spelling(s)).collect::<Vec<_>>().join(" ");
    let bad = |why: String| vec![json!({"case": c, "text": text, "why": why})];
    let want: BTreeSet<String> = strings(&c["effective"]).into_iter().collect();
    let mut sets = vec![
        ("new", Requirements::new(reqs.clone())),
        ("from a vector", Requirements::from(reqs.clone())),
        ("collected", reqs.iter().copied().collect::<Requirements>()),
    ];
    if seq.is_empty() {
        sets.push(("default", Requirements::default()));
    } else {
        let t = format!("(:requirements {text})");
        match guarded(|| Requirements::parse(t.as_str()).ok().map(|x| x.1)) {
            Ok(Some(r)) => sets.push(("parsed", r)),
            other => return bad(format!("parsing {t:?} fails: {other:?}")),
        }
    }
    let first = sets[0].1.clone();
    for (how, s) in &sets {
        MORE.fetch_add(1, Ordering::Relaxed);
        if *s != first || s.len() != reqs.len() || s.is_empty() != reqs.is_empty() {
            return bad(format!("{how}, it is {s:?}"));
        }
        if s.iter().zip(&reqs).any(|(a, b)| a != b) {
            return bad(format!("{how}, it has other members: {s:?}"));
        }
        let e = s.to_effective();
        if ids(&e) != want {
            return bad(format!("{how}, it is effectively {:?} and not {want:?}", ids(&e)));
        }
        for (id, r) in Requirement::all() {
            let is = want.contains(id);
            if e.contains(&r) != is || e.contains(spelling(id).as_str()) != is {
                return bad(format!("{how}, it effectively contains {id} or not, depending on the query"));
            }
        }
        let again = e.iter().copied().collect::<Requirements>().to_effective();
        if again != e {
            return bad(format!("{how}, expanding it again gives {:?}", ids(&again)));
        }
    }
    // One by one.
    let includes: BTreeSet<String> = strings(&c["includes"]).into_iter().collect();
    let mut found = None;
    for (id, r) in Requirement::all() {
        let is = includes.contains(id);
        let any = reqs.iter().any(|q| q.contains(r));
        let by_ref = reqs.iter().any(|q| q.contains(&r));
        if (any, by_ref) != (is, is) {
            let b = bad(format!("whether it contains {id} is answered {any}"));
            if id == "ContinuousEffects" && any && by_ref && seq.iter().any(|s| s == "Adl") {
                found = Some(b);
                continue;
            }
            return b;
        }
    }
    for (s, r) in seq.iter().zip(&reqs) {
        let e = ids(&r.expand());
        let want: BTreeSet<String> = strings(&head["expand"][s]).into_iter().collect();
        if e != want || r.expand().len() != want.len() {
            return bad(format!("{s} expands to {e:?} and not {want:?}"));
        }
        if !r.contains(r) {
            return bad(format!("{s} does not contain itself"));
        }
    }
    if let Some(mut f) = found {
        if seq.len() == 1 {
            f[0]["finding"] = json!("adl-contains-continuous-effects");
            return f;
        }
    }
    vec![]
}

/// All sets in a range of bit masks; each stands for what its members do.
pub fn subsets(c: &Value, head: &Value) -> Vec<Value> {
    let all = Requirement::all();
    let bit = |id: &str| 1u32 << all.iter().position(|x| x.0 == id).unwrap();
    let expand: Vec<u32> = all
        .iter()
        .map(|x| strings(&head["expand"][x.0]).iter().map(|s| bit(s)).sum())
        .collect();
    let (from, to) = (c["from"].as_u64().unwrap() as u32, c["to"].as_u64().unwrap() as u32);
    for mask in from..to {
        MORE.fetch_add(1, Ordering::Relaxed);
        let members = (0..all.len()).filter(|i| mask >> i & 1 == 1);
        let mut want = members.clone().fold(0, |m, i| m | expand[i]);
        if mask == 0 {
            want = bit("Strips");
        }
        // The order is not the same for all sets.
        let mut list: Vec<Requirement> = members.map(|i| all[i].1).collect();
        let k = (mask as usize / 7) % list.len().max(1);
        list.rotate_left(k);
        let set = Requirements::from(list).to_effective();
        let got = set.iter().fold(0, |m, r| m | bit(r.id()));
        if got != want {
            let names = |m: u32| (0..all.len()).filter(|i| m >> i & 1 == 1).map(|i| all[i].0).collect::<Vec<_>>().join(" ");
            return vec![json!({"case": {"from": mask, "to": mask + 1}, "text": names(mask),
                "why": format!("is effectively {} and not {}", names(got), names(want))})];
        }
    }
    vec![]
}
