//! Names: what threads make of the interning table.

use crate::{guarded, spell, strings, MORE};
use pddl::{
    ActionSymbol, DurativeActionSymbol, FunctionSymbol, Name, Parser, Predicate, PreferenceName,
    PrimitiveType, Variable,
};
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Sender};
use std::sync::{Arc, Barrier, Mutex};

/// A name, or a symbol that is made of one.
#[derive(Clone)]
enum Sym {
    Name(Name),
    Predicate(Predicate),
    Function(FunctionSymbol),
    Variable(Variable),
    Action(ActionSymbol),
    Durative(DurativeActionSymbol),
    Preference(PreferenceName),
    Primitive(PrimitiveType),
}

/// A text that nobody used before.
static FRESH: AtomicU64 = AtomicU64::new(0);

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

impl Sym {
    fn make(kind: &str, way: &str, text: &str, odd: bool) -> Option<Sym> {
        macro_rules! whole {
            ($t:ty, $s:expr) => {{
                let s: String = $s;
                let x = match <$t>::parse(s.as_str()) {
                    Ok((rest, x)) if rest.fragment().is_empty() => Some(x),
                    _ => None,
                };
                x
            }};
        }
        macro_rules! with {
            ($v:ident, $t:ty, $sigil:literal, $stat:expr) => {
                Sym::$v(match way {
                    "str" if odd => <$t>::from(text),
                    "str" => <$t>::from(Name::from(text)),
                    "string" => <$t>::from(text.to_string()),
                    "parse" => whole!($t, format!(concat!($sigil, "{}"), text))?,
                    "static" => $stat,
                    "via" => <$t>::from(Name::new(text)),
                    _ => panic!("no way {way}"),
                })
            };
        }
        macro_rules! sym {
            ($v:ident, $t:ty, $sigil:literal, $stat:expr) => {{
                match (way, odd) {
                    ("via", true) => Sym::$v(<$t>::from_str(text)),
                    _ => with!($v, $t, $sigil, $stat),
                }
            }};
        }
        Some(match kind {
            "Name" => with!(Name, Name, "", Name::new_static(leak(text))),
            "Predicate" => sym!(Predicate, Predicate, "", Predicate::from_static(leak(text))),
            "FunctionSymbol" => {
                sym!(Function, FunctionSymbol, "", FunctionSymbol::from_name(Name::new_static(leak(text))))
            }
            "Variable" => sym!(Variable, Variable, "?", Variable::from_static(leak(text))),
            "ActionSymbol" => {
                sym!(Action, ActionSymbol, "", ActionSymbol::new(Name::new_static(leak(text))))
            }
            "DurativeActionSymbol" => sym!(
                Durative,
                DurativeActionSymbol,
                "",
                DurativeActionSymbol::from_name(Name::new_static(leak(text)))
            ),
            "PreferenceName" => {
                sym!(Preference, PreferenceName, "", PreferenceName::from_static(leak(text)))
            }
            "PrimitiveType" => with!(
                Primitive,
                PrimitiveType,
                "",
                PrimitiveType::new(Name::new_static(leak(text)))
            ),
            _ => panic!("no kind {kind}"),
        })
    }

    fn name(&self) -> Option<&Name> {
        Some(match self {
            Sym::Name(n) => n,
            Sym::Predicate(n) => n,
            Sym::Function(n) => n,
            Sym::Variable(n) => n,
            Sym::Action(n) => n,
            Sym::Durative(n) => n,
            Sym::Preference(n) => n,
            Sym::Primitive(_) => return None,
        })
    }

    fn turn(&self, kind: &str) -> Sym {
        let n = self.name().expect("a primitive type cannot be turned into a symbol").clone();
        match kind {
            "Name" => Sym::Name(n),
            "Predicate" => Sym::Predicate(n.into()),
            "FunctionSymbol" => Sym::Function(FunctionSymbol::new(n)),
            "Variable" => Sym::Variable(n.into()),
            "ActionSymbol" => Sym::Action(n.into()),
            "DurativeActionSymbol" => Sym::Durative(DurativeActionSymbol::from_name(n)),
            "PreferenceName" => Sym::Preference(PreferenceName::new(n)),
            "PrimitiveType" => Sym::Primitive(PrimitiveType::new(n)),
            _ => panic!("no kind {kind}"),
        }
    }

    fn text(&self) -> &str {
        match self {
            Sym::Primitive(p) => p,
            other => other.name().unwrap(),
        }
    }

    /// All string views of it, which have to be the same.
    fn views(&self) -> Vec<(&'static str, String)> {
        fn three<T: AsRef<str> + AsRef<Name>>(x: &T) -> Vec<(&'static str, String)> {
            let n: &Name = x.as_ref();
            let s: &str = x.as_ref();
            vec![("as_ref", s.to_string()), ("as_ref name", n.to_string())]
        }
        let mut v = match self {
            Sym::Name(n) => vec![("as_ref", AsRef::<str>::as_ref(n).to_string())],
            Sym::Predicate(n) => three(n),
            Sym::Function(n) => three(n),
            Sym::Variable(n) => three(n),
            Sym::Action(n) => three(n),
            Sym::Durative(n) => three(n),
            Sym::Preference(_) => vec![],
            Sym::Primitive(n) => vec![("as_ref", AsRef::<str>::as_ref(n).to_string())],
        };
        v.push(("deref", self.text().to_string()));
        v.push(("to_string", self.text().to_string()));
        v
    }

    fn debug(&self) -> String {
        match self {
            Sym::Name(x) => format!("{x:?}"),
            Sym::Predicate(x) => format!("{x:?}"),
            Sym::Function(x) => format!("{x:?}"),
            Sym::Variable(x) => format!("{x:?}"),
            Sym::Action(x) => format!("{x:?}"),
            Sym::Durative(x) => format!("{x:?}"),
            Sym::Preference(x) => format!("{x:?}"),
            Sym::Primitive(x) => format!("{x:?}"),
        }
    }

    fn hash(&self) -> u64 {
        let mut h = DefaultHasher::new();
        match self {
            Sym::Name(x) => x.hash(&mut h),
            Sym::Predicate(x) => x.hash(&mut h),
            Sym::Function(x) => x.hash(&mut h),
            Sym::Variable(x) => x.hash(&mut h),
            Sym::Action(x) => x.hash(&mut h),
            Sym::Durative(x) => x.hash(&mut h),
            Sym::Preference(x) => (**x).hash(&mut h),
            Sym::Primitive(x) => x.hash(&mut h),
        }
        h.finish()
    }

    /// Whether they are equal; None if they are not of the same kind.
    fn same(&self, o: &Sym) -> Option<bool> {
        Some(match (self, o) {
            (Sym::Name(a), Sym::Name(b)) => a == b,
            (Sym::Predicate(a), Sym::Predicate(b)) => a == b,
            (Sym::Function(a), Sym::Function(b)) => a == b,
            (Sym::Variable(a), Sym::Variable(b)) => a == b,
            (Sym::Action(a), Sym::Action(b)) => a == b,
            (Sym::Durative(a), Sym::Durative(b)) => a == b,
            (Sym::Preference(a), Sym::Preference(b)) => a == b,
            (Sym::Primitive(a), Sym::Primitive(b)) => a == b,
            _ => match (self.name(), o.name()) {
                (Some(a), Some(b)) => a == b,
                _ => return None,
            },
        })
    }

    /// What one of them says about itself.
    fn wrong(&self, text: &str) -> Option<String> {
        for (how, s) in self.views() {
            if s != text {
                return Some(format!("its text is {s:?} by {how}, and not {text:?}"));
            }
        }
        if let Some(n) = self.name() {
            let other = format!("{text}-");
            if !(*n == *text && *n == text && *n == text.to_string()) {
                return Some(format!("it does not equal its text {text:?}"));
            }
            if *n == *other || *n == other.as_str() || *n == other {
                return Some(format!("it equals another text than {text:?}"));
            }
            if n.len() != text.chars().count() || n.is_empty() != text.is_empty() {
                return Some(format!("its length is {}", n.len()));
            }
        }
        None
    }

    /// What two of them say about each other.
    fn differ(&self, o: &Sym, same_text: bool, same_store: bool) -> Option<String> {
        MORE.fetch_add(1, Ordering::Relaxed);
        if let Some(e) = self.same(o) {
            if e != same_text || o.same(self) != Some(e) {
                return Some(format!("{:?} == {:?} is {e}", self.debug(), o.debug()));
            }
        }
        if same_text && self.same(o).is_some() && self.hash() != o.hash() {
            return Some(format!("{} and {} have different hashes", self.debug(), o.debug()));
        }
        if std::mem::discriminant(self) == std::mem::discriminant(o)
            && (self.debug() == o.debug()) != same_text
        {
            return Some(format!("{} and {} are printed so", self.debug(), o.debug()));
        }
        if same_store && self.text().as_ptr() != o.text().as_ptr() {
            return Some(format!("two interned names {:?} have two storages", self.text()));
        }
        None
    }
}

struct Held {
    sym: Sym,
    text: String,
    store: String,
}

type Work = Box<dyn FnOnce() + Send>;

/// A history, step by step, each on the thread that it says.
pub fn intern(c: &Value) -> Vec<Value> {
    let fresh = format!("n{}", FRESH.fetch_add(1, Ordering::SeqCst));
    let text = |s: &str| spell(&s.replace("{f}", &fresh));
    let seats = c["seats"].as_u64().unwrap() as usize;
    let mut senders: Vec<Sender<Work>> = vec![];
    let mut threads = vec![];
    for _ in 0..seats {
        let (tx, rx) = channel::<Work>();
        senders.push(tx);
        threads.push(std::thread::spawn(move || {
            for w in rx {
                w();
            }
        }));
    }
    // Runs something on a thread and waits for it.
    let on = |t: usize, f: Box<dyn FnOnce() -> Option<Sym> + Send>| -> Result<Option<Sym>, String> {
        let (tx, rx) = channel();
        senders[t].send(Box::new(move || tx.send(guarded(f)).unwrap())).unwrap();
        rx.recv().unwrap()
    };
    let mut held: BTreeMap<u64, Held> = BTreeMap::new();
    let log = c["log"].as_array().unwrap();
    let mut why = None;
    for e in log {
        let s = |k: &str| e[k].as_str().unwrap_or("").to_string();
        let t = e["t"].as_u64().unwrap() as usize;
        let h = e["h"].as_u64().unwrap();
        let g = e["g"].as_u64();
        let txt = text(&s("text"));
        let (op, kind, way) = (s("op"), s("kind"), s("way"));
        let odd = h % 2 == 1;
        let made = match op.as_str() {
            "make" => {
                let txt = txt.clone();
                on(t, Box::new(move || Sym::make(&kind, &way, &txt, odd)))
            }
            "clone" => {
                let from = held[&g.unwrap()].sym.clone();
                on(t, Box::new(move || Some(from.clone())))
            }
            "turn" => {
                let from = held[&g.unwrap()].sym.clone();
                on(t, Box::new(move || Some(from.turn(&kind))))
            }
            "drop" => {
                let x = held.remove(&g.unwrap()).unwrap().sym;
                on(t, Box::new(move || {
                    drop(x);
                    None
                }))
            }
            _ => panic!("no operation {op}"),
        };
        match made {
            Err(p) => why = Some(format!("step {h} panics: {p}")),
            Ok(None) if op != "drop" => why = Some(format!("step {h}: {txt:?} is not read as a name")),
            Ok(None) => {}
            Ok(Some(sym)) => {
                let new = Held { sym, text: txt, store: s("store") };
                why = new.sym.wrong(&new.text);
                for (k, o) in &held {
                    let share = o.store == new.store && !o.store.starts_with('=');
                    why = why.or_else(|| new.sym.differ(&o.sym, o.text == new.text, share))
                        .or_else(|| o.sym.wrong(&o.text).map(|w| format!("handle {k}: {w}")));
                }
                held.insert(h, new);
            }
        }
        if let Some(w) = &mut why {
            *w = format!("after step {h}: {w}");
            break;
        }
    }
    // In the end, all of them, the other way around, and as keys.
    if why.is_none() {
        let all: Vec<&Held> = held.values().collect();
        for (i, a) in all.iter().enumerate() {
            for b in &all[..=i] {
                let share = a.store == b.store && !a.store.starts_with('=');
                why = why.or_else(|| b.sym.differ(&a.sym, a.text == b.text, share));
            }
            why = why.or_else(|| a.sym.wrong(&a.text));
        }
        let keys: HashSet<&Name> = all.iter().filter_map(|h| h.sym.name()).collect();
        let texts: HashSet<&str> =
            all.iter().filter(|h| h.sym.name().is_some()).map(|h| h.text.as_str()).collect();
        if keys.len() != texts.len() {
            why = why.or(Some(format!("{} texts are {} keys", texts.len(), keys.len())));
        }
    }
    drop(senders);
    for t in threads {
        let _ = t.join();
    }
    why.map(|w| json!({"case": c, "text": show(log), "why": w})).into_iter().collect()
}

fn show(log: &[Value]) -> String {
    let one = |e: &Value| {
        let s = |k: &str| e[k].as_str().unwrap_or("").to_string();
        format!("{}:{} {} {:?} {}", e["t"], s("op"), s("kind"), s("text"), s("way"))
    };
    log.iter().map(one).collect::<Vec<_>>().join("; ")
}

/// Threads that run their programs at the same time. Returns what was seen, in
/// an order that it may have happened in.
pub fn race(c: &Value) -> Vec<Value> {
    let rounds = c["rounds"].as_u64().unwrap_or(1) as usize;
    let many = c["times"].as_u64().unwrap_or(1) as usize;
    let programs = c["log"].as_array().unwrap();
    let n = programs.len();
    let clock = Arc::new(AtomicU64::new(0));
    let handles = Arc::new(AtomicUsize::new(0));
    let mut out = vec![];
    for round in 0..rounds {
        let fresh: Vec<String> =
            (0..many).map(|_| format!("r{}", FRESH.fetch_add(1, Ordering::SeqCst))).collect();
        let barrier = Arc::new(Barrier::new(n));
        let kept: Arc<Mutex<Vec<Sym>>> = Default::default();
        let workers: Vec<_> = programs
            .iter()
            .map(|p| {
                // Spelled before the start, so that the threads meet in the library.
                let steps: Vec<(bool, String, String)> = fresh
                    .iter()
                    .flat_map(|f| {
                        p.as_array().unwrap().iter().map(move |e| {
                            let s = |k: &str| e[k].as_str().unwrap_or("").replace("{f}", f);
                            (s("op") == "make", s("text"), s("way"))
                        })
                    })
                    .collect();
                let (barrier, clock, handles, kept) =
                    (barrier.clone(), clock.clone(), handles.clone(), kept.clone());
                let len = p.as_array().unwrap().len();
                std::thread::spawn(move || {
                    let mut mine: Vec<Option<(usize, Sym)>> = vec![];
                    let mut seen: Vec<(u64, Value)> = vec![];
                    barrier.wait();
                    for (i, (make, text, way)) in steps.iter().enumerate() {
                        let first = i - i % len;
                        if *make {
                            let sym = Sym::make("Name", way, text, i % 2 == 0).expect("a name");
                            let at = clock.fetch_add(1, Ordering::SeqCst);
                            let h = handles.fetch_add(1, Ordering::SeqCst);
                            let store = sym.text().as_ptr() as usize;
                            seen.push((at, json!({"op": "make", "h": h, "text": text,
                                "store": store.to_string()})));
                            mine.push(Some((h, sym)));
                        } else {
                            let g = way.parse::<usize>().unwrap() - 1 + first;
                            mine.push(None);
                            let (h, sym) = mine[g].take().expect("held");
                            let at = clock.fetch_add(1, Ordering::SeqCst);
                            seen.push((at, json!({"op": "drop", "h": h, "text": "", "store": ""})));
                            drop(sym);
                        }
                    }
                    barrier.wait();
                    for (h, sym) in mine.iter().flatten() {
                        let at = clock.fetch_add(1, Ordering::SeqCst);
                        seen.push((at, json!({"op": "read", "h": h, "text": sym.text(), "store": ""})));
                    }
                    kept.lock().unwrap().extend(mine.into_iter().flatten().map(|m| m.1));
                    seen
                })
            })
            .collect();
        let mut log = vec![];
        for w in workers {
            match w.join() {
                Ok(s) => log.extend(s),
                Err(_) => return vec![json!({"case": c, "text": "race", "why": "a thread panics"})],
            }
        }
        log.sort_by_key(|e| e.0);
        let log: Vec<Value> = log.into_iter().map(|e| e.1).collect();
        MORE.fetch_add(log.len(), Ordering::Relaxed);
        let kept = kept.lock().unwrap();
        let by_text: HashMap<&str, usize> = kept.iter().map(|k| (k.text(), k.hash() as usize)).collect();
        let mut odd = None;
        for k in kept.iter() {
            odd = odd.or_else(|| {
                (by_text[k.text()] != k.hash() as usize).then(|| "hashes differ".to_string())
            });
        }
        // The last of many rounds is a sample; the others are shown if they look odd.
        let bad = odd.is_some() || suspicious(&log);
        if bad || round + 1 == rounds {
            // Of several sets of names that are alike, the last one is shown.
            let last = fresh.last().unwrap();
            let shown: HashSet<u64> = log
                .iter()
                .filter(|e| e["text"].as_str().unwrap().contains(last))
                .map(|e| e["h"].as_u64().unwrap())
                .collect();
            let log: Vec<Value> = log
                .into_iter()
                .filter(|e| bad || shown.contains(&e["h"].as_u64().unwrap()))
                .collect();
            let mut r = json!({"case": c, "log": log, "text": "race"});
            if let Some(w) = odd {
                r["why"] = json!(w);
            }
            out.push(r);
            if bad {
                return out;
            }
        }
    }
    out
}

/// Whether the specification would object; only to select what it gets to see.
fn suspicious(log: &[Value]) -> bool {
    let mut live: HashMap<u64, (String, String)> = HashMap::new();
    let mut of: HashMap<String, Vec<(u64, String)>> = HashMap::new();
    for e in log {
        let h = e["h"].as_u64().unwrap();
        let (t, s) = (e["text"].as_str().unwrap(), e["store"].as_str().unwrap());
        match e["op"].as_str().unwrap() {
            "make" => {
                let l = of.entry(t.into()).or_default();
                if l.iter().any(|x| x.1 != s) {
                    return true;
                }
                l.push((h, s.into()));
                live.insert(h, (t.into(), s.into()));
            }
            "drop" => {
                if let Some((t, _)) = live.remove(&h) {
                    of.get_mut(&t).unwrap().retain(|x| x.0 != h);
                }
            }
            _ => {
                if live.get(&h).map(|x| x.0.as_str()) != Some(t) {
                    return true;
                }
            }
        }
    }
    false
}

/// Very many names, none of which is ever forgotten or moved.
pub fn many(c: &Value) -> Vec<Value> {
    let n = c["n"].as_u64().unwrap();
    let stride = c["stride"].as_u64().unwrap();
    let heads = strings(&c["heads"]);
    let fresh = format!("m{}", FRESH.fetch_add(1, Ordering::SeqCst));
    let texts: Vec<String> = (0..n)
        .map(|i| {
            let k = i * stride % n;
            format!("{}{fresh}-{k}", heads[(k as usize) % heads.len()])
        })
        .collect();
    let bad = |why: String| vec![json!({"case": c, "text": "many names", "why": why})];
    let first: Vec<Name> = texts.iter().map(Name::new).collect();
    let held: Vec<*const u8> = first.iter().map(|x| x.as_ptr()).collect();
    for (i, t) in texts.iter().enumerate() {
        MORE.fetch_add(1, Ordering::Relaxed);
        let again = Name::new(t.as_str());
        if first[i] != t.as_str() || again != *t || first[i].as_ptr() != held[i] {
            return bad(format!("name {i} of {n} says {:?}, and not {t:?}", first[i]));
        }
        if again.as_ptr() != held[i] {
            return bad(format!("name {i} of {n}, {t:?}, has two storages"));
        }
        if again != first[i] || (i > 0 && again == first[i - 1]) {
            return bad(format!("name {i} of {n}, {t:?}, does not equal itself"));
        }
    }
    let distinct: HashSet<&Name> = first.iter().collect();
    if distinct.len() != texts.len() {
        return bad(format!("{} names are {} keys", texts.len(), distinct.len()));
    }
    vec![]
}
