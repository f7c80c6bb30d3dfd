//! The conformance driver: runs the real library on what the specification
//! generated, and records what the real library did for the specification to
//! explain.
//!
//! Reads one JSON object per line from a file, writes one JSON object per line.

mod ast;
mod intern;
mod number;
mod roots;
mod values;
mod vocab;

use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// How many runs of the library were compared, beyond one per case.
static MORE: AtomicUsize = AtomicUsize::new(0);

/// Whether a known finding was seen; once is enough.
static FOUND: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// How long one case may take before it counts as not terminating.
const HANG: Duration = Duration::from_secs(60);

fn strings(v: &Value) -> Vec<String> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect())
        .unwrap_or_default()
}

/// Spells out what stands for characters that the specification cannot write.
fn spell(s: &str) -> String {
    if !s.contains('{') {
        return s.to_string();
    }
    s.replace("{u}", "\u{e9}\u{3a9}\u{2028}\u{1d11e}\u{0}\u{a0}")
        .replace("{nul}", "\0")
        .replace("{bom}", "\u{feff}")
        .replace("{nbsp}", "\u{a0}")
        .replace("{astral}", "\u{1f600}")
        .replace("{comb}", "e\u{301}")
        .replace("{arabic}", "\u{661}\u{662}")
        .replace("{wide}", "\u{ff08}\u{ff41}\u{ff09}")
        .replace("{esc}", "\u{1b}[0m\u{7f}\u{b}\u{c}")
        .replace("{ls}", "\u{2028}\u{85}")
        .replace("{many}", &" ; more (\n;\n".repeat(30))
        .replace("{long}", &"long ) ".repeat(60))
}

/// The text of a case. Without explicit gaps, tokens are separated by single
/// spaces, except on the inner side of parentheses.
/// Returns the text and the end of each token.
fn render(toks: &[String], gaps: &[String]) -> (String, Vec<usize>) {
    let mut s = String::new();
    let mut ends = vec![];
    for (i, t) in toks.iter().enumerate() {
        if !gaps.is_empty() {
            s.push_str(&spell(&gaps[i]));
        } else if i > 0 && toks[i - 1] != "(" && t != ")" {
            s.push(' ');
        }
        s.push_str(t);
        ends.push(s.len());
    }
    if let Some(g) = gaps.get(toks.len()) {
        s.push_str(&spell(g));
    }
    (s, ends)
}

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

/// The spec says: this text is in the language and this is its tree.
fn replay(c: &Value) -> Vec<Value> {
    let root = c["root"].as_str().unwrap_or("");
    let run = roots::find(root).unwrap_or_else(|| panic!("no root {root}"));
    let toks = strings(&c["toks"]);
    let (text, _) = render(&toks, &strings(&c["gaps"]));
    let want = strings(&c["ast"]);
    let suffix = c["suffix"].as_str().unwrap_or("");
    let input = format!("{text}{suffix}");
    let bad = |why: String| vec![json!({"case": c, "text": input, "why": why})];
    match guarded(|| run(&input, true)) {
        Err(p) => bad(format!("panicked: {p}")),
        Ok(o) if !o.ok => bad("rejected, but it is in the language".into()),
        Ok(o) => {
            if o.consumed != text.len() {
                return bad(format!("consumed {} bytes instead of {}", o.consumed, text.len()));
            }
            if o.ast != want {
                let at = o.ast.iter().zip(&want).position(|(a, b)| a != b);
                let at = at.unwrap_or(o.ast.len().min(want.len()));
                return bad(format!(
                    "another tree: event {at} is {:?} instead of {:?}; got {}",
                    o.ast.get(at),
                    want.get(at),
                    o.ast.join(" ")
                ));
            }
            match o.odd.first() {
                Some(w) => bad(w.clone()),
                None => vec![],
            }
        }
    }
}

/// What does the library make of these tokens?
fn record(c: &Value) -> Vec<Value> {
    let root = c["root"].as_str().unwrap_or("");
    let run = roots::find(root).unwrap_or_else(|| panic!("no root {root}"));
    let toks = strings(&c["toks"]);
    let (text, ends) = render(&toks, &strings(&c["gaps"]));
    let mut r = c.clone();
    let m = r.as_object_mut().unwrap();
    match guarded(|| run(&text, true)) {
        Err(p) => {
            m.insert("res".into(), json!("panic"));
            m.insert("why".into(), json!(p));
        }
        Ok(o) if !o.ok => {
            m.insert("res".into(), json!("rejected"));
            m.insert("ast".into(), json!([]));
            m.insert("n".into(), json!(0));
        }
        Ok(o) => {
            // Trailing layout may or may not have been consumed.
            let n = ends.iter().filter(|&&e| e <= o.consumed).count();
            let end = if n == 0 { 0 } else { ends[n - 1] };
            let cut = n < toks.len() && o.consumed > ends[n] - toks[n].len();
            let res = if cut || !text[end..o.consumed].chars().all(char::is_whitespace) {
                "cut"
            } else {
                "accepted"
            };
            m.insert("res".into(), json!(res));
            m.insert("ast".into(), json!(o.ast));
            m.insert("n".into(), json!(n));
            if let Some(w) = o.odd.first() {
                m.insert("odd".into(), json!(w));
            }
        }
    }
    vec![r]
}

/// All spellings of a text mean the same. A case with `pool` defines the gaps
/// that the following cases refer to.
fn layouts(c: &Value, pool: &[String]) -> Vec<Value> {
    let root = c["root"].as_str().unwrap_or("");
    let run = roots::find(root).unwrap_or_else(|| panic!("no root {root}"));
    let toks = strings(&c["toks"]);
    let want = strings(&c["ast"]);
    let unknown = want.first().map(|s| s.as_str()) == Some("?");
    let vary = c["vary"].as_array().unwrap();
    let plain: Vec<String> = vary.iter().map(|v| v["plain"].as_str().unwrap().into()).collect();
    // Whether it is accepted, its tree, how many words it has.
    let judge = |gaps: &[String], deep: bool| -> Result<(bool, Vec<String>, usize, String), String> {
        let (text, ends) = render(&toks, gaps);
        let o = guarded(|| run(&text, deep)).map_err(|p| format!("panicked: {p}"))?;
        if o.ok && !unknown && o.consumed < *ends.last().unwrap_or(&0) {
            return Err(format!("consumed only {} bytes", o.consumed));
        }
        if let Some(w) = o.odd.first() {
            return Err(w.clone());
        }
        let n = ends.iter().filter(|&&e| e <= o.consumed).count();
        Ok(if o.ok { (true, o.ast, n, text) } else { (false, vec![], 0, text) })
    };
    let tell = |gaps: &[String], why: String| {
        let (text, _) = render(&toks, gaps);
        let mut one = json!({"root": root, "toks": toks, "gaps": gaps});
        if !unknown {
            one["ast"] = json!(want);
        }
        vec![json!({"case": one, "text": text, "why": why})]
    };
    let base = match judge(&plain, true) {
        Err(w) => return tell(&plain, w),
        Ok(b) => b,
    };
    if !unknown && !(base.0 && base.1 == want) {
        return tell(&plain, "rejected, or read as another tree".into());
    }
    let check = |gaps: &[String]| -> Option<Vec<Value>> {
        MORE.fetch_add(1, Ordering::Relaxed);
        let why = match judge(gaps, false) {
            Err(w) => w,
            Ok(o) if o.0 != base.0 => {
                let s = |b| if b { "accepted" } else { "rejected" };
                format!("{} with this layout, but {} as {:?}", s(o.0), s(base.0), base.3)
            }
            Ok(o) if (&o.1, o.2) != (&base.1, base.2) => {
                format!("another tree than for {:?}: {}", base.3, o.1.join(" "))
            }
            Ok(_) => return None,
        };
        Some(tell(gaps, why))
    };
    for w in c["walks"].as_array().unwrap() {
        if let Some(r) = check(&strings(w)) {
            return r;
        }
    }
    let mut gaps = plain.clone();
    for (i, v) in vary.iter().enumerate() {
        let lead = v["lead"].as_str().unwrap();
        for e in v["may"].as_array().unwrap() {
            let e = e.as_u64().unwrap() as usize;
            gaps[i] = if e == 0 { lead.into() } else { format!("{lead}{}", pool[e - 1]) };
            if let Some(r) = check(&gaps) {
                return r;
            }
        }
        gaps[i] = plain[i].clone();
    }
    // What is known not to work, and which ought to be listed as such.
    for (i, v) in vary.iter().enumerate() {
        for e in v["known"].as_array().unwrap() {
            let e = e.as_u64().unwrap() as usize;
            let mut gaps = plain.clone();
            gaps[i] = if e == 0 { String::new() } else { pool[e - 1].clone() };
            if let Some(mut r) = check(&gaps) {
                if !FOUND.swap(true, Ordering::SeqCst) {
                    r[0]["finding"] = json!("gap-after-optimization");
                    return r;
                }
            }
        }
    }
    // The same gap everywhere.
    for e in 0..=pool.len() {
        let may = |v: &Value| v["may"].as_array().unwrap().iter().any(|x| x == e);
        let gaps: Vec<String> = vary
            .iter()
            .map(|v| {
                let lead = v["lead"].as_str().unwrap();
                match may(v) {
                    false => v["plain"].as_str().unwrap().to_string(),
                    true if e == 0 => lead.into(),
                    true => format!("{lead}{}", pool[e - 1]),
                }
            })
            .collect();
        if let Some(r) = check(&gaps) {
            return r;
        }
    }
    vec![]
}

/// Texts, and what the library has to make of them, root by root.
fn texts(c: &Value) -> Vec<Value> {
    let text = c["text"].as_str().unwrap_or("");
    let mut bad = vec![];
    for e in c["expect"].as_array().unwrap() {
        MORE.fetch_add(1, Ordering::Relaxed);
        let root = e[0].as_str().unwrap();
        let run = roots::find(root).unwrap_or_else(|| panic!("no root {root}"));
        let want = &e[1];
        let ok = want["ok"].as_bool().unwrap();
        let ast = strings(&want["ast"]);
        let n = want["n"].as_u64().unwrap() as usize;
        let why = match guarded(|| run(text, true)) {
            Err(p) => format!("{root} panicked: {p}"),
            Ok(o) if !o.ok && want["lax"] == true => continue,
            Ok(o) if o.ok != ok && ok => format!("{root} rejects it"),
            Ok(o) if o.ok != ok => format!("{root} accepts it as {}", o.ast.join(" ")),
            Ok(o) if !o.odd.is_empty() => o.odd[0].clone(),
            Ok(o) if ok && o.consumed != n => format!("{root} reads {} bytes, not {n}", o.consumed),
            Ok(o) if ok && o.ast != ast => {
                format!("{root} gives {} and not {}", o.ast.join(" "), ast.join(" "))
            }
            Ok(_) => continue,
        };
        bad.push(json!({"case": {"text": text, "expect": [e]}, "text": text, "why": why}));
    }
    bad
}

/// A decimal denotes the value with these bits (or none, if that is not finite).
fn decimals(c: &Value) -> Vec<Value> {
    use pddl::{Number, Parser};
    let text = c["text"].as_str().unwrap_or("");
    let bits = |k: &str| c[k].as_u64().unwrap() as u32;
    let want = f32::from_bits(bits("e") << 23 | bits("f"));
    let want = want.is_finite().then_some(want);
    let bad = |why: String| vec![json!({"case": c, "text": text, "why": why})];
    let got = match guarded(|| Number::parse(text).ok().map(|(r, n)| (r.is_empty(), *n))) {
        Err(p) => return bad(format!("panicked: {p}")),
        Ok(g) => g,
    };
    if got.map(|g| (g.0, g.1.to_bits())) != want.map(|w| (true, w.to_bits())) {
        return bad(format!("is read as {:?} and not as {want:?}", got.map(|g| g.1)));
    }
    let string = guarded(|| text.parse::<Number>().ok().map(|n| n.to_bits()));
    if string != Ok(want.map(|w| w.to_bits())) {
        return bad(format!("converts to {string:?} and not to {want:?}"));
    }
    for root in ["InitEl", "ConGD"] {
        MORE.fetch_add(1, Ordering::Relaxed);
        let input = match root {
            "InitEl" => format!("(= (f) {text})"),
            _ => format!("(within {text} (p))"),
        };
        let o = match guarded(|| roots::find(root).unwrap()(&input, true)) {
            Err(p) => return bad(format!("panicked: {p}")),
            Ok(o) => o,
        };
        let seen = o.ast.iter().find(|e| e.starts_with('#')).map(|e| e[1..].to_string());
        if o.ok != want.is_some() || seen != want.map(|w| w.to_string()) || !o.odd.is_empty() {
            return bad(format!("{root} reads {seen:?} and not {want:?}"));
        }
    }
    vec![]
}

/// Several constructs, parsed one after the other from what is left.
fn stream(c: &Value) -> Vec<Value> {
    let text = spell(c["text"].as_str().unwrap_or(""));
    let bad = |why: String| vec![json!({"case": c, "text": text, "why": why})];
    let mut rest = pddl::parsers::Span::new(&text);
    for (i, e) in c["log"].as_array().unwrap().iter().enumerate() {
        MORE.fetch_add(1, Ordering::Relaxed);
        let root = e["root"].as_str().unwrap();
        let f = roots::go(root).unwrap_or_else(|| panic!("no root {root}"));
        let end = e["end"].as_u64().unwrap() as usize;
        let line = e["line"].as_u64().unwrap() as usize;
        let (ast, r) = match guarded(|| f(rest)) {
            Err(p) => return bad(format!("construct {i}, a {root}, panics: {p}")),
            Ok(None) => return bad(format!("construct {i}, a {root}, is rejected")),
            Ok(Some(x)) => x,
        };
        if ast != strings(&e["ast"]) {
            return bad(format!("construct {i}, a {root}, gives {}", ast.join(" ")));
        }
        // Layout that follows may or may not have been consumed.
        let at = r.location_offset();
        if at < end || at > text.len() || layout(&text[end..at]).is_none() {
            return bad(format!("after construct {i}, a {root}, the rest begins at {at}, not {end}"));
        }
        if *r.fragment() != &text[at..] {
            return bad(format!("after construct {i}, a {root}, the rest is {:?}", r.fragment()));
        }
        let lines = line + text[end..at].matches('\n').count();
        if r.location_line() as usize != lines {
            return bad(format!("after construct {i}, the line is {}, not {lines}", r.location_line()));
        }
        // The same construct alone.
        let alone = guarded(|| roots::find(root).unwrap()(&text[end - len_of(e)..end], true));
        match alone {
            Err(p) => return bad(format!("construct {i}, a {root}, alone panics: {p}")),
            Ok(o) if !o.ok || o.ast != ast || !o.odd.is_empty() => {
                return bad(format!("construct {i}, a {root}, is another one on its own"))
            }
            Ok(_) => {}
        }
        // The reader skips the layout before the next construct by itself.
        rest = match skip(r) {
            Some(r) => r,
            None => return bad(format!("layout after construct {i} cannot be skipped")),
        };
    }
    vec![]
}

fn skip(s: pddl::parsers::Span) -> Option<pddl::parsers::Span> {
    let space: pddl::parsers::ParseResult<_> = nom::character::complete::multispace0(s);
    Some(pddl::parsers::ignore_eol_comment(space.ok()?.0).ok()?.0)
}

fn len_of(e: &Value) -> usize {
    e["len"].as_u64().unwrap() as usize
}

/// Whether a text is nothing but white space and comments.
fn layout(s: &str) -> Option<()> {
    let mut comment = false;
    for c in s.chars() {
        match c {
            '\n' | '\r' => comment = false,
            ';' => comment = true,
            _ if comment || c.is_whitespace() => {}
            _ => return None,
        }
    }
    Some(())
}

/// Any input at all: the library returns, what is left is a suffix, and asking
/// again gives the same answer.
fn any(c: &Value) -> Vec<Value> {
    let part = |k: &str| spell(c[k].as_str().unwrap_or(""));
    let times = |k: &str| c[k].as_u64().unwrap_or(0) as usize;
    let text = match c["open"].as_str() {
        None => part("text"),
        Some(_) => [
            part("front"),
            part("open").repeat(times("n")),
            part("core"),
            part("close").repeat(times("m")),
            part("tail"),
        ]
        .concat(),
    };
    let mut bad = vec![];
    let all = roots::names();
    let one = c["root"].as_str();
    let short: String = text.chars().take(2000).collect();
    for root in all.into_iter().filter(|r| one.is_none() || one == Some(r)) {
        MORE.fetch_add(1, Ordering::Relaxed);
        let run = roots::find(root).unwrap();
        let t = Instant::now();
        let why = match guarded(|| run(&text, text.len() < 300)) {
            Err(p) => format!("{root} panicked: {p}"),
            Ok(o) => match o.odd.first() {
                Some(w) => format!("{root}: {w}"),
                None => match guarded(|| run(&text, false)) {
                    Ok(p) if (p.ok, p.consumed, &p.ast) == (o.ok, o.consumed, &o.ast) => {
                        if t.elapsed() < Duration::from_secs(30) {
                            continue;
                        }
                        format!("{root} takes {:?} for {} bytes", t.elapsed(), text.len())
                    }
                    _ => format!("{root} gives another answer when it is asked again"),
                },
            },
        };
        let mut one = c.clone();
        one["root"] = json!(root);
        bad.push(json!({"case": one, "text": short, "why": why}));
    }
    bad
}

type Job = Box<dyn Fn(&Value) -> Vec<Value> + Send + Sync>;

fn run_all(cases: Vec<Value>, job: Job, threads: usize) -> Vec<Value> {
    let n = cases.len();
    let cases = Arc::new(cases);
    let job = Arc::new(job);
    let next = Arc::new(AtomicUsize::new(0));
    let results: Arc<Mutex<BTreeMap<usize, Vec<Value>>>> = Default::default();
    let t0 = Instant::now();
    let current: Arc<Vec<(AtomicUsize, AtomicU64)>> =
        Arc::new((0..threads).map(|_| (AtomicUsize::new(usize::MAX), AtomicU64::new(0))).collect());
    let workers: Vec<_> = (0..threads)
        .map(|w| {
            let (cases, next, results, current) =
                (cases.clone(), next.clone(), results.clone(), current.clone());
            let job = job.clone();
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= cases.len() {
                        current[w].0.store(usize::MAX, Ordering::SeqCst);
                        return;
                    }
                    current[w].1.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                    current[w].0.store(i, Ordering::SeqCst);
                    let r = job(&cases[i]);
                    if !r.is_empty() {
                        results.lock().unwrap().insert(i, r);
                    }
                })
                .unwrap()
        })
        .collect();
    while workers.iter().any(|w| !w.is_finished()) {
        std::thread::sleep(Duration::from_millis(if n < 2000 { 2 } else { 20 }));
        for (i, since) in current.iter() {
            let i = i.load(Ordering::SeqCst);
            let since = Duration::from_millis(since.load(Ordering::SeqCst));
            if i != usize::MAX && t0.elapsed().saturating_sub(since) > HANG {
                let c = &cases[i];
                println!("{}", json!({"case": c, "why": "does not terminate", "hang": true}));
                std::io::stdout().flush().unwrap();
                std::process::exit(3);
            }
        }
    }
    for w in workers {
        w.join().expect("a worker of the driver panicked");
    }
    let r = std::mem::take(&mut *results.lock().unwrap());
    r.into_values().flatten().collect()
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        // Panics of the code under test are results; those of the driver are not.
        if std::thread::current().name() == Some("main") {
            eprintln!("{info}");
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    if cmd == "roots" {
        println!("{}", json!(roots::names()));
        return;
    }
    let text = match args.get(2) {
        Some(f) => std::fs::read_to_string(f).expect("cannot read the cases"),
        None => String::new(),
    };
    let mut cases: Vec<Value> =
        text.lines().map(|l| serde_json::from_str(l).expect("bad case")).collect();
    // The cases share what the first one defines.
    let head = match cases.first() {
        Some(c) if c.get("head").is_some() => cases.remove(0)["head"].take(),
        _ => json!({}),
    };
    let job: Job = match cmd {
        "replay" => Box::new(replay),
        "record" => Box::new(record),
        "any" => Box::new(any),
        "texts" => Box::new(texts),
        "stream" => Box::new(stream),
        "decimals" => Box::new(decimals),
        "intern" => Box::new(intern::intern),
        "race" => Box::new(intern::race),
        "many" => Box::new(intern::many),
        "pairs" => Box::new(number::pairs),
        "order" => Box::new(number::order),
        "convert" => Box::new(number::convert),
        "views" => Box::new(values::views),
        "ways" => Box::new(values::ways),
        "alike" => Box::new(values::alike),
        "builder" => Box::new(move |c| values::builder(c, &head)),
        "words" => Box::new(vocab::words),
        "requires" => Box::new(move |c| vocab::requires(c, &head)),
        "subsets" => Box::new(move |c| vocab::subsets(c, &head)),
        "layouts" => {
            let mut pool = strings(&head["pool"]);
            pool.extend(strings(&head["last"]));
            Box::new(move |c| layouts(c, &pool))
        }
        _ => {
            eprintln!("usage: pddl-conformance replay|record|any|layouts FILE");
            std::process::exit(2);
        }
    };
    let n = cases.len();
    // Races are run one at a time; they need the processors for themselves.
    let results = run_all(cases, job, if cmd == "race" { 1 } else { 8 });
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for r in &results {
        writeln!(out, "{r}").unwrap();
    }
    writeln!(out, "{}", json!({"summary": {"cases": n, "results": results.len(),
        "more": MORE.load(Ordering::SeqCst)}})).unwrap();
}
