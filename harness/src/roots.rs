//! Every nonterminal of the specification that the library can parse on its
//! own, with the entry points through which it can be parsed.

use crate::ast::*;
use pddl::parsers::*;
use pddl::*;

/// What one call of the library did.
#[derive(Default)]
pub struct Outcome {
    pub ok: bool,
    /// How many bytes were consumed, if `ok`.
    pub consumed: usize,
    pub ast: Vec<String>,
    /// How the entry points and the views of the result contradict each other.
    pub odd: Vec<String>,
}

fn inspect<T: Ast + PartialEq + Clone>(text: &str, rem: Span, v: &T, deep: bool) -> Outcome {
    let mut o = Outcome { ok: true, ..Default::default() };
    let frag: &str = rem.fragment();
    o.consumed = text.len() - frag.len().min(text.len());
    if !text.ends_with(frag) {
        o.odd.push(format!("the remainder {frag:?} is no suffix of the input"));
    } else if rem.location_offset() != o.consumed {
        o.odd.push(format!("offset {} after {} bytes", rem.location_offset(), o.consumed));
    } else {
        let lines = 1 + text[..o.consumed].bytes().filter(|&b| b == b'\n').count() as u32;
        if rem.location_line() != lines {
            o.odd.push(format!("line {} instead of {lines}", rem.location_line()));
        }
    }
    o.ast = events(v);
    if deep {
        let c = v.clone();
        if c != *v {
            o.odd.push("a clone differs from its original".into());
        }
        let mut i = In::new(&o.ast);
        match T::build(&mut i) {
            Ok(b) if i.done() => {
                if b != *v || *v != b {
                    o.odd.push("differs from the value constructed of the same parts".into());
                }
                if events(&b) != o.ast {
                    o.odd.push("constructing it of its parts gives other parts".into());
                }
            }
            Ok(_) => o.odd.push("events left over".into()),
            Err(e) => o.odd.push(format!("cannot be constructed of its parts: {e}")),
        }
    }
    o
}

fn by_fn<T: Ast + PartialEq + Clone>(
    text: &str,
    deep: bool,
    f: impl Fn(Span) -> ParseResult<T>,
) -> Outcome {
    match f(Span::new(text)) {
        Ok((rem, v)) => inspect(text, rem, &v, deep),
        Err(_) => Outcome::default(),
    }
}

fn by_parser<P, T>(text: &str, deep: bool, f: impl Fn(P::Item) -> T) -> Outcome
where
    P: Parser,
    P::Item: PartialEq,
    T: Ast + PartialEq + Clone,
{
    let first = P::parse(text).map(|(r, v)| (r, f(v)));
    let mut o = match &first {
        Ok((rem, v)) => inspect(text, *rem, v, deep),
        Err(_) => Outcome::default(),
    };
    if !deep {
        return o;
    }
    match (&first, P::parse_span(Span::new(text))) {
        (Ok((r, v)), Ok((r2, v2))) => {
            if r.fragment() != r2.fragment() || *v != f(v2) {
                o.odd.push("parse_span disagrees with parse".into());
            }
        }
        (Err(_), Err(_)) => {}
        _ => o.odd.push("parse_span disagrees with parse".into()),
    }
    match (&first, P::from_str(text)) {
        (Ok((_, v)), Ok(v2)) => {
            if *v != f(v2) {
                o.odd.push("from_str disagrees with parse".into());
            }
        }
        (Err(_), Err(_)) => {}
        _ => o.odd.push("from_str disagrees with parse".into()),
    }
    if let Ok((_, _)) = &first {
        let v = P::parse(text).unwrap_value();
        if !P::parse(text).is_value(v) {
            o.odd.push("is_value denies the parsed value".into());
        }
    }
    o
}

pub type Run = fn(&str, bool) -> Outcome;

/// Parses a span and goes on from its end: the events and the rest.
pub type Go = for<'a> fn(Span<'a>) -> Option<(Vec<String>, Span<'a>)>;

fn go_on<'a, P>(s: Span<'a>) -> Option<(Vec<String>, Span<'a>)>
where
    P: Parser,
    P::Item: Ast,
{
    P::parse_span(s).ok().map(|(r, v)| (events(&v), r))
}

/// Values of one type, known by their events.
pub trait Kit {
    /// What the views show: of the parsed value, or of one that is built.
    fn views(&self, text: Option<&str>, ev: &[String]) -> B<Vec<(usize, &'static str, Saw)>>;
    /// Constructs and looks at the value in other ways; what is odd about it.
    fn ways(&self, text: Option<&str>, ev: &[String], ways: &[u64]) -> Vec<String>;
    /// Compares all the values that can be constructed of these events.
    /// Returns how many there were, and what is odd.
    fn pairs(&self, evs: &[Vec<String>], ways: &[u64]) -> (usize, Vec<String>);
}

struct Of<T>(fn(&str) -> Option<T>);

fn made<T: Ast>(ev: &[String], way: u64) -> B<T> {
    let mut i = In::by(ev, way);
    let v = T::build(&mut i)?;
    if !i.done() {
        return Err("events left over".into());
    }
    Ok(v)
}

impl<T: Ast> Of<T> {
    fn value(&self, text: Option<&str>, ev: &[String]) -> B<T> {
        match text {
            Some(t) => (self.0)(t).ok_or_else(|| "is rejected".to_string()),
            None => made(ev, 0),
        }
    }
}

impl<T: Ast> Kit for Of<T> {
    fn views(&self, text: Option<&str>, ev: &[String]) -> B<Vec<(usize, &'static str, Saw)>> {
        let v = self.value(text, ev)?;
        if events(&v) != ev {
            return Err(format!("has the parts {}", events(&v).join(" ")));
        }
        Ok(views(&v))
    }

    fn ways(&self, text: Option<&str>, ev: &[String], ways: &[u64]) -> Vec<String> {
        let v = match self.value(text, ev) {
            Ok(v) => v,
            Err(e) => return vec![e],
        };
        let mut odd = vec![];
        let c = v.clone();
        if v.same(&c).contains(&false) || c.same(&v).contains(&false) {
            odd.push("a clone is not the same".into());
        }
        for &w in ways {
            let seen = events_by(&v, w);
            if seen != ev {
                odd.push(format!("looks like {} in way {w}", seen.join(" ")));
            }
            match made::<T>(ev, w) {
                Err(e) => odd.push(format!("cannot be constructed in way {w}: {e}")),
                Ok(b) => {
                    if v.same(&b).contains(&false) || b.same(&v).contains(&false) {
                        odd.push(format!("is not the same as constructed in way {w}"));
                    }
                    let seen = events_by(&b, w / 2);
                    if seen != ev {
                        odd.push(format!("has the parts {} if made in way {w}", seen.join(" ")));
                    }
                }
            }
        }
        odd
    }

    fn pairs(&self, evs: &[Vec<String>], ways: &[u64]) -> (usize, Vec<String>) {
        let mut vs: Vec<(usize, T)> = vec![];
        let mut odd = vec![];
        for (k, ev) in evs.iter().enumerate() {
            let w = if ways.is_empty() { 0 } else { ways[k % ways.len()] };
            let Ok(v) = made::<T>(ev, w) else { continue };
            if events(&v) != *ev {
                odd.push(format!("{} has the parts {}", ev.join(" "), events(&v).join(" ")));
            }
            vs.push((k, v));
        }
        for (a, x) in &vs {
            for (b, y) in &vs {
                let want = evs[*a] == evs[*b];
                if x.same(y).iter().any(|&s| s != want) {
                    odd.push(format!(
                        "{} equals {}: {:?}",
                        evs[*a].join(" "),
                        evs[*b].join(" "),
                        x.same(y)
                    ));
                }
            }
        }
        (vs.len(), odd)
    }
}

fn whole<P: Parser>(s: &str) -> Option<P::Item> {
    P::parse(s).ok().map(|(_, v)| v)
}

macro_rules! parsers {
    ($($n:literal => $t:ty),* $(,)?) => {
        pub fn kit(root: &str) -> Option<Box<dyn Kit>> {
            fn of<T: Ast + 'static>(f: fn(&str) -> Option<T>) -> Option<Box<dyn Kit>> {
                Some(Box::new(Of(f)))
            }
            match root {
                $($n => of::<$t>(whole::<$t>),)*
                "NameList" => of(|s| Some(typed_list(parse_name)(Span::new(s)).ok()?.1)),
                "VarList" => of(|s| Some(typed_list(parse_variable)(Span::new(s)).ok()?.1)),
                "FSkelList" => {
                    of(|s| Some(function_typed_list(parse_atomic_function_skeleton)(Span::new(s)).ok()?.1))
                }
                "AFt" => of(|s| Some(atomic_formula(parse_term)(Span::new(s)).ok()?.1)),
                "AFn" => of(|s| Some(atomic_formula(parse_name)(Span::new(s)).ok()?.1)),
                "LitT" => of(|s| Some(literal(parse_term)(Span::new(s)).ok()?.1)),
                "LitN" => of(|s| Some(literal(parse_name)(Span::new(s)).ok()?.1)),
                "DurC" => of(|s| whole::<DurationConstraint>(s).map(OptDuration)),
                "FType" => of(|s| whole::<FunctionType>(s).map(ftype)),
                _ => None,
            }
        }

        const BY_PARSER: &[(&str, Run)] = &[
            $(($n, |s, d| by_parser::<$t, $t>(s, d, |x| x)),)*
        ];
        const GO_ON: &[(&str, Go)] = &[$(($n, go_on::<$t>),)*];
    };
}

parsers! {
    "Name" => Name, "Var" => Variable, "Num" => Number, "PType" => PrimitiveType,
    "BinOp" => BinaryOp, "MulOp" => MultiOp, "AssignOp" => AssignOp, "AssignOpT" => AssignOpT,
    "DOp" => DOp, "Time" => TimeSpecifier, "Over" => Interval, "Optim" => Optimization,
    "CmpOpAll" => BinaryComp, "ReqKey" => Requirement,
    "HeadP" => Predicate, "HeadF" => FunctionSymbol, "NameA" => ActionSymbol,
    "NameD" => DurativeActionSymbol, "NameP" => PreferenceName,
    "Term" => Term, "FTerm" => FunctionTerm, "BFT" => BasicFunctionTerm,
    "FHead" => FHead, "FExp" => FExp, "FComp" => FComp, "FExpDa" => FExpDa, "FExpT" => FExpT,
    "MExp" => MetricFExp, "Metric" => MetricSpec,
    "GD" => GoalDefinition, "PrefGD" => PreferenceGD, "PreGDs" => PreconditionGoalDefinitions,
    "Goal" => GoalDef,
    "ConGD" => ConGD, "Con2" => Con2GD, "PrefConGDs" => PrefConGDs,
    "DConstraints" => DomainConstraintsDef, "PConstraints" => ProblemConstraintsDef,
    "PEffect" => PEffect, "CondEffect" => ConditionalEffect, "CEffect" => CEffect,
    "Effects" => Effects,
    "CForall" => ForallCEffect, "CWhen" => WhenCEffect,
    "TimedGD" => TimedGD, "PrefTimedGD" => PrefTimedGD, "DaGD" => DurativeActionGoalDefinition,
    "DValue" => DurationValue, "SDurC" => SimpleDurationConstraint,
    "FAssignDa" => FAssignDa, "TimedEffect" => TimedEffect, "DaEffect" => DurativeActionEffect,
    "Type" => Type, "Skel" => AtomicFormulaSkeleton, "FSkel" => AtomicFunctionSkeleton,
    "Requirements" => Requirements, "Types" => Types, "Constants" => Constants,
    "Objects" => Objects, "Predicates" => PredicateDefinitions, "Functions" => Functions,
    "Timeless" => Timeless,
    "Action" => ActionDefinition, "DurativeAction" => DurativeActionDefinition,
    "Derived" => DerivedPredicate, "Structure" => StructureDef,
    "Domain" => Domain, "Problem" => Problem,
    "InitEl" => InitElement, "Init" => InitElements, "Length" => LengthSpec,
}

fn ftype(t: FunctionType) -> Type {
    (*t).clone()
}

const BY_FN: &[(&str, Run)] = &[
    ("NameList", |s, d| by_fn(s, d, |i| typed_list(parse_name)(i))),
    ("VarList", |s, d| by_fn(s, d, |i| typed_list(parse_variable)(i))),
    ("FSkelList", |s, d| by_fn(s, d, |i| function_typed_list(parse_atomic_function_skeleton)(i))),
    ("AFt", |s, d| by_fn(s, d, |i| atomic_formula(parse_term)(i))),
    ("AFn", |s, d| by_fn(s, d, |i| atomic_formula(parse_name)(i))),
    ("LitT", |s, d| by_fn(s, d, |i| literal(parse_term)(i))),
    ("LitN", |s, d| by_fn(s, d, |i| literal(parse_name)(i))),
    ("DurC", |s, d| by_parser::<DurationConstraint, OptDuration>(s, d, OptDuration)),
    ("FType", |s, d| by_parser::<FunctionType, Type>(s, d, ftype)),
];

pub fn find(root: &str) -> Option<Run> {
    BY_PARSER.iter().chain(BY_FN).find(|(n, _)| *n == root).map(|(_, f)| *f)
}

pub fn go(root: &str) -> Option<Go> {
    GO_ON.iter().find(|(n, _)| *n == root).map(|(_, f)| *f)
}

pub fn names() -> Vec<&'static str> {
    BY_PARSER.iter().chain(BY_FN).map(|(n, _)| *n).collect()
}
