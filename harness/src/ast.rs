//! The projection of the library's abstract syntax onto the events of the
//! specification (`emit`) and its inverse through the public constructors
//! (`build`).  The vocabulary of events is that of spec/Pddl.tla.
//!
//! Lexemes are written as they are spelled, variables with their `?`, numbers
//! as `#` and the shortest decimal of their value.

use pddl::*;

/// Which of several equivalent ways to construct or to look at a value is
/// taken; 0 is always the first one.
#[derive(Clone, Copy, Default)]
pub struct Way(pub u64);

impl Way {
    /// One of n ways.
    fn pick(&mut self, n: usize) -> usize {
        if self.0 == 0 {
            return 0;
        }
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        ((self.0 >> 11) % n as u64) as usize
    }
}

/// What a view of a value showed.
#[derive(Debug, PartialEq, Clone)]
pub enum Saw {
    Yes(bool),
    Count(usize),
    /// The elements, as events.
    Items(Vec<Vec<String>>),
}

#[derive(Default)]
pub struct Out {
    pub ev: Vec<String>,
    way: Way,
    /// The views, if they are asked for: where, which and what it showed.
    pub saw: Option<Vec<(usize, &'static str, Saw)>>,
}

impl Out {
    pub fn w<S: Into<String>>(&mut self, s: S) {
        self.ev.push(s.into());
    }
    pub fn open(&mut self, s: &str) {
        self.ev.push(format!("<{s}"));
    }
    pub fn close(&mut self) {
        self.ev.push(">".into());
    }
    fn pick(&mut self, n: usize) -> usize {
        self.way.pick(n)
    }
    /// Notes what a view shows of the value that is emitted next.
    fn see(&mut self, view: &'static str, f: impl FnOnce() -> Saw) {
        let at = self.ev.len();
        if let Some(v) = &mut self.saw {
            v.push((at, view, f()));
        }
    }
    fn yes(&mut self, view: &'static str, f: impl FnOnce() -> bool) {
        self.see(view, || Saw::Yes(f()));
    }
    fn count(&mut self, view: &'static str, f: impl FnOnce() -> usize) {
        self.see(view, || Saw::Count(f()));
    }
    fn items<T: Ast, I: IntoIterator<Item = T>>(&mut self, view: &'static str, f: impl FnOnce() -> I) {
        self.see(view, || Saw::Items(f().into_iter().map(|x| events(&x)).collect()));
    }
}

/// Reads events. An `Err` means that the events are none of the type's.
pub struct In<'a> {
    ev: &'a [String],
    pos: usize,
    way: Way,
}

pub type B<T> = Result<T, String>;

impl<'a> In<'a> {
    pub fn new(ev: &'a [String]) -> Self {
        In { ev, pos: 0, way: Way(0) }
    }
    pub fn by(ev: &'a [String], way: u64) -> Self {
        In { ev, pos: 0, way: Way(way) }
    }
    fn pick(&mut self, n: usize) -> usize {
        self.way.pick(n)
    }
    fn peek(&self) -> &'a str {
        self.ev.get(self.pos).map(|s| s.as_str()).unwrap_or("")
    }
    fn next(&mut self) -> B<&'a str> {
        let s = self.ev.get(self.pos).ok_or("out of events")?;
        self.pos += 1;
        Ok(s)
    }
    fn expect(&mut self, s: &str) -> B<()> {
        let n = self.next()?;
        if n == s {
            Ok(())
        } else {
            Err(format!("expected {s}, found {n} at {}", self.pos))
        }
    }
    fn open(&mut self, s: &str) -> B<()> {
        self.expect(&format!("<{s}"))
    }
    fn close(&mut self) -> B<()> {
        self.expect(">")
    }
    fn at(&mut self, s: &str) -> bool {
        if self.peek() == s {
            self.pos += 1;
            true
        } else {
            false
        }
    }
    fn many<T: Ast>(&mut self) -> B<Vec<T>> {
        let mut v = vec![];
        while self.peek() != ">" {
            v.push(T::build(self)?);
        }
        Ok(v)
    }
    pub fn done(&self) -> bool {
        self.pos == self.ev.len()
    }
}

pub trait Ast: Sized + Clone + PartialEq {
    fn emit(&self, o: &mut Out);
    fn build(i: &mut In) -> B<Self>;

    /// Gives it a type.
    fn typed(self, t: Type, _: &mut In) -> Typed<Self> {
        Typed::new(self, t)
    }

    /// Every comparison with a value of the same or of another type that
    /// represents the same.
    fn same(&self, other: &Self) -> Vec<bool> {
        vec![self == other, other == self]
    }
}

pub fn events<T: Ast>(t: &T) -> Vec<String> {
    events_by(t, 0)
}

/// The events, seen in one of many ways.
pub fn events_by<T: Ast>(t: &T, way: u64) -> Vec<String> {
    let mut o = Out { way: Way(way), ..Default::default() };
    t.emit(&mut o);
    o.ev
}

/// Everything that the views of a value and of its parts show.
pub fn views<T: Ast>(t: &T) -> Vec<(usize, &'static str, Saw)> {
    let mut o = Out { saw: Some(vec![]), ..Default::default() };
    t.emit(&mut o);
    o.saw.unwrap()
}

fn all<T: Ast>(o: &mut Out, xs: &[T]) {
    for x in xs {
        x.emit(o);
    }
}

fn txt<T: AsRef<str>>(t: &T) -> String {
    t.as_ref().to_string()
}

// ------------------------------------------------------------------ lexemes

impl Ast for Name {
    fn emit(&self, o: &mut Out) {
        match o.pick(4) {
            0 => o.w(txt(self)),
            1 => o.w(<Name as AsRef<str>>::as_ref(self)),
            2 => o.w(&**self),
            _ => o.w(self.chars().collect::<String>()),
        }
    }
    fn build(i: &mut In) -> B<Self> {
        let s = i.next()?;
        Ok(match i.pick(5) {
            0 => Name::new(s),
            1 => Name::new(s.to_string()),
            2 => Name::from(s),
            3 => Name::from(&s.to_string()),
            _ => Name::from(s).clone(),
        })
    }
    fn typed(self, t: Type, i: &mut In) -> Typed<Self> {
        typed_by(self, t, i)
    }
}

fn typed_by<T: ToTyped<T>>(v: T, t: Type, i: &mut In) -> Typed<T> {
    match (i.pick(3), t) {
        (0, t) => Typed::new(v, t),
        (1, Type::Exactly(p)) => v.to_typed(&*p),
        (2, Type::Exactly(p)) => v.to_typed(p),
        (1, Type::EitherOf(ps)) => v.to_typed_either(ps.iter().map(|p| p.to_string())),
        (_, Type::EitherOf(ps)) => v.to_typed_either(ps),
        (_, t) => v.to_typed(t),
    }
}

macro_rules! symbol {
    ($t:ty, $new:expr) => {
        impl Ast for $t {
            fn emit(&self, o: &mut Out) {
                match o.pick(3) {
                    0 => {
                        let s: &str = self.as_ref();
                        o.w(s)
                    }
                    1 => o.w(&self[..]),
                    _ => o.w(self.to_string()),
                }
            }
            fn build(i: &mut In) -> B<Self> {
                let s = i.next()?;
                Ok(match i.pick(6) {
                    0 => $new(s),
                    1 => <$t>::new(Name::new(s)),
                    2 => s.into(),
                    3 => s.to_string().into(),
                    4 => Name::new(s).into(),
                    _ => {
                        let t: $t = Name::new(s).into();
                        let t: &str = &t;
                        t.into()
                    }
                })
            }
        }
    };
}
symbol!(Predicate, |s: &str| Predicate::from_str(s));
symbol!(FunctionSymbol, |s: &str| FunctionSymbol::from_str(s));
symbol!(ActionSymbol, |s: &str| ActionSymbol::from_name(Name::new(s)));
symbol!(DurativeActionSymbol, |s: &str| DurativeActionSymbol::from_str(s));
symbol!(PrimitiveType, |s: &str| PrimitiveType::new(Name::new(s)));

impl Ast for PreferenceName {
    fn emit(&self, o: &mut Out) {
        let s: &str = self;
        o.w(s)
    }
    fn build(i: &mut In) -> B<Self> {
        let s = i.next()?;
        Ok(match i.pick(5) {
            0 => PreferenceName::from_str(s),
            1 => PreferenceName::new(s),
            2 => PreferenceName::new(Name::new(s)),
            3 => PreferenceName::from_name(s.into()),
            _ => s.into(),
        })
    }
}

impl Ast for Variable {
    fn emit(&self, o: &mut Out) {
        let s: &str = match o.pick(3) {
            0 => self.as_ref(),
            1 => {
                let n: &Name = self.as_ref();
                n
            }
            _ => self,
        };
        o.w(format!("?{s}"))
    }
    fn build(i: &mut In) -> B<Self> {
        let s = i.next()?.strip_prefix('?').ok_or("no variable")?;
        Ok(match i.pick(4) {
            0 => Variable::from_str(s),
            1 => Variable::new(Name::new(s)),
            2 => Variable::from_name(s.into()),
            _ => s.into(),
        })
    }
    fn typed(self, t: Type, i: &mut In) -> Typed<Self> {
        typed_by(self, t, i)
    }
}

pub fn number_text(x: f32) -> String {
    if x == 0.0 {
        "#0".into()
    } else {
        format!("#{x}")
    }
}

impl Ast for Number {
    fn emit(&self, o: &mut Out) {
        o.w(number_text(**self))
    }
    fn build(i: &mut In) -> B<Self> {
        let s = i.next()?;
        let s = s.strip_prefix('#').ok_or("no number")?;
        let x = s.parse::<f32>().map_err(|e| e.to_string())?;
        Ok(match i.pick(5) {
            0 => Number::new(x),
            1 => Number::try_new(x).map_err(|e| e.to_string())?,
            2 => Number::from(x as f64),
            3 => s.parse().map_err(|_| "the text of a number is no number")?,
            _ => x.into(),
        })
    }
}

macro_rules! word {
    ($t:ty) => {
        impl Ast for $t {
            fn emit(&self, o: &mut Out) {
                o.w(format!("{self}"))
            }
            fn build(i: &mut In) -> B<Self> {
                let s = i.next()?;
                <$t>::try_from(s).map_err(|_| format!("no such word: {s}"))
            }
        }
    };
}
word!(BinaryOp);
word!(MultiOp);
word!(BinaryComp);
word!(AssignOp);
word!(AssignOpT);
word!(DOp);
word!(TimeSpecifier);
word!(Interval);
word!(Optimization);
word!(Requirement);

/// An optional preference name: `-` if there is none.
fn emit_pref(o: &mut Out, n: &Option<PreferenceName>) {
    match n {
        None => o.w("-"),
        Some(n) => n.emit(o),
    }
}
fn build_pref(i: &mut In) -> B<Option<PreferenceName>> {
    Ok(if i.at("-") { None } else { Some(PreferenceName::build(i)?) })
}

/// An optional part: `none` if there is none.
fn emit_opt<T: Ast>(o: &mut Out, n: &Option<T>) {
    match n {
        None => o.w("none"),
        Some(n) => n.emit(o),
    }
}
fn build_opt<T: Ast>(i: &mut In) -> B<Option<T>> {
    Ok(if i.at("none") { None } else { Some(T::build(i)?) })
}

// -------------------------------------------------------------------- terms

impl Ast for Term {
    fn emit(&self, o: &mut Out) {
        match self {
            Term::Name(n) => n.emit(o),
            Term::Variable(v) => v.emit(o),
            Term::Function(f) => f.emit(o),
        }
    }
    fn build(i: &mut In) -> B<Self> {
        Ok(match i.peek() {
            "<fterm" => match i.pick(3) {
                0 => Term::new_function(FunctionTerm::build(i)?),
                1 => FunctionTerm::build(i)?.into(),
                _ => Term::Function(FunctionTerm::build(i)?),
            },
            s if s.starts_with('?') => match i.pick(3) {
                0 => Term::new_variable(Variable::build(i)?),
                1 => Variable::build(i)?.into(),
                _ => Term::Variable(Variable::build(i)?),
            },
            _ => match i.pick(3) {
                0 => Term::new_name(Name::build(i)?),
                1 => Name::build(i)?.into(),
                _ => Term::Name(Name::build(i)?),
            },
        })
    }
}

impl Ast for FunctionTerm {
    fn emit(&self, o: &mut Out) {
        o.open("fterm");
        match o.pick(2) {
            0 => self.symbol().emit(o),
            _ => {
                let s: &FunctionSymbol = self.as_ref();
                s.emit(o)
            }
        }
        match o.pick(2) {
            0 => all(o, self.terms()),
            _ => {
                let t: &Vec<Term> = self.as_ref();
                all(o, t)
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        i.open("fterm")?;
        let s = FunctionSymbol::build(i)?;
        let t: Vec<Term> = i.many()?;
        i.close()?;
        Ok(match i.pick(2) {
            0 => FunctionTerm::new(s, t),
            _ => FunctionTerm::new(s, t.iter().cloned()),
        })
    }
}

impl<T: Ast> Ast for AtomicFormula<T> {
    fn emit(&self, o: &mut Out) {
        match self {
            AtomicFormula::Equality(e) => {
                o.open("eq");
                e.first().emit(o);
                e.second().emit(o);
            }
            AtomicFormula::Predicate(p) => {
                o.open("pred");
                p.predicate().emit(o);
                match o.pick(2) {
                    0 => all(o, p.values()),
                    _ => all(o, p),
                }
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        let r = if i.at("<eq") {
            let a = T::build(i)?;
            let b = T::build(i)?;
            match i.pick(4) {
                0 => AtomicFormula::new_equality(a, b),
                1 => EqualityAtomicFormula::new(a, b).into(),
                2 => AtomicFormula::Equality((a, b).into()),
                _ => EqualityAtomicFormula::from((a, b)).into(),
            }
        } else {
            i.open("pred")?;
            let p = Predicate::build(i)?;
            let v = i.many::<T>()?;
            match i.pick(4) {
                0 => AtomicFormula::new_predicate(p, v),
                1 => PredicateAtomicFormula::new(p, v).into(),
                2 => AtomicFormula::Predicate((p, v).into()),
                _ => AtomicFormula::new_predicate(p, v.iter().cloned()),
            }
        };
        i.close()?;
        Ok(r)
    }
}

impl<T: Ast> Ast for Literal<T> {
    fn emit(&self, o: &mut Out) {
        o.yes("negated", || self.is_negated());
        match self {
            Literal::AtomicFormula(a) => {
                o.open("is");
                a.emit(o);
            }
            Literal::NotAtomicFormula(a) => {
                o.open("isnot");
                a.emit(o);
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        let r = if i.at("<is") {
            match i.pick(3) {
                0 => Literal::new(AtomicFormula::build(i)?),
                1 => AtomicFormula::build(i)?.into(),
                _ => Literal::AtomicFormula(AtomicFormula::build(i)?),
            }
        } else {
            i.open("isnot")?;
            match i.pick(2) {
                0 => Literal::new_not(AtomicFormula::build(i)?),
                _ => Literal::NotAtomicFormula(AtomicFormula::build(i)?),
            }
        };
        i.close()?;
        Ok(r)
    }
}

impl Ast for BasicFunctionTerm {
    fn emit(&self, o: &mut Out) {
        o.open("bft");
        match o.pick(2) {
            0 => self.symbol().emit(o),
            _ => {
                let s: &FunctionSymbol = self.as_ref();
                s.emit(o)
            }
        }
        match o.pick(2) {
            0 => all(o, self.names()),
            _ => {
                let n: &[Name] = self.as_ref();
                all(o, n)
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        i.open("bft")?;
        let s = FunctionSymbol::build(i)?;
        let n: Vec<Name> = i.many()?;
        i.close()?;
        Ok(BasicFunctionTerm::new(s, n))
    }
}

// -------------------------------------------------------------- expressions

impl Ast for FHead {
    fn emit(&self, o: &mut Out) {
        match self {
            FHead::Simple(s) => {
                o.open("fn");
                s.emit(o);
            }
            FHead::WithTerms(s, t) => {
                o.open("fnt");
                s.emit(o);
                all(o, t);
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        let r = if i.at("<fn") {
            match i.pick(2) {
                0 => FHead::new(FunctionSymbol::build(i)?),
                _ => FHead::Simple(FunctionSymbol::build(i)?),
            }
        } else {
            i.open("fnt")?;
            let s = FunctionSymbol::build(i)?;
            match i.pick(2) {
                0 => FHead::new_with_terms(s, i.many::<Term>()?),
                _ => FHead::WithTerms(s, i.many::<Term>()?),
            }
        };
        i.close()?;
        Ok(r)
    }
}

macro_rules! ops {
    ($self:ident, $o:ident, $t:ident) => {
        match $self {
            $t::BinaryOp(op, a, b) => {
                $o.open("bin");
                op.emit($o);
                a.emit($o);
                b.emit($o);
                $o.close();
                return;
            }
            $t::MultiOp(op, a, b) => {
                $o.open("multi");
                op.emit($o);
                a.emit($o);
                all($o, b);
                $o.close();
                return;
            }
            $t::Negative(a) => {
                $o.open("neg");
                a.emit($o);
                $o.close();
                return;
            }
            _ => {}
        }
    };
}

macro_rules! build_ops {
    ($i:ident, $t:ident) => {
        match $i.peek() {
            "<bin" => {
                $i.next()?;
                let op = BinaryOp::build($i)?;
                let a = $t::build($i)?;
                let b = $t::build($i)?;
                $i.close()?;
                return Ok(match $i.pick(2) {
                    0 => $t::new_binary_op(op, a, b),
                    _ => $t::BinaryOp(op, Box::new(a), Box::new(b)),
                });
            }
            "<multi" => {
                $i.next()?;
                let op = MultiOp::build($i)?;
                let a = $t::build($i)?;
                let b: Vec<$t> = $i.many()?;
                $i.close()?;
                return Ok(match $i.pick(3) {
                    // The constructors demand a right-hand side; the type does not.
                    _ if b.is_empty() => $t::MultiOp(op, Box::new(a), b),
                    0 => $t::new_multi_op(op, a, b),
                    1 => $t::new_multi_op(op, a, b.iter().cloned()),
                    _ => $t::MultiOp(op, Box::new(a), b),
                });
            }
            "<neg" => {
                $i.next()?;
                let a = $t::build($i)?;
                $i.close()?;
                return Ok(match $i.pick(2) {
                    0 => $t::new_negative(a),
                    _ => $t::Negative(Box::new(a)),
                });
            }
            _ => {}
        }
    };
}

impl Ast for FExp {
    fn emit(&self, o: &mut Out) {
        ops!(self, o, FExp);
        match self {
            FExp::Number(n) => n.emit(o),
            FExp::Function(f) => f.emit(o),
            _ => o.w("?!FExp"),
        }
    }
    fn build(i: &mut In) -> B<Self> {
        build_ops!(i, FExp);
        Ok(if i.peek().starts_with('#') {
            match i.pick(3) {
                0 => FExp::new_number(Number::build(i)?),
                1 => FExp::new_number(*Number::build(i)?),
                _ => FExp::Number(Number::build(i)?),
            }
        } else {
            match i.pick(2) {
                0 => FExp::new_function(FHead::build(i)?),
                _ => FExp::Function(FHead::build(i)?),
            }
        })
    }
}

impl Ast for FExpDa {
    fn emit(&self, o: &mut Out) {
        ops!(self, o, FExpDa);
        match self {
            FExpDa::Duration => {
                o.open("dur");
                o.close();
            }
            FExpDa::FExp(f) => {
                o.open("fe");
                f.emit(o);
                o.close();
            }
            _ => o.w("?!FExpDa"),
        }
    }
    fn build(i: &mut In) -> B<Self> {
        build_ops!(i, FExpDa);
        let r = if i.at("<dur") {
            FExpDa::new_duration()
        } else {
            i.open("fe")?;
            match i.pick(2) {
                0 => FExpDa::new_f_exp(FExp::build(i)?),
                _ => FExp::build(i)?.into(),
            }
        };
        i.close()?;
        Ok(r)
    }
}

impl Ast for FExpT {
    fn emit(&self, o: &mut Out) {
        match self {
            FExpT::Now => o.open("now"),
            FExpT::Scaled(e) => {
                o.open("scaled");
                e.emit(o);
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        let r = if i.at("<now") {
            match i.pick(2) {
                0 => FExpT::new(),
                _ => FExpT::default(),
            }
        } else {
            i.open("scaled")?;
            match i.pick(2) {
                0 => FExpT::new_scaled(FExp::build(i)?),
                _ => FExp::build(i)?.into(),
            }
        };
        i.close()?;
        Ok(r)
    }
}

impl Ast for MetricFExp {
    fn emit(&self, o: &mut Out) {
        ops!(self, o, MetricFExp);
        match self {
            MetricFExp::Number(n) => return n.emit(o),
            MetricFExp::Function(f, n) => {
                o.open("mfn");
                f.emit(o);
                all(o, n);
            }
            MetricFExp::TotalTime => o.open("total-time"),
            MetricFExp::IsViolated(n) => {
                o.open("is-violated");
                n.emit(o);
            }
            _ => o.w("?!MetricFExp"),
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        build_ops!(i, MetricFExp);
        if i.peek().starts_with('#') {
            let n = Number::build(i)?;
            return Ok(match i.pick(2) {
                0 => MetricFExp::new_number(n),
                _ => MetricFExp::Number(n),
            });
        }
        let r = match i.next()? {
            "<mfn" => {
                let s = FunctionSymbol::build(i)?;
                let n = i.many::<Name>()?;
                match i.pick(2) {
                    0 => MetricFExp::new_function(s, n),
                    _ => MetricFExp::Function(s, n),
                }
            }
            "<total-time" => MetricFExp::new_total_time(),
            "<is-violated" => MetricFExp::new_is_violated(PreferenceName::build(i)?),
            s => return Err(format!("no metric: {s}")),
        };
        i.close()?;
        Ok(r)
    }
}

impl Ast for FComp {
    fn emit(&self, o: &mut Out) {
        o.open("fcomp");
        self.comparison().emit(o);
        self.first().emit(o);
        self.second().emit(o);
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        i.open("fcomp")?;
        let c = BinaryComp::build(i)?;
        let a = FExp::build(i)?;
        let b = FExp::build(i)?;
        i.close()?;
        Ok(match i.pick(2) {
            0 => FComp::new(c, a, b),
            _ => (c, a, b).into(),
        })
    }
}

// -------------------------------------------------------------- typed lists

impl Ast for Type {
    fn emit(&self, o: &mut Out) {
        o.count("len", || self.len());
        o.items("into_iter", || self.clone());
        match self {
            Type::Exactly(t) => {
                o.w("t=");
                t.emit(o);
            }
            Type::EitherOf(ts) => {
                o.w("t<");
                all(o, ts);
                o.w("t>");
            }
        }
    }
    fn build(i: &mut In) -> B<Self> {
        if i.at("t=") {
            let p = PrimitiveType::build(i)?;
            return Ok(match i.pick(4) {
                0 => Type::Exactly(p),
                1 => p.into(),
                2 => Type::from(&*p),
                _ if &*p == "object" => [Type::OBJECT, Type::default()][i.pick(2)].clone(),
                _ if &*p == "number" => Type::NUMBER,
                _ => p.into(),
            });
        }
        i.expect("t<")?;
        let mut v = vec![];
        while !i.at("t>") {
            v.push(PrimitiveType::build(i)?);
        }
        Ok(match i.pick(5) {
            0 => Type::EitherOf(v),
            1 => v.into(),
            2 => v.iter().map(|p| &**p).collect::<Vec<&str>>().into(),
            3 => v.iter().map(|p| p.to_string()).collect(),
            _ => v.into_iter().collect(),
        })
    }
}

impl<T: Ast> Ast for Typed<T> {
    fn emit(&self, o: &mut Out) {
        match o.pick(2) {
            0 => self.value().emit(o),
            _ => (**self).emit(o),
        }
        self.type_().emit(o);
    }
    fn build(i: &mut In) -> B<Self> {
        let v = T::build(i)?;
        let t = Type::build(i)?;
        Ok(match i.pick(3) {
            1 if t == Type::OBJECT => Typed::new_object(v),
            2 if t == Type::OBJECT => v.into(),
            0 => Typed::new(v, t),
            _ => v.typed(t, i),
        })
    }
}

impl<T: Ast> Ast for FunctionTyped<T> {
    fn emit(&self, o: &mut Out) {
        match o.pick(2) {
            0 => self.value_ref().emit(o),
            _ => (**self).emit(o),
        }
        let t: &Type = self.type_ref();
        t.emit(o);
    }
    fn build(i: &mut In) -> B<Self> {
        let v = T::build(i)?;
        let t = Type::build(i)?;
        Ok(match (i.pick(6), &t) {
            (1, _) => FunctionTyped::from_type(v, t),
            (2, t) if *t == Type::NUMBER => FunctionTyped::new_number(v),
            (3, t) if *t == Type::NUMBER => v.into(),
            (4, t) if *t == Type::NUMBER => FunctionTyped::new(v, FunctionType::default()),
            (5, t) if *t == Type::NUMBER => FunctionTyped::new(v, FunctionType::NUMBER),
            (2, Type::Exactly(p)) => FunctionTyped::new(v, (&**p).into()),
            (2, Type::EitherOf(p)) => {
                FunctionTyped::new(v, p.iter().map(|p| &**p).collect::<Vec<&str>>().into())
            }
            (3, _) => FunctionTyped::new(v, FunctionType::from(t)),
            _ => FunctionTyped::new(v, FunctionType::new(t)),
        })
    }
}

impl<T: Ast> Ast for TypedList<T> {
    fn emit(&self, o: &mut Out) {
        o.count("len", || self.value().len());
        o.count("len", || self.len());
        o.yes("empty", || self.is_empty());
        o.items("items", || self.value().to_vec());
        o.items("items", || self.to_vec());
        o.items("into_iter", || self.clone());
        o.open("tl");
        match o.pick(2) {
            0 => all(o, self.value()),
            _ => all(o, self),
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        i.open("tl")?;
        let v: Vec<Typed<T>> = i.many()?;
        i.close()?;
        Ok(match i.pick(3) {
            0 => TypedList::new(v),
            1 => v.into(),
            _ => v.into_iter().collect(),
        })
    }
    fn same(&self, other: &Self) -> Vec<bool> {
        let list = other.value();
        vec![self == other, *self == list.to_vec(), *self == *list]
    }
}

impl<T: Ast> Ast for FunctionTypedList<T> {
    fn emit(&self, o: &mut Out) {
        o.count("len", || self.values().len());
        o.count("len", || self.len());
        o.yes("empty", || self.is_empty());
        o.items("items", || self.values().to_vec());
        o.items("items", || self.to_vec());
        o.open("tl");
        match o.pick(2) {
            0 => all(o, self.values()),
            _ => all(o, self),
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        i.open("tl")?;
        let v: Vec<FunctionTyped<T>> = i.many()?;
        i.close()?;
        Ok(match i.pick(3) {
            0 => FunctionTypedList::new(v),
            1 => v.into(),
            _ => v.into_iter().collect(),
        })
    }
    fn same(&self, other: &Self) -> Vec<bool> {
        let list = other.values();
        vec![self == other, *self == list.to_vec(), *self == *list]
    }
}

impl Ast for AtomicFormulaSkeleton {
    fn emit(&self, o: &mut Out) {
        o.open("skel");
        match o.pick(2) {
            0 => self.predicate().emit(o),
            _ => self.name().emit(o),
        }
        self.variables().emit(o);
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        i.open("skel")?;
        let p = Predicate::build(i)?;
        let v = TypedList::build(i)?;
        i.close()?;
        Ok(match i.pick(2) {
            0 => AtomicFormulaSkeleton::new(p, v),
            _ => (p, v).into(),
        })
    }
}

impl Ast for AtomicFunctionSkeleton {
    fn emit(&self, o: &mut Out) {
        o.open("skel");
        self.symbol().emit(o);
        self.variables().emit(o);
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        i.open("skel")?;
        let p = FunctionSymbol::build(i)?;
        let v: TypedList<Variable> = TypedList::build(i)?;
        i.close()?;
        Ok(match i.pick(3) {
            0 => AtomicFunctionSkeleton::new(p, v),
            1 => (p, v).into(),
            _ => (p, v.value().to_vec()).into(),
        })
    }
}

// -------------------------------------------------------------------- goals

impl Ast for GoalDefinition {
    fn emit(&self, o: &mut Out) {
        use GoalDefinition as G;
        o.yes("empty", || self.is_empty());
        match self {
            G::AtomicFormula(a) => return a.emit(o),
            G::FComp(f) => return f.emit(o),
            G::Literal(l) => return l.emit(o),
            G::And(x) => {
                o.open("and");
                all(o, x);
            }
            G::Or(x) => {
                o.open("or");
                all(o, x);
            }
            G::Not(x) => {
                o.open("not");
                x.emit(o);
            }
            G::Imply(a, b) => {
                o.open("imply");
                a.emit(o);
                b.emit(o);
            }
            G::Exists(v, x) => {
                o.open("exists");
                v.emit(o);
                x.emit(o);
            }
            G::ForAll(v, x) => {
                o.open("forall");
                v.emit(o);
                x.emit(o);
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        use GoalDefinition as G;
        let r = match i.peek() {
            "<pred" | "<eq" => {
                let a = AtomicFormula::build(i)?;
                return Ok(match i.pick(2) {
                    0 => G::new_atomic_formula(a),
                    _ => G::AtomicFormula(a),
                });
            }
            "<is" | "<isnot" => return Ok(G::new_literal(Literal::build(i)?)),
            "<fcomp" => return Ok(G::new_f_comp(FComp::build(i)?)),
            _ => match i.next()? {
                "<and" => {
                    let v = i.many::<G>()?;
                    match i.pick(3) {
                        0 => G::new_and(v),
                        1 => G::new_and(v.iter().cloned()),
                        _ => G::And(v),
                    }
                }
                "<or" => {
                    let v = i.many::<G>()?;
                    match i.pick(3) {
                        0 => G::new_or(v),
                        1 => G::new_or(v.iter().cloned()),
                        _ => G::Or(v),
                    }
                }
                "<not" => match i.pick(2) {
                    0 => G::new_not(G::build(i)?),
                    _ => G::Not(Box::new(G::build(i)?)),
                },
                "<imply" => {
                    let a = G::build(i)?;
                    let b = G::build(i)?;
                    match i.pick(3) {
                        0 => G::new_imply(a, b),
                        1 => G::new_imply_tuple((a, b)),
                        _ => G::Imply(Box::new(a), Box::new(b)),
                    }
                }
                "<exists" => {
                    let v = TypedList::build(i)?;
                    let g = G::build(i)?;
                    match i.pick(3) {
                        0 => G::new_exists(v, g),
                        1 => G::new_exists_tuple((v, g)),
                        _ => G::Exists(v, Box::new(g)),
                    }
                }
                "<forall" => {
                    let v = TypedList::build(i)?;
                    let g = G::build(i)?;
                    match i.pick(3) {
                        0 => G::new_forall(v, g),
                        1 => G::new_forall_tuple((v, g)),
                        _ => G::ForAll(v, Box::new(g)),
                    }
                }
                s => return Err(format!("no goal: {s}")),
            },
        };
        i.close()?;
        Ok(r)
    }
}

impl Ast for PreferenceGD {
    fn emit(&self, o: &mut Out) {
        match self {
            PreferenceGD::Goal(g) => {
                o.open("goal");
                g.emit(o);
            }
            PreferenceGD::Preference(p) => {
                o.yes("empty", || p.is_empty());
                o.open("preference");
                emit_pref(o, p.name());
                p.goal().emit(o);
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        let r = if i.at("<goal") {
            match i.pick(2) {
                0 => PreferenceGD::from_gd(GoalDefinition::build(i)?),
                _ => GoalDefinition::build(i)?.into(),
            }
        } else {
            i.open("preference")?;
            let n = build_pref(i)?;
            let g = GoalDefinition::build(i)?;
            let p: Preference = match (i.pick(4), n) {
                (0, n) => Preference::new(n, g),
                (1, n) => (n, g).into(),
                (_, None) => g.into(),
                (_, Some(n)) => (n, g).into(),
            };
            match i.pick(3) {
                0 => PreferenceGD::from_preference(p),
                1 => PreferenceGD::Preference(p),
                _ => p.into(),
            }
        };
        i.close()?;
        Ok(r)
    }
}

impl Ast for PreconditionGoalDefinition {
    fn emit(&self, o: &mut Out) {
        match self {
            PreconditionGoalDefinition::Preference(p) => p.emit(o),
            PreconditionGoalDefinition::Forall(v, g) => {
                o.open("forall");
                v.emit(o);
                g.emit(o);
                o.close();
            }
        }
    }
    fn build(i: &mut In) -> B<Self> {
        if i.at("<forall") {
            let v = TypedList::build(i)?;
            let g = Ast::build(i)?;
            let r = match i.pick(2) {
                0 => PreconditionGoalDefinition::new_forall(v, g),
                _ => PreconditionGoalDefinition::Forall(v, g),
            };
            i.close()?;
            return Ok(r);
        }
        let p = PreferenceGD::build(i)?;
        Ok(match (i.pick(3), p) {
            (0, p) => PreconditionGoalDefinition::new_preference(p),
            (1, PreferenceGD::Preference(p)) => p.into(),
            (_, p) => p.into(),
        })
    }
}

macro_rules! list {
    ($t:ty, $e:ty, $ev:expr, [$($look:expr),+], [$($see:expr),*], [$($new:expr),+]) => {
        impl Ast for $t {
            fn emit(&self, o: &mut Out) {
                $($see(self, o);)*
                o.open($ev);
                let looks: &[fn(&$t) -> &[$e]] = &[$($look),+];
                let n = o.pick(looks.len());
                all(o, looks[n](self));
                o.close();
            }
            fn build(i: &mut In) -> B<Self> {
                i.open($ev)?;
                let v: Vec<$e> = i.many()?;
                i.close()?;
                // `None` if it cannot be made in this way.
                let news: &[fn(&[$e]) -> Option<$t>] = &[$($new),+];
                let n = i.pick(news.len());
                let r = news[n](&v).or_else(|| news[0](&v));
                r.ok_or_else(|| "cannot be made".to_string())
            }
        }
    };
}

fn one<T: Clone>(v: &[T]) -> Option<T> {
    match v {
        [x] => Some(x.clone()),
        _ => None,
    }
}

fn see_list<T: Ast>(o: &mut Out, v: &[T]) {
    o.count("len", || v.len());
    o.yes("empty", || v.is_empty());
    o.items("items", || v.to_vec());
}

list!(PreconditionGoalDefinitions, PreconditionGoalDefinition, "list",
    [|s| s.as_ref(), |s| s, |s| s.iter().as_slice()],
    [|s: &PreconditionGoalDefinitions, o: &mut Out| {
        see_list(o, s);
        see_list(o, s.as_ref());
        o.count("len", || s.len());
        o.yes("empty", || s.is_empty());
        o.items("items", || s.iter().cloned().collect::<Vec<_>>());
        o.items("into_iter", || s.clone());
        o.items("items", || Vec::<PreconditionGoalDefinition>::from(s.clone()));
        o.items("single", || s.clone().try_get_single());
        o.items("single", || {
            let r: Result<PreconditionGoalDefinition, ()> = s.clone().try_into();
            r.ok()
        });
    }],
    [
        |v| Some(PreconditionGoalDefinitions::new(v.to_vec())),
        |v| Some(v.iter().cloned().collect()),
        |v| Some(PreconditionGoalDefinition::new_and(v.to_vec())),
        |v| Some(PreconditionGoalDefinition::new_and(v.iter().cloned())),
        |v| Some(Some(PreconditionGoalDefinitions::new(v.to_vec())).into()),
        |v| one(v).map(|x| x.into()),
        |v| one(v).map(|x| Some(x).into()),
        |v| one(v).map(|x| match x {
            PreconditionGoalDefinition::Preference(p) => PreconditionGoalDefinitions::new_preference(p),
            PreconditionGoalDefinition::Forall(v, g) => PreconditionGoalDefinitions::new_forall(v, g),
        }),
        |v| v.is_empty().then(PreconditionGoalDefinitions::default),
        |v| v.is_empty().then(|| None::<PreconditionGoalDefinition>.into()),
        |v| v.is_empty().then(|| None::<PreconditionGoalDefinitions>.into())
    ]);
list!(PrefConGDs, PrefConGD, "list",
    [|s| s.as_ref(), |s| s, |s| s.iter().as_slice()],
    [|s: &PrefConGDs, o: &mut Out| {
        see_list(o, s);
        see_list(o, s.as_ref());
        o.count("len", || s.len());
        o.yes("empty", || s.is_empty());
        o.items("items", || s.iter().cloned().collect::<Vec<_>>());
        o.items("into_iter", || s.clone());
        o.items("items", || Vec::<PrefConGD>::from(s.clone()));
        o.items("single", || s.clone().try_get_single());
        o.items("single", || {
            let r: Result<PrefConGD, ()> = s.clone().try_into();
            r.ok()
        });
    }],
    [
        |v| Some(PrefConGDs::new(v.to_vec())),
        |v| Some(v.iter().cloned().collect()),
        |v| Some(v.to_vec().into()),
        |v| Some(Some(PrefConGDs::new(v.to_vec())).into()),
        |v| one(v).map(|x| x.into()),
        |v| one(v).map(|x| Some(x).into()),
        |v| one(v).map(|x| match x {
            PrefConGD::Goal(g) => PrefConGDs::new_goal(g),
            PrefConGD::Preference(n, g) => PrefConGDs::new_preference(n, g),
            PrefConGD::Forall(v, g) => PrefConGDs::new_forall(v, g),
        }),
        |v| one(v).and_then(|x| match x {
            PrefConGD::Goal(g) => Some(g.into()),
            _ => None,
        }),
        |v| v.is_empty().then(PrefConGDs::default),
        |v| v.is_empty().then(|| None::<PrefConGD>.into()),
        |v| v.is_empty().then(|| None::<PrefConGDs>.into())
    ]);
list!(Effects, CEffect, "effects",
    [|s| s.as_ref(), |s| s, |s| s.iter().as_slice()],
    [|s: &Effects, o: &mut Out| {
        see_list(o, s);
        see_list(o, s.as_ref());
        o.count("len", || s.len());
        o.yes("empty", || s.is_empty());
        o.items("items", || s.iter().cloned().collect::<Vec<_>>());
        o.items("into_iter", || s.clone());
        o.items("single", || s.clone().try_get_single());
        o.items("single", || {
            let r: Result<CEffect, ()> = s.clone().try_into();
            r.ok()
        });
    }],
    [
        |v| Some(Effects::new_and(v.to_vec())),
        |v| Some(v.iter().cloned().collect()),
        |v| Some(v.to_vec().into()),
        |v| one(v).map(|x| x.into()),
        |v| one(v).map(Effects::new),
        |v| v.is_empty().then(Effects::default)
    ]);
list!(Requirements, Requirement, "requirements",
    [|s| s.as_slice(), |s| s],
    [|s: &Requirements, o: &mut Out| see_list(o, s)],
    [
        |v| Some(Requirements::new(v.to_vec())),
        |v| Some(Requirements::new(v.iter().cloned())),
        |v| Some(v.to_vec().into()),
        |v| Some(v.iter().cloned().collect()),
        |v| v.is_empty().then(|| Requirements::new([]))
    ]);
list!(PredicateDefinitions, AtomicFormulaSkeleton, "predicates",
    [|s| s.values(), |s| s],
    [|s: &PredicateDefinitions, o: &mut Out| {
        see_list(o, s);
        see_list(o, s.values());
    }],
    [
        |v| Some(PredicateDefinitions::new(v.to_vec())),
        |v| Some(PredicateDefinitions::new(v.iter().cloned())),
        |v| Some(PredicateDefinitions::from(v.to_vec())),
        |v| Some(v.to_vec().into()),
        |v| Some(v.iter().cloned().collect()),
        |v| v.is_empty().then(PredicateDefinitions::default)
    ]);
list!(StructureDefs, StructureDef, "structure",
    [|s| s.values(), |s| s],
    [|s: &StructureDefs, o: &mut Out| {
        see_list(o, s);
        see_list(o, s.values());
    }],
    [
        |v| Some(StructureDefs::new(v.to_vec())),
        |v| Some(StructureDefs::new(v.iter().cloned())),
        |v| Some(v.to_vec().into()),
        |v| Some(v.iter().cloned().collect()),
        |v| v.is_empty().then(StructureDefs::default)
    ]);
list!(InitElements, InitElement, "init",
    [|s| s.values(), |s| s],
    [|s: &InitElements, o: &mut Out| {
        see_list(o, s);
        see_list(o, s.values());
    }],
    [
        |v| Some(InitElements::new(v.to_vec())),
        |v| Some(v.iter().cloned().collect())
    ]);
list!(Timeless, Literal<Name>, "timeless",
    [|s| s.values(), |s| s],
    [|s: &Timeless, o: &mut Out| {
        see_list(o, s);
        see_list(o, s.values());
    }],
    [
        |v| Some(Timeless::new(v.to_vec())),
        |v| Some(v.iter().cloned().collect()),
        |v| v.is_empty().then(Timeless::default)
    ]);

macro_rules! typed {
    ($t:ty, $l:ty, [$($look:expr),+], [$($new:expr),+], $same:expr) => {
        impl Ast for $t {
            fn emit(&self, o: &mut Out) {
                let looks: &[fn(&$t) -> $l] = &[$($look),+];
                let n = o.pick(looks.len());
                looks[n](self).emit(o)
            }
            fn build(i: &mut In) -> B<Self> {
                let l: $l = Ast::build(i)?;
                let news: &[fn($l) -> Option<$t>] = &[$($new),+];
                let n = i.pick(news.len());
                news[n](l.clone()).or_else(|| news[0](l)).ok_or_else(|| "cannot be made".into())
            }
            fn same(&self, other: &Self) -> Vec<bool> {
                let f: fn(&$t, &$t) -> Vec<bool> = $same;
                f(self, other)
            }
        }
    };
}
typed!(Types, TypedList<Name>, [|s| s.values().clone(), |s| (**s).clone()],
    [
        |l| Some(Types::new(l)),
        |l| Some(l.into()),
        |l| l.is_empty().then(Types::default)
    ],
    |a, b| vec![a == b, b == a]);
typed!(Constants, TypedList<Name>, [|s| (**s).clone()],
    [
        |l| Some(Constants::new(l)),
        |l| Some(l.into()),
        |l| Some(l.into_iter().collect()),
        |l| l.is_empty().then(Constants::default)
    ],
    |a, b| vec![a == b, b == a]);
typed!(Objects, TypedList<Name>, [|s| s.values().clone(), |s| (**s).clone()],
    [
        |l| Some(Objects::new(l)),
        |l| Some(l.into()),
        |l| Some(l.into_iter().collect()),
        |l| Some(Objects::new(l.value().to_vec())),
        |l| l.is_empty().then(Objects::default)
    ],
    |a, b| vec![a == b, b == a]);
typed!(Functions, FunctionTypedList<AtomicFunctionSkeleton>,
    [|s| s.values().clone(), |s| (**s).clone()],
    [
        |l| Some(Functions::new(l)),
        |l| Some(l.into()),
        |l| Some(l.values().iter().cloned().collect()),
        |l| l.is_empty().then(Functions::default)
    ],
    |a, b| vec![a == b, b == a]);
typed!(GoalDef, PreconditionGoalDefinitions,
    [|s| s.value().clone(), |s| (**s).clone(), |s| s.clone().into()],
    [
        |l| Some(GoalDef::new(l)),
        |l| Some(l.into()),
        |l| Some(l.into_iter().collect()),
        |l| l.try_get_single().map(|x| x.into()),
        |l| l.is_empty().then(|| GoalDef::new(PreconditionGoalDefinitions::default()))
    ],
    |a, b| vec![a == b, *a == *b.value()]);
typed!(DomainConstraintsDef, ConGD,
    [|s| s.value().clone(), |s| (**s).clone(), |s| s.clone().into()],
    [
        |l| Some(DomainConstraintsDef::new(l)),
        |l| Some(l.into()),
        |l| (l == ConGD::And(vec![])).then(DomainConstraintsDef::default)
    ],
    |a, b| vec![a == b, *a == *b.value()]);
typed!(ProblemConstraintsDef, PrefConGDs,
    [|s| s.value().clone(), |s| (**s).clone(), |s| s.clone().into()],
    [
        |l| Some(ProblemConstraintsDef::new(l)),
        |l| Some(l.into()),
        |l| l.is_empty().then(ProblemConstraintsDef::default)
    ],
    |a, b| vec![a == b, *a == *b.value()]);

// -------------------------------------------------------------- constraints

impl Ast for Con2GD {
    fn emit(&self, o: &mut Out) {
        o.yes("empty", || self.is_empty());
        match self {
            Con2GD::Goal(g) => {
                o.open("goal");
                g.emit(o);
            }
            Con2GD::Nested(g) => {
                o.open("nested");
                g.emit(o);
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        let r = if i.at("<goal") {
            let g: GoalDefinition = Ast::build(i)?;
            match i.pick(2) {
                0 => Con2GD::new_goal(g),
                _ => g.into(),
            }
        } else {
            i.open("nested")?;
            let g: ConGD = Ast::build(i)?;
            match i.pick(3) {
                0 => Con2GD::new_nested(g),
                1 => Con2GD::Nested(Box::new(g)),
                _ => g.into(),
            }
        };
        i.close()?;
        Ok(r)
    }
}

impl Ast for ConGD {
    fn emit(&self, o: &mut Out) {
        use ConGD as C;
        o.yes("empty", || self.is_empty());
        match self {
            C::And(x) => {
                o.open("and");
                all(o, x);
            }
            C::Forall(v, x) => {
                o.open("forall");
                v.emit(o);
                x.emit(o);
            }
            C::AtEnd(x) => {
                o.open("at-end");
                x.emit(o);
            }
            C::Always(x) => {
                o.open("always");
                x.emit(o);
            }
            C::Sometime(x) => {
                o.open("sometime");
                x.emit(o);
            }
            C::Within(n, x) => {
                o.open("within");
                n.emit(o);
                x.emit(o);
            }
            C::AtMostOnce(x) => {
                o.open("at-most-once");
                x.emit(o);
            }
            C::SometimeAfter(x, y) => {
                o.open("sometime-after");
                x.emit(o);
                y.emit(o);
            }
            C::SometimeBefore(x, y) => {
                o.open("sometime-before");
                x.emit(o);
                y.emit(o);
            }
            C::AlwaysWithin(n, x, y) => {
                o.open("always-within");
                n.emit(o);
                x.emit(o);
                y.emit(o);
            }
            C::HoldDuring(n, m, x) => {
                o.open("hold-during");
                n.emit(o);
                m.emit(o);
                x.emit(o);
            }
            C::HoldAfter(n, x) => {
                o.open("hold-after");
                n.emit(o);
                x.emit(o);
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        use ConGD as C;
        macro_rules! b {
            () => {
                Ast::build(i)?
            };
        }
        let r = match i.next()? {
            "<and" => {
                let v = i.many::<C>()?;
                match i.pick(4) {
                    0 => C::new_and(v),
                    1 => C::new_and(v.iter().cloned()),
                    2 if v.is_empty() => C::default(),
                    _ => C::And(v),
                }
            }
            "<forall" => {
                let v = b!();
                C::new_forall(v, b!())
            }
            "<at-end" => C::new_at_end(b!()),
            "<always" => C::new_always(b!()),
            "<sometime" => C::new_sometime(b!()),
            "<within" => {
                let n = b!();
                let x = b!();
                match i.pick(2) {
                    0 => C::new_within(n, x),
                    _ => C::Within(n, x),
                }
            }
            "<at-most-once" => C::new_at_most_once(b!()),
            "<sometime-after" => {
                let x = b!();
                let y = b!();
                match i.pick(2) {
                    0 => C::new_sometime_after(x, y),
                    _ => C::SometimeAfter(x, y),
                }
            }
            "<sometime-before" => {
                let x = b!();
                let y = b!();
                match i.pick(2) {
                    0 => C::new_sometime_before(x, y),
                    _ => C::SometimeBefore(x, y),
                }
            }
            "<always-within" => {
                let n = b!();
                let x = b!();
                let y = b!();
                match i.pick(2) {
                    0 => C::new_always_within(n, x, y),
                    _ => C::AlwaysWithin(n, x, y),
                }
            }
            "<hold-during" => {
                let n = b!();
                let m = b!();
                let x = b!();
                match i.pick(2) {
                    0 => C::new_hold_during(n, m, x),
                    _ => C::HoldDuring(n, m, x),
                }
            }
            "<hold-after" => {
                let n = b!();
                let x = b!();
                match i.pick(2) {
                    0 => C::new_hold_after(n, x),
                    _ => C::HoldAfter(n, x),
                }
            }
            s => return Err(format!("no constraint: {s}")),
        };
        i.close()?;
        Ok(r)
    }
}

impl Ast for PrefConGD {
    fn emit(&self, o: &mut Out) {
        o.yes("empty", || self.is_empty());
        match self {
            PrefConGD::Goal(g) => {
                o.open("goal");
                g.emit(o);
            }
            PrefConGD::Forall(v, g) => {
                o.open("forall");
                v.emit(o);
                g.emit(o);
            }
            PrefConGD::Preference(n, g) => {
                o.open("preference");
                emit_pref(o, n);
                g.emit(o);
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        let r = match i.next()? {
            "<goal" => PrefConGD::new_goal(Ast::build(i)?),
            "<forall" => {
                let v = Ast::build(i)?;
                PrefConGD::new_forall(v, Ast::build(i)?)
            }
            "<preference" => {
                let n = build_pref(i)?;
                let g = Ast::build(i)?;
                match i.pick(2) {
                    0 => PrefConGD::new_preference(n, g),
                    _ => PrefConGD::Preference(n, g),
                }
            }
            s => return Err(format!("no preference: {s}")),
        };
        i.close()?;
        Ok(r)
    }
}

// ------------------------------------------------------------------ effects

impl Ast for PEffect {
    fn emit(&self, o: &mut Out) {
        match self {
            PEffect::AtomicFormula(a) => {
                o.open("add");
                a.emit(o);
            }
            PEffect::NotAtomicFormula(a) => {
                o.open("del");
                a.emit(o);
            }
            PEffect::AssignNumericFluent(op, h, e) => {
                o.open("numassign");
                op.emit(o);
                h.emit(o);
                e.emit(o);
            }
            PEffect::AssignObjectFluent(f, t) => {
                o.open("objassign");
                f.emit(o);
                match t {
                    None => o.w("undefined"),
                    Some(t) => t.emit(o),
                }
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        let r = match i.next()? {
            "<add" => match i.pick(2) {
                0 => PEffect::new(Ast::build(i)?),
                _ => PEffect::AtomicFormula(Ast::build(i)?),
            },
            "<del" => match i.pick(2) {
                0 => PEffect::new_not(Ast::build(i)?),
                _ => PEffect::NotAtomicFormula(Ast::build(i)?),
            },
            "<numassign" => {
                let op = Ast::build(i)?;
                let h = Ast::build(i)?;
                let e = Ast::build(i)?;
                match i.pick(2) {
                    0 => PEffect::new_numeric_fluent(op, h, e),
                    _ => PEffect::AssignNumericFluent(op, h, e),
                }
            }
            "<objassign" => {
                let f = Ast::build(i)?;
                let t = if i.at("undefined") { None } else { Some(Ast::build(i)?) };
                match i.pick(2) {
                    0 => PEffect::new_object_fluent(f, t),
                    _ => PEffect::AssignObjectFluent(f, t),
                }
            }
            s => return Err(format!("no effect: {s}")),
        };
        i.close()?;
        Ok(r)
    }
}

impl Ast for ConditionalEffect {
    fn emit(&self, o: &mut Out) {
        o.items("into_iter", || self.clone());
        match self {
            ConditionalEffect::Single(e) => {
                o.open("single");
                e.emit(o);
            }
            ConditionalEffect::All(es) => {
                o.open("all");
                all(o, es);
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        let r = if i.at("<single") {
            let e: PEffect = Ast::build(i)?;
            match i.pick(3) {
                0 => ConditionalEffect::new(e),
                1 => ConditionalEffect::Single(e),
                _ => e.into(),
            }
        } else {
            i.open("all")?;
            let v: Vec<PEffect> = i.many()?;
            match i.pick(4) {
                0 => ConditionalEffect::new_and(v),
                1 => ConditionalEffect::All(v),
                2 => v.into(),
                _ => v.into_iter().collect(),
            }
        };
        i.close()?;
        Ok(r)
    }
}

impl Ast for ForallCEffect {
    fn emit(&self, o: &mut Out) {
        o.open("forall");
        self.variables.emit(o);
        self.effects.emit(o);
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        i.open("forall")?;
        let v: TypedVariables = Ast::build(i)?;
        let e: Effects = Ast::build(i)?;
        i.close()?;
        Ok(match i.pick(2) {
            0 => ForallCEffect::new(v, e),
            _ => (v, e).into(),
        })
    }
}

impl Ast for WhenCEffect {
    fn emit(&self, o: &mut Out) {
        o.open("when");
        self.condition.emit(o);
        self.effect.emit(o);
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        i.open("when")?;
        let c: GoalDefinition = Ast::build(i)?;
        let e: ConditionalEffect = Ast::build(i)?;
        i.close()?;
        Ok(match i.pick(2) {
            0 => WhenCEffect::new(c, e),
            _ => (c, e).into(),
        })
    }
}

impl Ast for CEffect {
    fn emit(&self, o: &mut Out) {
        o.items("as effect", || -> Option<PEffect> { self.clone().try_into().ok() });
        o.items("as forall", || -> Option<ForallCEffect> { self.clone().try_into().ok() });
        o.items("as when", || -> Option<WhenCEffect> { self.clone().try_into().ok() });
        match self {
            CEffect::Effect(e) => {
                o.open("effect");
                e.emit(o);
                o.close();
            }
            CEffect::Forall(f) => f.emit(o),
            CEffect::When(w) => w.emit(o),
        }
    }
    fn build(i: &mut In) -> B<Self> {
        Ok(match i.peek() {
            "<forall" => {
                let f = ForallCEffect::build(i)?;
                match i.pick(2) {
                    0 => CEffect::new_forall(f.variables, f.effects),
                    _ => f.into(),
                }
            }
            "<when" => {
                let w = WhenCEffect::build(i)?;
                match i.pick(2) {
                    0 => CEffect::new_when(w.condition, w.effect),
                    _ => w.into(),
                }
            }
            _ => {
                i.open("effect")?;
                let e = PEffect::build(i)?;
                i.close()?;
                match i.pick(2) {
                    0 => CEffect::new_p_effect(e),
                    _ => e.into(),
                }
            }
        })
    }
}

// --------------------------------------------------------- durative actions

impl Ast for TimedGD {
    fn emit(&self, o: &mut Out) {
        match self {
            TimedGD::At(t, g) => {
                o.open("at");
                t.emit(o);
                g.emit(o);
            }
            TimedGD::Over(t, g) => {
                o.open("over");
                t.emit(o);
                g.emit(o);
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        let r = if i.at("<at") {
            let t: TimeSpecifier = Ast::build(i)?;
            let g: GoalDefinition = Ast::build(i)?;
            match i.pick(2) {
                0 => TimedGD::new_at(t, g),
                _ => (t, g).into(),
            }
        } else {
            i.open("over")?;
            let t: Interval = Ast::build(i)?;
            let g: GoalDefinition = Ast::build(i)?;
            match i.pick(2) {
                0 => TimedGD::new_over(t, g),
                _ => (t, g).into(),
            }
        };
        i.close()?;
        Ok(r)
    }
}

impl Ast for PrefTimedGD {
    fn emit(&self, o: &mut Out) {
        match self {
            PrefTimedGD::Required(g) => {
                o.open("required");
                g.emit(o);
            }
            PrefTimedGD::Preference(n, g) => {
                o.open("preference");
                emit_pref(o, n);
                g.emit(o);
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        let r = if i.at("<required") {
            let g: TimedGD = Ast::build(i)?;
            match i.pick(2) {
                0 => PrefTimedGD::new_required(g),
                _ => g.into(),
            }
        } else {
            i.open("preference")?;
            let n = build_pref(i)?;
            let g: TimedGD = Ast::build(i)?;
            match i.pick(2) {
                0 => PrefTimedGD::new_preference(n, g),
                _ => (n, g).into(),
            }
        };
        i.close()?;
        Ok(r)
    }
}

impl Ast for DurativeActionGoalDefinition {
    fn emit(&self, o: &mut Out) {
        use DurativeActionGoalDefinition as D;
        match self {
            D::Timed(g) => {
                o.open("timed");
                g.emit(o);
            }
            D::And(x) => {
                o.open("and");
                all(o, x);
            }
            D::Forall(v, x) => {
                o.open("forall");
                v.emit(o);
                x.emit(o);
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        use DurativeActionGoalDefinition as D;
        let r = match i.next()? {
            "<timed" => {
                let g: PrefTimedGD = Ast::build(i)?;
                match i.pick(2) {
                    0 => D::new_timed(g),
                    _ => g.into(),
                }
            }
            "<and" => {
                let v = i.many::<D>()?;
                match i.pick(3) {
                    0 => D::new_and(v),
                    1 => D::new_and(v.iter().cloned()),
                    _ => D::And(v),
                }
            }
            "<forall" => {
                let v = Ast::build(i)?;
                let g = Ast::build(i)?;
                match i.pick(2) {
                    0 => D::new_forall(v, g),
                    _ => D::Forall(v, Box::new(g)),
                }
            }
            s => return Err(format!("no durative goal: {s}")),
        };
        i.close()?;
        Ok(r)
    }
}

impl Ast for FAssignDa {
    fn emit(&self, o: &mut Out) {
        o.open("fassign");
        self.operation().emit(o);
        self.function().emit(o);
        self.function_expr().emit(o);
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        i.open("fassign")?;
        let op: AssignOp = Ast::build(i)?;
        let h: FHead = Ast::build(i)?;
        let e: FExpDa = Ast::build(i)?;
        i.close()?;
        Ok(match i.pick(2) {
            0 => FAssignDa::new(op, h, e),
            _ => (op, h, e).into(),
        })
    }
}

impl Ast for TimedEffect {
    fn emit(&self, o: &mut Out) {
        match self {
            TimedEffect::Conditional(t, e) => {
                o.open("cond");
                t.emit(o);
                e.emit(o);
            }
            TimedEffect::NumericFluent(t, e) => {
                o.open("fluent");
                t.emit(o);
                e.emit(o);
            }
            TimedEffect::ContinuousEffect(op, h, e) => {
                o.open("continuous");
                op.emit(o);
                h.emit(o);
                e.emit(o);
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        let r = match i.next()? {
            "<cond" => {
                let t: TimeSpecifier = Ast::build(i)?;
                let e: ConditionalEffect = Ast::build(i)?;
                match i.pick(2) {
                    0 => TimedEffect::new_conditional(t, e),
                    _ => (t, e).into(),
                }
            }
            "<fluent" => {
                let t: TimeSpecifier = Ast::build(i)?;
                let e: FAssignDa = Ast::build(i)?;
                match i.pick(2) {
                    0 => TimedEffect::new_fluent(t, e),
                    _ => (t, e).into(),
                }
            }
            "<continuous" => {
                let op: AssignOpT = Ast::build(i)?;
                let h: FHead = Ast::build(i)?;
                let e: FExpT = Ast::build(i)?;
                match i.pick(2) {
                    0 => TimedEffect::new_continuous(op, h, e),
                    _ => (op, h, e).into(),
                }
            }
            s => return Err(format!("no timed effect: {s}")),
        };
        i.close()?;
        Ok(r)
    }
}

impl Ast for DurativeActionEffect {
    fn emit(&self, o: &mut Out) {
        use DurativeActionEffect as D;
        match self {
            D::Timed(e) => {
                o.open("timed");
                e.emit(o);
            }
            D::All(x) => {
                o.open("and");
                all(o, x);
            }
            D::Forall(v, x) => {
                o.open("forall");
                v.emit(o);
                x.emit(o);
            }
            D::When(g, e) => {
                o.open("when");
                g.emit(o);
                e.emit(o);
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        use DurativeActionEffect as D;
        let r = match i.next()? {
            "<timed" => {
                let e: TimedEffect = Ast::build(i)?;
                match i.pick(2) {
                    0 => D::new_timed(e),
                    _ => e.into(),
                }
            }
            "<and" => {
                let v = i.many::<D>()?;
                match i.pick(3) {
                    0 => D::new_and(v),
                    1 => v.into_iter().collect(),
                    _ => D::All(v),
                }
            }
            "<forall" => {
                let v: TypedVariables = Ast::build(i)?;
                let e: D = Ast::build(i)?;
                match i.pick(3) {
                    0 => D::new_forall(v, e),
                    1 => D::Forall(v, Box::new(e)),
                    _ => (v, e).into(),
                }
            }
            "<when" => {
                let g: DurativeActionGoalDefinition = Ast::build(i)?;
                let e: TimedEffect = Ast::build(i)?;
                match i.pick(2) {
                    0 => D::new_when(g, e),
                    _ => (g, e).into(),
                }
            }
            s => return Err(format!("no durative effect: {s}")),
        };
        i.close()?;
        Ok(r)
    }
}

impl Ast for DurationValue {
    fn emit(&self, o: &mut Out) {
        match self {
            DurationValue::Number(n) => {
                o.open("dnum");
                n.emit(o);
            }
            DurationValue::FExp(f) => {
                o.open("dexp");
                f.emit(o);
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        let r = if i.at("<dnum") {
            match i.pick(2) {
                0 => DurationValue::new_number(Number::build(i)?),
                _ => Number::build(i)?.into(),
            }
        } else {
            i.open("dexp")?;
            match i.pick(2) {
                0 => DurationValue::new_f_exp(Ast::build(i)?),
                _ => FExp::build(i)?.into(),
            }
        };
        i.close()?;
        Ok(r)
    }
}

impl Ast for SimpleDurationConstraint {
    fn emit(&self, o: &mut Out) {
        match self {
            SimpleDurationConstraint::Op(op, v) => {
                o.open("dop");
                op.emit(o);
                v.emit(o);
            }
            SimpleDurationConstraint::At(t, c) => {
                o.open("dat");
                t.emit(o);
                c.emit(o);
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        let r = if i.at("<dop") {
            let op: DOp = Ast::build(i)?;
            let v: DurationValue = Ast::build(i)?;
            match i.pick(2) {
                0 => SimpleDurationConstraint::new_op(op, v),
                _ => (op, v).into(),
            }
        } else {
            i.open("dat")?;
            let t: TimeSpecifier = Ast::build(i)?;
            let c: SimpleDurationConstraint = Ast::build(i)?;
            match i.pick(2) {
                0 => SimpleDurationConstraint::new_at(t, c),
                _ => (t, c).into(),
            }
        };
        i.close()?;
        Ok(r)
    }
}

impl Ast for DurationConstraint {
    fn emit(&self, o: &mut Out) {
        o.count("len", || self.len());
        o.yes("empty", || self.is_empty());
        o.items("into_iter", || self.clone());
        match self {
            DurationConstraint::Single(c) => {
                o.open("single");
                c.emit(o);
            }
            DurationConstraint::All(cs) => {
                o.open("all");
                all(o, cs);
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        let r = if i.at("<single") {
            let c: SimpleDurationConstraint = Ast::build(i)?;
            match i.pick(2) {
                0 => DurationConstraint::new(c),
                _ => c.into(),
            }
        } else {
            i.open("all")?;
            let v = i.many::<SimpleDurationConstraint>()?;
            match i.pick(3) {
                // The constructors demand an element; the type does not.
                _ if v.is_empty() => DurationConstraint::All(v),
                0 => DurationConstraint::new_all(v),
                1 => DurationConstraint::All(v),
                _ => v.into_iter().collect(),
            }
        };
        i.close()?;
        Ok(r)
    }
}

/// A duration constraint that may be absent.
#[derive(PartialEq, Clone)]
pub struct OptDuration(pub Option<DurationConstraint>);
impl Ast for OptDuration {
    fn emit(&self, o: &mut Out) {
        match &self.0 {
            None => {
                o.open("none");
                o.close();
            }
            Some(d) => d.emit(o),
        }
    }
    fn build(i: &mut In) -> B<Self> {
        if i.at("<none") {
            i.close()?;
            return Ok(OptDuration(None));
        }
        Ok(OptDuration(Some(Ast::build(i)?)))
    }
}

// --------------------------------------------------------------- structures

impl Ast for ActionDefinition {
    fn emit(&self, o: &mut Out) {
        o.open("action");
        match o.pick(2) {
            0 => self.symbol().emit(o),
            _ => AsRef::<ActionSymbol>::as_ref(self).emit(o),
        }
        self.parameters().emit(o);
        self.precondition().emit(o);
        emit_opt(o, self.effect());
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        i.open("action")?;
        let s = Ast::build(i)?;
        let p = Ast::build(i)?;
        let c = Ast::build(i)?;
        let e = build_opt(i)?;
        i.close()?;
        Ok(ActionDefinition::new(s, p, c, e))
    }
}

impl Ast for DurativeActionDefinition {
    fn emit(&self, o: &mut Out) {
        o.open("durative-action");
        match o.pick(2) {
            0 => {
                self.symbol().emit(o);
                self.parameters().emit(o);
                OptDuration(self.duration().clone()).emit(o);
                emit_opt(o, self.condition());
                emit_opt(o, self.effect());
            }
            _ => {
                AsRef::<DurativeActionSymbol>::as_ref(self).emit(o);
                AsRef::<TypedVariables>::as_ref(self).emit(o);
                OptDuration(AsRef::<Option<DurationConstraint>>::as_ref(self).clone()).emit(o);
                emit_opt(o, AsRef::<Option<DurativeActionGoalDefinition>>::as_ref(self));
                emit_opt(o, AsRef::<Option<DurativeActionEffect>>::as_ref(self));
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        i.open("durative-action")?;
        let s = Ast::build(i)?;
        let p = Ast::build(i)?;
        let d = OptDuration::build(i)?;
        let c = build_opt(i)?;
        let e = build_opt(i)?;
        i.close()?;
        Ok(DurativeActionDefinition::new(s, p, d.0, c, e))
    }
}

impl Ast for DerivedPredicate {
    fn emit(&self, o: &mut Out) {
        o.open("derived");
        match o.pick(2) {
            0 => {
                self.predicate().emit(o);
                self.expression().emit(o);
            }
            _ => {
                AsRef::<AtomicFormulaSkeleton>::as_ref(self).emit(o);
                AsRef::<GoalDefinition>::as_ref(self).emit(o);
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        i.open("derived")?;
        let p: AtomicFormulaSkeleton = Ast::build(i)?;
        let g: GoalDefinition = Ast::build(i)?;
        i.close()?;
        Ok(match i.pick(2) {
            0 => DerivedPredicate::new(p, g),
            _ => (p, g).into(),
        })
    }
}

impl Ast for StructureDef {
    fn emit(&self, o: &mut Out) {
        match self {
            StructureDef::Action(a) => a.emit(o),
            StructureDef::DurativeAction(a) => a.emit(o),
            StructureDef::Derived(a) => a.emit(o),
        }
    }
    fn build(i: &mut In) -> B<Self> {
        let direct = i.pick(2) == 0;
        Ok(match i.peek() {
            "<action" if direct => StructureDef::new_action(Ast::build(i)?),
            "<action" => ActionDefinition::build(i)?.into(),
            "<durative-action" if direct => StructureDef::new_durative_action(Ast::build(i)?),
            "<durative-action" => DurativeActionDefinition::build(i)?.into(),
            _ if direct => StructureDef::new_derived(Ast::build(i)?),
            _ => DerivedPredicate::build(i)?.into(),
        })
    }
}

impl Ast for InitElement {
    fn emit(&self, o: &mut Out) {
        match self {
            InitElement::Literal(l) => {
                o.open("literal");
                l.emit(o);
            }
            InitElement::At(n, l) => {
                o.open("at");
                n.emit(o);
                l.emit(o);
            }
            InitElement::IsValue(f, n) => {
                o.open("value");
                f.emit(o);
                n.emit(o);
            }
            InitElement::IsObject(f, n) => {
                o.open("object");
                f.emit(o);
                n.emit(o);
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        let r = match i.next()? {
            "<literal" => InitElement::new_literal(Ast::build(i)?),
            "<at" => {
                let n = Ast::build(i)?;
                InitElement::new_at(n, Ast::build(i)?)
            }
            "<value" => {
                let f = Ast::build(i)?;
                InitElement::new_is_value(f, Ast::build(i)?)
            }
            "<object" => {
                let f = Ast::build(i)?;
                InitElement::new_is_object(f, Ast::build(i)?)
            }
            s => return Err(format!("no init element: {s}")),
        };
        i.close()?;
        Ok(r)
    }
}

impl Ast for MetricSpec {
    fn emit(&self, o: &mut Out) {
        o.open("metric");
        self.optimization().emit(o);
        self.expression().emit(o);
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        i.open("metric")?;
        let m = Ast::build(i)?;
        let e = Ast::build(i)?;
        i.close()?;
        Ok(MetricSpec::new(m, e))
    }
}

impl Ast for LengthSpec {
    fn emit(&self, o: &mut Out) {
        o.open("length");
        for v in [self.serial(), self.parallel()] {
            match v {
                None => o.w("-"),
                Some(n) => o.w(format!("#{n}")),
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        i.open("length")?;
        let mut v = vec![];
        for _ in 0..2 {
            let s = i.next()?;
            v.push(match s.strip_prefix('#') {
                None if s == "-" => None,
                None => return Err(format!("no number: {s}")),
                Some(n) => Some(n.parse::<u64>().map_err(|e| e.to_string())?),
            });
        }
        i.close()?;
        Ok(match (i.pick(2), v[0], v[1]) {
            (1, Some(s), None) => LengthSpec::new_serial(s),
            (1, None, Some(p)) => LengthSpec::new_parallel(p),
            (1, None, None) => LengthSpec::default(),
            (_, s, p) => LengthSpec::new(s, p),
        })
    }
}

/// The names that a domain extends.
#[derive(PartialEq, Clone)]
pub struct Extends(pub Vec<Name>);
list!(Extends, Name, "extends", [|s| &s.0], [], [|v| Some(Extends(v.to_vec()))]);

/// The order of the calls 0 .. n of a builder. A call k + n sets the same part
/// as k does, but to something else, and comes before k.
fn calls(i: &mut In, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for k in (1..n).rev() {
        let j = i.pick(k + 1);
        // Without a choice, the usual order.
        if i.way.0 != 0 {
            v.swap(k, j);
        }
    }
    let mut w = vec![];
    for k in 0..n {
        if i.pick(4) == 1 {
            w.insert(i.pick(w.len() + 1), v[k] + n);
        }
    }
    let m = i.pick(v.len() + 1);
    // What sets a part to something else comes before all calls, or right before its own.
    if m == 0 {
        w.extend(v);
        return w;
    }
    let mut r = vec![];
    for k in v {
        if w.contains(&(k + n)) {
            r.push(k + n);
        }
        r.push(k);
    }
    r
}

impl Ast for Domain {
    fn emit(&self, o: &mut Out) {
        o.open("domain");
        self.name().emit(o);
        Extends(self.extends().to_vec()).emit(o);
        match o.pick(2) {
            0 => {
                self.requirements().emit(o);
                self.types().emit(o);
                self.constants().emit(o);
                self.predicates().emit(o);
                self.functions().emit(o);
                self.constraints().emit(o);
                self.structure().emit(o);
            }
            _ => {
                AsRef::<Requirements>::as_ref(self).emit(o);
                AsRef::<Types>::as_ref(self).emit(o);
                self.constants().emit(o);
                AsRef::<PredicateDefinitions>::as_ref(self).emit(o);
                AsRef::<Functions>::as_ref(self).emit(o);
                self.constraints().emit(o);
                AsRef::<StructureDefs>::as_ref(self).emit(o);
            }
        }
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        i.open("domain")?;
        let name = Name::build(i)?;
        let e = Extends::build(i)?;
        let r = Requirements::build(i)?;
        let t = Types::build(i)?;
        let c = Constants::build(i)?;
        let p = PredicateDefinitions::build(i)?;
        let f = Functions::build(i)?;
        let d = DomainConstraintsDef::build(i)?;
        let s = StructureDefs::build(i)?;
        i.close()?;
        // The calls, in some order, some of them repeated or left out.
        let mut dom = Domain::builder(name, s);
        for k in calls(i, 7) {
            dom = match k {
                0 => dom.with_extends(e.0.clone()),
                1 => dom.with_requirements(r.clone()),
                2 => dom.with_types(t.clone()),
                3 => dom.with_constants(c.clone()),
                4 => dom.with_predicates(p.clone()),
                5 => dom.with_functions(f.clone()),
                6 => dom.with_constraints(d.clone()),
                7 => dom.with_extends(vec![Name::new("other")]),
                8 => dom.with_requirements(Requirements::new([])),
                9 => dom.with_types(TypedNames::default()),
                10 => dom.with_constants(TypedNames::default()),
                11 => dom.with_predicates(vec![]),
                12 => dom.with_functions(Functions::default()),
                _ => dom.with_constraints(ConGD::default().into()),
            };
        }
        Ok(dom)
    }
}

impl Ast for Problem {
    fn emit(&self, o: &mut Out) {
        o.open("problem");
        self.name().emit(o);
        self.domain().emit(o);
        self.requirements().emit(o);
        self.objects().emit(o);
        self.init().emit(o);
        self.goals().emit(o);
        self.constraints().emit(o);
        emit_opt(o, self.metric_spec());
        emit_opt(o, self.length_spec());
        o.close();
    }
    fn build(i: &mut In) -> B<Self> {
        i.open("problem")?;
        let name = Name::build(i)?;
        let dom = Name::build(i)?;
        let r = Requirements::build(i)?;
        let ob = Objects::build(i)?;
        let init = InitElements::build(i)?;
        let g = GoalDef::build(i)?;
        let c = ProblemConstraintsDef::build(i)?;
        let m: Option<MetricSpec> = build_opt(i)?;
        let l: Option<LengthSpec> = build_opt(i)?;
        i.close()?;
        if i.pick(3) == 1 {
            return Ok(Problem::new(name, dom, r, ob, init, g, c, m, l));
        }
        let mut p = match i.pick(2) {
            0 => Problem::builder(name, dom, init, g),
            _ => Problem::builder(txt(&name), txt(&dom), init, g),
        };
        for k in calls(i, 5) {
            p = match k {
                0 => p.with_requirements(r.clone()),
                1 => p.with_objects(ob.clone()),
                2 => p.with_constraints(c.clone()),
                3 => match &m {
                    Some(m) => p.with_metric_spec(m.clone()),
                    None => p,
                },
                4 => match &l {
                    Some(l) => p.with_length_spec(l.clone()),
                    None => p,
                },
                5 => p.with_requirements(vec![]),
                6 => p.with_objects(TypedNames::default()),
                7 => p.with_constraints(PrefConGDs::default()),
                8 if m.is_some() => {
                    p.with_metric_spec(MetricSpec::new(Optimization::Minimize, MetricFExp::TotalTime))
                }
                9 if l.is_some() => p.with_length_spec(LengthSpec::new(Some(1), Some(2))),
                _ => p,
            };
        }
        Ok(p)
    }
}
