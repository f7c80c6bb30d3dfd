-------------------------------- MODULE Pddl --------------------------------
(***************************************************************************)
(* The PDDL 3.1 language of sunsided/pddl-rs as a syntax-directed          *)
(* translation: every nonterminal has a sequence of alternatives, and an   *)
(* alternative is a sequence of items, some of which are tokens of the     *)
(* concrete syntax and some of which are events of the abstract syntax     *)
(* tree.  A derivation therefore produces, from one source of truth, both  *)
(* a text and the meaning that the library must give to that text.         *)
(*                                                                         *)
(* The machines that walk this grammar are Derive (generates), Mutate      *)
(* (generates and then damages), Stream (concatenates) and Validate        *)
(* (explains recorded runs of the library).                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

(* ------------------------------- items -------------------------------- *)
T(s)     == <<"t", s>>      \* a token with a fixed spelling
E(s)     == <<"e", s>>      \* an event of the abstract syntax tree
N(s)     == <<"n", s>>      \* a nonterminal
O(s)     == <<"o", s>>      \* one of the words of the nonterminal s
L(c)     == <<"l", c>>      \* a lexeme of class c: a token and an event
R(s, lo) == <<"r", s, lo>>  \* lo or more times the nonterminal s
TL(s, d) == <<"tl", s, d>>  \* a typed list of s with default type d
F(n)     == <<"f", n>>      \* a section boundary: fuel for what follows
X(c, s)  == <<"x", c, s>>   \* a concrete lexeme of class c, without event
\* Says that what follows is a group of lo to hi words and groups. This adds
\* nothing to the language, but tells a recogniser what not to try.
G(lo, hi) == <<"g", lo, hi>>

Alt(c, i) == [c |-> c, i |-> i, lax |-> FALSE]
\* An alternative that the library happens to accept, but whose meaning (or
\* whose acceptance) nobody should rely on: Validate lets it explain an
\* acceptance, and never demands it.
Lax(c, i) == [c |-> c, i |-> i, lax |-> TRUE]

P(kw, body) == <<T("("), T(kw)>> \o body \o <<T(")")>>
A(ev, body) == <<E("<" \o ev)>> \o body \o <<E(">")>>

TypedVars  == <<E("<tl"), TL("Var", "object"), E(">")>>
TypedNames == <<E("<tl"), TL("Name", "object"), E(">")>>
VarsIn     == <<E("<tl"), T("("), TL("Var", "object"), T(")"), E(">")>>

Op(s)  == <<Alt(0, <<T(s), E(s)>>)>>
RECURSIVE Ops(_)
Ops(ss) == IF ss = <<>> THEN <<>> ELSE Op(Head(ss)) \o Ops(Tail(ss))

\* The deprecated spelling of assign.
Change == <<Alt(0, <<T("change"), E("assign")>>)>>

RequirementKeys == <<
  ":strips", ":typing", ":negative-preconditions", ":disjunctive-preconditions",
  ":equality", ":existential-preconditions", ":universal-preconditions",
  ":quantified-preconditions", ":conditional-effects", ":fluents",
  ":numeric-fluents", ":object-fluents", ":adl", ":durative-actions",
  ":duration-inequalities", ":continuous-effects", ":derived-predicates",
  ":timed-initial-literals", ":preferences", ":constraints", ":action-costs" >>

(* --------------------------- goal descriptions ------------------------- *)
\* A goal description that starts neither with "and" nor with "forall".
GoalCore == <<
  Alt(0, <<N("AFt")>>),
  Alt(1, A("or", P("or", <<R("GD", 0)>>))),
  Alt(1, A("not", P("not", <<N("GD")>>))),
  Alt(1, A("imply", P("imply", <<N("GD"), N("GD")>>))),
  Alt(1, A("exists", P("exists", VarsIn \o <<N("GD")>>))),
  Alt(1, <<N("FComp")>>) >>

GoalAnd    == Alt(1, A("and", P("and", <<R("GD", 0)>>)))
GoalForall == Alt(1, A("forall", P("forall", VarsIn \o <<N("GD")>>)))

ConCore == <<
  Alt(0, A("at-end", <<T("("), T("at"), T("end"), N("GD"), T(")")>>)),
  Alt(0, A("always", P("always", <<N("Con2")>>))),
  Alt(0, A("sometime", P("sometime", <<N("Con2")>>))),
  Alt(1, A("within", P("within", <<L("num"), N("Con2")>>))),
  Alt(1, A("at-most-once", P("at-most-once", <<N("Con2")>>))),
  Alt(1, A("sometime-after", P("sometime-after", <<N("Con2"), N("Con2")>>))),
  Alt(1, A("sometime-before", P("sometime-before", <<N("Con2"), N("Con2")>>))),
  Alt(1, A("always-within", P("always-within", <<L("num"), N("Con2"), N("Con2")>>))),
  Alt(1, A("hold-during", P("hold-during", <<L("num"), L("num"), N("Con2")>>))),
  Alt(1, A("hold-after", P("hold-after", <<L("num"), N("Con2")>>))) >>

AssignTo(ev, op, head, val) == A(ev, <<T("("), op, head, val, T(")")>>)

Expr(self) == <<
  Alt(1, A("bin", <<G(3, 3), T("("), O("BinOp"), N(self), N(self), T(")")>>)),
  Alt(1, A("multi", <<G(4, 100000), T("("), O("MulOp"), N(self), N(self), R(self, 1), T(")")>>)),
  Alt(1, A("neg", <<G(2, 2), T("("), T("-"), N(self), T(")")>>)) >>

GrammarText == [
(* ------------------------------- lexemes ------------------------------- *)
  Name  |-> <<Alt(0, <<L("name")>>)>>,
  Var   |-> <<Alt(0, <<L("var")>>)>>,
  Num   |-> <<Alt(0, <<L("num")>>)>>,
  HeadP |-> <<Alt(0, <<L("head")>>)>>,
  HeadF |-> <<Alt(0, <<L("head")>>)>>,
  NameA |-> <<Alt(0, <<L("name")>>)>>,
  NameD |-> <<Alt(0, <<L("name")>>)>>,
  NameP |-> <<Alt(0, <<L("name")>>)>>,
  PType |-> <<Alt(0, <<L("type")>>)>>,
  BinOp |-> Ops(<<"*", "+", "-", "/">>),
  MulOp |-> Ops(<<"*", "+">>),
  CmpOp |-> Ops(<<">", "<", ">=", "<=">>),
  CmpOpAll |-> Ops(<<">", "<", ">=", "<=", "=">>),
  AssignOp |-> Ops(<<"assign", "increase", "decrease", "scale-up", "scale-down">>) \o Change,
  AssignOp1 |-> Ops(<<"increase", "decrease", "scale-up", "scale-down">>) \o Change,
  AssignOpT |-> Ops(<<"increase", "decrease">>),
  DOp   |-> Ops(<<"<=", ">=", "=">>),
  Time  |-> Ops(<<"start", "end">>),
  Over  |-> Ops(<<"all">>),
  Optim |-> Ops(<<"minimize", "maximize">>),
  ReqKey |-> Ops(RequirementKeys),
(* -------------------------------- terms -------------------------------- *)
  Term  |-> << Alt(0, <<L("var")>>), Alt(0, <<L("name")>>), Alt(1, <<N("FTerm")>>) >>,
  FTerm |-> << Alt(0, A("fterm", <<T("("), L("head"), R("Term", 0), T(")")>>)) >>,
  AFt   |-> << Alt(0, A("pred", <<T("("), L("head"), R("Term", 0), T(")")>>)),
               Alt(1, A("eq", P("=", <<N("Term"), N("Term")>>))) >>,
  AFn   |-> << Alt(0, A("pred", <<T("("), L("head"), R("Name", 0), T(")")>>)),
               Alt(1, A("eq", P("=", <<N("Name"), N("Name")>>))) >>,
  LitT  |-> << Alt(0, A("is", <<N("AFt")>>)),
               Alt(1, A("isnot", P("not", <<N("AFt")>>))) >>,
  LitN  |-> << Alt(0, A("is", <<N("AFn")>>)),
               Alt(1, A("isnot", P("not", <<N("AFn")>>))) >>,
  BFT   |-> << Alt(0, A("bft", <<L("head")>>)), Alt(0, <<N("BFTp")>>) >>,
  BFTp  |-> << Alt(0, A("bft", <<T("("), L("head"), R("Name", 0), T(")")>>)) >>,
(* -------------------------- numeric expressions ------------------------ *)
  FHead |-> << Alt(0, A("fn", <<L("head")>>)), Alt(1, <<N("FHeadP")>>) >>,
  FHeadP |-> << Alt(0, A("fn", <<T("("), L("head"), T(")")>>)),
                Alt(1, A("fnt", <<T("("), L("head"), R("Term", 1), T(")")>>)) >>,
  FExp  |-> << Alt(0, <<L("num")>>), Alt(0, <<N("FHead")>>) >> \o Expr("FExp"),
  FExpNT |-> << Alt(0, <<L("num")>>) >> \o Expr("FExp"),
  FExpOp |-> Expr("FExp"),
  FComp |-> << Alt(0, A("fcomp", <<T("("), O("CmpOp"), N("FExp"), N("FExp"), T(")")>>)),
               Alt(0, A("fcomp", <<T("("), T("="), E("="), N("FExpNT"), N("FExp"), T(")")>>)),
               Alt(0, A("fcomp", <<T("("), T("="), E("="), N("FHead"), N("FExpNT"), T(")")>>)),
               Lax(0, A("fcomp", <<T("("), T("="), E("="), N("FHead"), N("FHead"), T(")")>>)) >>,
  FExpDa |-> << Alt(0, A("fe", <<L("num")>>)), Alt(0, A("fe", <<N("FHead")>>)),
                Alt(0, <<T("?duration"), E("<dur"), E(">")>>) >> \o Expr("FExpDa"),
  FExpT |-> << Alt(0, <<T("#t"), E("<now"), E(">")>>),
               Alt(1, A("scaled", P("*", <<T("#t"), N("FExp")>>))),
               Alt(1, A("scaled", P("*", <<N("FExp"), T("#t")>>))) >>,
  MExp  |-> << Alt(0, <<L("num")>>),
               Alt(0, A("mfn", <<L("head")>>)),
               Alt(0, <<T("total-time"), E("<total-time"), E(">")>>),
               Alt(1, A("is-violated", P("is-violated", <<L("name")>>))),
               Alt(1, A("mfn", <<T("("), L("head"), R("Name", 0), T(")")>>)) >> \o Expr("MExp"),
(* --------------------------------- goals ------------------------------- *)
  GD    |-> GoalCore \o << GoalAnd, GoalForall >>,
  GDx   |-> GoalCore,
  PrefGD |-> << Alt(0, A("goal", <<N("GD")>>)), Alt(1, <<N("Pref")>>) >>,
  Pref  |-> << Alt(0, A("preference", <<T("("), T("preference"), L("name"), N("GD"), T(")")>>)),
               Alt(0, A("preference", <<T("("), T("preference"), E("-"), N("GD"), T(")")>>)) >>,
  PreGD |-> << Alt(0, A("goal", <<N("GDx")>>)), Alt(1, <<N("Pref")>>),
               Alt(1, P("and", <<R("PreGD", 0)>>)),
               Alt(1, A("forall", P("forall", VarsIn \o <<N("PreGDs")>>))) >>,
  PreGDs |-> << Alt(0, A("list", <<N("PreGD")>>)) >>,
  Goal  |-> << Alt(0, P(":goal", <<N("PreGDs")>>)) >>,
(* ------------------------- trajectory constraints ---------------------- *)
  ConGDx |-> ConCore,
  ConGD |-> ConCore \o <<
     Alt(1, A("and", P("and", <<R("ConGD", 0)>>))),
     Alt(1, A("forall", P("forall", VarsIn \o <<N("ConGD")>>))) >>,
  Con2  |-> << Alt(0, A("goal", <<N("GDnc")>>)), Alt(1, A("nested", <<N("ConGD")>>)) >>,
  \* Goal descriptions that do not also read as a constraint.
  GDnc  |-> GoalCore \o <<
     Alt(1, A("and", P("and", <<N("GDx"), R("GD", 0)>>))),
     Alt(1, A("forall", P("forall", VarsIn \o <<N("GDnc")>>))),
     Lax(1, A("and", P("and", <<R("GD", 0)>>))),
     Lax(1, A("forall", P("forall", VarsIn \o <<N("GD")>>))) >>,
  PrefConGD |-> << Alt(0, A("goal", <<N("ConGDx")>>)),
     Alt(0, A("preference", <<T("("), T("preference"), L("name"), N("ConGD"), T(")")>>)),
     Alt(0, A("preference", <<T("("), T("preference"), E("-"), N("ConGD"), T(")")>>)),
     Alt(1, P("and", <<R("PrefConGD", 0)>>)),
     Alt(1, A("forall", P("forall", VarsIn \o <<N("PrefConGDs")>>))) >>,
  PrefConGDs |-> << Alt(0, A("list", <<N("PrefConGD")>>)) >>,
  DConstraints |-> << Alt(0, P(":constraints", <<N("ConGD")>>)) >>,
  PConstraints |-> << Alt(0, P(":constraints", <<N("PrefConGDs")>>)) >>,
(* -------------------------------- effects ------------------------------ *)
  PAtom |-> << Alt(0, A("add", <<N("AFt")>>)),
               Alt(0, A("del", P("not", <<N("AFt")>>))) >>,
  PObj  |-> << Alt(1, A("objassign", P("assign", <<N("FTerm"), T("undefined"), E("undefined")>>))),
               Alt(1, A("objassign", P("assign", <<N("FTerm"), N("Term")>>))) >>,
  \* Assignments that can only be read as assignments of objects.
  PObjVar |-> << Alt(1, A("objassign", P("assign", <<N("FTerm"), L("var")>>))) >>,
  PNum  |-> << Alt(1, A("numassign", <<T("("), O("AssignOp1"), N("FHead"), N("FExp"), T(")")>>)),
               Alt(1, A("numassign", <<T("("), T("assign"), E("assign"), N("FHead"), N("FExpNT"), T(")")>>)),
               Lax(1, A("numassign", <<T("("), T("assign"), E("assign"), N("FHead"), N("FExp"), T(")")>>)) >>,
  PEffect |-> << Alt(0, <<N("PAtom")>>), Alt(0, <<N("PAtom")>>),
                 Alt(1, <<N("PObj")>>), Alt(1, <<N("PNum")>>) >>,
  CondEffect |-> << Alt(0, A("single", <<N("PEffect")>>)),
                    Alt(1, A("all", P("and", <<R("PEffect", 0)>>))) >>,
  CForall |-> << Alt(0, A("forall", P("forall", VarsIn \o <<N("Effects")>>))) >>,
  CWhen |-> << Alt(0, A("when", P("when", <<N("GD"), N("CondEffect")>>))) >>,
  CEffect |-> << Alt(0, A("effect", <<N("PEffect")>>)), Alt(1, <<N("CForall")>>), Alt(1, <<N("CWhen")>>) >>,
  Effects |-> << Alt(0, A("effects", <<N("CEffect")>>)),
                 Alt(1, A("effects", P("and", <<R("CEffect", 0)>>))) >>,
(* ------------------------- durative conditions ------------------------- *)
  TimedGD |-> << Alt(0, A("at", P("at", <<O("Time"), N("GD")>>))),
                 Alt(0, A("over", P("over", <<O("Over"), N("GD")>>))) >>,
  PrefTimedGD |-> << Alt(0, A("required", <<N("TimedGD")>>)),
     Alt(1, A("preference", <<T("("), T("preference"), L("name"), N("TimedGD"), T(")")>>)),
     Alt(1, A("preference", <<T("("), T("preference"), E("-"), N("TimedGD"), T(")")>>)) >>,
  DaGD |-> << Alt(0, A("timed", <<N("PrefTimedGD")>>)),
     Alt(1, A("and", P("and", <<R("DaGD", 0)>>))),
     Alt(1, A("forall", P("forall", VarsIn \o <<N("DaGD")>>))) >>,
  DValue |-> << Alt(0, A("dnum", <<L("num")>>)), Alt(0, A("dexp", <<N("FHead")>>)),
                Alt(1, A("dexp", <<N("FExpOp")>>)) >>,
  SDurC |-> << Alt(0, A("dop", <<T("("), O("DOp"), T("?duration"), N("DValue"), T(")")>>)),
               Alt(1, A("dat", P("at", <<O("Time"), N("SDurC")>>))) >>,
  DurC  |-> << Alt(0, A("single", <<N("SDurC")>>)),
               Alt(0, <<T("("), T(")"), E("<none"), E(">")>>),
               Alt(1, A("all", P("and", <<R("SDurC", 1)>>))) >>,
(* --------------------------- durative effects -------------------------- *)
  FAssignDa |-> << Alt(0, A("fassign", <<T("("), O("AssignOp"), N("FHead"), N("FExpDa"), T(")")>>)) >>,
  TCond |-> << Alt(0, A("single", <<N("PAtom")>>)),
               Alt(1, A("single", <<N("PObjVar")>>)),
               Alt(1, A("all", P("and", <<R("PEffect", 0)>>))),
               Lax(1, A("single", <<N("PEffect")>>)) >>,
  TimedEffect |-> << Alt(0, A("cond", P("at", <<O("Time"), N("TCond")>>))),
     Alt(0, A("fluent", P("at", <<O("Time"), N("FAssignDa")>>))),
     Alt(0, A("continuous", <<T("("), O("AssignOpT"), N("FHead"), N("FExpT"), T(")")>>)) >>,
  DaEffect |-> << Alt(0, A("timed", <<N("TimedEffect")>>)),
     Alt(1, A("and", P("and", <<R("DaEffect", 0)>>))),
     Alt(1, A("forall", P("forall", VarsIn \o <<N("DaEffect")>>))),
     Alt(1, A("when", P("when", <<N("DaGD"), N("TimedEffect")>>))) >>,
(* ------------------------- lists of declarations ----------------------- *)
  Type  |-> << Alt(0, <<E("t="), L("type")>>),
               Alt(1, <<E("t<"), T("("), T("either"), R("PType", 1), T(")"), E("t>")>>) >>,
  NameList |-> << Alt(0, TypedNames) >>,
  VarList |-> << Alt(0, TypedVars) >>,
  Skel  |-> << Alt(0, A("skel", <<T("("), L("head")>> \o TypedVars \o <<T(")")>>)) >>,
  FType |-> << Alt(0, <<N("Type")>>) >>,
  FSkel |-> << Alt(0, <<N("Skel")>>) >>,
  FSkelList |-> << Alt(0, <<E("<tl"), TL("Skel", "number"), E(">")>>) >>,
  Extends |-> << Alt(0, A("extends", P(":extends", <<R("Name", 1)>>))) >>,
  Requirements |-> << Alt(0, A("requirements", P(":requirements", <<R("ReqKeyO", 1)>>))) >>,
  ReqKeyO |-> << Alt(0, <<O("ReqKey")>>) >>,
  Types |-> << Alt(0, P(":types", TypedNames)) >>,
  Constants |-> << Alt(0, P(":constants", TypedNames)) >>,
  Objects |-> << Alt(0, P(":objects", TypedNames)) >>,
  Predicates |-> << Alt(0, A("predicates", P(":predicates", <<R("Skel", 1)>>))) >>,
  Functions |-> << Alt(0, P(":functions", <<N("FSkelList")>>)) >>,
  Timeless |-> << Alt(0, A("timeless", P(":timeless", <<R("LitN", 1)>>))) >>,
(* --------------------------- actions and axioms ------------------------ *)
  Pre   |-> << Alt(0, <<T(":precondition"), E("<list"), N("PreGD"), E(">")>>),
               Alt(0, <<T(":precondition"), T("("), T(")"), E("<list"), E(">")>>),
               Alt(0, <<E("<list"), E(">")>>) >>,
  Eff   |-> << Alt(0, <<T(":effect"), N("Effects")>>),
               Alt(0, <<T(":effect"), T("("), T(")"), E("none")>>),
               Alt(0, <<E("none")>>) >>,
  Action |-> << Alt(0, A("action", P(":action", <<L("name"), T(":parameters")>> \o VarsIn
                  \o <<F(1), N("Pre"), F(1), N("Eff")>>))) >>,
  DaCond |-> << Alt(0, <<T(":condition"), N("DaGD")>>),
                Alt(0, <<T(":condition"), T("("), T(")"), E("none")>>) >>,
  DaEff |-> << Alt(0, <<T(":effect"), N("DaEffect")>>),
               Alt(0, <<T(":effect"), T("("), T(")"), E("none")>>) >>,
  DurativeAction |-> << Alt(0, A("durative-action", P(":durative-action",
                  <<L("name"), T(":parameters")>> \o VarsIn \o <<F(1), T(":duration"), N("DurC"),
                    F(1), N("DaCond"), F(1), N("DaEff")>>))) >>,
  Derived |-> << Alt(0, A("derived", P(":derived", <<N("Skel"), F(1), N("GD")>>))) >>,
  Structure |-> << Alt(0, <<F(1), N("Action")>>), Alt(0, <<F(1), N("Derived")>>),
                   Alt(0, <<F(1), N("DurativeAction")>>) >>,
(* --------------------------------- domain ------------------------------ *)
  ExtendsO |-> << Alt(0, <<E("<extends"), E(">")>>), Alt(1, <<N("Extends")>>) >>,
  RequirementsO |-> << Alt(0, <<E("<requirements"), E(">")>>), Alt(1, <<N("Requirements")>>) >>,
  TypesO |-> << Alt(0, <<E("<tl"), E(">")>>), Alt(1, <<N("Types")>>) >>,
  ConstantsO |-> << Alt(0, <<E("<tl"), E(">")>>), Alt(1, <<N("Constants")>>) >>,
  PredicatesO |-> << Alt(0, <<E("<predicates"), E(">")>>), Alt(1, <<N("Predicates")>>) >>,
  FunctionsO |-> << Alt(0, <<E("<tl"), E(">")>>), Alt(1, <<N("Functions")>>) >>,
  DConstraintsO |-> << Alt(0, <<E("<and"), E(">")>>), Alt(1, <<N("DConstraints")>>) >>,
  StructuresO |-> << Alt(0, <<E("<structure"), E(">")>>),
                     Alt(1, A("structure", <<R("Structure", 1)>>)) >>,
  Domain |-> << Alt(0, A("domain", <<T("("), T("define"), T("("), T("domain"), L("name"), T(")"),
      F(2), N("ExtendsO"), F(2), N("RequirementsO"), F(2), N("TypesO"), F(2), N("ConstantsO"),
      F(2), N("PredicatesO"), F(2), N("FunctionsO"), F(2), N("DConstraintsO"), F(2),
      N("StructuresO"), T(")")>>)) >>,
(* --------------------------------- problem ----------------------------- *)
  InitEl |-> << Alt(0, A("literal", <<N("LitN")>>)),
     Alt(1, A("at", P("at", <<L("num"), N("LitN")>>))),
     Alt(1, A("value", P("=", <<N("BFT"), L("num")>>))),
     Alt(1, A("object", P("=", <<N("BFTp"), L("name")>>))) >>,
  Init  |-> << Alt(0, A("init", P(":init", <<R("InitEl", 0)>>))) >>,
  Metric |-> << Alt(0, A("metric", P(":metric", <<O("Optim"), N("MExp")>>))) >>,
  Serial |-> << Alt(0, <<E("-")>>), Alt(0, P(":serial", <<L("int")>>)) >>,
  Parallel |-> << Alt(0, <<E("-")>>), Alt(0, P(":parallel", <<L("int")>>)) >>,
  Length |-> << Alt(0, A("length", P(":length", <<N("Serial"), N("Parallel")>>))) >>,
  ObjectsO |-> << Alt(0, <<E("<tl"), E(">")>>), Alt(1, <<N("Objects")>>) >>,
  PConstraintsO |-> << Alt(0, <<E("<list"), E(">")>>), Alt(1, <<N("PConstraints")>>) >>,
  MetricO |-> << Alt(0, <<E("none")>>), Alt(1, <<N("Metric")>>) >>,
  LengthO |-> << Alt(0, <<E("none")>>), Alt(1, <<N("Length")>>) >>,
  Problem |-> << Alt(0, A("problem", <<T("("), T("define"), T("("), T("problem"), L("name"), T(")"),
      T("("), T(":domain"), L("name"), T(")"),
      F(2), N("RequirementsO"), F(2), N("ObjectsO"), F(2), N("Init"), F(2), N("Goal"),
      F(2), N("PConstraintsO"), F(2), N("MetricO"), F(2), N("LengthO"), T(")")>>)) >>
]

(* ---------------------------- lexical pools ---------------------------- *)
\* Numbers: how they are written and the value that they denote (the f32
\* nearest to the decimal, in its shortest spelling).
Decimals == <<
  <<"0", "0">>, <<"1", "1">>, <<"2.5", "2.5">>, <<"3", "3">>, <<"10", "10">>, <<"0.25", "0.25">>,
  <<"42.0", "42">>, <<"7.125", "7.125">>, <<"0.1", "0.1">>, <<"1000000", "1000000">>,
  <<"3.14159", "3.14159">>, <<"007", "7">>, <<"16777216", "16777216">>, <<"0.0", "0">>,
  <<"00.50", "0.5">>, <<"16777217", "16777216">>, <<"99999.99", "99999.99">>, <<"5.", "5">> >>
NumPool  == Decimals
NumCount == Len(NumPool) - 1   \* the last one is not a number of the language

IntPool == << <<"0", "0">>, <<"1", "1">>, <<"25", "25">>, <<"007", "7">>,
  <<"4294967296", "4294967296">>, <<"18446744073709551615", "18446744073709551615">>, <<"3", "3">> >>

\* Words of the grammar, and names that begin or end with them.
Words == <<
  "and", "or", "not", "imply", "exists", "forall", "when", "preference", "at", "start", "end", "over",
  "all", "always", "sometime", "within", "at-most-once", "sometime-after", "sometime-before",
  "always-within", "hold-during", "hold-after", "assign", "increase", "decrease", "scale-up",
  "scale-down", "change", "is-violated", "total-time", "either", "undefined", "object", "number",
  "minimize", "maximize", "define", "domain", "problem", "strips", "duration" >>
Tails == << "1", "-x", "_", "s", "-", "A", "0-", "_1", "-1", "x" >>
Longer  == [i \in 1 .. Len(Words) |-> Words[i] \o Tails[(i % Len(Tails)) + 1]]
Longer2 == [i \in 1 .. Len(Words) |-> Words[i] \o Tails[((i * 3) % Len(Tails)) + 1]]
Ending  == [i \in 1 .. Len(Words) |-> <<"x-", "un", "z_", "A1">>[(i % 4) + 1] \o Words[i]]
\* The words that are names wherever an argument can stand.
Plainly == SelectSeq(Words, LAMBDA w : w \notin {"preference", "at", "end", "either", "assign", "undefined"})

NamePool == <<
  "a", "B", "x1", "object", "n", "n-", "n_", "n-1", "Z9", "a-b_c9", "x-y-z", "a1b2c3", "A", "b",
  "aa", "ab", "AB", "truck1", "truck2", "truck-1", "loc_1", "i", "e5", "E1", "inf", "nan", "t",
  "infinity", "NaN", "true", "nil", "x--", "x__", "x-_-", "object-1", "numbers",
  "a-very-long-name-that-goes-on-and-on-and-on-and-on-0123456789_0123456789-abcdefghijklmnopqrstuvwxyz" >>
  \o Longer \o Ending \o Plainly
VarPool == <<
  "?a", "?B", "?x", "?x1", "?x-1", "?x_1", "?Z9", "?a-b_c9", "?y", "?z", "?from", "?to", "?o1",
  "?o2", "?X", "?truck", "?loc-from", "?t", "?durations", "?duration-x",
  "?a-very-long-variable-name-0123456789_0123456789-abcdefghijklmnopqrstuvwxyz" >>
  \o [i \in 1 .. Len(Words) - 1 |-> "?" \o Words[i]] \o [i \in 1 .. Len(Longer) |-> "?" \o Longer[i]]
HeadPool == <<
  "p", "q", "at", "on", "on-table", "f", "g", "H9", "total-cost", "fuel_level", "object", "number",
  "start", "n", "P", "holding", "clear", "e5", "inf", "nan", "p-", "p_", "p--q",
  "a-rather-long-predicate-name-with-many-parts_0123456789-abcdefghijklmnopqrstuvwxyz" >>
  \o Longer \o Longer2 \o Ending
TypePool == <<
  "object", "number", "vehicle", "truck", "t", "T", "t1", "t-1", "loc_ation", "package", "physobj",
  "object-x", "object_", "objectA", "number-", "number1", "numberz", "t-", "t_",
  "a-rather-long-type-name_0123456789-abcdefghijklmnopqrstuvwxyz" >>
  \o Longer \o Longer2 \o Ending \o Plainly
\* The size of the largest pool.
PoolSize == 160

\* Names that the grammar uses as keywords.
Keywords == {
  "and", "or", "not", "imply", "exists", "forall", "when", "preference", "at", "end", "over",
  "always", "sometime", "within", "at-most-once", "sometime-after", "sometime-before",
  "always-within", "hold-during", "hold-after", "assign", "increase", "decrease", "scale-up",
  "scale-down", "change", "is-violated", "total-time", "either", "undefined" }
\* Every fixed spelling that is also a name.
NameLike == Keywords \cup { "start", "all", "minimize", "maximize", "define", "domain", "problem" }
(* TLC would evaluate the grammar again wherever it is used. *)
ASSUME TLCSet(41, GrammarText)
Grammar == TLCGet(41)

=============================================================================
