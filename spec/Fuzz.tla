--------------------------------- MODULE Fuzz ----------------------------------
(***************************************************************************)
(* Arbitrary texts. The only demand on the library is that it answers, the *)
(* same each time, so the machine knows nothing about the language:        *)
(*   "pieces"  appends fragments of words, words, and odd characters,      *)
(*   "nests"   repeats openings, a core and closings, not always matching, *)
(*   "floods"  repeats a fragment very often.                              *)
(* {u}, {nul}, ... are characters that the driver spells out.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Mode, Most, Depths

VARIABLES text, n, case
vars == <<text, n, case>>

Pieces == <<
  "(", ")", " ", "\n", "\r", "\t", ";", ";\n", "; c\n", "?", "-", "_", ":", "#", ".", "=", "<", ">=", "\"", "'",
  "{u}", "{nul}", "{bom}", "{nbsp}", "{astral}", "{comb}", "{arabic}", "{wide}", "{esc}", "{ls}",
  "a", "Z9", "0", "1.5", "1.", ".5", "1e9", "9999999999999999999999999999999999999999999999",
  "0.00000000000000000000000000000000000000000000000001", "-1", "+", "*", "/", "()", "( )", "((", "))",
  "and", "or", "not", "imply", "exists", "forall", "when", "preference", "either", "at", "end", "start", "over",
  "all", "always", "sometime", "within", "at-most-once", "sometime-after", "sometime-before", "always-within",
  "hold-during", "hold-after", "assign", "increase", "scale-up", "change", "undefined", "minimize", "maximize",
  "is-violated", "total-time", "?duration", "#t", "object", "number", "define", "domain", "problem",
  "(define (domain d)", "(define (problem p)", "(:domain d)", ":requirements", ":strips", ":types", ":constants",
  ":predicates", ":functions", ":constraints", ":action", ":parameters", ":precondition", ":effect",
  ":durative-action", ":duration", ":condition", ":derived", ":objects", ":init", ":goal", ":metric", ":length",
  ":serial", ":parallel", ":extends", ":timeless", "(p)", "(p ?x)", "(= ?x ?y)", "(?x ?y - t)", "- (either a b)",
  "(at start (p))", "(over all (p))", "(f)", "(= (f) 1)", "(:action a :parameters ()", "(:goal (p))",
  "(:length (:serial 99999999999999999999))", "(within 99999999999999999999999999999999999999999 (p))", "18446744073709551616" >>

Openings == <<
  "(", "((", "(and ", "(or ", "(not ", "(imply (p) ", "(imply ", "(forall (?x) ", "(exists (?x - t) ",
  "(forall (", "(exists ", "(when (p) ", "(when ", "(preference p ", "(preference ", "(at start ", "(at end ",
  "(over all ", "(at 5 ", "(always ", "(sometime ", "(within 5 ", "(at-most-once ", "(sometime-after (p) ",
  "(sometime-before ", "(always-within 5 (p) ", "(hold-during 1 2 ", "(hold-after 5 ", "(- ", "(- 1 ", "(+ 1 ",
  "(* ", "(* 1 2 ", "(/ 1 ", "(+ (f) ", "(f ", "(p ?x ", "(= ", "(= (f) ", "(< 1 ", "(>= (+ 1 2) ",
  "(increase (f) ", "(assign ", "(* #t ", "(increase (f) (* #t ", "(either ", "(either a ", "(a - ", "a - (either ",
  "(is-violated ", "(<= ?duration ", "(at start (<= ?duration ", "(:goal ", "(:action a :effect ", "(define ",
  "(f ?x - (either ", "(and (and) ", "(or (not ", "(+ (- ", "(at start (and ", "(not (not ", "(+ (+ 1 2) ",
  "(and (forall (?x) ", "(when (and ", "(= ?x (f " >>
Contexts == << "", "(:goal ", "(:constraints ", "(:metric minimize ", "(:action a :parameters () :effect ",
  "(:durative-action a :parameters () :duration () :condition ", "(:derived (p) ", "(:init ", "(:types ",
  "(:durative-action a :parameters () :duration () :condition () :effect ", "(:action a :parameters () :precondition " >>
Cores == << "", "(p)", "1", "(f)", "?x", "(at start (p))", "(f) 2" >>

Floods == << " ", "\n", ";\n", "; comment\n", ";{u}\r\n", "a", "a ", "9", "0", "a - t ", "?x ", "?x - (either a b) ", "(p) ",
  "(f ?x) - number ", "(not (p)) ", "(at 5 (p)) ", "(= (f) 1) ", ":strips ", "(p ?x - t)", "(at start (p)) ",
  "(preference p (p)) ", "(increase (f) 1) ", "(<= ?duration 1) ", "(:action a :parameters () :effect ())\n", "{u}",
  "(always (p)) ", "-", "1 " >>
Fronts == << "", "(", "(and ", "(p ", "(+ 1 ", "(:types ", "(:objects ", "(:predicates ", "(:functions ", "(:init ",
  "(:requirements ", "(:parameters (", "(either ", "(define (domain d) ", "(define (problem p) (:domain d) ", ";" >>
Ends == << "", ")", "))", " (p)" >>

None == [open |-> "", n |-> 0]
Rng(q) == {q[i] : i \in 1 .. Len(q)}

Init == /\ text = "" /\ case = None
        /\ n \in IF Mode = "pieces" THEN 0 .. Most ELSE {0}

Append_ == /\ Mode = "pieces" /\ n > 0
           /\ \E i \in 1 .. Len(Pieces) : text' = text \o Pieces[i]
           /\ n' = n - 1 /\ UNCHANGED case

Nest == /\ Mode = "nests" /\ case = None
        /\ \E o \in Rng(Openings), x \in Rng(Contexts), c \in Rng(Cores), d \in Depths, m \in {0, 1, 2, 3} :
             case' = [front |-> x, open |-> o, n |-> d, core |-> c,
                      close |-> IF m = 2 THEN "))" ELSE IF m = 3 THEN ") 1)" ELSE ")",
                      m |-> IF m = 0 THEN 0 ELSE d, tail |-> IF x = "" THEN "" ELSE ")"]
        /\ UNCHANGED <<text, n>>

Flood == /\ Mode = "floods" /\ case = None
         /\ \E o \in Rng(Floods), x \in Rng(Fronts), e \in Rng(Ends), d \in Depths :
              case' = [front |-> x, open |-> o, n |-> d, core |-> "", close |-> "", m |-> 0, tail |-> e]
         /\ UNCHANGED <<text, n>>

Next == Append_ \/ Nest \/ Flood

TypeOK == n \in 0 .. Most
Emit == /\ (Mode = "pieces" /\ n = 0) => PrintT("@" \o ToJson([text |-> text]))
        /\ case # None => PrintT("@" \o ToJson(case))
=============================================================================
