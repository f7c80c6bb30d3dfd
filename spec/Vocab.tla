-------------------------------- MODULE Vocab ---------------------------------
(***************************************************************************)
(* The closed vocabularies: which values there are, and how each is        *)
(* written.                                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Vocabulary == [
  BinaryOp |-> {<<"Multiplication", "*">>, <<"Addition", "+">>, <<"Subtraction", "-">>, <<"Division", "/">>},
  MultiOp |-> {<<"Multiplication", "*">>, <<"Addition", "+">>},
  BinaryComp |-> {<<"GreaterThan", ">">>, <<"LessThan", "<">>, <<"Equal", "=">>,
                  <<"GreaterOrEqual", ">=">>, <<"LessThanOrEqual", "<=">>},
  DOp |-> {<<"Equal", "=">>, <<"GreaterOrEqual", ">=">>, <<"LessThanOrEqual", "<=">>},
  AssignOp |-> {<<"Assign", "assign">>, <<"ScaleUp", "scale-up">>, <<"ScaleDown", "scale-down">>,
                <<"Increase", "increase">>, <<"Decrease", "decrease">>},
  AssignOpT |-> {<<"Increase", "increase">>, <<"Decrease", "decrease">>},
  TimeSpecifier |-> {<<"Start", "start">>, <<"End", "end">>},
  Interval |-> {<<"All", "all">>},
  Optimization |-> {<<"Minimize", "minimize">>, <<"Maximize", "maximize">>},
  Requirement |-> {
    <<"Strips", ":strips">>, <<"Typing", ":typing">>,
    <<"NegativePreconditions", ":negative-preconditions">>,
    <<"DisjunctivePreconditions", ":disjunctive-preconditions">>,
    <<"Equality", ":equality">>, <<"ExistentialPreconditions", ":existential-preconditions">>,
    <<"UniversalPreconditions", ":universal-preconditions">>,
    <<"QuantifiedPreconditions", ":quantified-preconditions">>,
    <<"ConditionalEffects", ":conditional-effects">>, <<"Fluents", ":fluents">>,
    <<"NumericFluents", ":numeric-fluents">>, <<"ObjectFluents", ":object-fluents">>,
    <<"Adl", ":adl">>, <<"DurativeActions", ":durative-actions">>,
    <<"DurationInequalities", ":duration-inequalities">>,
    <<"ContinuousEffects", ":continuous-effects">>,
    <<"DerivedPredicates", ":derived-predicates">>,
    <<"TimedInitialLiterals", ":timed-initial-literals">>,
    <<"Preferences", ":preferences">>, <<"Constraints", ":constraints">>,
    <<"ActionCosts", ":action-costs">>}]

VTypes == DOMAIN Vocabulary
\* Other spellings that are understood, but never written.
Deprecated == {<<"AssignOp", "Assign", "change">>}

WordOf(t, id) == (CHOOSE p \in Vocabulary[t] : p[1] = id)[2]
Reads(t, w) == {p[1] : p \in {q \in Vocabulary[t] : q[2] = w}}
               \cup {d[2] : d \in {e \in Deprecated : e[1] = t /\ e[3] = w}}
AllSpellings == UNION {{p[2] : p \in Vocabulary[t]} : t \in VTypes} \cup {d[3] : d \in Deprecated}

ASSUME \A t \in VTypes : \A p, q \in Vocabulary[t] : (p[1] = q[1]) = (p[2] = q[2])
ASSUME \A t \in VTypes : \A p \in Vocabulary[t] : Reads(t, p[2]) = {p[1]}
===============================================================================
