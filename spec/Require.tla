------------------------------- MODULE Require --------------------------------
(***************************************************************************)
(* Requirements: what they include, what sets of them stand for. A set is  *)
(* built one requirement after the other.                                  *)
(***************************************************************************)
EXTENDS Vocab, Json

CONSTANTS Most,    \* how long the sequences get
          Ask      \* whether to ask about the members one by one

Features == {p[1] : p \in Vocabulary["Requirement"]}
Spelling(r) == WordOf("Requirement", r)

\* As documented: "Same as".
Parts(r) ==
  CASE r = "QuantifiedPreconditions" -> {"ExistentialPreconditions", "UniversalPreconditions"}
    [] r = "Fluents" -> {"NumericFluents", "ObjectFluents"}
    [] r = "Adl" -> {"Strips", "Typing", "NegativePreconditions", "DisjunctivePreconditions", "Equality",
                     "QuantifiedPreconditions", "ConditionalEffects"}
    [] OTHER -> {}

RECURSIVE Within(_)
Within(r) == {r} \cup UNION {Within(p) : p \in Parts(r)}
Simple(r) == Parts(r) = {}
Expand(r) == {x \in Within(r) : Simple(x)}
Effective(s) == IF s = {} THEN {"Strips"} ELSE UNION {Expand(r) : r \in s}
Includes(s, x) == \E r \in s : x \in Within(r)

VARIABLE seq
Set == {seq[i] : i \in 1 .. Len(seq)}

RInit == seq = <<>>
Require(r) == seq' = Append(seq, r)
RNext == Len(seq) < Most /\ \E r \in Features : Require(r)

TypeOK == seq \in Seq(Features)
\* Expanding is the union of what the members stand for, in which nothing is composite.
Flat == \A x \in Effective(Set) : Simple(x)
Idempotent == Effective(Effective(Set)) = Effective(Set)
\* Being included agrees with being expanded.
Agrees == \A x \in Features : Simple(x) => ((Set # {}) => (Includes(Set, x) <=> x \in Effective(Set)))
Composite == \A x \in Features : Includes(Set, x) => Expand(x) \subseteq Effective(Set)
\* Adding a requirement never takes something away - except the implicit one.
Monotone == [][Set # {} => Effective(Set) \subseteq {x \in Effective({seq'[i] : i \in 1 .. Len(seq')}) : TRUE}]_seq

Emit == PrintT("@" \o ToJson([seq |-> seq, effective |-> Effective(Set),
                              includes |-> {x \in Features : Includes(Set, x)}]))
EmitLast == Len(seq) = Most => Emit

\* What is shared by all cases.
ASSUME Ask => PrintT("@" \o ToJson([head |-> [
   spelling |-> [r \in Features |-> Spelling(r)],
   expand |-> [r \in Features |-> Expand(r)],
   within |-> [r \in Features |-> Within(r)]]]))
===============================================================================
