-------------------------------- MODULE Number --------------------------------
(***************************************************************************)
(* Numbers are the finite single-precision values. A value is a sign, an   *)
(* exponent and a fraction; its key is an integer, and keys are ordered    *)
(* and equal like the values are. Integers and double-precision values are *)
(* sequences of bits that are rounded to the nearest number, ties to even. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode,       \* "pairs", "ints" or "doubles"
          Exponents,  \* biased exponents
          Fractions,  \* fractions
          Noise       \* integers whose bits are used as patterns

VARIABLE v

Two23 == 8388608
Key(x) == (IF x.s = 1 THEN -1 ELSE 1) * (x.e * Two23 + x.f)
Finite(x) == x.e < 255

Values == {[s |-> s, e |-> e, f |-> f] : s \in {0, 1}, e \in Exponents, f \in Fractions}

Compare(a, b) == IF Key(a) < Key(b) THEN "less" ELSE IF Key(a) > Key(b) THEN "greater" ELSE "equal"

------------------------------------------------------------------------------
\* Rounding. Bits are given with the most significant one first, which is 1;
\* the value is 1.bits * 2^exp.
RECURSIVE Value(_, _)
Value(b, acc) == IF b = <<>> THEN acc ELSE Value(Tail(b), 2 * acc + Head(b))
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN <<>> ELSE <<0>> \o Zeros(n - 1)
RECURSIVE Ones(_)
Ones(n) == IF n <= 0 THEN <<>> ELSE <<1>> \o Ones(n - 1)
AnyOne(b) == \E i \in 1 .. Len(b) : b[i] = 1

\* The key of the nearest number; 255 * 2^23 or more if that is not finite.
Nearest(b, exp) ==
  LET keep == IF exp >= -126 THEN 24 ELSE 24 - (-126 - exp)  \* how many bits there are
      p == b \o Zeros(26)
      m == IF keep <= 0 THEN 0 ELSE Value(SubSeq(p, 1, keep), 0)
      half == IF keep < 0 THEN 0 ELSE p[keep + 1]
      more == IF keep < 0 THEN FALSE ELSE AnyOne(SubSeq(p, keep + 2, Len(p)))
      up == half = 1 /\ (more \/ m % 2 = 1)
      r == m + (IF up THEN 1 ELSE 0)
  IN IF exp > 127 THEN 255 * Two23
     ELSE IF exp >= -126 THEN (exp + 126) * Two23 + r ELSE r

RECURSIVE Lead(_)
Lead(b) == IF b = <<>> \/ Head(b) = 1 THEN b ELSE Lead(Tail(b))
Integer(b) == LET c == Lead(b) IN IF c = <<>> THEN 0 ELSE Nearest(c, Len(c) - 1)

\* A double: 52 bits of fraction.
Double(e, b) == IF e = 0 THEN 0 ELSE Nearest(<<1>> \o b, e - 1023)

RECURSIVE BitsOf(_, _)
BitsOf(n, w) == IF w = 0 THEN <<>> ELSE Append(BitsOf(n \div 2, w - 1), n % 2)

Fill(w, n) == IF w <= 24 THEN BitsOf(n, w) ELSE BitsOf(n, 24) \o Zeros(w - 24)
Patterns(w) == {Zeros(w), Ones(w)}
               \cup (IF w > 0 THEN {Zeros(w - 1) \o <<1>>, <<1>> \o Zeros(w - 1), Ones(w - 1) \o <<0>>, <<0>> \o Ones(w - 1)} ELSE {})
               \cup {Fill(w, n) : n \in Noise}
\* What comes after the bits that are kept decides.
Tails(w) == Patterns(w)

Ints == {<<1>> \o p : p \in UNION {Patterns(w) : w \in 0 .. 23}}
        \cup {(<<1>> \o p) \o q : p \in Patterns(23), q \in UNION {Tails(w) : w \in 1 .. 8}}
        \cup {<<>>}
Doubles == {p \o q : p \in Patterns(23), q \in Tails(29)}
           \cup (LET ws == {10, 21, 22} IN UNION {{p \o q : p \in Patterns(w), q \in Tails(52 - w)} : w \in ws})

------------------------------------------------------------------------------
Init ==
  CASE Mode = "pairs" -> v \in {[a |-> a, b |-> b] : a \in Values, b \in Values}
    [] Mode = "ints" -> v \in {[neg |-> n, bits |-> b] : n \in {FALSE, TRUE}, b \in Ints}
    [] Mode = "doubles" -> v \in {[neg |-> n, e |-> e, bits |-> b] : n \in {FALSE, TRUE}, e \in Exponents, b \in Doubles}
Next == UNCHANGED v

\* The order is total and agrees with equality; values with the same key are zeros or the same.
Total == Mode = "pairs" =>
  /\ (Compare(v.a, v.b) = "less") = (Compare(v.b, v.a) = "greater")
  /\ (Compare(v.a, v.b) = "equal") = (v.a = v.b \/ (v.a.e = 0 /\ v.a.f = 0 /\ v.b.e = 0 /\ v.b.f = 0))
  /\ \A c \in Values : Compare(v.a, v.b) = "less" /\ Compare(v.b, c) # "greater" => Compare(v.a, c) = "less"
\* Up to 24 bits nothing is lost.
Exact == Mode = "ints" /\ Len(v.bits) \in 1 .. 24 =>
  LET k == Integer(v.bits)
      m == (k % Two23) + Two23
      e == k \div Two23
  IN Value(v.bits \o Zeros(24 - Len(v.bits)), 0) = m /\ e = 126 + Len(v.bits)

RECURSIVE Show(_)
Show(b) == IF b = <<>> THEN "" ELSE ToString(Head(b)) \o Show(Tail(b))
Emit ==
  CASE Mode = "pairs" -> PrintT("@" \o ToJson([a |-> v.a, b |-> v.b, cmp |-> Compare(v.a, v.b)]))
    [] Mode = "ints" -> PrintT("@" \o ToJson([neg |-> v.neg, int |-> Show(v.bits), key |-> Integer(v.bits)]))
    [] Mode = "doubles" -> PrintT("@" \o ToJson([neg |-> v.neg, e |-> v.e, double |-> Show(v.bits), key |-> Double(v.e, v.bits)]))

\* All values, in order; those that are equal share a rank.
RECURSIVE Sorted(_)
Sorted(keys) == IF keys = {} THEN <<>>
                ELSE LET k == CHOOSE x \in keys : \A y \in keys : x <= y
                     IN <<k>> \o Sorted(keys \ {k})
ASSUME Mode = "pairs" =>
  LET fin == {x \in Values : Finite(x)}
  IN PrintT("@" \o ToJson([head |-> [values |-> fin, order |-> Sorted({Key(x) : x \in fin})]]))
===============================================================================
