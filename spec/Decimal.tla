------------------------------- MODULE Decimal --------------------------------
(***************************************************************************)
(* Which single-precision value a decimal denotes: exact arithmetic on     *)
(* digits. For each chosen value the machine writes the decimal that is    *)
(* exactly that value, the one halfway to the next value, and decimals     *)
(* just below and just above halfway.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Exponents, Fractions  \* the biased exponents and the fractions of the values

VARIABLE v  \* [e, f, kind], or a pending choice
vars == <<v>>

Base == 10000
\* Natural numbers: limbs in base 10000, the least significant one first.
RECURSIVE Times(_, _, _)
Times(x, d, carry) ==
  IF x = <<>> THEN IF carry = 0 THEN <<>> ELSE <<carry>>
  ELSE LET p == Head(x) * d + carry
       IN <<p % Base>> \o Times(Tail(x), d, p \div Base)
RECURSIVE Power(_, _, _)
Power(x, d, n) == IF n = 0 THEN x
                  ELSE IF n >= 4 THEN Power(Times(x, d * d * d * d, 0), d, n - 4)
                  ELSE Power(Times(x, d, 0), d, n - 1)
RECURSIVE Limbs(_)
Limbs(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Limbs(n \div Base)

Pad(n) == IF n < 10 THEN "000" \o ToString(n) ELSE IF n < 100 THEN "00" \o ToString(n)
          ELSE IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)
RECURSIVE Digits(_)
Digits(x) == IF x = <<>> THEN "" ELSE Digits(Tail(x)) \o Pad(Head(x))

RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
RECURSIVE Lead(_)
Lead(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 1) = "0" THEN Lead(SubSeq(s, 2, Len(s))) ELSE s

\* The decimal expansion of m * 2^k (k may be negative: it is given as k - off).
\* A decimal point is always written.
Expand(m, k, off) ==
  IF k >= off THEN Lead("0" \o Digits(Power(Limbs(m), 2, k - off))) \o ".0"
  ELSE LET n == off - k  \* m * 5^n / 10^n
           d == Digits(Power(Limbs(m), 5, n))
           p == Zeros(n + 1 - Len(d)) \o d
       IN Lead(SubSeq(p, 1, Len(p) - n)) \o "." \o SubSeq(p, Len(p) - n + 1, Len(p))

\* The decimal just below: digits are a sequence of characters.
Pred(c) == CASE c = "1" -> "0" [] c = "2" -> "1" [] c = "3" -> "2" [] c = "4" -> "3" [] c = "5" -> "4"
             [] c = "6" -> "5" [] c = "7" -> "6" [] c = "8" -> "7" [] c = "9" -> "8"
\* s ends with digits, some of which are not zero.
RECURSIVE Below(_)
Below(s) ==
  LET c == SubSeq(s, Len(s), Len(s))
      r == SubSeq(s, 1, Len(s) - 1)
  IN IF c = "." THEN Below(r) \o "."
     ELSE IF c = "0" THEN Below(r) \o "9"
     ELSE r \o Pred(c)

\* (2^23 + f) * 2^(e - 150), or f * 2^(-149) for e = 0.
Scale(e) == IF e = 0 THEN 1 ELSE e
Mant(e, f) == IF e = 0 THEN f ELSE 8388608 + f
Exact(e, f) == Expand(Mant(e, f), Scale(e), 150)
Half(e, f)  == Expand(2 * Mant(e, f) + 1, Scale(e), 151)

Top == 8388607
Up(e, f) == IF f < Top THEN <<e, f + 1>> ELSE <<e + 1, 0>>
Even(f) == f % 2 = 0

\* What each kind of decimal denotes.
Written(x) == CASE x.kind = "exact"  -> Exact(x.e, x.f)
                [] x.kind = "half"   -> Half(x.e, x.f)
                [] x.kind = "above"  -> Half(x.e, x.f) \o "00000001"
                [] x.kind = "below"  -> Below(Half(x.e, x.f)) \o "99999"
                [] x.kind = "padded" -> "000" \o Exact(x.e, x.f) \o "000"
Denoted(x) == CASE x.kind \in {"exact", "padded", "below"} -> <<x.e, x.f>>
                [] x.kind = "above" -> Up(x.e, x.f)
                [] x.kind = "half"  -> IF Even(x.f) THEN <<x.e, x.f>> ELSE Up(x.e, x.f)

Init == v \in {[e |-> e, f |-> f, kind |-> "none"] : e \in Exponents, f \in Fractions}
Next == /\ v.kind = "none"
        /\ \E k \in {"exact", "half", "above", "below", "padded"} : v' = [v EXCEPT !.kind = k]

TypeOK == v.kind # "none" => Denoted(v)[1] \in 0 .. 255 /\ Denoted(v)[2] \in 0 .. Top

\* Halving and doubling are the inverse of each other, so a decimal has two
\* descriptions that must agree.
Consistent == (v.kind = "exact" /\ v.e > 0 /\ v.e < 254 /\ v.f < 4000000) =>
  Expand(2 * Mant(v.e, v.f), Scale(v.e), 151) = Exact(v.e, v.f)
                \/ Expand(2 * Mant(v.e, v.f), Scale(v.e), 151) = Exact(v.e, v.f) \o "0"

\* Values with exponent 255 are not finite, and are no numbers.
Emit == v.kind # "none" =>
  PrintT("@" \o ToJson([text |-> Written(v), e |-> Denoted(v)[1], f |-> Denoted(v)[2]]))
=============================================================================
