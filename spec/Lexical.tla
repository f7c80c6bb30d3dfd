------------------------------- MODULE Lexical --------------------------------
(***************************************************************************)
(* The lexical grammar, character by character.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Chars(s) == {SubSeq(s, i, i) : i \in 1 .. Len(s)}
Letters == Chars(Lower) \cup Chars(Upper)
Digits  == Chars("0123456789")
InName  == Letters \cup Digits \cup {"-", "_"}

At(s, i) == SubSeq(s, i, i)

\* How many characters of s, from position i on, are in the set C.
RECURSIVE Span(_, _, _)
Span(s, i, C) == IF i <= Len(s) /\ At(s, i) \in C THEN 1 + Span(s, i + 1, C) ELSE 0

\* The length of the longest name, variable, number that begins at i (or 0).
NameAt(s, i) == IF i <= Len(s) /\ At(s, i) \in Letters THEN Span(s, i, InName) ELSE 0
VarAt(s, i)  == IF i <= Len(s) /\ At(s, i) = "?" /\ NameAt(s, i + 1) > 0 THEN 1 + NameAt(s, i + 1) ELSE 0
IntAt(s, i)  == Span(s, i, Digits)
NumAt(s, i)  == LET n == IntAt(s, i)
                    d == IF n > 0 /\ i + n <= Len(s) /\ At(s, i + n) = "." THEN IntAt(s, i + n + 1) ELSE 0
                IN IF d > 0 THEN n + 1 + d ELSE n

IsName(s) == Len(s) > 0 /\ NameAt(s, 1) = Len(s)
IsVar(s)  == Len(s) > 1 /\ VarAt(s, 1) = Len(s)
IsInt(s)  == Len(s) > 0 /\ IntAt(s, 1) = Len(s)
IsNum(s)  == Len(s) > 0 /\ NumAt(s, 1) = Len(s)
=============================================================================
