--------------------------------- MODULE Lex ----------------------------------
(***************************************************************************)
(* The language at the level of characters. The machine types every string *)
(* over an alphabet, up to a length, into a frame; the lexer below says    *)
(* which words there are, and so what the library has to make of it.       *)
(***************************************************************************)
EXTENDS Lexical, TLC, Json

CONSTANTS Frame,  \* what is around the string
          Most    \* how many characters are typed

VARIABLE str

Alphabet ==
  CASE Frame = "bare"   -> <<"a", "Z", "0", "9", "-", "_", "?", ".", ":", " ", "(", "#", ";">>
    [] Frame = "atom"   -> <<"a", "Z", "1", "-", "_", "?", " ", ";", "\n">>
    [] Frame = "value"  -> <<" ", "0", "1", "9", ".", "-", "a", ";", "\n">>
    [] Frame = "within" -> <<" ", "0", "1", "9", ".", "-", "a", ";", "\n">>
    [] Frame = "types"  -> <<" ", "a", "B", "-", "1", "_", "\n">>
    [] Frame = "params" -> <<" ", "a", "?", "-", "1", "\t">>

Before == CASE Frame = "bare" -> "" [] Frame = "atom" -> "(p" [] Frame = "value" -> "(= (f)"
            [] Frame = "within" -> "(within" [] Frame = "types" -> "(:types" [] Frame = "params" -> "(p"
Behind == CASE Frame = "bare" -> "" [] Frame = "within" -> "(p))" [] OTHER -> ")"

Init == str = ""
Next == /\ Len(str) < Most
        /\ \E i \in 1 .. Len(Alphabet) : str' = str \o Alphabet[i]

Space == {" ", "\t", "\n", "\r"}

\* Where the layout that begins at i ends.
RECURSIVE Skip(_, _), SkipLine(_, _)
Skip(s, i) == IF i > Len(s) THEN i
              ELSE IF At(s, i) \in Space THEN Skip(s, i + 1)
              ELSE IF At(s, i) = ";" THEN SkipLine(s, i) ELSE i
SkipLine(s, i) ==
  LET RECURSIVE To(_)
      To(j) == IF j > Len(s) \/ At(s, j) \in {"\n", "\r"} THEN j ELSE To(j + 1)
  IN Skip(s, To(i))

\* The words of s from i on: the longest that there is, each time.
\* g: whether there is layout before the word.
RECURSIVE Lexed(_, _)
Lexed(s, i) ==
  LET j == Skip(s, i)
      n == NameAt(s, j)
      v == VarAt(s, j)
      d == NumAt(s, j)
      w(c, l) == <<[c |-> c, w |-> SubSeq(s, j, j + l - 1), g |-> j > i]>> \o Lexed(s, j + l)
  IN IF j > Len(s) THEN <<>>
     ELSE IF n > 0 THEN w("name", n)
     ELSE IF v > 0 THEN w("var", v)
     ELSE IF d > 0 THEN w("num", d)
     ELSE w(At(s, j), 1)

Rng(q) == {q[i] : i \in 1 .. Len(q)}
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))

\* A decimal as the driver prints it: no superfluous zeros.
RECURSIVE Front(_), Back(_)
Front(s) == IF Len(s) > 1 /\ At(s, 1) = "0" /\ At(s, 2) # "." THEN Front(SubSeq(s, 2, Len(s))) ELSE s
Back(s)  == IF At(s, Len(s)) = "0" THEN Back(SubSeq(s, 1, Len(s) - 1))
            ELSE IF At(s, Len(s)) = "." THEN SubSeq(s, 1, Len(s) - 1) ELSE s
Canon(s) == IF \E i \in 1 .. Len(s) : At(s, i) = "." THEN Back(Front(s)) ELSE Front(s)

\* lax: need not be accepted, but if it is, then as this.
No == [ok |-> FALSE, n |-> 0, ast |-> <<>>, lax |-> FALSE]
Yes(n, evs) == [ok |-> TRUE, n |-> n, ast |-> evs, lax |-> FALSE]
Longest(l, ev(_)) == IF l = 0 THEN No ELSE Yes(l, <<ev(SubSeq(str, 1, l))>>)
Same(s) == s
Digit(s) == "#" \o Canon(s)

Text == Before \o str \o Behind
Inner == LET q == Lexed(Text, 1) IN SubSeq(q, 2, Len(q) - 1)

Closed(root, ok, evs) == <<root, IF ok THEN Yes(Len(Text), evs) ELSE No>>
Touching(root, ok, all, evs) ==
  <<root, IF ok THEN [Yes(Len(Text), evs) EXCEPT !.lax = ~all] ELSE No>>
\* A variable announces itself, even without layout before it.
Gapped(q, i) == q[i].g \/ q[i].c = "var"
AllGapped(q) == \A i \in 2 .. Len(q) : q[i].g

\* The comment does not swallow the end of the text.
Ends == LET q == Lexed(Text, 1) IN q # <<>> /\ q[Len(q)].c = ")"

Bare ==
  LET n == Longest(NameAt(str, 1), Same)
      v == Longest(VarAt(str, 1), Same)
  IN IF str # "" /\ At(str, 1) \in {" ", ";", "("} THEN <<>>  \* layout in front is another matter
     ELSE [i \in 1 .. 7 |-> <<(<<"Name", "HeadP", "HeadF", "NameA", "NameD", "NameP", "PType">>)[i], n>>]
          \o << <<"Var", v>>, <<"Num", Longest(NumAt(str, 1), Digit)>>,
                <<"Term", IF n.ok THEN n ELSE v>> >>

Atom ==
  LET q  == Inner
      ok(C) == /\ Ends /\ q # <<>> /\ q[1].c = "name"
               /\ \A i \in 2 .. Len(q) : q[i].c \in C /\ Gapped(q, i)
      ev == <<"<pred">> \o [i \in 1 .. Len(q) |-> q[i].w] \o <<">">>
  IN << Touching("AFt", ok({"name", "var"}), AllGapped(q), ev), Closed("AFn", ok({"name"}), ev) >>

\* Only texts with layout where there has to be some.
Value ==
  LET q == SubSeq(Lexed(Text, 1), 6, Len(Lexed(Text, 1)) - 1)
      x == q[1]
  IN IF str = "" \/ At(str, 1) \notin Space \cup {";"} THEN <<>>
     ELSE << Closed("InitEl", Ends /\ Len(q) = 1 /\ x.c \in {"num", "name"},
                    IF Len(q) # 1 THEN <<>>
                    ELSE IF x.c = "num" THEN <<"<value", "<bft", "f", ">", "#" \o Canon(x.w), ">">>
                    ELSE <<"<object", "<bft", "f", ">", x.w, ">">>) >>

Within ==
  LET q == SubSeq(Lexed(Text, 1), 3, Len(Lexed(Text, 1)) - 4)
  IN IF str = "" \/ At(str, 1) \notin Space \cup {";"} THEN <<>>
     ELSE << Closed("ConGD", Ends /\ Len(q) = 1 /\ q[1].c = "num",
                    <<"<within", IF Len(q) = 1 THEN "#" \o Canon(q[1].w) ELSE "", "<goal", "<pred", "p", ">", ">", ">">>) >>

\* A typed list: the type of element i is the word after the next dash.
Listed(q, C, d) ==
  LET dash(i) == LET S == {j \in i .. Len(q) : q[j].c = "-"}
                 IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : j <= k
      elem(i) == q[i].c # "-" /\ (i = 1 \/ q[i - 1].c # "-")
  IN [ok  |-> \A i \in 1 .. Len(q) :
                /\ Gapped(q, i)
                /\ \/ q[i].c = "-" /\ i > 1 /\ i < Len(q) /\ elem(i - 1) /\ q[i + 1].c = "name"
                   \/ q[i].c \in C
                   \/ q[i].c = "name" /\ i > 1 /\ q[i - 1].c = "-",
      evs |-> <<"<tl">> \o Flat([i \in 1 .. Len(q) |->
                IF ~elem(i) THEN <<>>
                ELSE <<q[i].w, "t=", IF dash(i) = 0 \/ dash(i) = Len(q) THEN d ELSE q[dash(i) + 1].w>>])
              \o <<">">>]

\* Whether a dash stands alone; the library does not insist on that.
Alone(q) == \A i \in 1 .. Len(q) : q[i].c = "-" => q[i].g /\ (i = Len(q) \/ q[i + 1].g)

TypeList ==
  LET all == Lexed(Text, 1)
      q == SubSeq(all, 4, Len(all) - 1)
      r == Listed(q, {"name"}, "object")
  IN IF ~Alone(q) \/ (str # "" /\ At(str, 1) \notin Space) THEN <<>>
     ELSE << Closed("Types", Ends /\ r.ok, r.evs) >>

Params ==
  LET q == SubSeq(Inner, 2, Len(Inner))
      r == Listed(q, {"var"}, "object")
  IN IF ~Alone(q) THEN <<>>
     ELSE << Touching("Skel", Ends /\ Inner # <<>> /\ Inner[1].c = "name" /\ r.ok, AllGapped(Inner),
                    <<"<skel", IF Inner # <<>> THEN Inner[1].w ELSE "">> \o r.evs \o <<">">>) >>

Expected == CASE Frame = "bare" -> Bare [] Frame = "atom" -> Atom [] Frame = "value" -> Value
              [] Frame = "within" -> Within [] Frame = "types" -> TypeList [] Frame = "params" -> Params

(* --------------------------- what the lexer keeps ----------------------- *)
\* The words of a text, in order, are all there is besides layout.
RECURSIVE Dense(_, _)
Dense(s, i) == LET j == Skip(s, i)
               IN IF j > Len(s) THEN "" ELSE At(s, j) \o Dense(s, j + 1)
RECURSIVE Joined(_)
Joined(q) == IF q = <<>> THEN "" ELSE Head(q).w \o Joined(Tail(q))
AllWords == Joined(Lexed(Text, 1)) = Dense(Text, 1)
\* Two words that touch could not have been one.
Munch == LET q == Lexed(Text, 1)
         IN \A i \in 1 .. Len(q) - 1 :
              (~q[i + 1].g /\ q[i].c = "name") => At(q[i + 1].w, 1) \notin InName

Emit == Expected # <<>> =>
  PrintT("@" \o ToJson([text |-> Text, expect |-> Expected]))
=============================================================================
