------------------------------- MODULE Validate -------------------------------
(***************************************************************************)
(* Explains recorded runs of the library: a pushdown recogniser that walks *)
(* the same grammar as Derive, but along the words of a recorded text      *)
(* (way "any") and, for an accepted text, also along the events of the     *)
(* tree that the library gave to it (way "tree").                          *)
(*                                                                         *)
(* Way "tree" may use the lax alternatives and words of the grammar as     *)
(* names; way "any" may not. A recorded run is correct iff                 *)
(*   rejected: no prefix of the text has a strict derivation,              *)
(*   accepted: the consumed words have a derivation with exactly the       *)
(*             recorded tree, a strict one if there is any strict one, and *)
(*             no longer prefix has a strict derivation.                   *)
(***************************************************************************)
EXTENDS Pddl, Lexical, Json

CONSTANT File

Cases == ndJsonDeserialize(File)

VARIABLES c,    \* the recorded run
          way,  \* "tree" or "any"
          stk,  \* items still to be walked
          p, q, \* the next word, the next event
          lax   \* whether a lax alternative was taken

vars == <<c, way, stk, p, q, lax>>

Words_ == Cases[c].toks
Evs    == Cases[c].ast
Limit  == IF way = "tree" THEN Cases[c].n ELSE Len(Words_)

\* The values of numbers that are spelled in the pools.
ValueOf(w, pool) == LET S == {i \in 1 .. Len(pool) : pool[i][1] = w}
                    IN IF S = {} THEN "" ELSE pool[CHOOSE i \in S : TRUE][2]

Fits(cls, w) ==
  CASE cls \in {"name", "head", "type"} -> IsName(w)
    [] cls = "var" -> IsVar(w)
    [] cls = "num" -> IsNum(w)
    [] cls = "int" -> IsInt(w)

Denotes(cls, w, e) ==
  CASE cls \in {"name", "head", "type", "var"} -> e = w
    [] OTHER -> LET v == ValueOf(w, IF cls = "num" THEN NumPool ELSE IntPool)
                IN IF v = "" THEN Len(e) > 1 /\ At(e, 1) = "#" ELSE e = "#" \o v

Choice(it) == \/ it[1] \in {"tl", "td"}
              \/ it[1] = "r" /\ it[3] = 0
              \/ it[1] \in {"n", "o"} /\ Len(Grammar[it[2]]) > 1

Stuck == [ok |-> FALSE, s |-> <<>>, p |-> 0, q |-> 0, x |-> FALSE]

\* How many words and groups there are from word j to the end of the group.
RECURSIVE Elements(_, _)
Elements(j, d) ==
  IF j > Len(Words_) THEN 0
  ELSE CASE Words_[j] = "(" -> Elements(j + 1, d + 1)
         [] Words_[j] = ")" -> IF d = 0 THEN 0 ELSE (IF d = 1 THEN 1 ELSE 0) + Elements(j + 1, d - 1)
         [] OTHER -> (IF d = 0 THEN 1 ELSE 0) + Elements(j + 1, d)

\* Walks as long as there is no choice. j is the next word, k the next event.
RECURSIVE Walk(_, _, _, _)
Walk(s, j, k, x) ==
  IF s = <<>> \/ Choice(Head(s)) THEN [ok |-> TRUE, s |-> s, p |-> j, q |-> k, x |-> x]
  ELSE LET it == Head(s)
           r  == Tail(s)
       IN CASE it[1] = "t" -> IF j <= Limit /\ Words_[j] = it[2] THEN Walk(r, j + 1, k, x) ELSE Stuck
            [] it[1] = "x" -> IF j <= Limit /\ Words_[j] = it[3] THEN Walk(r, j + 1, k, x) ELSE Stuck
            [] it[1] = "e" -> IF way = "any" THEN Walk(r, j, k, x)
                              ELSE IF k <= Len(Evs) /\ Evs[k] = it[2] THEN Walk(r, j, k + 1, x) ELSE Stuck
            [] it[1] = "f" -> Walk(r, j, k, x)
            [] it[1] = "g" -> IF j <= Limit /\ Words_[j] = "(" /\ Elements(j + 1, 0) \in it[2] .. it[3]
                              THEN Walk(r, j, k, x) ELSE Stuck
            [] it[1] \in {"n", "o"} -> Walk(Grammar[it[2]][1].i \o r, j, k, x)
            [] it[1] = "r" -> Walk(<<N(it[2]), R(it[2], it[3] - 1)>> \o r, j, k, x)
            [] it[1] = "tg" ->  \* an element of a group of a typed list, which ends at it[4]
                 IF j < it[4] THEN Walk(<<N(it[2])>> \o it[3] \o <<it>> \o r, j, k, x)
                 ELSE IF j = it[4] THEN Walk(r, j, k, x) ELSE Stuck
            [] it[1] = "l" ->
                 IF j > Limit \/ ~Fits(it[2], Words_[j]) THEN Stuck
                 ELSE LET l == it[2] \in {"name", "head", "type"} /\ Words_[j] \in Keywords
                      IN IF way = "any" THEN IF l \/ (it[2] = "int" /\ Len(Words_[j]) > 19)
                                                    \/ (it[2] = "num" /\ Len(Words_[j]) > 37) THEN Stuck ELSE Walk(r, j + 1, k, x)
                         ELSE IF k <= Len(Evs) /\ Denotes(it[2], Words_[j], Evs[k])
                              THEN Walk(r, j + 1, k + 1, x \/ l) ELSE Stuck

Go(s, l) == LET w == Walk(s, p, q, lax \/ l)
            IN /\ w.ok
               /\ stk' = w.s /\ p' = w.p /\ q' = w.q /\ lax' = w.x
               /\ UNCHANGED <<c, way>>

Expand == /\ stk # <<>> /\ Head(stk)[1] \in {"n", "o"}
          /\ \E i \in 1 .. Len(Grammar[Head(stk)[2]]) :
               LET alt == Grammar[Head(stk)[2]][i]
               IN /\ way = "any" => ~alt.lax
                  /\ Go(alt.i \o Tail(stk), alt.lax)

Repeat == /\ stk # <<>> /\ Head(stk)[1] = "r"
          /\ \/ Go(Tail(stk), FALSE)
             \/ Go(<<N(Head(stk)[2])>> \o stk, FALSE)

\* The dash that ends the group that begins at word j, or 0.
RECURSIVE Dash(_, _)
Dash(j, d) == IF j > Limit THEN 0
              ELSE IF Words_[j] = "(" THEN Dash(j + 1, d + 1)
              ELSE IF Words_[j] = ")" THEN IF d = 0 THEN 0 ELSE Dash(j + 1, d - 1)
              ELSE IF Words_[j] = "-" /\ d = 0 THEN j
              ELSE Dash(j + 1, d)

\* The types of (either ...) from word j on.
RECURSIVE Names(_)
Names(j) == IF j <= Limit /\ IsName(Words_[j]) THEN <<Words_[j]>> \o Names(j + 1) ELSE <<>>

ListGroup ==
  /\ stk # <<>> /\ Head(stk)[1] = "tl"
  /\ LET j == Dash(p, 0)
     IN /\ j > p /\ j < Limit
        /\ LET plain == Words_[j + 1] # "("
               ts == IF plain THEN <<Words_[j + 1]>>
                     ELSE IF j + 2 <= Limit /\ Words_[j + 2] = "either" THEN Names(j + 3) ELSE <<>>
               wr == IF plain THEN <<L("type")>>
                     ELSE <<T("("), T("either")>> \o [i \in 1 .. Len(ts) |-> X("type", ts[i])] \o <<T(")")>>
               ev == IF plain THEN <<E("t="), E(ts[1])>>
                     ELSE <<E("t<")>> \o [i \in 1 .. Len(ts) |-> E(ts[i])] \o <<E("t>")>>
           IN /\ ts # <<>> /\ \A i \in 1 .. Len(ts) : IsName(ts[i])
              /\ way = "any" => \A i \in 1 .. Len(ts) : ts[i] \notin Keywords
              /\ Go(<<<<"tg", Head(stk)[2], ev, j>>, T("-")>>
                    \o (IF plain THEN <<X("type", ts[1])>> ELSE wr) \o stk,
                    \E i \in 1 .. Len(ts) : ts[i] \in Keywords)

ListRest == /\ stk # <<>> /\ Head(stk)[1] = "tl"
            /\ Go(<<<<"td", Head(stk)[2], Head(stk)[3]>>>> \o Tail(stk), FALSE)

ListEnd == /\ stk # <<>> /\ Head(stk)[1] = "td"
           /\ \/ Go(Tail(stk), FALSE)
              \/ Go(<<N(Head(stk)[2]), E("t="), E(Head(stk)[3])>> \o stk, FALSE)

Start == /\ stk # <<>> /\ ~Choice(Head(stk)) /\ Go(stk, FALSE)

Init == /\ c \in 1 .. Len(Cases)
        /\ way \in IF Cases[c].res = "accepted" THEN {"tree", "any"} ELSE {"any"}
        /\ stk = <<N(Cases[c].root)>> /\ p = 1 /\ q = 1 /\ lax = FALSE
Next == Start \/ Expand \/ Repeat \/ ListGroup \/ ListRest \/ ListEnd

\* After the dash of a typed list that is not closed by a parenthesis, anything
\* but a type is an error, rather than the end of the list.
Committed == Cases[c].root \in {"NameList", "VarList", "FSkelList"}

Done == /\ stk = <<>>
        /\ way = "tree" => p = Limit + 1 /\ q = Len(Evs) + 1
        /\ (way = "any" /\ Committed) => p = Limit + 1

TypeOK == p \in 1 .. Len(Words_) + 1 /\ lax \in BOOLEAN
Emit == Done => PrintT("@" \o ToJson([c |-> c, way |-> way, n |-> p - 1, lax |-> lax]))
=============================================================================
