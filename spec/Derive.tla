------------------------------- MODULE Derive -------------------------------
(***************************************************************************)
(* The derivation machine: a pushdown machine that walks the grammar,      *)
(* leftmost first, and emits tokens and events of the abstract syntax      *)
(* tree.  Every choice is a transition.                                    *)
(*                                                                         *)
(* Mode "exh": every derivation of the roots within the budget, with fresh *)
(* lexemes.  Mode "same": the same with all lexemes of a class spelled     *)
(* alike, so that whatever is repeated is identical.  Mode "words": the    *)
(* same with every rotation of the pools of                                *)
(* lexemes.  Mode "sim": random walks (tlc -simulate) with lexemes from    *)
(* the pools, random layout, long lists and deep nesting.                  *)
(***************************************************************************)
EXTENDS Pddl, Layout, FiniteSets, Json

CONSTANTS Roots, Budget, Mode, Profiles,
          AllWords, \* whether every word of a class of words is a choice
          Layouts   \* the layouts of the texts, see Layout

VARIABLES stk,   \* items still to be walked
          toks,  \* tokens emitted: <<class, spelling>>
          ast,   \* events emitted
          fuel,  \* how many more costly choices may be taken
          k,     \* how many lexemes have been allocated
          cfg    \* chosen once: root, salt, step, profile, layout

vars == <<stk, toks, ast, fuel, k, cfg>>

(* ------------------------------ lexemes -------------------------------- *)
Pick(pool, i) == pool[((cfg.salt + i * cfg.step) % Len(pool)) + 1]

Prefix == [name |-> "n", head |-> "h", type |-> "t", var |-> "?v"]

Spelling(c, i) ==
  IF c \in {"num", "int"}
  THEN IF c = "num" THEN NumPool[((cfg.salt + i * cfg.step) % NumCount) + 1] ELSE Pick(IntPool, i)
  ELSE LET s == IF Mode = "exh" THEN Prefix[c] \o ToString(i)
                ELSE CASE c = "name" -> Pick(NamePool, i)
                       [] c = "head" -> Pick(HeadPool, i)
                       [] c = "type" -> Pick(TypePool, i)
                       [] c = "var"  -> Pick(VarPool, i)
       IN <<s, s>>

Event(c, sp) == IF c \in {"num", "int"} THEN "#" \o sp[2] ELSE sp[2]

(* --------------------- the deterministic part of a walk ----------------- *)
Choice(it) == \/ it[1] \in {"r", "tl", "f"}
              \/ it[1] = "n" /\ Len(Grammar[it[2]]) > 1
              \/ it[1] = "o" /\ AllWords /\ Len(Grammar[it[2]]) > 1

RECURSIVE Drain(_, _, _, _)
Drain(s, t, a, n) ==
  IF s = <<>> \/ Choice(Head(s))
  THEN [s |-> s, t |-> t, a |-> a, n |-> n]
  ELSE LET it == Head(s)
           r  == Tail(s)
       IN CASE it[1] = "t" -> Drain(r, Append(t, <<"lit", it[2]>>), a, n)
            [] it[1] = "e" -> Drain(r, t, Append(a, it[2]), n)
            [] it[1] = "g" -> Drain(r, t, a, n)
            [] it[1] = "x" -> Drain(r, Append(t, <<it[2], it[3]>>), a, n)
            [] it[1] = "n" -> Drain(Grammar[it[2]][1].i \o r, t, a, n)
            [] it[1] = "o" -> LET j == IF cfg.step = 0 THEN cfg.salt ELSE n + Len(t)
                              IN Drain(Grammar[it[2]][(j % Len(Grammar[it[2]])) + 1].i \o r, t, a, n)
            [] it[1] = "l" -> LET sp == Spelling(it[2], n)
                              IN Drain(r, Append(t, <<it[2], sp[1]>>), Append(a, Event(it[2], sp)), n + 1)

Go(s, n) == LET d == Drain(s, toks, ast, n)
            IN stk' = d.s /\ toks' = d.t /\ ast' = d.a /\ k' = d.n

(* ------------------------------- choices -------------------------------- *)
Min(a, b) == IF a < b THEN a ELSE b

\* How many more elements than required a repetition may have.
Extra == CASE cfg.profile = "exh"  -> 0 .. fuel
           [] cfg.profile = "mix"  -> {x \in {0, 1, 2, 3} : x <= fuel}
           [] cfg.profile = "deep" -> {0, Min(1, fuel)}
           [] cfg.profile = "long" -> {x \in {0, 1, 5, 12, 40} : x <= fuel}
           [] cfg.profile = "huge" -> {x \in {0, 1, 2, 70, 300} : x <= fuel}

Times(n, items) == [j \in 1 .. n * Len(items) |-> items[((j - 1) % Len(items)) + 1]]

\* In a deep walk, costly alternatives are preferred while there is fuel.
Takes(alt) == /\ ~alt.lax
              /\ alt.c <= fuel
              /\ (cfg.profile = "deep" /\ fuel > 0) => alt.c > 0

Choices(nt) == LET g == Grammar[nt]
                   S == {i \in 1 .. Len(g) : Takes(g[i])}
               IN IF S # {} THEN S ELSE {i \in 1 .. Len(g) : g[i].c = 0 /\ ~g[i].lax}

Expand == /\ stk # <<>> /\ Head(stk)[1] \in {"n", "o"}
          /\ \E i \in Choices(Head(stk)[2]) :
               LET alt == Grammar[Head(stk)[2]][i]
               IN /\ Go(alt.i \o Tail(stk), k)
                  /\ fuel' = fuel - alt.c
          /\ UNCHANGED cfg

Repeat == /\ stk # <<>> /\ Head(stk)[1] = "r"
          /\ \E x \in Extra :
               /\ Go(Times(Head(stk)[3] + x, <<N(Head(stk)[2])>>) \o Tail(stk), k)
               /\ fuel' = fuel - x
          /\ UNCHANGED cfg

\* The untyped rest of a typed list: its elements have the default type.
ListEnd == /\ stk # <<>> /\ Head(stk)[1] = "tl"
           /\ \E x \in Extra :
                /\ Go(Times(x, <<N(Head(stk)[2]), E("t="), E(Head(stk)[3])>>) \o Tail(stk), k)
                /\ fuel' = fuel - x
           /\ UNCHANGED cfg

\* One group of a typed list: x elements and the type that they share;
\* m = 0 is a plain type, m > 0 is (either ...) of m types.
ListGroup ==
  /\ stk # <<>> /\ Head(stk)[1] = "tl" /\ fuel > 0
  /\ \E x \in Extra \ {0}, m \in 0 .. (IF cfg.profile = "exh" THEN Min(2, fuel) ELSE 3) :
       /\ x + Min(m, 1) <= fuel
       /\ LET n     == IF m = 0 THEN 1 ELSE m
              sp(j) == Spelling("type", k + j - 1)
              evs   == [j \in 1 .. n |-> E(sp(j)[2])]
              lex   == [j \in 1 .. n |-> X("type", sp(j)[1])]
              ty    == IF m = 0 THEN <<E("t=")>> \o evs ELSE <<E("t<")>> \o evs \o <<E("t>")>>
              wr    == IF m = 0 THEN lex ELSE <<T("("), T("either")>> \o lex \o <<T(")")>>
          IN Go(Times(x, <<N(Head(stk)[2])>> \o ty) \o <<T("-")>> \o wr \o stk, k + n)
       /\ fuel' = fuel - x - Min(m, 1)
  /\ UNCHANGED cfg

\* Sections of a file do not compete for the budget in a random walk.
Section == /\ stk # <<>> /\ Head(stk)[1] = "f"
           /\ Go(Tail(stk), k)
           /\ fuel' = IF Mode = "sim" THEN Budget ELSE fuel
           /\ UNCHANGED cfg

Configs ==
  CASE Mode = "exh" -> {[root |-> r, salt |-> 0, step |-> 1, profile |-> "exh", lay |-> l] :
                          r \in Roots, l \in Layouts}
    [] Mode = "words" -> {[root |-> r, salt |-> sa, step |-> 1, profile |-> "exh", lay |-> l] :
                          r \in Roots, sa \in 0 .. PoolSize - 1, l \in Layouts}
    [] Mode = "same" -> {[root |-> r, salt |-> sa, step |-> 0, profile |-> "exh", lay |-> l] :
                          r \in Roots, sa \in {0, 2}, l \in Layouts}
    [] Mode = "sim" -> {[root |-> r, salt |-> sa, step |-> st, profile |-> p, lay |-> l] :
                          r \in Roots, sa \in {0, 3, 8, 14, 22, 31, 45}, st \in {0, 1, 7, 11, 23},
                          p \in Profiles, l \in Layouts}

Init == /\ cfg \in Configs
        /\ stk = <<N(cfg.root)>>
        /\ toks = <<>> /\ ast = <<>> /\ k = 1 /\ fuel = Budget

Start == /\ stk # <<>> /\ ~Choice(Head(stk))
         /\ Go(stk, k) /\ UNCHANGED <<fuel, cfg>>

Step == Start \/ Expand \/ Repeat \/ ListEnd \/ ListGroup \/ Section
Next == Step
Spec == Init /\ [][Next]_vars

Done == stk = <<>>

(* ------------------- what the derivations must satisfy ------------------ *)
Texts(p) == {i \in 1 .. Len(toks) : toks[i][2] = p}

TypeOK == /\ \A i \in 1 .. Len(toks) : toks[i][1] \in {"lit", "name", "head", "type", "var", "num", "int"}
          /\ fuel \in Nat /\ k \in Nat

\* Parentheses of a finished text match.
Balanced == Done => Cardinality(Texts("(")) = Cardinality(Texts(")"))

\* Nothing that is written gets lost: every lexeme of the text is an event
\* of the tree (fresh lexemes make that a statement about each occurrence).
Lexemes == {i \in 1 .. Len(toks) : toks[i][1] \in {"name", "head", "var"}}
NothingLost == (Done /\ Mode = "exh") =>
  \A i \in Lexemes : Cardinality({j \in 1 .. Len(ast) : ast[j] = toks[i][2]}) = 1
TypesKept == (Done /\ Mode = "exh") =>
  \A i \in 1 .. Len(toks) : toks[i][1] = "type" => \E j \in 1 .. Len(ast) : ast[j] = toks[i][2]
\* The events follow the order of the text.
PosIn(s, e) == CHOOSE j \in 1 .. Len(s) : s[j] = e
InOrder == (Done /\ Mode = "exh") =>
  \A i, j \in Lexemes : i < j => PosIn(ast, toks[i][2]) < PosIn(ast, toks[j][2])

(* -------------------------------- output -------------------------------- *)
Written == [i \in 1 .. Len(toks) |-> toks[i][2]]
IsFile == cfg.root \in {"Domain", "Problem"}
Case == [root |-> cfg.root, toks |-> Written, cls |-> [i \in 1 .. Len(toks) |-> toks[i][1]],
         ast |-> ast, gaps |-> IF cfg.lay = 0 THEN <<>> ELSE Gaps(cfg.lay, Written, IsFile)]
Emit == Done => PrintT("@" \o ToJson(Case))
=============================================================================
