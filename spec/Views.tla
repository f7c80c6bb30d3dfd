-------------------------------- MODULE Views --------------------------------
(***************************************************************************)
(* What the views of a value show, as functions of its tree: how many      *)
(* elements it has, which ones, in which order, whether it is empty,       *)
(* whether it is a single one and which variant it is. The tree is the one *)
(* that a derivation emits; a node is the position of its first event.     *)
(*                                                                         *)
(* With ValueGrammar for Grammar, the derivations are those of values that *)
(* can be constructed, of which some can not be written.                   *)
(***************************************************************************)
EXTENDS Derive

CONSTANT Written_  \* whether the values have texts

(* ------------------------------ the tree -------------------------------- *)
First(s) == SubSeq(s, 1, 1)
\* An operator like < or > follows fcomp and dop; it is no bracket.
IsOp(i)   == i > 1 /\ ast[i - 1] \in {"<fcomp", "<dop"}
IsOpen(i) == ~IsOp(i) /\ Len(ast[i]) > 1 /\ First(ast[i]) = "<" /\ ast[i] # "<="
IsShut(i) == ~IsOp(i) /\ ast[i] = ">"

\* Where each bracket closes (0: no bracket).
RECURSIVE Matched(_, _, _)
Matched(i, open, m) ==
  IF i > Len(ast) THEN m
  ELSE IF IsOpen(i) THEN Matched(i + 1, <<i>> \o open, m)
  ELSE IF IsShut(i) THEN Matched(i + 1, Tail(open), [m EXCEPT ![Head(open)] = i])
  ELSE Matched(i + 1, open, m)
Match == Matched(1, <<>>, [i \in 1 .. Len(ast) |-> 0])

RECURSIVE TypeEnd(_)
TypeEnd(i) == IF ast[i] = "t>" THEN i + 1 ELSE TypeEnd(i + 1)
IsType(i) == ast[i] \in {"t=", "t<"}

\* Where the node at i is over.
Over(M, i) == CASE M[i] > 0     -> M[i] + 1
                [] ast[i] = "t=" -> i + 2
                [] ast[i] = "t<" -> TypeEnd(i)
                [] OTHER         -> i + 1

\* The nodes from i to the end of their parent.
RECURSIVE Nodes(_, _, _)
Nodes(M, i, end) == IF i = end THEN <<>> ELSE <<<<i, Over(M, i)>>>> \o Nodes(M, Over(M, i), end)

\* In a typed list, an element is a value and its type.
RECURSIVE InTwos(_)
InTwos(s) == IF s = <<>> THEN <<>> ELSE <<<<s[1][1], s[2][2]>>>> \o InTwos(SubSeq(s, 3, Len(s)))

Kids(M, i) ==
  CASE ast[i] = "t=" -> <<<<i + 1, i + 2>>>>
    [] ast[i] = "t<" -> [j \in 1 .. TypeEnd(i) - 2 - i |-> <<i + j, i + j + 1>>]
    [] ast[i] = "<tl" -> InTwos(Nodes(M, i + 1, M[i]))
    [] OTHER -> Nodes(M, i + 1, M[i])

(* ------------------------------ the views ------------------------------- *)
Lists == {"<list", "<effects", "<predicates", "<structure", "<init", "<timeless", "<requirements",
          "<tl", "<all", "t<"}

\* A list is empty if it has no elements. Atoms, comparisons and single ones
\* are not empty. Everything else is empty if all that it is made of is.
RECURSIVE Empty(_, _)
Empty(M, i) ==
  CASE ast[i] \in Lists -> Kids(M, i) = <<>>
    [] ast[i] \in {"<pred", "<eq", "<fcomp", "<is", "<isnot", "<single", "t="} -> FALSE
    [] OTHER -> LET ks == Kids(M, i)
                IN \A j \in 1 .. Len(ks) :
                     (IsOpen(ks[j][1]) /\ ast[ks[j][1]] # "<tl") => Empty(M, ks[j][1])

Sub(M, i) == [j \in 1 .. Len(Kids(M, i)) |-> Kids(M, i)[j]]
Self(M, i) == <<<<i, Over(M, i)>>>>

\* All that is shown at node i: name and value.
Shown(M, i) ==
  LET s == Sub(M, i)
      many == {<<"len", Len(s)>>, <<"items", s>>, <<"into_iter", s>>,
               <<"single", IF Len(s) = 1 THEN s ELSE <<>>>>}
  IN {<<"empty", Empty(M, i)>>}
     \cup (IF ast[i] \in Lists \cup {"<single", "t="} THEN many ELSE {})
     \cup (IF ast[i] \in {"<is", "<isnot"} THEN {<<"negated", ast[i] = "<isnot">>} ELSE {})
     \cup (IF ast[i] = "<effect" THEN {<<"as effect", s>>, <<"as forall", <<>>>>, <<"as when", <<>>>>} ELSE {})
     \cup (IF ast[i] = "<forall" THEN {<<"as effect", <<>>>>, <<"as forall", Self(M, i)>>, <<"as when", <<>>>>} ELSE {})
     \cup (IF ast[i] = "<when" THEN {<<"as effect", <<>>>>, <<"as forall", <<>>>>, <<"as when", Self(M, i)>>} ELSE {})

AllShown == LET M == Match
            IN {<<i, Shown(M, i)>> : i \in {i \in 1 .. Len(ast) : M[i] > 0 \/ IsType(i)}}

(* -------------------- what the views must satisfy ----------------------- *)
\* Elements lie one after the other and cover what is between the brackets;
\* a list is empty exactly if it has no elements.
Coherent == Done =>
  LET M == Match
  IN \A i \in {i \in 1 .. Len(ast) : M[i] > 0 \/ IsType(i)} :
       LET ks == Kids(M, i)
       IN /\ \A j \in 1 .. Len(ks) - 1 : ks[j][2] = ks[j + 1][1]
          /\ ks # <<>> => ks[1][1] = i + 1 /\ ks[Len(ks)][2] = Over(M, i) - (IF ast[i] = "t=" THEN 0 ELSE 1)
          /\ ast[i] \in Lists => (Empty(M, i) <=> ks = <<>>)
\* What contains something that is not empty is not empty.
Upward == Done =>
  LET M == Match
  IN \A i \in {i \in 1 .. Len(ast) : M[i] > 0} :
       \A j \in 1 .. Len(Kids(M, i)) :
         LET ks == Kids(M, i)[j][1]
         IN (IsOpen(ks) /\ ast[ks] # "<tl" /\ ~Empty(M, ks)) => ~Empty(M, i)

EmitViews == Done => PrintT("@" \o ToJson(
  [root |-> cfg.root, toks |-> IF Written_ THEN Written ELSE <<>>, ast |-> ast,
   views |-> AllShown]))

(* ----------------- values that are close to each other ------------------ *)
Gone(s, i, j)     == SubSeq(s, 1, i - 1) \o SubSeq(s, j, Len(s))
Between(s, i, t)  == SubSeq(s, 1, i - 1) \o t \o SubSeq(s, i, Len(s))
Part(i, j)        == SubSeq(ast, i, j - 1)
Named(w)          == w # "" /\ First(w) \notin {"<", ">", "=", "+", "-", "*", "/", ":"}
Respelled(w)      == IF First(w) = "#" THEN {"#77", "#-77"} ELSE IF First(w) = "?" THEN {"?zz"}
                     ELSE IF Named(w) THEN {"zz", "none", "-"} ELSE {}
Renamed == <<
  <<"<is", "<isnot">>, <<"<eq", "<pred">>, <<"<fn", "<fnt">>, <<"<bin", "<multi">>, <<"<and", "<or">>,
  <<"<exists", "<forall">>, <<"<add", "<del">>, <<"<single", "<all">>, <<"<always", "<sometime">>,
  <<"<at-end", "<always">>, <<"<at-most-once", "<sometime">>, <<"<sometime-after", "<sometime-before">>,
  <<"<within", "<hold-after">>, <<"t=", "t<">>, <<"start", "end">>, <<"increase", "decrease">>,
  <<"scale-up", "scale-down">>, <<"assign", "increase">>, <<"minimize", "maximize">>, <<"+", "-">>,
  <<"*", "/">>, <<"+", "*">>, <<"<=", ">=">>, <<"=", "<=">>, <<"<", ">">>, <<"<", "<=">>, <<">", ">=">>,
  <<":strips", ":typing">>, <<":fluents", ":numeric-fluents">>, <<"<required", "<preference">>,
  <<"<goal", "<preference">>, <<"<now", "<dur">>, <<"<literal", "<object">>, <<"object", "number">>,
  <<"<imply", "<and">>, <<"<not", "<and">>, <<"<neg", "<and">>, <<"<timed", "<and">>, <<"<at", "<over">> >>
Others(w) == {Renamed[n][2] : n \in {n \in 1 .. Len(Renamed) : Renamed[n][1] = w}}
             \cup {Renamed[n][1] : n \in {n \in 1 .. Len(Renamed) : Renamed[n][2] = w}}

Near ==
  LET M == Match
      Ps == {i \in 1 .. Len(ast) : M[i] > 0}
  IN {[ast EXCEPT ![i] = w] : <<i, w>> \in UNION {{<<i, w>> : w \in Others(ast[i]) \cup Respelled(ast[i])} : i \in 1 .. Len(ast)}}
     \cup UNION {
       LET ks == Kids(M, i)
       IN {Gone(ast, ks[j][1], ks[j][2]) : j \in 1 .. Len(ks)}
          \cup {Between(ast, ks[j][1], Part(ks[j][1], ks[j][2])) : j \in 1 .. Len(ks)}
          \cup {SubSeq(ast, 1, ks[j][1] - 1) \o Part(ks[j + 1][1], ks[j + 1][2]) \o Part(ks[j][1], ks[j][2])
                  \o SubSeq(ast, ks[j + 1][2], Len(ast)) : j \in 1 .. Len(ks) - 1}
          \* a wrapper less
          \cup {Part(1, i) \o Part(ks[j][1], ks[j][2]) \o SubSeq(ast, M[i] + 1, Len(ast)) : j \in 1 .. Len(ks)}
       : i \in Ps}
EmitNear == Done => PrintT("@" \o ToJson([root |-> cfg.root, ast |-> ast, near |-> Near \ {ast}]))

EmitValue == Done => PrintT("@" \o ToJson(
  [root |-> cfg.root, ast |-> ast, toks |-> IF Written_ THEN Written ELSE <<>>]))

(* ---------------------- values that can be made ------------------------- *)
Made(self) == <<
  Alt(1, A("bin", <<O("BinOp"), N(self), N(self)>>)),
  Alt(1, A("multi", <<O("MulOp"), N(self), R(self, 0)>>)),
  Alt(1, A("neg", <<N(self)>>)) >>

ValueText == [
  GrammarText EXCEPT
    !.FHead = << Alt(0, A("fn", <<L("head")>>)), Alt(1, A("fnt", <<L("head"), R("Term", 0)>>)) >>,
    !.FExp = << Alt(0, <<L("num")>>), Alt(0, <<N("FHead")>>) >> \o Made("FExp"),
    !.FComp = << Alt(0, A("fcomp", <<O("CmpOpAll"), N("FExp"), N("FExp")>>)) >>,
    !.FExpDa = << Alt(0, A("fe", <<N("FExp")>>)), Alt(0, <<E("<dur"), E(">")>>) >> \o Made("FExpDa"),
    !.FExpT = << Alt(0, <<E("<now"), E(">")>>), Alt(1, A("scaled", <<N("FExp")>>)) >>,
    !.MExp = << Alt(0, <<L("num")>>), Alt(0, A("mfn", <<L("head"), R("Name", 0)>>)),
                Alt(0, <<E("<total-time"), E(">")>>), Alt(1, A("is-violated", <<L("name")>>)) >> \o Made("MExp"),
    !.GD = GoalCore \o << GoalAnd, GoalForall, Alt(1, <<N("LitT")>>) >>,
    !.GDx = GoalCore \o << GoalAnd, GoalForall, Alt(1, <<N("LitT")>>) >>,
    !.GDnc = <<Alt(0, <<N("GD")>>)>>,
    !.PreGD = << Alt(0, A("goal", <<N("GD")>>)), Alt(1, <<N("Pref")>>),
                 Alt(1, A("forall", VarsIn \o <<N("PreGDs")>>)) >>,
    !.PreGDs = << Alt(0, A("list", <<R("PreGD", 0)>>)) >>,
    !.PrefConGD = << Alt(0, A("goal", <<N("ConGD")>>)),
                     Alt(0, A("preference", <<L("name"), N("ConGD")>>)),
                     Alt(0, A("preference", <<E("-"), N("ConGD")>>)),
                     Alt(1, A("forall", VarsIn \o <<N("PrefConGDs")>>)) >>,
    !.PrefConGDs = << Alt(0, A("list", <<R("PrefConGD", 0)>>)) >>,
    !.PNum = << Alt(1, A("numassign", <<O("AssignOp"), N("FHead"), N("FExp")>>)) >>,
    !.Effects = << Alt(0, A("effects", <<R("CEffect", 0)>>)) >>,
    !.TCond = << Alt(0, A("single", <<N("PEffect")>>)), Alt(1, A("all", <<R("PEffect", 0)>>)) >>,
    !.DValue = << Alt(0, A("dnum", <<L("num")>>)), Alt(0, A("dexp", <<N("FExp")>>)) >>,
    !.DurC = << Alt(0, A("single", <<N("SDurC")>>)), Alt(0, <<E("<none"), E(">")>>),
                Alt(1, A("all", <<R("SDurC", 0)>>)) >>,
    !.Type = << Alt(0, <<E("t="), L("type")>>), Alt(1, <<E("t<"), R("PType", 0), E("t>")>>) >>,
    !.Requirements = << Alt(0, A("requirements", <<R("ReqKeyO", 0)>>)) >>,
    !.Predicates = << Alt(0, A("predicates", <<R("Skel", 0)>>)) >>,
    !.Timeless = << Alt(0, A("timeless", <<R("LitN", 0)>>)) >>,
    !.BFTp = << Alt(0, A("bft", <<L("head"), R("Name", 0)>>)) >>,
    !.Pre = << Alt(0, <<N("PreGDs")>>) >>,
    !.Eff = << Alt(0, <<N("Effects")>>), Alt(0, <<E("none")>>) >> ]
ASSUME TLCSet(42, ValueText)
ValueGrammar == TLCGet(42)

\* Numbers that have no spelling in the language.
ValueNums == Decimals \o << <<"", "-1">>, <<"", "-0.25">>, <<"", "">> >>
=============================================================================
