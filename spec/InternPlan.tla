----------------------------- MODULE InternPlan -------------------------------
(***************************************************************************)
(* Histories of names: threads make them in all ways there are, clone      *)
(* them, turn them into symbols of other kinds, hand them to each other    *)
(* and drop them. What is known about each handle is kept along.           *)
(***************************************************************************)
EXTENDS Intern, Integers, Json

CONSTANTS Mode,   \* "pairs", "walk" or "race"
          Most,   \* how many steps
          Seats   \* how many threads

VARIABLES log, pick

Kinds == {"Name", "Predicate", "FunctionSymbol", "Variable", "ActionSymbol",
          "DurativeActionSymbol", "PreferenceName", "PrimitiveType"}
\* All but "static" go through the table.
Ways == {"str", "string", "parse", "static", "via"}

\* Texts that are neighbours, prefixes of each other, well-known, or similar.
\* {f} is something that no earlier history used.
Pool == << "a", "b", "ab", "A", "a-", "a_b", "object", "number", "objects", "objec", "Object",
           "{f}", "{f}a", "{f}b", "{f}aa", "{f}-x", "{f}z0", "numbers" >>
\* Texts that are no names of the language, but may be made by hand.
Odd == << "", " ", "{astral}", "{comb}", "{f}{u}", "a b", "?x", "{nul}", "{long}", "{f}{long}", "0" >>

All == Pool \o Odd
Parses(x) == \E i \in 1 .. Len(Pool) : Pool[i] = x
Store(x, way) == IF way = "static" THEN "=" \o x ELSE x

\* Static names are not interned and have a storage of their own; the model
\* gives them one that says so.
Cell(x, way) == [text |-> x, store |-> Store(x, way)]
Put(h, c) == live' = (h :> c) @@ live

PInit == IInit /\ log = <<>> /\ pick = 0

New == Len(log) + 1
Say(r) == log' = Append(log, r) /\ pick' = pick

MakeOne(t, x, kind, way) ==
  /\ way = "parse" => Parses(x)
  /\ Put(New, Cell(x, way))
  /\ Say([op |-> "make", t |-> t, h |-> New, text |-> x, kind |-> kind, way |-> way, store |-> Store(x, way)])
CloneOne(t, g, kind) ==
  /\ g \in Held
  /\ Put(New, live[g])
  /\ Say([op |-> IF kind = "" THEN "clone" ELSE "turn", t |-> t, h |-> New, g |-> g, kind |-> kind,
          text |-> live[g].text, store |-> live[g].store, way |-> ""])
DropOne(t, g) ==
  /\ Drop(g)
  /\ Say([op |-> "drop", t |-> t, h |-> New, g |-> g, kind |-> "", text |-> "", way |-> ""])

Pairs ==
  /\ Len(log) < 2
  /\ \E i \in 1 .. Len(All), kind \in (IF log = <<>> THEN {"Name"} ELSE Kinds), way \in Ways :
        /\ log # <<>> => (All[i] = log[1].text \/ Parses(All[i]) # (way = "static"))
        /\ MakeOne(Len(log), All[i], kind, way)

RECURSIVE KindOf(_)
KindOf(g) == IF log[g].kind = "" THEN KindOf(log[g].g) ELSE log[g].kind

\* A random number decides, so that walks are not drowned by the makes.
Walk ==
  /\ Len(log) < Most
  /\ \E d \in {RandomElement(1 .. 100)}, t \in {RandomElement(0 .. Seats - 1)},
        i \in {RandomElement(1 .. Len(All))}, kind \in {RandomElement(Kinds)}, way \in {RandomElement(Ways)},
        g \in {IF Held = {} THEN 0 ELSE RandomElement(Held)} :
       IF g = 0 \/ d <= 55
       THEN \E x \in {IF g # 0 /\ d <= 25 THEN live[g].text ELSE All[i]} :
              MakeOne(t, x, kind, IF Parses(x) \/ way # "parse" THEN way ELSE "str")
       ELSE IF d <= 65 \/ (d <= 75 /\ KindOf(g) = "PrimitiveType") THEN CloneOne(t, g, "")
       ELSE IF d <= 75 THEN CloneOne(t, g, kind)
       ELSE DropOne(t, g)

\* Programs for threads that run at the same time: everyone makes (nearly) the
\* same new names, in an order of its own.
Names == << "{f}a", "{f}b", "{f}c", "{f}ab", "{f}", "{f}ba", "{f}aa", "{f}z", "{f}m", "{f}0" >>
Race ==
  /\ log = <<>>
  /\ \E n \in {1, 2, 3, Len(Names)}, turn \in {"same", "rotate", "mirror", "apart"}, cull \in BOOLEAN, w \in {"str", "string", "parse", "via"} :
        LET At(t, i) == CASE turn = "same" -> i
                          [] turn = "rotate" -> ((i + t) % n) + 1
                          [] turn = "mirror" -> IF t % 2 = 0 THEN i ELSE n + 1 - i
                          [] turn = "apart" -> (((t + 1) * i) % n) + 1
        IN log' = [t \in 1 .. Seats |->
             [i \in 1 .. (IF cull THEN 2 * n ELSE n) |->
                IF i <= n THEN [op |-> "make", text |-> Names[At(t, i)], way |-> w]
                ELSE IF (i + t) % 2 = 0 THEN [op |-> "drop", text |-> "", way |-> ToString(i - n)]
                ELSE [op |-> "make", text |-> Names[At(t, i - n)], way |-> w]]]
  /\ UNCHANGED <<live, pick>>

PNext == CASE Mode = "pairs" -> Pairs [] Mode = "walk" -> Walk [] Mode = "race" -> Race

Ready == IF Mode = "pairs" THEN Len(log) = 2 ELSE IF Mode = "walk" THEN Len(log) = Most ELSE log # <<>>
Known == \A g, h \in Held : live[g].store = live[h].store => live[g].text = live[h].text
Emit == Ready => PrintT("@" \o ToJson([seats |-> Seats, log |-> log]))
===============================================================================
