------------------------------- MODULE Builder -------------------------------
(***************************************************************************)
(* Domains and problems that are built by calls: a value is a map of parts *)
(* and a call replaces one part by something else, whatever it was before, *)
(* and leaves the others alone. What the getters show after each call and  *)
(* which values are equal follow from the map.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kind,   \* "Domain" or "Problem"
          Calls   \* how many calls

VARIABLES parts,  \* which of its values each part has
          calls   \* what was called: <<part, value>>

vars == <<parts, calls>>

Brackets(ev, x) == <<"<" \o ev>> \o x \o <<">">>
List(x) == Brackets("tl", x)
Skel(p, v) == Brackets("skel", <<p>> \o List(v))
P(p) == Brackets("pred", <<p>>)
Required(p) == Brackets("goal", P(p))

\* The values of each part, as events; the first one is what it has if it is
\* never called.
Values ==
  IF Kind = "Domain"
  THEN [
    extends |-> <<Brackets("extends", <<>>), Brackets("extends", <<"base">>), Brackets("extends", <<"base", "more">>)>>,
    requirements |-> <<Brackets("requirements", <<>>), Brackets("requirements", <<":strips">>),
                       Brackets("requirements", <<":typing", ":strips">>)>>,
    types |-> <<List(<<>>), List(<<"a", "t=", "object">>), List(<<"a", "t=", "object", "b", "t<", "a", "c", "t>">>)>>,
    constants |-> <<List(<<>>), List(<<"a", "t=", "object">>), List(<<"k", "t=", "b">>)>>,
    predicates |-> <<Brackets("predicates", <<>>), Brackets("predicates", Skel("p", <<>>)),
                     Brackets("predicates", Skel("p", <<>>) \o Skel("q", <<"?x", "t=", "object">>))>>,
    functions |-> <<List(<<>>), List(Skel("f", <<>>) \o <<"t=", "number">>),
                    List(Skel("f", <<>>) \o <<"t=", "object">>)>>,
    constraints |-> <<Brackets("and", <<>>), Brackets("always", Brackets("goal", P("p"))),
                      Brackets("and", Brackets("sometime", Brackets("goal", P("p"))))>>,
    timeless |-> <<Brackets("timeless", <<>>), Brackets("timeless", Brackets("is", P("p"))),
                   Brackets("timeless", Brackets("isnot", P("p")))>> ]
  ELSE [
    requirements |-> <<Brackets("requirements", <<>>), Brackets("requirements", <<":strips">>),
                       Brackets("requirements", <<":typing", ":strips">>)>>,
    objects |-> <<List(<<>>), List(<<"a", "t=", "object">>), List(<<"a", "t=", "object", "b", "t<", "a", "c", "t>">>)>>,
    constraints |-> <<Brackets("list", <<>>), Brackets("list", Brackets("preference", <<"-">> \o Brackets("and", <<>>))),
                      Brackets("list", Brackets("goal", Brackets("always", Brackets("goal", P("p")))))>>,
    metric |-> <<<<"none">>, Brackets("metric", <<"minimize">> \o Brackets("total-time", <<>>)),
                 Brackets("metric", <<"maximize">> \o Brackets("total-time", <<>>))>>,
    length |-> <<<<"none">>, Brackets("length", <<"#1", "-">>), Brackets("length", <<"#2", "#3">>)>> ]

Order == IF Kind = "Domain"
         THEN <<"extends", "requirements", "types", "constants", "predicates", "functions", "constraints", "timeless">>
         ELSE <<"requirements", "objects", "constraints", "metric", "length">>
Parts == {Order[i] : i \in 1 .. Len(Order)}
\* What can be called: absence cannot.
Callable(p) == {v \in 1 .. 3 : Values[p][v] # <<"none">>}

\* What the constructor was given.
Given == IF Kind = "Domain"
         THEN [name |-> <<"dom">>, structure |-> Brackets("structure",
                Brackets("action", <<"act">> \o List(<<>>) \o Brackets("list", <<>>) \o <<"none">>))]
         ELSE [name |-> <<"prob">>, domain |-> <<"dom">>,
               init |-> Brackets("init", Brackets("literal", Brackets("is", P("p")))),
               goal |-> Brackets("list", Required("q"))]

\* What all the getters show. (There is none for timeless.)
V(m, p) == Values[p][m[p]]
Shows(m) ==
  IF Kind = "Domain"
  THEN Brackets("domain", Given.name \o V(m, "extends") \o V(m, "requirements") \o V(m, "types")
         \o V(m, "constants") \o V(m, "predicates") \o V(m, "functions") \o V(m, "constraints") \o Given.structure)
  ELSE Brackets("problem", Given.name \o Given.domain \o V(m, "requirements") \o V(m, "objects") \o Given.init
         \o Given.goal \o V(m, "constraints") \o V(m, "metric") \o V(m, "length"))

Init == parts = [p \in Parts |-> 1] /\ calls = <<>>
Call(p, v) == /\ Len(calls) < Calls
              /\ parts' = [parts EXCEPT ![p] = v]
              /\ calls' = Append(calls, <<p, v>>)
Next == \E p \in Parts : \E v \in Callable(p) : Call(p, v)
Spec == Init /\ [][Next]_vars

\* The map after the first n calls.
RECURSIVE After(_)
After(n) == IF n = 0 THEN [p \in Parts |-> 1] ELSE [After(n - 1) EXCEPT ![calls[n][1]] = calls[n][2]]

(* ------------------------------ properties ------------------------------ *)
Last(p) == {i \in 1 .. Len(calls) : calls[i][1] = p /\ \A j \in i + 1 .. Len(calls) : calls[j][1] # p}
\* The last call wins, and what was not called is as it was.
LastWins == \A p \in Parts : /\ Last(p) = {} => parts[p] = 1
                             /\ \A i \in Last(p) : parts[p] = calls[i][2]
Agree == After(Len(calls)) = parts
\* Different maps are different values, so the getters can tell them apart.
Distinct == \A p \in Parts : \A v, w \in 1 .. 3 : v # w => Values[p][v] # Values[p][w]
OnlyIts == [][\E p \in Parts : \A q \in Parts \ {p} : parts'[q] = parts[q]]_vars

AsSeq(m) == [i \in 1 .. Len(Order) |-> m[Order[i]]]
Emit == Len(calls) = Calls => PrintT("@" \o ToJson(
  [kind |-> Kind, calls |-> calls, parts |-> AsSeq(parts),
   shows |-> [n \in 1 .. Calls |-> Shows(After(n))]]))
ASSUME PrintT("@" \o ToJson([head |-> [order |-> Order, values |-> Values, given |-> Given]]))
=============================================================================
