-------------------------------- MODULE Words ---------------------------------
(***************************************************************************)
(* Every text, asked of every vocabulary: which value is it, if any?       *)
(* The texts are all words, everything that is one step away from a word,  *)
(* pairs of words, and what only looks like a word.                        *)
(***************************************************************************)
EXTENDS Vocab, Json

CONSTANT Pairs  \* whether to ask pairs of words, too

Cut(w, i) == SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, Len(w))
Paste(w, i, x) == SubSeq(w, 1, i) \o x \o SubSeq(w, i + 1, Len(w))
Bits == {" ", "-", ":", "s", "=", "\n", "?", "_", "x", "{nul}", "{u}"}
Near(w) ==
  {Cut(w, i) : i \in 1 .. Len(w)}
  \cup {Paste(w, i, x) : i \in 0 .. Len(w), x \in Bits}
  \cup {SubSeq(w, 1, i) : i \in 1 .. Len(w)} \cup {SubSeq(w, i, Len(w)) : i \in 1 .. Len(w)}
  \cup {w, w \o w, w \o " " \o w, " " \o w, w \o "; c"}
Odd == {"", "{u}", "{wide}", "STRIPS", ":STRIPS", ":Strips", "Assign", "ASSIGN", "All", "ALL", "Start", "END",
        "==", "=>", "=<", "<>", "!=", "**", "//", "--", "{nbsp}", "scale_up", "scaleup", "scale", "up", "down",
        ":scale-up", "plus", "minus", "times", ":", ":-", "change-", "changes", ":change", "overall", "over",
        "over all", "at", "at start", "at end", "atstart", "min", "max", "minimise", "maximise", ":minimize",
        ":negative_preconditions", ":negative", ":conditional", ":action", ":goal-utilities", ":vhpop",
        ":open-world", ":htn", ":method-preconditions", ":multi-agent", ":object", ":object-fluent",
        ":existential", ":quantified", ":universal", ":durative", ":timed", ":derived", ":numeric"}

Texts == UNION {Near(w) : w \in AllSpellings} \cup Odd
         \cup (IF Pairs THEN {v \o w : v, w \in AllSpellings} ELSE {})

VARIABLE text
WInit == text \in Texts
WNext == UNCHANGED text

Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
\* What a parser may find at the beginning of the text: nothing, if no word is
\* a prefix of it; the word, if the text is one. Anything else may be refused,
\* but if it is not, then the longest of the words was read.
Longest(t) == LET ws == {w \in {p[2] : p \in Vocabulary[t]} \cup {d[3] : d \in {e \in Deprecated : e[1] = t}} : Prefix(w, text)}
              IN IF ws = {} THEN "" ELSE CHOOSE w \in ws : \A v \in ws : Len(v) <= Len(w)
Sure(t) == LET w == Longest(t)
           IN w # "" /\ (w = text \/ SubSeq(text, Len(w) + 1, Len(w) + 1) \in {" ", "\n"})
Only(s) == IF s = {} THEN "" ELSE CHOOSE x \in s : TRUE
Answer(t) == [type |-> t, id |-> Only(Reads(t, text)),
              word |-> IF Reads(t, text) = {} THEN "" ELSE WordOf(t, Only(Reads(t, text))),
              parse |-> IF Longest(t) = "" THEN "" ELSE Only(Reads(t, Longest(t))),
              n |-> Len(Longest(t)), sure |-> Sure(t)]

\* No text is two values, and words of related types are the same words.
Unambiguous == \A t \in VTypes : Cardinality(Reads(t, text)) <= 1
Related == /\ (Reads("MultiOp", text) # {} => Reads("MultiOp", text) = Reads("BinaryOp", text))
           /\ (Reads("DOp", text) # {} => Reads("DOp", text) = Reads("BinaryComp", text))
           /\ (Reads("AssignOpT", text) # {} => Reads("AssignOpT", text) = Reads("AssignOp", text))
Emit == PrintT("@" \o ToJson([text |-> text, answers |-> {Answer(t) : t \in VTypes},
             wide |-> (IF Reads("BinaryOp", text) # {} THEN {<<Only(Reads("BinaryOp", text)), Only(Reads("MultiOp", text))>>} ELSE {})]))
===============================================================================
