------------------------------- MODULE Relayout -------------------------------
(***************************************************************************)
(* Layouts of texts inside and near the language. The machine derives a    *)
(* text (and may damage it); what it emits then is the text as a sequence  *)
(* of words with, for each gap, everything that may stand there. All of    *)
(* these spellings are the same text.                                      *)
(***************************************************************************)
EXTENDS Mutate

CONSTANT Walks \* the layouts in which all gaps change together

ASSUME PrintT("@" \o "{\"head\":" \o ToJson([pool |-> GapPool, last |-> Last]) \o "}")

Text == IF hurt > 0 THEN txt ELSE Written

\* What may stand before word i: indices of the pool, where 0 is nothing at
\* all, and Len(GapPool) + j is the j-th comment that ends with the file.
Allowed(i) ==
  LET n == Len(GapPool)
  IN IF i = 1 THEN IF IsFile THEN 0 .. n ELSE {0}
     ELSE IF i = Len(Text) + 1 THEN IF IsFile THEN 0 .. n + Len(Last) ELSE {0}
     ELSE IF MayBeTight(Text[i - 1], Text[i]) THEN 0 .. n
     ELSE 1 .. n

\* Long texts only get some of this at each gap, in turn.
Tried(i) ==
  LET m == Len(Text) \div 25 + 1
      S == Allowed(i)
      Test(e) == e \in S /\ (m = 1 \/ (e + i) % m = 0)
  IN SelectSeq([j \in 1 .. Len(GapPool) + Len(Last) + 1 |-> j - 1], Test)

\* One gap at a time, and all gaps at once.
Layouts_ == [i \in 1 .. Len(Text) + 1 |->
               [plain |-> IF i \in {1, Len(Text) + 1} THEN "" ELSE Plain(Text[i - 1], Text[i]),
                lead  |-> IF i > 1 /\ Spaced(Text[i - 1]) THEN " " ELSE "",
                may   |-> Tried(i),
                \* What should also be allowed here, but is a known finding.
                known |-> IF i > 1 /\ hurt = 0 /\ Spaced(Text[i - 1])
                          THEN (IF Text[i] = "(" THEN <<0>> ELSE <<>>) \o <<8, 9>> ELSE <<>>]]

EmitLayouts ==
  (Done /\ (Damage > 0 => hurt > 0)) =>
    PrintT("@" \o ToJson(
      [root |-> cfg.root, toks |-> Text,
       ast |-> IF hurt = 0 THEN ast ELSE <<"?">>,
       vary |-> Layouts_,
       walks |-> [w \in 1 .. Walks |-> Gaps((w - 1) + (IF w > 2 THEN (Len(Text) * 3 + cfg.salt) % 50 ELSE 0),
                                             Text, IsFile)]]))
=============================================================================
