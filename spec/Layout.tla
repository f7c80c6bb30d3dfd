-------------------------------- MODULE Layout --------------------------------
(***************************************************************************)
(* What may stand between two tokens: nothing at all before a parenthesis  *)
(* and after an opening one, and otherwise any non-empty mix of white      *)
(* space and comments up to the end of the line.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences

PlainPool == <<
  " ", "\n", "\t", "\r\n", "   ", " \n\t ", "\n\n\n",
  "; a comment\n", ";\n", " ;\n ", ";;; ( unbalanced\n", " ; a ) b ) c\r\n",
  "\n; one\n; two\n\t; three\n", ";\n;\n;\n", "; and (or) ?x - 1.5 :action\n", "\t;\t\r\n\t",
  " ; \"quoted\" 'text' \\ / # @ !\n", ";x;y;z\n", "; \n\r\n \n", ";a\r\n;b\r\n", "\r", "\n;; (define (domain d))\n;;\n" >>

\* {u} stands for characters outside of ASCII, {many} for many lines of
\* comments, {long} for a very long line; the driver spells them out.
GapPool == PlainPool \o << "; {u} {u}{u}\n", ";{u}\r\n\t", "{many}", "; {long}\n" >>

\* A comment may also end with the file.
Last == <<"; the end", "\n;", " ; {u}", "\t\n\n;;; )">>

\* A gap that is no gap, where that is possible.
Tight == ""
\* A known finding: the library wants white space right after these words.
Spaced(left) == left \in {"minimize", "maximize"}
MayBeTight(left, right) == ~Spaced(left) /\ (left = "(" \/ right \in {"(", ")"})
After(left, gap) == IF Spaced(left) THEN " " \o gap ELSE gap

\* How a text is laid out when nobody cares: single spaces.
Plain(left, right) == IF (left = "(" \/ right = ")") /\ ~Spaced(left) THEN Tight ELSE " "

\* One gap of a layout that is a function of a number: 0 is plain, 1 is as
\* tight as possible, anything else is a walk through the pool.
GapIn(pool, lay, i, left, right) ==
  CASE lay = 0 -> Plain(left, right)
    [] lay = 1 -> IF MayBeTight(left, right) THEN Tight ELSE " "
    [] OTHER   -> LET j == (lay * 7 + i * (lay + 2) + ((i * i) % (lay + 3))) % (Len(pool) + 3)
                  IN IF j < Len(pool) THEN After(left, pool[j + 1])
                     ELSE IF MayBeTight(left, right) THEN Tight ELSE " "

GapAt(lay, i, left, right) == GapIn(GapPool, lay, i, left, right)

\* The gaps of a text: before the first token, between the tokens, after the
\* last. Only whole files may begin and end with layout.
Gaps(lay, texts, file) ==
  [i \in 1 .. Len(texts) + 1 |->
     IF i = 1 THEN IF file /\ lay > 1 THEN GapAt(lay, 0, "(", "(") ELSE Tight
     ELSE IF i = Len(texts) + 1
     THEN IF file /\ lay > 1 THEN GapAt(lay, i, ")", ")") \o IF lay % 2 = 1 THEN Last[(lay % Len(Last)) + 1] ELSE ""
          ELSE Tight
     ELSE GapAt(lay, i, texts[i - 1], texts[i])]
=============================================================================
