-------------------------------- MODULE Stream --------------------------------
(***************************************************************************)
(* One input that holds several constructs, and a reader that parses them  *)
(* one after the other, each from what the one before it left. The writer  *)
(* derives the constructs; the reader knows where it is (bytes and lines), *)
(* and what it is given depends on the construct alone.                    *)
(***************************************************************************)
EXTENDS Derive

CONSTANTS Count  \* how many constructs

VARIABLES items,  \* what has been written: [root, text, ast, sep]
          reader  \* [i, pos, line, log]

Roots_ == Roots

Seps == << " ", "\n", "\t\r\n ", "; a comment (\n", "\n\n; one\n;two ) \n ", "", ";\n", "   \n\n\n\n",
           "\r\n\r\n; x\r\n", "; (define (domain d))\n" >>
Rests == << "", " ", ")", "(", "\n", "; the end", "and", " (and", "-", "?x", "{u}", "\n\n(p)", ")))", "1", ";", "\"", "{nul}",
            " - object", " ; c\n", " :strips", "x" >>
\* Words that do not end with a parenthesis need something that ends them.
Closed(s) == s # "" /\ SubSeq(s, Len(s), Len(s)) = ")"

Sep(i) == LET s == Seps[((cfg.salt + i * cfg.step + cfg.lay * 3 + k) % Len(Seps)) + 1]
          IN IF s = "" /\ ~Closed(Written[Len(Written)]) THEN " " ELSE s
Rest(i) == LET s == Rests[((cfg.salt + i + cfg.lay * 5 + k) % Len(Rests)) + 1]
           IN IF ~Closed(Written[Len(Written)]) /\ s \in {"-", "?x", "{u}", "1", "x", "and", "\"", "{nul}", ""}
              THEN " " \o s ELSE s

RECURSIVE Render(_, _, _)
Render(t, g, i) == IF i > Len(t) THEN "" ELSE g[i] \o t[i] \o Render(t, g, i + 1)
Text == Render(Written, [i \in 1 .. Len(Written) |->
                           IF i = 1 THEN "" ELSE GapIn(PlainPool, cfg.lay, i, Written[i - 1], Written[i])], 1)

RECURSIVE Newlines(_, _)
Newlines(s, i) == IF i > Len(s) THEN 0
                  ELSE (IF SubSeq(s, i, i) = "\n" THEN 1 ELSE 0) + Newlines(s, i + 1)

SInit == Init /\ items = <<>> /\ reader = [i |-> 0, pos |-> 0, line |-> 1, log |-> <<>>]

Write ==
  /\ Done /\ Len(items) < Count
  /\ items' = Append(items, [root |-> cfg.root, text |-> Text, ast |-> ast,
                             sep |-> IF Len(items) + 1 = Count THEN "" ELSE Sep(Len(items)),
                             rest |-> IF Len(items) + 1 = Count THEN Rest(Len(items)) ELSE ""])
  /\ IF Len(items) + 1 = Count THEN UNCHANGED vars
     ELSE \E r \in Roots :
            /\ cfg' = [cfg EXCEPT !.root = r, !.salt = @ + 5]
            /\ stk' = <<N(r)>> /\ toks' = <<>> /\ ast' = <<>> /\ fuel' = Budget /\ k' = k
  /\ UNCHANGED reader

\* The reader is where the construct before ended; between there and the next
\* construct there is only layout.
Read ==
  /\ Len(items) = Count /\ reader.i < Count
  /\ LET it == items[reader.i + 1]
         from == reader.pos + (IF reader.i = 0 THEN 0 ELSE Len(items[reader.i].sep))
         line == reader.line + (IF reader.i = 0 THEN 0 ELSE Newlines(items[reader.i].sep, 1))
         end == from + Len(it.text)
         endl == line + Newlines(it.text, 1)
     IN reader' = [i |-> reader.i + 1, pos |-> end, line |-> endl,
                   log |-> Append(reader.log, [root |-> it.root, ast |-> it.ast, end |-> end, line |-> endl, len |-> Len(it.text)])]
  /\ UNCHANGED <<vars, items>>

SNext == (Step /\ Len(items) < Count /\ UNCHANGED <<items, reader>>) \/ Write \/ Read

RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN "" ELSE Head(q).text \o Head(q).sep \o Head(q).rest \o Concat(Tail(q))

AllRead == Len(items) = Count /\ reader.i = Count
\* The reader ends exactly where the last construct does.
Position == AllRead => reader.pos + Len(items[Count].rest) = Len(Concat(items))
Lines == AllRead => reader.line = 1 + Newlines(Concat(items), 1) - Newlines(items[Count].rest, 1)

EmitStream == AllRead => PrintT("@" \o ToJson([text |-> Concat(items), log |-> reader.log]))
=============================================================================
