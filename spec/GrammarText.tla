---------------------------- MODULE GrammarText ----------------------------
(* The notation of grammar files: characters to tokens to productions.       *)
(* A text is a sequence of code points.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* --------------------------------------------------------------- characters
White == (9..13) \cup {32, 133, 160, 5760} \cup (8192..8202) \cup {8232, 8233, 8239, 8287, 12288}
NL == 10
IdStart(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95
IdPart(c) == IdStart(c) \/ (c >= 48 /\ c <= 57)
Quote == 34
Backslash == 92
Open == 40
Close == 41

KwExport == <<101, 120, 112, 111, 114, 116>>
KwStart == <<115, 116, 97, 114, 116>>
KwR == <<114>>

\* Everything up to the quote that ends the literal: a backslash takes the
\* next character along, which must be a backslash or a quote. 0: no end.
RECURSIVE QuoteEnd(_, _)
QuoteEnd(w, i) ==
  IF i > Len(w) THEN 0
  ELSE IF w[i] = Quote THEN i
  ELSE IF w[i] = Backslash
       THEN IF i < Len(w) /\ w[i + 1] \in {Backslash, Quote} THEN QuoteEnd(w, i + 2) ELSE 0
  ELSE QuoteEnd(w, i + 1)

\* code ends at the last closing parenthesis of its line
RECURSIVE CodeEnd(_, _, _)
CodeEnd(w, i, last) ==
  IF i > Len(w) \/ w[i] = NL THEN last ELSE CodeEnd(w, i + 1, IF w[i] = Close THEN i ELSE last)

RECURSIVE IdEnd(_, _)
IdEnd(w, i) == IF i <= Len(w) /\ IdPart(w[i]) THEN IdEnd(w, i + 1) ELSE i - 1

RECURSIVE SkipWhite(_, _)
SkipWhite(w, i) == IF i <= Len(w) /\ w[i] \in White THEN SkipWhite(w, i + 1) ELSE i

\* The token at position i (not white space): [k, v, n]: kind, text, next position
Lexeme(w, i) ==
  LET c == w[i]
      none == [k |-> "error", v |-> <<>>, n |-> i]
      punct(k, n) == [k |-> k, v |-> <<>>, n |-> i + n]
  IN CASE c = Quote ->
            LET e == QuoteEnd(w, i + 1) IN
            IF e = 0 THEN none ELSE [k |-> "str", v |-> SubSeq(w, i + 1, e - 1), n |-> e + 1]
       [] c = Open ->
            LET e == CodeEnd(w, i + 1, 0) IN
            IF e = 0 THEN none ELSE [k |-> "code", v |-> SubSeq(w, i + 1, e - 1), n |-> e + 1]
       [] IdStart(c) ->
            LET e == IdEnd(w, i)
                v == SubSeq(w, i, e)
            IN [k |-> IF v = KwExport THEN "export" ELSE IF v = KwStart THEN "start"
                      ELSE IF v = KwR THEN "r" ELSE "id",
                v |-> v, n |-> e + 1]
       [] c = 61 -> IF i < Len(w) /\ w[i + 1] = 62 THEN punct("=>", 2) ELSE punct("=", 1)
       [] c = 58 -> punct(":", 1)
       [] c = 91 -> punct("[", 1)
       [] c = 93 -> punct("]", 1)
       [] c = 60 -> punct("<", 1)
       [] c = 62 -> punct(">", 1)
       [] c = 44 -> punct(",", 1)
       [] OTHER -> none

\* ---------------------------------------------------------------- productions
\* A machine over tokens. m = [st, prods, cur, body, name]:
\*   cur: the production being read, body: its current alternative,
\*   name: the binding name of the symbol being read.
NoProd == [name |-> <<>>, start |-> FALSE, ts |-> <<>>, bodies |-> <<>>]
Begin == [st |-> "prod", prods |-> <<>>, cur |-> NoProd, body |-> <<>>, name |-> <<>>]
Fail(m) == [m EXCEPT !.st = "fail"]
AddSym(m, k, v) == [m EXCEPT !.body = Append(@, [k |-> k, v |-> v, n |-> m.name]), !.name = <<>>,
                             !.st = IF m.name = <<>> THEN "sym" ELSE ">"]

Feed(m, t) ==
  CASE m.st = "prod" ->
         IF t.k = "export" THEN [m EXCEPT !.st = "afterexport"]
         ELSE IF t.k = "id" THEN [m EXCEPT !.cur.name = t.v, !.st = ":"]
         ELSE Fail(m)
    [] m.st = "afterexport" ->
         IF t.k = "start" THEN [m EXCEPT !.cur.start = TRUE, !.st = "name"]
         ELSE IF t.k = "id" THEN [m EXCEPT !.cur.name = t.v, !.st = ":"]
         ELSE Fail(m)
    [] m.st = "name" -> IF t.k = "id" THEN [m EXCEPT !.cur.name = t.v, !.st = ":"] ELSE Fail(m)
    [] m.st = ":"  -> IF t.k = ":" THEN [m EXCEPT !.st = "type"] ELSE Fail(m)
    [] m.st = "type" -> IF t.k = "code" THEN [m EXCEPT !.cur.ts = t.v, !.st = "="] ELSE Fail(m)
    [] m.st = "="  -> IF t.k = "=" THEN [m EXCEPT !.st = "["] ELSE Fail(m)
    [] m.st = "["  -> IF t.k = "[" THEN [m EXCEPT !.st = "body"] ELSE Fail(m)
    [] m.st = "body" /\ t.k = "]" ->
         [m EXCEPT !.prods = Append(@, m.cur), !.cur = NoProd, !.st = "prod"]
    \* a symbol; after the first one "=>" may follow
    [] m.st \in {"body", "sym"} ->
         IF t.k = "str" THEN AddSym(m, "lit", t.v)
         ELSE IF t.k = "id" THEN AddSym(m, "nt", t.v)
         ELSE IF t.k = "r" THEN [m EXCEPT !.st = "re"]
         ELSE IF t.k = "<" THEN [m EXCEPT !.st = "<"]
         ELSE IF t.k = "=>" /\ m.st = "sym" THEN [m EXCEPT !.st = "code"]
         ELSE Fail(m)
    [] m.st = "re" -> IF t.k = "str" THEN AddSym(m, "re", t.v) ELSE Fail(m)
    [] m.st = "<" -> IF t.k = "id" THEN [m EXCEPT !.name = t.v, !.st = "<:"] ELSE Fail(m)
    [] m.st = "<:" -> IF t.k = ":" THEN [m EXCEPT !.st = "<sym"] ELSE Fail(m)
    [] m.st = "<sym" ->
         IF t.k = "str" THEN AddSym(m, "lit", t.v)
         ELSE IF t.k = "id" THEN AddSym(m, "nt", t.v)
         ELSE IF t.k = "r" THEN [m EXCEPT !.st = "re"]
         ELSE Fail(m)
    [] m.st = ">" -> IF t.k = ">" THEN [m EXCEPT !.st = "sym"] ELSE Fail(m)
    [] m.st = "code" ->
         IF t.k = "code"
         THEN [m EXCEPT !.cur.bodies = Append(@, [syms |-> m.body, fn |-> t.v]), !.body = <<>>, !.st = "sep"]
         ELSE Fail(m)
    [] m.st = "sep" ->
         IF t.k = "," THEN [m EXCEPT !.st = "body"]
         ELSE IF t.k = "]" THEN [m EXCEPT !.prods = Append(@, m.cur), !.cur = NoProd, !.st = "prod"]
         ELSE Fail(m)
    [] OTHER -> Fail(m)

Whole(m) == m.st = "prod" /\ Len(m.prods) > 0
=============================================================================
