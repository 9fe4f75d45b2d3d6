------------------------------ MODULE CharsTrace ------------------------------
(* Character modules (generated and committed), read entry by entry    (C19). *)
(* A module: [id, note, chars, table]; chars: [n |-> key, s |-> text],        *)
(* table: [s |-> key text, n |-> value], in the order the checker lists them. *)
(* have: code points read so far on both sides.                               *)
EXTENDS Integers, Sequences, FiniteSets, CaseFile
VARIABLES c, i, have, back, ph, why
vars == <<c, i, have, back, ph, why>>
M == Cases[c]
\* what every module has to hold: printable ASCII, the space, the newline
Needed == (32..126) \cup {10}

Init == c \in DOMAIN Cases /\ i = 1 /\ have = {} /\ back = {} /\ ph = "chars" /\ why = ""

Fail(w) == /\ ph' = "bad" /\ why' = w
           /\ PrintT("VPBAD " \o ToJson([case |-> M.id, why |-> w, at |-> i]))
           /\ UNCHANGED <<c, i, have, back>>

\* one entry of the table of characters: its key is its own code point
Char ==
  /\ ph = "chars" /\ i <= Len(M.chars) /\ M.note = ""
  /\ LET e == M.chars[i] IN
     IF Len(e.s) # 1 THEN Fail("an entry is not one character")
     ELSE IF e.s[1] # e.n THEN Fail("a character is paired with another code point")
     ELSE IF e.n \in have THEN Fail("a character occurs twice")
     ELSE /\ have' = have \cup {e.n} /\ i' = i + 1 /\ UNCHANGED <<c, back, ph, why>>
\* one entry of the inverse table
Back ==
  /\ ph = "table" /\ i <= Len(M.table)
  /\ LET e == M.table[i] IN
     IF Len(e.s) # 1 THEN Fail("a key of the inverse table is not one character")
     ELSE IF e.s[1] # e.n THEN Fail("the inverse table pairs a character with another code point")
     ELSE IF e.n \in back THEN Fail("a character occurs twice in the inverse table")
     ELSE IF e.n \notin have THEN Fail("the inverse table holds a character the other does not")
     ELSE /\ back' = back \cup {e.n} /\ i' = i + 1 /\ UNCHANGED <<c, have, ph, why>>
Turn == /\ ph = "chars" /\ M.note = "" /\ i > Len(M.chars)
        /\ ph' = "table" /\ i' = 1 /\ UNCHANGED <<c, have, back, why>>
End == /\ \/ ph = "chars" /\ M.note # ""
          \/ ph = "table" /\ i > Len(M.table)
       /\ IF M.note # "" THEN Fail(M.note)
          ELSE IF have # back THEN Fail("the tables are not inverse to each other")
          ELSE IF ~(Needed \subseteq have) THEN
                 Fail("code point " \o ToString(CHOOSE x \in Needed \ have : TRUE) \o " is missing")
          ELSE /\ ph' = "ok" /\ UNCHANGED <<c, i, have, back, why>>
               /\ PrintT("VPOUT " \o ToJson([case |-> M.id, n |-> Cardinality(have)]))
Next == Char \/ Back \/ Turn \/ End
Spec == Init /\ [][Next]_vars
Conforms == ph # "bad"
=============================================================================
