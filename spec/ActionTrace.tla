----------------------------- MODULE ActionTrace -----------------------------
(* The machine that a production's action is: it takes the symbols of the     *)
(* right side off the stack one by one (the last one is on top), binds the    *)
(* named ones, and pushes one symbol of the left side with the mapped value.  *)
(* Recorded applications of generated actions are replayed through it (C20).  *)
(* A case: [id, nts, prods, runs]; nts: [name, ty]; a production: [name, rhs, code], a right side's *)
(* element [k, v, b, ty]: kind "lit" | "re" | "nt", its text, whether it is   *)
(* bound, and for a nonterminal what its values must look like ("any", "arr", *)
(* "str", "obj"). A run: [p, stack, res, out, note]; p = 0 or beyond the last *)
(* production: no such production. res = "stack" | "error" | "fail".          *)
EXTENDS Values, CaseFile
VARIABLES c, r, i, left, env, loose, ph
vars == <<c, r, i, left, env, loose, ph>>
\* i: position of the right side to take next, from its end; left: what is left
\* of the stack; loose: an unbound position held a symbol that does not belong
\* there, or something in the list is no symbol: either outcome will do

Run == Cases[c].runs[r]
Known == Run.p \in DOMAIN Cases[c].prods
P == Cases[c].prods[Run.p]

KindT == <<107, 105, 110, 100>>            \* "kind"
ValueT == <<118, 97, 108, 117, 101>>       \* "value"
TokenT == <<116, 111, 107, 101, 110>>      \* "token"

Has(v, f) == v.k = "obj" /\ \E n \in DOMAIN v.f : v.f[n] = f
Looks(v, ty) ==
  CASE ty = "any" -> TRUE
    [] ty = "arr" -> v.k = "tup"
    [] ty = "str" -> v.k = "str"
    [] ty = "obj" -> Has(v, ValueT)
IsToken(v) == Has(v, KindT) /\ FieldOf(v, KindT) = StrV(TokenT) /\ Has(v, TokenT)
Lexeme(v) == FieldOf(FieldOf(v, TokenT), ValueT)
IsSymbol(v) == \/ IsToken(v)
               \/ \E n \in DOMAIN Cases[c].nts :
                    LET t == Cases[c].nts[n] IN
                    Has(v, KindT) /\ FieldOf(v, KindT) = StrV(t.name) /\ Has(v, ValueT) /\ Looks(FieldOf(v, ValueT), t.ty)
\* what a symbol holds, if it is one of the kind the position asks for
Belongs(v, e) ==
  CASE e.k = "nt" -> Has(v, KindT) /\ FieldOf(v, KindT) = StrV(e.v) /\ Has(v, ValueT) /\ Looks(FieldOf(v, ValueT), e.ty)
    [] e.k = "lit" -> IsToken(v) /\ Has(FieldOf(v, TokenT), ValueT) /\ Lexeme(v) = StrV(e.v)
    [] e.k = "re" -> IsToken(v) /\ Has(FieldOf(v, TokenT), ValueT) /\ Lexeme(v).k = "str"
Holds(v, e) == IF e.k = "nt" THEN FieldOf(v, ValueT) ELSE Lexeme(v)

Init == /\ c \in DOMAIN Cases /\ r \in DOMAIN Cases[c].runs
        /\ left = Run.stack.xs
        \* a list with something that is no symbol of the grammar is no symbol stack
        /\ loose = \E n \in DOMAIN Run.stack.xs : ~IsSymbol(Run.stack.xs[n])
        /\ ph = "take"
        /\ i = IF Known THEN Len(P.rhs) ELSE 0
        /\ env = IF Known THEN [n \in DOMAIN P.rhs |-> StrV(<<>>)] ELSE <<>>

Verdict(bad, kind) ==
  /\ ph' = IF bad = "" THEN "ok" ELSE "bad"
  /\ bad # "" => PrintT("VPBAD " \o ToJson([case |-> Cases[c].id, run |-> r, why |-> bad]))
  /\ PrintT("VPOUT " \o ToJson([case |-> Cases[c].id, run |-> r, kind |-> kind]))
  /\ UNCHANGED <<c, r, i, left, env, loose>>

MustFail(w) ==
  Verdict(IF Run.res = "error" THEN "" ELSE IF Run.res = "fail" THEN Run.note ELSE w, "misfit")

Take ==
  /\ ph = "take" /\ Known /\ i > 0
  /\ IF left = <<>> THEN MustFail("an action works on a stack with too few symbols")
     ELSE LET v == Head(left)
              e == P.rhs[i]
              ok == Belongs(v, e)
          IN IF e.b /\ ~ok THEN MustFail("an action works although a bound position holds another symbol")
             ELSE /\ left' = Tail(left) /\ i' = i - 1
                  /\ env' = IF ok THEN [env EXCEPT ![i] = Holds(v, e)] ELSE env
                  /\ loose' = (loose \/ ~ok)
                  /\ UNCHANGED <<c, r, ph>>
Want == TupV(<<ObjV(<<KindT, ValueT>>, <<StrV(P.name), ValueOf(P.code, env)>>)>> \o left)
Push ==
  /\ ph = "take" /\ Known /\ i = 0
  /\ Verdict(
       IF Run.res = "stack" /\ Run.out = Want THEN (IF loose THEN "" ELSE Run.note)
       ELSE IF loose /\ Run.res = "error" THEN ""
       ELSE IF Run.res = "fail" THEN Run.note
       ELSE IF Run.res = "error" THEN "an error for a stack that fits"
       ELSE IF Len(Run.out.xs) # Len(left) + 1 THEN "not exactly the symbols of the production are consumed"
       ELSE IF SubSeq(Run.out.xs, 2, Len(Run.out.xs)) # left THEN "the rest of the stack is changed"
       ELSE "another symbol is pushed than the mapping code gives",
       IF loose THEN "loose" ELSE "fit")
Unknown == /\ ph = "take" /\ ~Known
           /\ MustFail("a number that no production has is taken for one")
Next == Take \/ Push \/ Unknown
Spec == Init /\ [][Next]_vars
Conforms == ph # "bad"
\* bound values come from the stack, and taking never touches what is below
Inv == ph = "take" =>
  /\ Len(left) <= Len(Run.stack.xs)
  /\ left = SubSeq(Run.stack.xs, Len(Run.stack.xs) - Len(left) + 1, Len(Run.stack.xs))
  /\ Known => Len(Run.stack.xs) - Len(left) = Len(P.rhs) - i
=============================================================================
