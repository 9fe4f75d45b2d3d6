---------------------------- MODULE AugmentTrace ----------------------------
(* The numbered grammar recorded from the code against Augment. A case:      *)
(*  [id, note, ast, prods, toks, idxof, nts, byname]                         *)
(*  toks: symbols in number order; idxof: the number looked up for each;     *)
(*  nts: <<number, name>> pairs; byname: [n, ix] production numbers by name. *)
EXTENDS Augment, CaseFile
VARIABLES c, st
vars == <<c, st>>
C == Cases[c]
Init == c \in DOMAIN Cases /\ st = "asked"

ToSet(s) == {s[n] : n \in DOMAIN s}
Eof == [k |-> "eof", v |-> ""]

Why ==
  IF C.note # "" THEN C.note ELSE
  LET want == TLCEval(Augmented(C.ast))
      syms == TLCEval(SymbolsOf(want))
      names == {want[n].l : n \in DOMAIN want}
      numbers(x) == {n - 1 : n \in {m \in DOMAIN want : want[m].l = x}}
  IN IF Len(C.prods) # Len(want) THEN "wrong number of productions"
     ELSE IF \E n \in DOMAIN want : C.prods[n].l # want[n].l \/ C.prods[n].r # want[n].r
          THEN "a production differs or is out of order"
     ELSE IF \E n \in DOMAIN want : C.prods[n].fn # want[n].fn \/ C.prods[n].ts # want[n].ts \/ C.prods[n].code # want[n].code
          THEN "type or mapping code of a production differs"
     ELSE IF Len(C.toks) = 0 \/ C.toks[1] # Eof THEN "symbol 0 is not end-of-input"
     ELSE IF \E n, m \in DOMAIN C.toks : n # m /\ C.toks[n] = C.toks[m] THEN "a symbol has two numbers"
     ELSE IF ToSet(C.toks) \ {Eof} # syms THEN "the numbered symbols are not those used"
     ELSE IF Len(C.idxof) # Len(C.toks) \/ \E n \in DOMAIN C.toks : C.idxof[n] # n - 1 THEN "looking up a symbol gives another number"
     ELSE IF ToSet(C.nts) # {<<n - 1, C.toks[n].v>> : n \in {m \in DOMAIN C.toks : C.toks[m].k = "nt"}}
          \/ Len(C.nts) # Cardinality(ToSet(C.nts))
          THEN "the nonterminals listed are not those numbered"
     ELSE IF {x.n : x \in ToSet(C.byname)} # names \/ \E x \in ToSet(C.byname) : ToSet(x.ix) # numbers(x.n) \/ Len(x.ix) # Cardinality(numbers(x.n))
          THEN "looking up a nonterminal's productions gives others"
     ELSE ""
Next ==
  /\ st = "asked"
  /\ LET why == Why IN
     /\ st' = IF why = "" THEN "ok" ELSE "bad"
     /\ why # "" => PrintT("VPBAD " \o ToJson([case |-> C.id, why |-> why]))
  /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == st # "bad"
=============================================================================
