------------------------------- MODULE Regex -------------------------------
(* Regular expressions over code points, twice:                              *)
(*  - Ends: the denotation. Ends(r, w, S) is the set of positions at which a *)
(*    match of r that starts at one of the positions S can end.              *)
(*  - the position automaton (Glushkov): every leaf has an id r.p; a state   *)
(*    is a set of leaf ids, 0 stands for "nothing read yet".                 *)
(* The second is used where every string must be covered; that it agrees     *)
(* with the first is checked exhaustively by RegexModel.                     *)
(*                                                                           *)
(* An expression is a record [k, rs, xs, mn, mx, p]:                         *)
(*   k = "eps" | "cls" | "ncls" | "cat" | "alt" | "rep"                      *)
(*   rs: ranges <<lo, hi>> (inclusive) of a (negated) class; xs: operands    *)
(*   mn, mx: repetition bounds, mx = -1 for unbounded, both within {-1,0,1}  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MaxCode == 1114111
IsScalar(c) == c >= 0 /\ c <= MaxCode /\ ~(c >= 55296 /\ c <= 57343)

InRanges(rs, c) == \E n \in DOMAIN rs : rs[n][1] <= c /\ c <= rs[n][2]
InClass(r, c) == IF r.k = "ncls" THEN ~InRanges(r.rs, c) ELSE InRanges(r.rs, c)

IsLeaf(r) == r.k \in {"cls", "ncls"}

\* ---------------------------------------------------------------- denotation
RECURSIVE Ends(_, _, _)
RECURSIVE EndsCat(_, _, _, _)
RECURSIVE EndsStar(_, _, _, _)
EndsCat(xs, n, w, S) ==
  IF n > Len(xs) \/ S = {} THEN S ELSE EndsCat(xs, n + 1, w, TLCEval(Ends(xs[n], w, S)))
\* acc: positions reached so far, front: those reached in the last round
EndsStar(x, w, acc, front) ==
  IF front = {} THEN acc
  ELSE LET new == TLCEval(Ends(x, w, front) \ acc) IN EndsStar(x, w, acc \cup new, new)
Ends(r, w, S) ==
  CASE r.k = "eps" -> S
    [] IsLeaf(r)   -> {i + 1 : i \in {j \in S : j <= Len(w) /\ InClass(r, w[j])}}
    [] r.k = "cat" -> EndsCat(r.xs, 1, w, S)
    [] r.k = "alt" -> UNION {Ends(r.xs[n], w, S) : n \in DOMAIN r.xs}
    [] r.k = "rep" /\ r.mx = 1 -> S \cup Ends(r.xs[1], w, S)
    [] r.k = "rep" /\ r.mn = 0 -> EndsStar(r.xs[1], w, S, S)
    [] r.k = "rep" -> LET one == TLCEval(Ends(r.xs[1], w, S)) IN EndsStar(r.xs[1], w, one, one)

Matches(r, w) == (Len(w) + 1) \in Ends(r, w, {1})

MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x

\* number of characters of the longest matching prefix, -1 if there is none
LongestPrefix(r, w) ==
  LET e == Ends(r, w, {1}) IN IF e = {} THEN -1 ELSE MaxOf(e) - 1

\* -------------------------------------------------------- position automaton
RECURSIVE Nullable(_)
RECURSIVE First(_)
RECURSIVE Last(_)
RECURSIVE Follow(_)
RECURSIVE FirstCat(_, _)
RECURSIVE LastCat(_, _)
RECURSIVE FollowCat(_, _, _, _)
RECURSIVE Leaves(_)

Nullable(r) ==
  CASE r.k = "eps" -> TRUE
    [] IsLeaf(r)   -> FALSE
    [] r.k = "cat" -> \A n \in DOMAIN r.xs : Nullable(r.xs[n])
    [] r.k = "alt" -> \E n \in DOMAIN r.xs : Nullable(r.xs[n])
    [] r.k = "rep" -> r.mn = 0 \/ Nullable(r.xs[1])

Leaves(r) ==
  IF IsLeaf(r) THEN {[p |-> r.p, neg |-> (r.k = "ncls"), rs |-> r.rs]}
  ELSE UNION {Leaves(r.xs[n]) : n \in DOMAIN r.xs}

First(r) ==
  CASE r.k = "eps" -> {}
    [] IsLeaf(r)   -> {r.p}
    [] r.k = "cat" -> FirstCat(r.xs, 1)
    [] r.k = "alt" -> UNION {First(r.xs[n]) : n \in DOMAIN r.xs}
    [] r.k = "rep" -> First(r.xs[1])
FirstCat(xs, n) ==
  IF n > Len(xs) THEN {}
  ELSE First(xs[n]) \cup (IF Nullable(xs[n]) THEN FirstCat(xs, n + 1) ELSE {})

Last(r) ==
  CASE r.k = "eps" -> {}
    [] IsLeaf(r)   -> {r.p}
    [] r.k = "cat" -> LastCat(r.xs, Len(r.xs))
    [] r.k = "alt" -> UNION {Last(r.xs[n]) : n \in DOMAIN r.xs}
    [] r.k = "rep" -> Last(r.xs[1])
LastCat(xs, n) ==
  IF n = 0 THEN {}
  ELSE Last(xs[n]) \cup (IF Nullable(xs[n]) THEN LastCat(xs, n - 1) ELSE {})

\* pairs <<p, q>>: leaf q may come right after leaf p
Follow(r) ==
  CASE r.k = "eps" \/ IsLeaf(r) -> {}
    [] r.k = "alt" -> UNION {Follow(r.xs[n]) : n \in DOMAIN r.xs}
    [] r.k = "cat" -> UNION {Follow(r.xs[n]) : n \in DOMAIN r.xs} \cup FollowCat(r.xs, 1, {}, {})
    [] r.k = "rep" ->
         Follow(r.xs[1]) \cup (IF r.mx = 1 THEN {} ELSE Last(r.xs[1]) \X First(r.xs[1]))
\* open: the leaves before operand n after which it may begin
FollowCat(xs, n, open, acc) ==
  IF n > Len(xs) THEN acc
  ELSE FollowCat(xs, n + 1,
                 TLCEval(Last(xs[n]) \cup (IF Nullable(xs[n]) THEN open ELSE {})),
                 TLCEval(acc \cup (open \X First(xs[n]))))

\* The position automaton of r as data; leaf ids must be unique and > 0.
PosAut(r) ==
  LET lv == Leaves(r)
      ids == {l.p : l \in lv}
      fo == Follow(r)
  IN [null  |-> Nullable(r),
      leaf  |-> TLCEval([p \in ids |-> CHOOSE l \in lv : l.p = p]),
      succ  |-> TLCEval([p \in ids \cup {0} |->
                   IF p = 0 THEN First(r) ELSE {x[2] : x \in {y \in fo : y[1] = p}}]),
      last  |-> Last(r)]

PosStart == {0}
LeafHas(l, c) == IF l.neg THEN ~InRanges(l.rs, c) ELSE InRanges(l.rs, c)
PosStep(a, S, c) ==
  TLCEval({q \in UNION {a.succ[p] : p \in S} : LeafHas(a.leaf[q], c)})
PosAccepts(a, S) == (0 \in S /\ a.null) \/ (S \cap a.last # {})

RECURSIVE PosRun(_, _, _, _)
PosRun(a, S, w, i) == IF i > Len(w) THEN S ELSE PosRun(a, PosStep(a, S, w[i]), w, i + 1)

\* ------------------------------------------------------- character partition
\* One representative of every maximal interval on which no class of the set of
\* ranges R changes its mind (surrogates are not characters).
Cuts(R) == {0, 57344} \cup {x[1] : x \in R} \cup {x[2] + 1 : x \in R}
Reps(R) == {c \in Cuts(R) : IsScalar(c)}
RangesOf(leaves) == UNION {{l.rs[n] : n \in DOMAIN l.rs} : l \in leaves}
=============================================================================
