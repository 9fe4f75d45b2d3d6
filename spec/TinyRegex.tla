----------------------------- MODULE TinyRegex -----------------------------
(* All small regular expressions over given leaves, for checking the         *)
(* specification against itself.                                             *)
EXTENDS Regex

Eps0 == [k |-> "eps", rs |-> <<>>, xs |-> <<>>, mn |-> 0, mx |-> 0, p |-> 0]
LeafOf(c) == [Eps0 EXCEPT !.k = c[1], !.rs = c[2]]

\* expressions with exactly n operators
RECURSIVE Trees(_, _)
Trees(lv, n) ==
  IF n = 0 THEN lv
  ELSE LET sub == TLCEval([m \in 0..n-1 |-> Trees(lv, m)]) IN
       {[Eps0 EXCEPT !.k = "rep", !.xs = <<x>>, !.mn = b[1], !.mx = b[2]] :
          x \in sub[n-1], b \in {<<0, 1>>, <<0, -1>>, <<1, -1>>}}
       \cup UNION {{[Eps0 EXCEPT !.k = k, !.xs = <<x, y>>] :
                      k \in {"cat", "alt"}, x \in sub[m], y \in sub[n-1-m]} : m \in 0..n-1}

RECURSIVE Numbered(_, _)
RECURSIVE NumberedSeq(_, _, _)
\* <<expression with leaf ids from n on, next id>>
Numbered(r, n) ==
  IF IsLeaf(r) THEN <<[r EXCEPT !.p = n], n + 1>>
  ELSE LET s == NumberedSeq(r.xs, <<>>, n) IN <<[r EXCEPT !.xs = s[1]], s[2]>>
NumberedSeq(xs, acc, n) ==
  IF Len(acc) = Len(xs) THEN <<acc, n>>
  ELSE LET h == Numbered(xs[Len(acc) + 1], n) IN NumberedSeq(xs, Append(acc, h[1]), h[2])
=============================================================================
