------------------------------- MODULE Values -------------------------------
(* Values computed by mapping code, and the code itself, as trees of one     *)
(* shape [k, n, s, xs, f]:                                                   *)
(*   "str" text s    "num" number n    "bool" n    "tup" elements xs         *)
(*   "obj" fields f (texts, sorted) with contents xs                         *)
(* and, in code only:                                                        *)
(*   "var" what position n binds      "spread" the elements of position n    *)
(*   "get" field s of position n      "tpl" the texts xs put together        *)
(*   "len" length of position n       "rev" position n turned around         *)
(*   "if"  xs[1] when position n is the text s, else xs[2]                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

StrV(s) == [k |-> "str", n |-> 0, s |-> s, xs |-> <<>>, f |-> <<>>]
TupV(xs) == [k |-> "tup", n |-> 0, s |-> <<>>, xs |-> xs, f |-> <<>>]
ObjV(f, xs) == [k |-> "obj", n |-> 0, s |-> <<>>, xs |-> xs, f |-> f]

NumV(n) == [k |-> "num", n |-> n, s |-> <<>>, xs |-> <<>>, f |-> <<>>]

FieldOf(v, name) == v.xs[CHOOSE n \in DOMAIN v.f : v.f[n] = name]

RECURSIVE ValueOf(_, _)
RECURSIVE Elements(_, _, _)
RECURSIVE Texts(_, _, _)
\* env: position -> value
Elements(xs, n, env) ==
  IF n > Len(xs) THEN <<>>
  ELSE (IF xs[n].k = "spread" THEN env[xs[n].n].xs ELSE <<ValueOf(xs[n], env)>>) \o Elements(xs, n + 1, env)
Texts(xs, n, env) ==
  IF n > Len(xs) THEN <<>> ELSE ValueOf(xs[n], env).s \o Texts(xs, n + 1, env)
ValueOf(code, env) ==
  CASE code.k = "var" -> env[code.n]
    [] code.k = "get" -> FieldOf(env[code.n], code.s)
    [] code.k = "tpl" -> StrV(Texts(code.xs, 1, env))
    [] code.k = "tup" -> TupV(Elements(code.xs, 1, env))
    [] code.k = "obj" -> ObjV(code.f, [n \in DOMAIN code.xs |-> ValueOf(code.xs[n], env)])
    [] code.k = "len" -> NumV(Len(env[code.n].xs))
    [] code.k = "rev" -> TupV([j \in DOMAIN env[code.n].xs |-> env[code.n].xs[Len(env[code.n].xs) + 1 - j]])
    [] code.k = "if" -> IF env[code.n] = StrV(code.s) THEN ValueOf(code.xs[1], env) ELSE ValueOf(code.xs[2], env)
    [] OTHER -> code
=============================================================================
