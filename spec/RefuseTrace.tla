---------------------------- MODULE RefuseTrace ----------------------------
(* Patterns given one by one, in token lists and in grammars, some of them   *)
(* outside the supported notation (k = "count", "anchor", "word": counted    *)
(* repetitions, line and text anchors, word boundaries) or no expressions at *)
(* all (k = "bad"). The compiler goes through the patterns one by one; it    *)
(* gives an automaton, lexer or module only if it can take each of them.     *)
(* A case: [id, res, got] with got = "refused" | "built" | what else it did. *)
EXTENDS Regex, CaseFile

VARIABLES c, n, st
vars == <<c, n, st>>
Res == Cases[c].res
RECURSIVE Supported(_)
Supported(r) == /\ r.k \in {"eps", "cls", "ncls", "cat", "alt", "rep"}
                /\ \A i \in DOMAIN r.xs : Supported(r.xs[i])

Init == c \in DOMAIN Cases /\ n = 1 /\ st = "compile"
Take == /\ st = "compile" /\ n <= Len(Res) /\ Supported(Res[n])
        /\ n' = n + 1 /\ UNCHANGED <<c, st>>
Refuse == st = "compile" /\ n <= Len(Res) /\ ~Supported(Res[n]) /\ st' = "refused" /\ UNCHANGED <<c, n>>
Build == st = "compile" /\ n > Len(Res) /\ st' = "built" /\ UNCHANGED <<c, n>>
Why == IF st = Cases[c].got THEN ""
       ELSE IF Cases[c].got = "built" THEN "built although a pattern is outside the supported notation"
       ELSE IF Cases[c].got = "refused" THEN "refused although every pattern is supported"
       ELSE Cases[c].got
Compare == /\ st \in {"refused", "built"}
           /\ \/ Why = "" /\ st' = "ok"
              \/ /\ Why # "" /\ st' = "bad"
                 /\ PrintT("VPBAD " \o ToJson([case |-> Cases[c].id, why |-> Why, pattern |-> n]))
           /\ UNCHANGED <<c, n>>
Next == Take \/ Refuse \/ Build \/ Compare
Spec == Init /\ [][Next]_vars
Conforms == st # "bad"
=============================================================================
