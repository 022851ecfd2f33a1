---------------------------- MODULE DyonTypeLoad ----------------------------
(* Conformance of the type checker: each job is a program and whether the   *)
(* implementation loaded it.                                                *)
EXTENDS DyonTypes, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.JOBS)
VARIABLES j, v
vars == <<j, v>>
Init == j \in 1..Len(Jobs) /\ v = ""
Next == /\ v = ""
        /\ v' = IF AcceptT(Jobs[j]) = (Jobs[j].load = "ok") THEN "good"
                ELSE IF Jobs[j].load = "ok" THEN "bad: accepted" ELSE "bad: rejected"
        /\ PrintT(<<"V", Jobs[j].id, v', 0, Jobs[j].load>>)
        /\ UNCHANGED j
Spec == Init /\ [][Next]_vars

(* What the rules promise: every type goes with itself and with `any`, a     *)
(* secret can be given where its content is asked for and not the other way  *)
(* around, nothing is given where nothing is.                                *)
Base == {<<"any">>, <<"bool">>, <<"f64">>, <<"str">>, <<"vec4">>, <<"mat4">>, <<"link">>, <<"obj">>, SEC(BOOL), SEC(F64)}
Some == Base \cup {<<b, t>> : b \in Boxes, t \in Base} \cup {<<"ad", n, t>> : n \in {"A", "B"}, t \in Base \ {SEC(BOOL), SEC(F64)}}
        \cup {<<"clos", <<t>>, u>> : t, u \in {<<"any">>, <<"f64">>, <<"str">>}}
ASSUME \A t \in Some : /\ Goes(t, t) /\ Goes(t, ANY) /\ Goes(ANY, t)
                       /\ ~Goes(t, VOID) /\ ~Goes(VOID, t)
ASSUME \A t \in {BOOL, F64} : Goes(t, SEC(t)) /\ ~Goes(SEC(t), t)
ASSUME \A t, u \in Base \ {ANY, SEC(BOOL), SEC(F64)} : Goes(t, u) <=> t = u
ASSUME \A b \in Boxes, t, u \in Base : Goes(<<b, t>>, <<b, u>>) <=> Goes(t, u)
=============================================================================
