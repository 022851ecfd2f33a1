---------------------------- MODULE DyonExprTrace ----------------------------
(* Each job is a list of expressions; for each the run shows the operands   *)
(* in the order they are evaluated, the result (or "err"), and then "|".    *)
EXTENDS DyonExpr, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.JOBS)
VARIABLES j, k, p, v
vars == <<j, k, p, v>>
Job == Jobs[j]
RECURSIVE Bar(_)
Bar(i) == IF i > Len(Job.ev) \/ Job.ev[i] = <<"s", "|">> THEN i ELSE Bar(i + 1)
Init == j \in 1..Len(Jobs) /\ k = 1 /\ p = 0 /\ v = ""
Say(w, info) == v' = w /\ PrintT(<<"V", Job.id, w, k, info>>) /\ UNCHANGED <<j, k, p>>
Step ==
    LET ts == Job.in[k]
        x == Eval(Tree(ts))
        b == Bar(p + 1)
        seen == SubSeq(Job.ev, p + 1, b - 1)
        want == x.ev \o << IF x.r[1] = "v" THEN x.r[2] ELSE Str("err") >>
        fits == CASE ~Whole(ts) -> FALSE
                  [] x.r = Ood -> Len(seen) >= Len(x.ev) /\ \A i \in 1..Len(x.ev) : Match(x.ev[i], seen[i])
                  [] OTHER -> Len(seen) = Len(want) /\ \A i \in 1..Len(want) : Match(want[i], seen[i])
    IN IF b > Len(Job.ev) THEN Say("bad: the run stopped", <<k, Job.end>>)
       ELSE IF fits THEN k' = k + 1 /\ p' = b /\ UNCHANGED <<j, v>>
       ELSE Say("bad: expression", <<Job.txt[k], "expected", want, "seen", seen>>)
Next == /\ v = ""
        /\ IF k <= Len(Job.in) THEN Step
           ELSE IF p # Len(Job.ev) \/ Job.end # "ok" \/ \E i \in 1..4 : Job.st[i] # 0 THEN Say("bad: the end", Job.end)
           ELSE Say("good", 0)
Spec == Init /\ [][Next]_vars
TypeOK == p \in 0..Len(Job.ev) /\ k \in 1..(Len(Job.in) + 1)
=============================================================================
