------------------------------ MODULE DyonLoad ------------------------------
(* Conformance of the checker: each job is a program and whether the        *)
(* implementation loaded it.  Verdicts are printed.                         *)
EXTENDS DyonStatic, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.JOBS)

(* A build without threads refuses what needs them. *)
Built(job) == job.threads \/ \A i \in DOMAIN job.nodes : job.nodes[i].k \notin {"go", "join", "in", "next", "forin"}

VARIABLES j, v
vars == <<j, v>>
Init == j \in 1..Len(Jobs) /\ v = ""
Next == /\ v = ""
        /\ v' = IF (Built(Jobs[j]) /\ Accept(Jobs[j])) = (Jobs[j].load = "ok") THEN "good"
                ELSE IF Jobs[j].load = "ok" THEN "bad: accepted" ELSE "bad: rejected"
        /\ PrintT(<<"V", Jobs[j].id, v', 0, Jobs[j].load>>)
        /\ UNCHANGED j
Spec == Init /\ [][Next]_vars

(* The order of lifetimes is a partial order, what has parts lives no longer *)
(* than each of them, and storing is transitive: checked on all lifetimes    *)
(* that three arguments of every declaration can have.                       *)
Decls == {[args |-> <<"a", "b", "c">>, lts |-> l] : l \in [1..3 -> {"", "return", "a", "b", "c"}]}
Universe(fd) == {ArgLt(fd, i) : i \in 1..3} \cup {<<"l", 1>>, <<"l", 2>>, <<"c", 1>>, <<"c", 2>>, <<"r", <<>>>>}
Sane(fd) == \A i \in 1..3 : ArgLt(fd, i)[1] # "f"
ASSUME \A fd \in {d \in Decls : Sane(d)} :
         LET U == Universe(fd) IN
         /\ \A a, b \in U : /\ Order(a, b) = "gt" <=> Order(b, a) = "lt"
                            /\ Order(a, b) = "eq" <=> a = b
                            /\ LET m == Min2(a, b) IN
                               m[1] # "f" => \A t \in U : May(t, m) => May(t, a) /\ May(t, b)
         /\ \A a, b, c \in U : Order(a, b) = "lt" /\ Order(b, c) = "lt" => Order(a, c) = "lt"
=============================================================================
