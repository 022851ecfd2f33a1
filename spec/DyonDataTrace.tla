--------------------------- MODULE DyonDataTrace ---------------------------
(* Each job is a list of texts that are read, or values that are written,   *)
(* and what the implementation made of them, one step each.                 *)
EXTENDS DyonData, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.JOBS)
VARIABLES j, k, v
vars == <<j, k, v>>
Job == Jobs[j]

RECURSIVE Norm(_)
Norm(x) == CASE x[1] = "o" -> <<"o", {<<x[2][i][1], Norm(x[2][i][2])>> : i \in 1..Len(x[2])}>>
             [] x[1] \in {"a", "l"} -> <<x[1], [i \in 1..Len(x[2]) |-> Norm(x[2][i])]>>
             [] x[1] = "some" -> <<"some", Norm(x[2])>>
             [] OTHER -> x

(* fmt lays out numbers, texts, booleans, vectors, arrays and objects *)
RECURSIVE Simple(_)
Simple(x) == CASE x[1] = "o" -> \A e \in x[2] : Simple(e[2])
              [] x[1] = "a" -> \A i \in 1..Len(x[2]) : Simple(x[2][i])
              [] x[1] = "some" -> Simple(x[2])
              [] OTHER -> x[1] \notin {"none", "l"}

PerItem == [read |-> 3, write |-> 7, color |-> 1]
Ev(n) == Norm(Job.ev[(k - 1) * PerItem[Job.kind] + n])

Result(r) == IF r.st = "ok" THEN <<"some", r.v>> ELSE <<"none">>
(* "" or what is wrong *)
Judge(x) ==
    CASE Job.kind = "read" ->
           LET r == Read(x)
               kept == IF Ev(2) = <<"t", x>> THEN "" ELSE "bad: a file does not keep its text"
           IN IF kept # "" THEN kept
              ELSE IF r.st = "ood" THEN ""
              ELSE IF Ev(1) # Result(r) THEN "bad: load_data(string)"
              ELSE IF Ev(3) # Result(r) THEN "bad: load_data(file)" ELSE ""
      [] Job.kind = "write" ->
           LET w == Norm(x) IN
           IF ~RoundTrip(w) THEN "bad: specification does not read what it writes"
           ELSE IF Ev(1) \notin {<<"t", t>> : t \in Texts(w, FALSE)} THEN "bad: str"
           ELSE IF Ev(2) \notin {<<"t", t>> : t \in Texts(w, TRUE)} THEN "bad: json_string"
           ELSE IF Ev(3) # <<"some", w>> THEN "bad: what was written does not read back"
           ELSE IF Ev(4) \notin {<<"t", t>> : t \in Texts(w, TRUE)} THEN "bad: save(data)"
           ELSE IF Ev(5) # <<"some", w>> THEN "bad: what was saved does not load back"
           ELSE IF Ev(6) # w THEN "bad: writing changed the value"
           ELSE IF Simple(w) /\ Ev(7) # <<"some", w>> THEN "bad: what was laid out by fmt does not read back" ELSE ""
      [] OTHER -> \* colors: r g b a as hexadecimal text
           IF Ev(1) = <<"t", IF SubSeq(x, 8, 9) = <<102, 102>> THEN SubSeq(x, 1, 7) ELSE x>> THEN "" ELSE "bad: color"

Init == j \in 1..Len(Jobs) /\ k = 1 /\ v = ""
Say(w, info) == v' = w /\ PrintT(<<"V", Job.id, w, k, info>>) /\ UNCHANGED <<j, k>>
Next == /\ v = ""
        /\ IF k > Len(Job.in)
           THEN IF Len(Job.ev) # Len(Job.in) * PerItem[Job.kind] \/ Job.end # "ok" THEN Say("bad: number of observations", Job.end) ELSE Say("good", 0)
           ELSE IF k * PerItem[Job.kind] > Len(Job.ev) THEN Say("bad: the run stopped", Job.end)
           ELSE LET w == Judge(Job.in[k]) IN
                IF w # "" THEN Say(w, <<Job.in[k], [n \in 1..PerItem[Job.kind] |-> Ev(n)]>>)
                ELSE k' = k + 1 /\ UNCHANGED <<j, v>>
Spec == Init /\ [][Next]_vars
=============================================================================
