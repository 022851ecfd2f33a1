--------------------------- MODULE DyonListTrace ---------------------------
(* Each job loads modules and lists the functions of each: the names, then   *)
(* what is told about those that were loaded, then about some of the library. *)
EXTENDS DyonList, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.JOBS)
VARIABLES j, k, v
vars == <<j, k, v>>
Job == Jobs[j]
Ev(n) == Job.ev[(k - 1) * 3 + n]
Field(o, n) == LET i == CHOOSE x \in 1..Len(o[2]) : o[2][x][1] = n IN o[2][i][2]
Has(o, ns) == o[1] = "o" /\ {o[2][x][1] : x \in 1..Len(o[2])} = ns
NAME == <<110, 97, 109, 101>>
ARGS == <<97, 114, 103, 117, 109, 101, 110, 116, 115>>
RETURNS == <<114, 101, 116, 117, 114, 110, 115>>
TYPE == <<116, 121, 112, 101>>
TAKES == <<116, 97, 107, 101, 115>>
LIFE == <<108, 105, 102, 101, 116, 105, 109, 101>>
Lt(x) == IF x = <<"none">> THEN <<>> ELSE x[2][2]
Told(o) == [name |-> Field(o, NAME)[2],
            args |-> [i \in 1..Len(Field(o, ARGS)[2]) |->
                        LET a == Field(o, ARGS)[2][i] IN [name |-> Field(a, NAME)[2], lt |-> Lt(Field(a, LIFE)), ty |-> Field(a, TAKES)[2]]],
            ret |-> Field(o, RETURNS)[2]]
Shape(o) == Has(o, {NAME, ARGS, RETURNS, TYPE}) /\ \A i \in 1..Len(Field(o, ARGS)[2]) : Has(Field(o, ARGS)[2][i], {NAME, LIFE, TAKES})
Judge ==
    LET fs == All(Job.mods, k)
        names == [i \in 1..Len(Ev(1)[2]) |-> Ev(1)[2][i][2]]
        ext == Ev(3)[2]
    IN IF ~Sorted(names) THEN "bad: the names are not in order"
       ELSE IF ~\A i \in 1..Len(Ev(2)[2]) : Shape(Ev(2)[2][i]) THEN "bad: what is told"
       ELSE IF ~SameBag([i \in 1..Len(Ev(2)[2]) |-> Told(Ev(2)[2][i])], [i \in 1..Len(fs) |-> Entry(fs[i])]) THEN "bad: loaded functions"
       ELSE IF ~\A i \in 1..Len(ext) : Shape(ext[i]) THEN "bad: what is told of the library"
       ELSE IF Len(ext) # Len(Job.lib) THEN "bad: number of functions of the library"
       ELSE IF ~\A i \in 1..Len(fs) : Count(names, FullName(fs[i])) >= 1 THEN "bad: a function is missing"
       ELSE IF ~\A i \in 1..Len(Job.lib) : Count([n \in 1..Len(ext) |-> Told(ext[n])], Entry(Job.lib[i])) = 1 THEN "bad: functions of the library" ELSE ""
Init == j \in 1..Len(Jobs) /\ k = 1 /\ v = ""
Say(w, info) == v' = w /\ PrintT(<<"V", Job.id, w, k, info>>) /\ UNCHANGED <<j, k>>
Next == /\ v = ""
        /\ IF k > Len(Job.mods)
           THEN IF Len(Job.ev) # Len(Job.mods) * 3 \/ Job.end # "ok" THEN Say("bad: number of observations", Job.end) ELSE Say("good", 0)
           ELSE IF k * 3 > Len(Job.ev) THEN Say("bad: the run stopped", Job.end)
           ELSE LET w == Judge IN
                IF w # "" THEN Say(w, Ev(2)) ELSE k' = k + 1 /\ UNCHANGED <<j, v>>
Spec == Init /\ [][Next]_vars
=============================================================================
