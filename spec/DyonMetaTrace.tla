--------------------------- MODULE DyonMetaTrace ---------------------------
(* Each job reads texts with one set of rules: per text what meta gave for  *)
(* the text, for a file with the text, and the JSON of it.  Or it makes     *)
(* JSON of rows that the program put together.                              *)
EXTENDS DyonMeta, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.JOBS)
VARIABLES j, k, v
vars == <<j, k, v>>
Job == Jobs[j]

Name(s) == CASE s = "bool" -> <<98, 111, 111, 108>> [] s = "f64" -> <<102, 54, 52>> [] s = "str" -> <<115, 116, 114>>
             [] s = "start" -> <<115, 116, 97, 114, 116>> [] OTHER -> <<101, 110, 100>>
Num0(n) == <<"n", n>>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Shown(t) == <<"a", <<Num0(Dec(t[1])), Num0(Dec(t[2])), <<"t", Name(t[3])>>, <<"t", t[4]>>>> \o (IF Len(t) = 5 THEN <<t[5]>> ELSE <<>>)>>

Ev(n) == Job.ev[(k - 1) * 3 + n]
(* Rows of kind, name and value as tokens *)
Kinds == {"bool", "f64", "str", "start", "end"}
AsToken(w) == <<0, 0, CHOOSE s \in Kinds : Name(s) = w[1][2], w[2][2], w[3]>>
Rows2Json(rs) == IF \A i \in 1..Len(rs) : rs[i].ok THEN <<"some", JsonOf([i \in 1..Len(rs) |-> AsToken(rs[i].row)], 1)>> ELSE <<"none">>
Got(e) == IF e = <<"none">> THEN e ELSE <<"some", Compact(e[2][2], 1, FALSE)>>
JudgeRows(rs) ==
    IF Got(Ev(1)) # Rows2Json(rs) THEN "bad: JSON of rows"
    ELSE IF Got(Ev(2)) # Rows2Json(<<rs[1]>>) THEN "bad: JSON of a row that is a variable"
    ELSE IF Got(Ev(3)) # Rows2Json(<<rs[1]>>) THEN "bad: JSON of a row of variables" ELSE ""
Judge(x) ==
    IF "rows" \in DOMAIN x THEN JudgeRows(x.rows)
    ELSE IF x.bad
    THEN IF Ev(1) # <<"none">> THEN "bad: a text that is against the rules is read"
         ELSE IF Ev(2) # <<"none">> THEN "bad: a file that is against the rules is read" ELSE ""
    ELSE LET t == Tokens(Job.names, x.items, 0)
             w == <<"some", <<"a", [i \in 1..Len(t) |-> Shown(t[i])]>>>>
         IN IF ItemsText(x.items) # x.text THEN "bad: the text is not the one of the specification"
            ELSE IF ~WellFormed(t) THEN "bad: tokens of the specification do not nest"
            ELSE IF Ev(1) # w THEN "bad: tokens of a text"
            ELSE IF Ev(2) # w THEN "bad: tokens of a file"
            ELSE IF Ev(3)[1] # "t" \/ Compact(Ev(3)[2], 1, FALSE) # JsonOf(t, 1) THEN "bad: JSON" ELSE ""

Init == j \in 1..Len(Jobs) /\ k = 1 /\ v = ""
Say(w, info) == v' = w /\ PrintT(<<"V", Job.id, w, k, info>>) /\ UNCHANGED <<j, k>>
Next == /\ v = ""
        /\ IF k > Len(Job.in)
           THEN IF Len(Job.ev) # Len(Job.in) * 3 \/ Job.end # "ok" THEN Say("bad: number of observations", Job.end) ELSE Say("good", 0)
           ELSE IF k * 3 > Len(Job.ev) THEN Say("bad: the run stopped", Job.end)
           ELSE LET w == Judge(Job.in[k]) IN
                IF w # "" THEN Say(w, <<Job.in[k], [n \in 1..3 |-> Ev(n)]>>)
                ELSE k' = k + 1 /\ UNCHANGED <<j, v>>
Spec == Init /\ [][Next]_vars
=============================================================================
