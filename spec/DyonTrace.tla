------------------------------ MODULE DyonTrace ------------------------------
(***************************************************************************)
(* Trace validation: each job is a program together with what the          *)
(* implementation did with it (the observed values in order, how the run   *)
(* ended and how many variables were left over).  The specification runs   *)
(* the program; every observation has to be one that it allows.            *)
(* Threads interleave freely; a job is accepted when some interleaving     *)
(* explains the observations.  Verdicts are printed, one line per end.     *)
(***************************************************************************)
EXTENDS Dyon, Json, IOUtils, FiniteSets

Jobs == ndJsonDeserialize(IOEnv.JOBS)
Chunk == 400        \* steps of a thread that is on its own, per transition
Fuel == 400

VARIABLES j,   \* number of the job
          th,  \* threads; 1 is the main one
          ch,  \* receivers: [f, q]: function listened to, queue of messages
          p,   \* observations explained so far
          fuel,
          v    \* verdict, "" while running
vars == <<j, th, ch, p, fuel, v>>

Job == Jobs[j]

Init == /\ j \in 1..Len(Jobs)
        /\ th = << Run(Job, StartMain(Job), Chunk) >>
        /\ ch = <<>> /\ p = 0 /\ fuel = 0 /\ v = ""

(* what is left of the variables when the run has ended *)
Left(t) == <<Len(t.s), Len(t.e), 0, Len(t.u)>>
(* The message of an error that ends the run shows a line of what was running
   and, if any, the calls that led there. *)
PlaceOK(t) ==
    \/ "at" \notin DOMAIN Job
    \/ /\ Job.tr = <<>> \/ Job.tr = t.c[3]
       /\ LET nd == Job.nodes[t.c[4]] IN
          "ln" \in DOMAIN nd => \E i \in 1..Len(nd.ln) : nd.ln[i][1] <= Job.at /\ Job.at <= nd.ln[i][2]
Verdict ==
    LET t == th[1]
        how == t.c[2]
        out == {i \in 1..Len(th) : th[i].c[2] \in {"ood", "dang"}}
    IN CASE out # {} -> th[CHOOSE i \in out : \A k \in out : i <= k].c[2]
         [] p # Len(Job.ev) -> "bad: observations left over"
         [] how # Job.end -> "bad: end " \o Job.end \o ", expected " \o how
         [] how = "ok" /\ \E i \in 1..4 : Left(t)[i] # Job.st[i] -> "bad: variables left over"
         [] how = "err" /\ ~PlaceOK(t) -> "bad: the place of the error"
         [] OTHER -> "good"

Done(w, info) == /\ v' = w
                 /\ PrintT(<<"V", Job.id, w, p, info>>)
                 /\ UNCHANGED <<j, th, ch, p, fuel>>

Live1(i) == th[i].c[1] # "done"
SetTh(i, t) == th' = [th EXCEPT ![i] = Run(Job, t, Chunk)]
(* local steps go first: they commute with everything else *)
Local == {i \in 1..Len(th) : th[i].c[1] \notin {"eff", "done"}}

RunLocal == /\ Local # {}
            /\ LET i == CHOOSE i \in Local : TRUE IN SetTh(i, th[i])
            /\ fuel' = fuel + 1
            /\ UNCHANGED <<j, ch, p, v>>

(* nobody else is telling the listeners of function f something *)
Free(i, f) == {k \in 1..Len(th) : k # i /\ th[k].c[1] = "eff" /\ th[k].c[2] = "sending" /\ th[k].c[3] = f} = {}

Effect(i) ==
    LET t == th[i]
        c == t.c
    IN
    /\ c[1] = "eff"
    /\ CASE c[2] = "ev" ->
              IF p < Len(Job.ev) /\ Match(c[3], Job.ev[p + 1])
              THEN /\ SetTh(i, RtV(t, c[4]))
                   /\ p' = p + 1
                   /\ UNCHANGED <<j, ch, fuel, v>>
              ELSE Done("bad: observation", c[3])
         [] c[2] = "send" ->
              \* a call of a function tells everyone who listens, one after the other,
              \* while nobody else can talk to them
              LET to == {k \in 1..Len(ch) : ch[k].f = c[3]} IN
              IF Len(th) = 1 \/ Cardinality(to) < 2
              THEN /\ Free(i, c[3])
                   /\ ch' = [k \in 1..Len(ch) |-> IF k \in to THEN [ch[k] EXCEPT !.q = Append(@, c[4])] ELSE ch[k]]
                   /\ SetTh(i, Ev(t, c[5]))
                   /\ UNCHANGED <<j, p, fuel, v>>
              ELSE /\ Free(i, c[3])
                   /\ th' = [th EXCEPT ![i].c = <<"eff", "sending", c[3], c[4], c[5], to>>]
                   /\ UNCHANGED <<j, ch, p, fuel, v>>
         [] c[2] = "sending" ->
              IF c[6] = {} THEN /\ SetTh(i, Ev(t, c[5]))
                                /\ UNCHANGED <<j, ch, p, fuel, v>>
              ELSE \E k \in c[6] :
                   /\ ch' = [ch EXCEPT ![k].q = Append(@, c[4])]
                   /\ th' = [th EXCEPT ![i].c[6] = @ \ {k}]
                   /\ UNCHANGED <<j, p, fuel, v>>
         [] c[2] = "newin" ->
              /\ Free(i, c[3])
              /\ ch' = Append(ch, [f |-> c[3], q |-> <<>>])
              /\ SetTh(i, RtV(t, <<"in", Len(ch) + 1>>))
              /\ UNCHANGED <<j, p, fuel, v>>
         [] c[2] = "recv" ->
              IF ch[c[3]].q = <<>>
              THEN /\ ~c[4]
                   /\ SetTh(i, RtV(t, <<"none">>))
                   /\ UNCHANGED <<j, ch, p, fuel, v>>
              ELSE /\ ch' = [ch EXCEPT ![c[3]].q = Tail(@)]
                   /\ SetTh(i, RtV(t, <<"some", Head(ch[c[3]].q)>>))
                   /\ UNCHANGED <<j, p, fuel, v>>
         [] c[2] = "spawn" ->
              /\ th' = Append([th EXCEPT ![i] = Run(Job, RtV(t, <<"t", Len(th) + 1>>), Chunk)],
                              [CallFn(Job, Fresh, 0, c[3], c[4]) EXCEPT !.q = <<>>])
              /\ UNCHANGED <<j, ch, p, fuel, v>>
         [] c[2] = "join" ->
              LET w == Res(t.s, c[3]) IN
              CASE w[1] # "t" -> /\ SetTh(i, RtV(t, <<"err", AnyMsg, <<>> >>)) /\ UNCHANGED <<j, ch, p, fuel, v>>
                [] w[1] = "t" /\ w[2] = 0 ->     \* joined before
                     /\ SetTh(i, RtV(t, <<"err", AnyMsg, <<>> >>)) /\ UNCHANGED <<j, ch, p, fuel, v>>
                [] OTHER ->
                     LET o == th[w[2]]
                         t1 == IF c[3][1] = "r" THEN [t EXCEPT !.s[c[3][2]].v = <<"t", 0>>] ELSE t
                     IN /\ o.c[1] = "done"
                        /\ CASE o.c[2] = "ok" -> SetTh(i, RtV(t1, <<"ok", o.c[3]>>)) /\ UNCHANGED <<j, ch, p, fuel, v>>
                             [] o.c[2] = "err" -> SetTh(i, RtV(t1, <<"err", AnyMsg, <<>> >>)) /\ UNCHANGED <<j, ch, p, fuel, v>>
                             [] OTHER -> Done(o.c[2], <<>>)

Next == /\ v = ""
        /\ IF fuel > Fuel THEN Done("ood", "fuel")
           ELSE IF \A i \in 1..Len(th) : ~Live1(i) THEN Done(Verdict, <<>>)
           ELSE IF Local # {} THEN RunLocal
           ELSE \E i \in 1..Len(th) : Effect(i)

Spec == Init /\ [][Next]_vars

(* Invariants of the specification itself, checked in every state *)
TypeOK == /\ p \in 0..Len(Job.ev)
          /\ \A i \in 1..Len(th) : th[i].c[1] \in {"ev", "rt", "fl", "er", "eff", "done"}
(* names point at variables that exist, and cells are unique *)
EnvOK == \A i \in 1..Len(th) :
           LET t == th[i] IN
           /\ \A k \in 1..Len(t.e) : t.e[k][2] <= Len(t.s)
           /\ \A k \in 1..Len(t.s) : t.s[k].g < t.g
           /\ \A k \in 1..(Len(t.s) - 1) : t.s[k].g < t.s[k + 1].g
(* a reference never leads to another reference *)
NoRefRef == \A i \in 1..Len(th) : \A k \in 1..Len(th[i].s) :
              LET c == th[i].s[k].v IN c[1] = "r" /\ Live(th[i].s, c) => Res(th[i].s, c)[1] # "r"
=============================================================================
