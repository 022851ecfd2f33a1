---------------------------- MODULE DyonModTrace ----------------------------
(* Trace validation for modules: each job is a set of sources, the first of *)
(* which is run, and what the implementation did.                           *)
EXTENDS DyonModules, Json, IOUtils, TLC
Jobs == ndJsonDeserialize(IOEnv.JOBS)

VARIABLES j,
          defs, mods,
          st,      \* frames: [m, d, pc, env]; the last one runs
          p, v
vars == <<j, defs, mods, st, p, v>>
Job == Jobs[j]

Start == Load(<<>>, <<[fs |-> <<>>, tr |-> 0]>>, 1, Job.srcs[1], <<>>, FALSE, FALSE)
Frame(m, d, nm, how) == [m |-> m, d |-> d, nm |-> nm, pc |-> 1, env |-> [x \in Range_(Job.vars) |-> 0], how |-> how, try |-> FALSE]
(* how: what becomes of the result: "void", "obs", "go" (observed, from a thread), "none" (asked for and missing) *)

Init == /\ j \in 1..Len(Jobs)
        /\ LET s == Start IN
           /\ defs = s.defs
           /\ mods = <<s.mod>>
           /\ st = IF s.ok THEN << Frame(1, Find(s.defs, s.mod, <<"main", "">>), "main", "void") >> ELSE <<>>
           /\ v = IF s.ok = (Job.load = "ok") THEN (IF s.ok THEN "" ELSE "good")
                  ELSE IF s.ok THEN "bad: rejected" ELSE "bad: accepted"
        /\ p = 0
        /\ v # "" => PrintT(<<"V", Job.id, v, 0>>)

Done(w, info) == /\ v' = w
                 /\ PrintT(<<"V", Job.id, w, p, info>>)
                 /\ UNCHANGED <<j, defs, mods, st, p>>
End(how) == IF p # Len(Job.ev) THEN Done("bad: observations left over", how)
            ELSE IF how # Job.end THEN Done("bad: end " \o Job.end \o ", expected " \o how, how)
            ELSE IF how = "ok" /\ \E i \in 1..4 : Job.st[i] # 0 THEN Done("bad: variables left over", how)
            ELSE Done("good", how)

F == st[Len(st)]
D == defs[F.d]
Advance(s) == [s EXCEPT ![Len(s)].pc = @ + 1]
See(e) == p < Len(Job.ev) /\ Job.ev[p + 1] = e
Observe(e, s) == IF See(e) THEN /\ p' = p + 1 /\ st' = s
                                /\ UNCHANGED <<j, defs, mods, v>>
                 ELSE Done("bad: observation", e)
Goto(s) == st' = s /\ UNCHANGED <<j, defs, mods, p, v>>

Observe2(e, e2, s) == IF p + 1 < Len(Job.ev) /\ Job.ev[p + 1] = e /\ Job.ev[p + 2] = e2
                      THEN /\ p' = p + 2 /\ st' = s /\ UNCHANGED <<j, defs, mods, v>>
                      ELSE Done("bad: observation", <<e, e2>>)

(* An error goes to the innermost `try`; the run ends where there is none.  *)
Caught == {i \in 1..Len(st) : st[i].try}
Handler(f) == Least({k \in f.pc..Len(defs[f.d].body) : defs[f.d].body[k][1] = "te"}) + 1
Err == IF Caught = {} THEN End("err")
       ELSE LET i == Most(Caught)
                \* calls are made with the counter already at the next statement
            IN Observe(<<"b", FALSE>>, [SubSeq(st, 1, i) EXCEPT ![i].try = FALSE, ![i].pc = Handler(st[i])])

(* A statement that fails ends the run, and the message shows its line and  *)
(* the calls that led to it with the file of each; after `go` these are not *)
(* specified.                                                               *)
Trace == [i \in 1..Len(st) |-> <<st[i].nm, defs[st[i].d].file>>]
Fail(k) == IF Caught # {} THEN Err
           ELSE IF Job.end = "err" /\ Job.at # <<k>> THEN Done("bad: the line of the error", k)
           ELSE IF Job.end = "err" /\ (\A i \in 1..Len(st) : st[i].how # "go") /\ Job.tr # Trace THEN Done("bad: the calls of the error", Trace)
           ELSE Err

(* call of what b means with result used as `how` *)
Call(b, how) ==
    IF b[1] = "def" THEN Goto(Append(Advance(st), Frame(F.m, b[2], defs[b[2]].name[1], how)))
    ELSE CASE Ext[b[2]].name[1] = "probe" -> Observe(<<"n", 7>>, Advance(st))
           [] Ext[b[2]].name[1] = "pr" -> Observe2(<<"n", 7>>, <<"n", 7>>, Advance(st))
           [] OTHER -> Done("ood", b)

(* end of the body *)
Return == LET s1 == SubSeq(st, 1, Len(st) - 1) IN
          IF s1 = <<>> THEN End("ok")
          ELSE IF F.how \in {"obs", "go"} THEN Observe(<<"n", D.tag>>, s1)
          ELSE Goto(s1)

(* the module a variable stands for; 0 when it did not load *)
Names(m) == [i \in 1..Len(Job.names) |-> Cardinality({k \in 1..Len(mods[m].fs) : defs[mods[m].fs[k]].name = Job.names[i]})]
RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Rep(x, n - 1)
Listed(m) == LET c == Names(m) IN Cat([i \in 1..Len(Job.names) |-> Rep(<<"s", Job.names[i][1] \o Job.names[i][2]>>, c[i])])

Step ==
    IF F.pc > Len(D.body) THEN Return
    ELSE
    LET c == D.body[F.pc]
        b == D.bind[F.pc]
        vmod(x) == F.env[x]
    IN CASE c[1] = "p" -> Observe(<<"n", c[2]>>, Advance(st))
         [] c[1] = "tb" -> Goto([Advance(st) EXCEPT ![Len(st)].try = TRUE])
         [] c[1] = "te" -> Observe(<<"b", TRUE>>, [Advance(st) EXCEPT ![Len(st)].try = FALSE])
         [] c[1] = "er" -> Fail(c[2])
         [] c[1] = "c" -> Call(b, "void")
         [] c[1] \in {"r", "g"} -> Call(b, IF c[1] = "r" THEN "obs" ELSE "go")
         \* a closure goes by the name of the variable it is called by
         [] c[1] = "k" -> Goto(Append(Advance(st), Frame(F.m, b[2], "h" \o ToString(F.pc - 1), "obs")))
         [] c[1] = "kc" ->
              LET m == vmod(c[2])
                  d == IF m = 0 THEN 0 ELSE Find(defs, mods[m], c[3])
              IN IF d = 0 THEN Err ELSE Goto(Append(Advance(st), Frame(m, d, "h" \o ToString(F.pc - 1), "obs")))
         [] c[1] = "lz" -> IF b[1] = "ext" THEN Observe(<<"n", 1>>, Advance(st))
                           ELSE Done("ood", b)
         [] c[1] = "new" ->
              LET ims == [i \in 1..Len(c[4]) |-> vmod(c[4][i])] IN
              IF \E i \in 1..Len(ims) : ims[i] = 0 THEN Err
              ELSE LET l == Load(defs, mods, F.m, Job.srcs[c[3]], ims, c[5], c[6]) IN
                   IF See(<<"b", l.ok>>)
                   THEN /\ p' = p + 1
                        /\ defs' = l.defs
                        /\ mods' = IF l.ok THEN Append(mods, l.mod) ELSE mods
                        /\ st' = [Advance(st) EXCEPT ![Len(st)].env[c[2]] = IF l.ok THEN Len(mods) + 1 ELSE 0]
                        /\ UNCHANGED <<j, v>>
                   ELSE Done("bad: loaded or not", l.ok)
         [] c[1] = "ck" ->
              LET ims == [i \in 1..Len(c[3]) |-> vmod(c[3][i])] IN
              IF \E i \in 1..Len(ims) : ims[i] = 0 THEN Err
              ELSE Observe(<<"b", TRUE>>, Advance(st))     \* it only reads; problems do not matter
         [] c[1] \in {"cm", "cr"} ->
              LET m == vmod(c[2])
                  d == IF m = 0 THEN 0 ELSE Find(defs, mods[m], c[3])
              IN IF d = 0 THEN Err
                 ELSE IF defs[d].n # c[4] THEN Err
                 ELSE Goto(Append(Advance(st), Frame(m, d, c[3][1], IF c[1] = "cm" THEN "void"
                                                             ELSE IF defs[d].ret THEN "obs" ELSE "none")))
         [] c[1] = "fs" -> IF vmod(c[2]) = 0 THEN Err
                           ELSE Observe(<<"a", Listed(vmod(c[2]))>>, Advance(st))

(* a result was asked for, and there is none *)
NoResult == Len(st) > 1 /\ F.how = "none" /\ F.pc > Len(D.body)

Next == v = "" /\ IF NoResult THEN Err ELSE Step
Spec == Init /\ [][Next]_vars

TypeOK == /\ p \in 0..Len(Job.ev)
          /\ \A i \in 1..Len(st) : st[i].m \in 1..Len(mods) /\ st[i].d \in 1..Len(defs)
Whole == Closed(defs, mods)
WholeTr == TrClosed(defs, mods)
(* a function runs in a module that has it *)
InModule == \A i \in 1..Len(st) : st[i].d \in Range_(mods[st[i].m].fs)
=============================================================================
