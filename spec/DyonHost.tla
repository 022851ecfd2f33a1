------------------------------ MODULE DyonHost ------------------------------
(***************************************************************************)
(* A host program that keeps one runtime and one module, and calls into it  *)
(* again and again: main, functions by name with or without a result, and   *)
(* sources that are rejected in between.  Every call starts from a clean    *)
(* thread, whatever happened before, and leaves nothing behind, whether it  *)
(* ended well or with an error.                                             *)
(*   ops: <<"run">>, <<"call", f, args>>, <<"ret", f, args>> (f = 0: there  *)
(*   is no such function), <<"bad">>: a source that must be rejected        *)
(***************************************************************************)
EXTENDS Dyon, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.JOBS)
Chunk == 400
Fuel == 400

VARIABLES j, i, t, p, fuel, v
vars == <<j, i, t, p, fuel, v>>
Job == Jobs[j]
Op == Job.ops[i]

RECURSIVE HostVal(_)
HostVal(x) == CASE x[1] \in {"n", "b"} -> <<x[1], x[2], NoSec>>
                [] x[1] = "a" -> <<"a", [k \in 1..Len(x[2]) |-> HostVal(x[2][k])]>>
                [] x[1] = "o" -> <<"o", [k \in {x[2][n][1] : n \in 1..Len(x[2])} |->
                                          HostVal(x[2][CHOOSE n \in 1..Len(x[2]) : x[2][n][1] = k][2])]>>
                [] x[1] \in {"some", "ok"} -> <<x[1], HostVal(x[2])>>
                [] OTHER -> x

Start(P, op) ==
    CASE op[1] = "run" -> Run(P, CallFn(P, Fresh, 0, P.main, <<>>), Chunk)
      [] op[1] \in {"call", "ret"} ->
           IF op[2] = 0 THEN End(Fresh, "err")
           ELSE \* the arguments stay until the result is handed over
                LET n == Len(op[3])
                    t0 == [Fresh EXCEPT !.s = [k \in 1..n |-> [v |-> HostVal(op[3][k]), g |-> k]], !.g = n + 1]
                IN Run(P, CallFn(P, t0, 0, op[2], [k \in 1..n |-> <<"r", k, k>>]), Chunk)
      [] OTHER -> End(Fresh, "err")

Init == /\ j \in 1..Len(Jobs)
        /\ i = 1 /\ p = 0 /\ fuel = 0 /\ v = ""
        /\ t = Start(Job, Op)

Done(w, info) == /\ v' = w
                 /\ PrintT(<<"V", Job.id, w, p, info>>)
                 /\ UNCHANGED <<j, i, t, p, fuel>>

(* how the call looks to the host *)
How == IF t.c[2] = "ok" /\ Op[1] = "ret" /\ ~Job.fns[Op[2]].rets THEN "err" ELSE t.c[2]
Fits(e) == /\ e[1] = "op" /\ e[2] = How
           /\ \A k \in 1..4 : e[4][k] = 0
           /\ IF Op[1] = "ret" /\ How = "ok" THEN Match(t.c[3], e[3]) ELSE e[3] = <<"z">>
Ended ==
    IF t.c[2] \in {"ood", "dang"} THEN Done(t.c[2], i)
    ELSE IF p >= Len(Job.ev) THEN Done("bad: an observation is missing", i)
    ELSE IF ~Fits(Job.ev[p + 1]) THEN Done("bad: end of a call", <<i, t.c[2]>>)
    ELSE IF i = Len(Job.ops) THEN Done(IF p + 1 = Len(Job.ev) THEN "good" ELSE "bad: observations left over", i)
    ELSE /\ i' = i + 1
         /\ t' = Start(Job, Job.ops[i + 1])
         /\ p' = p + 1
         /\ fuel' = 0
         /\ UNCHANGED <<j, v>>

Next == /\ v = ""
        /\ CASE t.c[1] = "done" -> Ended
             [] fuel > Fuel -> Done("ood", "fuel")
             [] t.c[1] = "eff" ->
                  IF t.c[2] # "ev" THEN Done("ood", t.c[2])
                  ELSE IF p < Len(Job.ev) /\ Match(t.c[3], Job.ev[p + 1])
                  THEN /\ t' = Run(Job, RtV(t, t.c[4]), Chunk)
                       /\ p' = p + 1
                       /\ UNCHANGED <<j, i, fuel, v>>
                  ELSE Done("bad: observation", t.c[3])
             [] OTHER -> /\ t' = Run(Job, t, Chunk)
                         /\ fuel' = fuel + 1
                         /\ UNCHANGED <<j, i, p, v>>
Spec == Init /\ [][Next]_vars
TypeOK == p \in 0..Len(Job.ev) /\ i \in 1..Len(Job.ops)
(* nothing is left of a call that went well *)
Clean == t.c[1] = "done" /\ t.c[2] = "ok" => Len(t.s) = (IF Op[1] = "run" THEN 0 ELSE Len(Op[3])) /\ t.e = <<>> /\ t.u = <<>>
=============================================================================
