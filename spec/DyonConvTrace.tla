---------------------------- MODULE DyonConvTrace ----------------------------
(* Each job is a list of calls of host functions in one run.                *)
(*   [op |-> "conv", t |-> types, v |-> values, single |-> bool]            *)
(*      a function that gives back its arguments: the value itself (single) *)
(*      or an array of them; observed as some(result) or none               *)
(*   Rust objects, which hold a number: variables hold one (<<"r", h>>), an *)
(*   object of another type (<<"i">>), or a number (<<"n", k>>).            *)
(*      mk x n, mki x n, num x n, cp x y, rd o, set o n, setby o p,         *)
(*      addby o p, subby o p, setref o p, minus x o p, scale x o n, less o n *)
EXTENDS DyonConv, Json, IOUtils, TLC
Jobs == ndJsonDeserialize(IOEnv.JOBS)
VARIABLES j, k, p, env, heap, v
vars == <<j, k, p, env, heap, v>>
Job == Jobs[j]

RECURSIVE Norm(_)
Norm(x) == CASE x[1] = "o" -> <<"o", {<<x[2][i][1], Norm(x[2][i][2])>> : i \in 1..Len(x[2])}>>
             [] x[1] = "a" -> <<x[1], [i \in 1..Len(x[2]) |-> Norm(x[2][i])]>>
             [] x[1] \in {"some", "ok", "err"} -> <<x[1], Norm(x[2])>>
             [] OTHER -> x

Init == /\ j \in 1..Len(Jobs)
        /\ k = 1 /\ p = 0 /\ heap = <<>> /\ v = ""
        /\ env = [x \in {Job.vars[i] : i \in 1..Len(Job.vars)} |-> <<"n", 0>>]
Say(w, info) == v' = w /\ PrintT(<<"V", Job.id, w, k, info>>) /\ UNCHANGED <<j, k, p, env, heap>>
End(how) == IF p # Len(Job.ev) THEN Say("bad: observations left over", how)
            ELSE IF how # Job.end THEN Say("bad: end " \o Job.end \o ", expected " \o how, how)
            ELSE IF how = "ok" /\ \E i \in 1..4 : Job.st[i] # 0 THEN Say("bad: variables left over", how)
            ELSE Say("good", how)
Sees(e) == p < Len(Job.ev) /\ Norm(Job.ev[p + 1]) = e
Observe(e, env1, heap1) ==
    IF Sees(e) THEN k' = k + 1 /\ p' = p + 1 /\ env' = env1 /\ heap' = heap1 /\ UNCHANGED <<j, v>>
    ELSE Say("bad: observation", <<e, IF p < Len(Job.ev) THEN Job.ev[p + 1] ELSE <<>> >>)
Silent(env1, heap1) == k' = k + 1 /\ env' = env1 /\ heap' = heap1 /\ UNCHANGED <<j, p, v>>

Step ==
  LET o == Job.ops[k] IN
  IF o.op = "conv" THEN
    LET rs == [i \in 1..Len(o.t) |-> Conv(o.t[i], Norm(o.v[i]))]
        r == AllOf(rs, LAMBDA s : IF o.single THEN s[1] ELSE <<"a", s>>)
    IN IF \E i \in 1..Len(o.t) : ~Stable(o.t[i], Norm(o.v[i])) THEN Say("bad: the specification is not stable", o)
       ELSE IF r.st = "ood" THEN k' = k + 1 /\ p' = p + 1 /\ UNCHANGED <<j, env, heap, v>>
       ELSE Observe(IF r.st = "ok" THEN (IF o.void THEN r.v ELSE <<"some", r.v>>) ELSE <<"none">>, env, heap)
  ELSE
    LET R(i) == env[o.a[i]]
        isr(i) == R(i)[1] = "r"
        at(i) == heap[R(i)[2]]
        new(x, n) == Silent([env EXCEPT ![x] = <<"r", Len(heap) + 1>>], Append(heap, n))
        num(n) == <<"num", n>>
    IN CASE o.op = "mk" -> new(o.x, o.n)
         [] o.op = "mki" -> Silent([env EXCEPT ![o.x] = <<"i">>], heap)
         [] o.op = "num" -> Silent([env EXCEPT ![o.x] = <<"n", o.n>>], heap)
         [] o.op = "cp" -> Silent([env EXCEPT ![o.x] = R(1)], heap)
         [] \E i \in 1..Len(o.a) : ~isr(i) -> End("err")
         [] o.op = "rd" -> Observe(num(at(1)), env, heap)
         [] o.op = "set" -> Silent(env, [heap EXCEPT ![R(1)[2]] = o.n])
         [] o.op \in {"setby", "setref"} -> Silent(env, [heap EXCEPT ![R(1)[2]] = at(2)])
         [] o.op = "addby" -> Observe(num(at(1) + at(2)), env, [heap EXCEPT ![R(1)[2]] = @ + at(2)])
         [] o.op = "subby" -> Observe(num(at(1) - at(2)), env, [heap EXCEPT ![R(1)[2]] = @ - at(2)])
         [] o.op = "minus" -> new(o.x, at(1) - at(2))
         [] o.op = "scale" -> new(o.x, at(1) * o.n)
         [] o.op = "less" -> Observe(num(at(1) - o.n), env, heap)

Next == v = "" /\ IF k > Len(Job.ops) THEN End("ok") ELSE Step
Spec == Init /\ [][Next]_vars
TypeOK == \A x \in DOMAIN env : env[x][1] = "r" => env[x][2] \in 1..Len(heap)
==============================================================================
