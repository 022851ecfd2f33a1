----------------------------- MODULE DyonStatic -----------------------------
(***************************************************************************)
(* Which programs the checker lets through: the rules of lifetimes and of  *)
(* mutability.  A lifetime is                                              *)
(*   <<"n">>       anything that refers to nothing                         *)
(*   <<"l", i>>    a local variable; i is the place of its declaration     *)
(*   <<"c", i>>    a current object of the function                        *)
(*   <<"a", ch>>   an argument; ch: the argument, the one it outlives, ... *)
(*   <<"r", ch>>   the same, where the last one outlives the result        *)
(*   <<"f">>       parts with lifetimes that cannot be compared            *)
(* The result of a function itself is <<"r", <<>>>>.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Rng(s) == {s[i] : i \in 1..Len(s)}

(* does an argument with list a outlive one with list b *)
Chains(a, b) == CASE a[1] = b[1] -> "eq"
                  [] a[1] # b[1] /\ b[1] \in Rng(a) -> "gt"
                  [] a[1] # b[1] /\ b[1] \notin Rng(a) /\ a[1] \in Rng(b) -> "lt"
                  [] OTHER -> "un"

Order(a, b) ==
    CASE a[1] = "l" /\ b[1] = "l" -> IF a[2] < b[2] THEN "gt" ELSE IF a[2] > b[2] THEN "lt" ELSE "eq"
      [] a[1] = "l" /\ b[1] # "l" -> "lt"
      [] a[1] # "l" /\ b[1] = "l" -> "gt"
      [] a[1] = "c" /\ b[1] = "c" -> IF a[2] = b[2] THEN "eq" ELSE "un"
      [] a[1] = "a" /\ b[1] = "a" -> Chains(a[2], b[2])
      [] a[1] = "r" /\ b[1] = "r" ->
           CASE a[2] = <<>> /\ b[2] = <<>> -> "eq"
             [] a[2] = <<>> /\ b[2] # <<>> -> "lt"
             [] a[2] # <<>> /\ b[2] = <<>> -> "gt"
             [] OTHER -> Chains(a[2], b[2])
      [] OTHER -> "un"

First(s, P(_)) == LET is == {i \in 1..Len(s) : P(s[i])} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A k \in is : i <= k

(* what has two parts lives as long as both *)
Min2(a, b) ==
    CASE a[1] = "f" \/ b[1] = "f" -> <<"f">>
      [] a[1] = "n" -> b
      [] b[1] = "n" /\ a[1] # "n" -> a
      [] OTHER ->
           LET o == Order(a, b) IN
           CASE o = "gt" -> b
             [] o \in {"lt", "eq"} -> a
             [] o = "un" ->
                  IF a[1] # b[1] \/ a[1] = "c" THEN <<"f">>
                  ELSE LET i == First(a[2], LAMBDA x : x \in Rng(b[2])) IN
                       IF i = 0 THEN <<"f">> ELSE <<a[1], <<a[2][1]>> \o SubSeq(a[2], i, Len(a[2]))>>
RECURSIVE MinOf(_)
MinOf(s) == IF s = <<>> THEN <<"n">> ELSE Min2(MinOf(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

(* may something of lifetime r be stored where l is *)
May(l, r) == CASE r[1] = "n" \/ l[1] = "n" -> TRUE
               [] r[1] = "f" -> l[1] = "l"
               [] l[1] = "f" -> FALSE
               [] OTHER -> Order(l, r) = "lt"

(* ------------------------------------------------------------------------ *)
(* functions: args, lts (name, "return" or ""), muts (BOOLEAN each), cus, curmut *)
ArgIx(fd, x) == First(fd.args, LAMBDA y : y = x)
RECURSIVE ChainOf(_, _, _)
ChainOf(fd, i, seen) ==
    IF i \in Rng(seen) \/ i = 0 THEN <<"f">>
    ELSE LET l == fd.lts[i] IN
         IF l = "" THEN <<"a", Append(seen, i)>>
         ELSE IF l = "return" THEN <<"r", Append(seen, i)>>
         ELSE ChainOf(fd, ArgIx(fd, l), Append(seen, i))
ArgLt(fd, i) == ChainOf(fd, i, <<>>)

Lookup1(env, x) == LET is == {i \in 1..Len(env) : env[i].x = x} IN
                   IF is = {} THEN 0 ELSE CHOOSE i \in is : \A k \in is : k <= i
Loc(x, n) == [x |-> x, l |-> <<"l", n>>, m |-> TRUE]

R(ok, l, env) == [ok |-> ok, l |-> l, env |-> env]

(* library functions that give, or keep, what they are given *)
GivesArgs == {"pop", "remove"}
KeepsRef(op) == CASE op = "push_ref" -> 2 [] op = "insert_ref" -> 3 [] OTHER -> 0
MutFirst == {"push", "push_ref", "insert", "insert_ref", "pop", "remove", "reverse", "clear", "swap"}

IsRef(P, n) == P.nodes[n].k = "var"
IsItem(P, n) == P.nodes[n].k \in {"var", "item"}

(* may the variable be changed *)
MayMut(env, x) == LET i == Lookup1(env, x) IN i # 0 /\ env[i].m

(* ------------------------------------------------------------------------ *)
(* The range of a loop without one: the first list in the body that is       *)
(* indexed by the counter, where the list and the indices before the counter *)
(* exist outside of the loop; <<>> when there is none.  In a block the value *)
(* of an assignment comes before its target.  ds: names declared so far in   *)
(* the body.                                                                 *)
RECURSIVE Inf(_, _, _, _), InfSeq(_, _, _, _, _), InfBlk(_, _, _, _, _), InfItem(_, _, _, _, _, _, _, _)
InfSeq(P, ns, i, x, ds) ==
    IF i > Len(ns) THEN <<>>
    ELSE LET r == Inf(P, ns[i], x, ds) IN IF r # <<>> THEN r ELSE InfSeq(P, ns, i + 1, x, ds)
InfItem(P, l, ids, es, j, e, x, ds) ==
    IF j > Len(ids) THEN <<>>
    ELSE IF ids[j][1] # "e" THEN InfItem(P, l, ids, es, j + 1, e, x, ds)
    ELSE LET m == P.nodes[es[e]] IN
         IF m.k \in {"var", "item"}
         THEN CASE m.x = x -> IF l \in ds THEN <<>> ELSE <<l, SubSeq(ids, 1, j - 1), SubSeq(es, 1, e - 1)>>
                [] m.x # x /\ m.x \in ds -> <<>>
                [] OTHER -> LET r == Inf(P, es[e], x, ds) IN
                            IF r # <<>> THEN r ELSE InfItem(P, l, ids, es, j + 1, e + 1, x, ds)
         ELSE Inf(P, es[e], x, ds)
InfBlk(P, ns, i, x, ds) ==
    IF i > Len(ns) THEN <<>>
    ELSE LET nd == P.nodes[ns[i]]
             r == Inf(P, IF nd.k \in {"decl", "asg"} THEN nd.a[1] ELSE ns[i], x, ds)
         IN CASE r # <<>> -> r
              [] r = <<>> /\ nd.k \notin {"decl", "asg"} -> InfBlk(P, ns, i + 1, x, ds)
              [] r = <<>> /\ nd.k \in {"decl", "asg"} /\ nd.x = x -> <<>>
              [] OTHER ->
                   LET ds2 == IF nd.k = "decl" THEN ds \cup {nd.x} ELSE ds
                       l == IF nd.k = "asg" THEN InfItem(P, nd.x, nd.ids, SubSeq(nd.a, 2, Len(nd.a)), 1, 1, x, ds2) ELSE <<>>
                   IN IF l # <<>> THEN l ELSE InfBlk(P, ns, i + 1, x, ds2)
Inf(P, n, x, ds) ==
    IF n = 0 THEN <<>> ELSE
    LET nd == P.nodes[n] IN
    CASE nd.k \in {"lit", "var", "grab", "brk", "cont", "retv", "in", "clos"} -> <<>>
      [] nd.k = "item" -> InfItem(P, nd.x, nd.ids, nd.a, 1, 1, x, ds)
      [] nd.k = "asg" -> LET l == InfItem(P, nd.x, nd.ids, SubSeq(nd.a, 2, Len(nd.a)), 1, 1, x, ds) IN
                         IF l # <<>> THEN l ELSE Inf(P, nd.a[1], x, ds)
      [] nd.k = "block" -> InfBlk(P, nd.a, 1, x, ds)
      [] nd.k = "if" -> InfSeq(P, <<nd.a[1], nd.th, nd.el>>, 1, x, ds)
      [] nd.k = "for" ->
           LET r == Inf(P, nd.a[1], x, ds)
               own == nd.a[1] # 0 /\ P.nodes[nd.a[1]].k = "decl"
               c == P.nodes[nd.a[1]].x
           IN CASE r # <<>> -> r
                [] r = <<>> /\ own -> IF c = x THEN <<>> ELSE InfSeq(P, Tail(nd.a), 1, x, ds \cup {c})
                [] OTHER -> InfSeq(P, Tail(nd.a), 1, x, ds)
      [] nd.k = "forn" ->
           IF nd.x = x THEN <<>>
           ELSE LET d == ds \cup {nd.x}
                    r == InfSeq(P, <<nd.st, nd.en, nd.body>>, 1, x, d)
                IN IF r # <<>> THEN r ELSE InfBlk(P, nd.a, 1, x, d)
      [] nd.k = "forin" -> Inf(P, nd.it, x, ds)
      [] OTHER -> InfSeq(P, nd.a, 1, x, ds)
Range(P, n) == LET nd == P.nodes[n] IN
               IF nd.body # 0 THEN Inf(P, nd.body, nd.x, {}) ELSE InfBlk(P, nd.a, 1, nd.x, {})
RECURSIVE SameTree(_, _, _)
SameTree(P, a, b) ==
    LET x == P.nodes[a]
        y == P.nodes[b]
    IN x.k = y.k /\ CASE x.k = "var" -> x.x = y.x
                       [] x.k = "lit" -> x.v = y.v
                       [] OTHER -> /\ x.k = "item" => x.x = y.x /\ x.ids = y.ids
                                   /\ x.k = "prim" => x.op = y.op
                                   /\ Len(x.a) = Len(y.a)
                                   /\ \A i \in 1..Len(x.a) : SameTree(P, x.a[i], y.a[i])
(* the length that the job gives for the loop is that of the list *)
IsRange(P, n, r) ==
    LET en == P.nodes[P.nodes[n].en]
        l == P.nodes[en.a[1]]
    IN /\ en.k = "prim" /\ en.op = "len" /\ l.x = r[1]
       /\ IF r[2] = <<>> THEN l.k = "var"
          ELSE l.k = "item" /\ l.ids = r[2] /\ \A i \in 1..Len(r[3]) : SameTree(P, l.a[i], r[3][i])

RECURSIVE Chk(_, _, _), ChkSeq(_, _, _, _, _)
(* statements in order: the environment grows; gives <<ok, lifetimes, env>> *)
ChkSeq(P, ns, i, env, ls) ==
    IF i > Len(ns) THEN [ok |-> TRUE, ls |-> ls, env |-> env]
    ELSE LET r == IF ns[i] = 0 THEN R(TRUE, <<"n">>, env) ELSE Chk(P, ns[i], env) IN
         IF ~r.ok THEN [ok |-> FALSE, ls |-> ls, env |-> env]
         ELSE ChkSeq(P, ns, i + 1, r.env, Append(ls, r.l))

None == <<"n">>

Chk(P, n, env) ==
    LET nd == P.nodes[n]
        \* all children, seeing the same variables
        sub(a) == ChkSeq(P, a, 1, env, <<>>)
        part(l) == LET r == sub(nd.a) IN R(r.ok, IF l THEN MinOf(r.ls) ELSE None, env)
        body(b, e) == IF b = 0 THEN R(TRUE, None, e) ELSE Chk(P, b, e)
    IN
    CASE nd.k \in {"lit", "grab", "brk", "cont", "retv", "in"} -> R(TRUE, None, env)
      [] nd.k = "var" -> LET i == Lookup1(env, nd.x) IN IF i = 0 THEN R(FALSE, None, env) ELSE R(TRUE, env[i].l, env)
      [] nd.k = "item" -> LET i == Lookup1(env, nd.x)
                              r == sub(nd.a)
                          IN IF i = 0 THEN R(FALSE, None, env) ELSE R(r.ok, env[i].l, env)
      [] nd.k \in {"arr", "obj", "q"} -> part(TRUE)
      [] nd.k = "fill" -> LET r == sub(nd.a) IN R(r.ok, IF r.ok THEN r.ls[1] ELSE None, env)
      [] nd.k \in {"vec4", "swz", "mat4", "link", "try", "join", "next"} -> part(FALSE)
      [] nd.k = "prim" ->
           LET r == sub(nd.a)
               kr == KeepsRef(nd.op)
           IN IF ~r.ok THEN R(FALSE, None, env)
              ELSE R(/\ \A i \in 1..Len(r.ls) : May(<<"l", n>>, r.ls[i])
                     /\ nd.op \in MutFirst => IsItem(P, nd.a[1]) /\ MayMut(env, P.nodes[nd.a[1]].x)
                     /\ kr # 0 => IsItem(P, nd.a[kr]) /\ May(r.ls[1], r.ls[kr]),
                     IF nd.op \in GivesArgs THEN MinOf(r.ls) ELSE None, env)
      [] nd.k \in {"call", "go"} ->
           LET fd == P.fns[nd.f]
               r == sub(nd.a)
           IN IF ~r.ok \/ Len(nd.a) # Len(fd.args) \/ nd.mu # fd.muts THEN R(FALSE, None, env)
              ELSE R(/\ \A i \in 1..Len(nd.a) :
                         /\ May(<<"l", n>>, r.ls[i])
                         /\ nd.mu[i] /\ IsItem(P, nd.a[i]) => MayMut(env, P.nodes[nd.a[i]].x)
                         /\ fd.lts[i] # "" =>
                              /\ nd.k # "go"
                              /\ IsRef(P, nd.a[i])
                              /\ fd.lts[i] # "return" => May(r.ls[ArgIx(fd, fd.lts[i])], r.ls[i]),
                     MinOf(SelectSeq([i \in 1..Len(nd.a) |-> IF ArgLt(fd, i)[1] = "r" THEN r.ls[i] ELSE None], LAMBDA l : l # None)),
                     env)
      [] nd.k = "callc" -> LET r == sub(nd.a) IN R(r.ok /\ Lookup1(env, nd.x) # 0, None, env)
      [] nd.k = "clos" ->
           LET r == sub(nd.a)     \* what is grabbed
               e == [i \in 1..Len(nd.args) |-> [x |-> nd.args[i], l |-> <<"a", <<1000 * n + i>>>>, m |-> FALSE]]
                    \o [i \in 1..Len(nd.cus) |-> [x |-> nd.cus[i], l |-> <<"c", 1000 * n + 500 + i>>, m |-> FALSE]]
               b == Chk(P, nd.body, e)
           IN R(r.ok /\ b.ok /\ May(<<"r", <<>>>>, b.l), None, env)
      [] nd.k = "block" ->
           LET r == sub(nd.a) IN
           R(r.ok /\ (nd.a # <<>> => May(<<"l", n>>, r.ls[Len(r.ls)])), IF r.ok THEN MinOf(r.ls) ELSE None, env)
      [] nd.k = "if" ->
           LET c == sub(nd.a)
               t == body(nd.th, env)
               e == body(nd.el, env)
           IN R(c.ok /\ t.ok /\ e.ok, Min2(t.l, e.l), env)
      [] nd.k = "for" ->        \* the parts see the counter
           LET r == ChkSeq(P, nd.a, 1, env, <<>>) IN
           R(r.ok, IF r.ok /\ nd.a[1] = 0 THEN r.ls[4] ELSE None, env)
      [] nd.k = "forn" ->
           LET rg == IF nd.inf THEN Range(P, n) ELSE <<>>
               h == IF nd.inf
                    THEN [ok |-> rg # <<>> /\ Assert(IsRange(P, n, rg), <<"range", rg>>)]
                    ELSE ChkSeq(P, <<nd.st, nd.en>>, 1, env, <<>>)
               b == body(nd.body, Append(env, Loc(nd.x, n)))
               a == ChkSeq(P, nd.a, 1, Append(env, Loc(nd.x, n)), <<>>)
           IN R(h.ok /\ b.ok /\ a.ok, IF nd.kd = "sift" THEN b.l ELSE None, env)
      [] nd.k = "forin" ->
           LET h == Chk(P, nd.it, env)
               b == body(nd.body, Append(env, Loc(nd.x, n)))
               a == ChkSeq(P, nd.a, 1, Append(env, Loc(nd.x, n)), <<>>)
           IN R(h.ok /\ b.ok /\ a.ok, IF nd.kd = "sift" THEN b.l ELSE None, env)
      [] nd.k = "decl" ->
           LET r == Chk(P, nd.a[1], env) IN
           R(r.ok /\ May(<<"l", n>>, r.l), None, Append(env, Loc(nd.x, n)))
      [] nd.k = "asg" ->
           LET i == Lookup1(env, nd.x)
               r == sub(nd.a)
           IN IF i = 0 \/ ~r.ok THEN R(FALSE, None, env)
              ELSE R(env[i].m /\ (nd.op \in {"=", ":="} => May(env[i].l, r.ls[1])), None, env)
      [] nd.k = "ret" ->
           LET r == Chk(P, nd.a[1], env) IN R(r.ok /\ May(<<"r", <<>>>>, r.l), r.l, env)

FnOK(P, f) ==
    LET fd == P.fns[f]
        env == [i \in 1..Len(fd.args) |-> [x |-> fd.args[i], l |-> ArgLt(fd, i), m |-> fd.muts[i]]]
               \o [i \in 1..Len(fd.cus) |-> [x |-> fd.cus[i], l |-> <<"c", i>>, m |-> fd.curmut[i]]]
    IN /\ \A i \in 1..Len(fd.args) : /\ ArgLt(fd, i)[1] # "f"
                                     /\ fd.lts[i] = "return" => fd.rets
                                     /\ \A k \in 1..Len(fd.args) : fd.args[i] = fd.args[k] => i = k
       /\ LET r == Chk(P, fd.body, env) IN
          r.ok /\ (fd.ex => May(<<"r", <<>>>>, r.l))

Accept(P) == /\ \A f \in 1..Len(P.fns) : FnOK(P, f)
             /\ \A f, g \in 1..Len(P.fns) : P.fns[f].name = P.fns[g].name /\ P.fns[f].muts = P.fns[g].muts => f = g
=============================================================================
