-------------------------------- MODULE Dyon --------------------------------
(***************************************************************************)
(* The Dyon language as a transition system.                               *)
(*                                                                         *)
(* A program P is a record with a table of syntax nodes (P.nodes) and a    *)
(* table of functions (P.fns).  A thread is a record                       *)
(*   c  control: <<"ev", node>>  evaluate,  <<"rt", v>>  a value came out, *)
(*      <<"fl", kind, label, v>> break/continue/return on its way,         *)
(*      <<"er">> a run time error on its way, <<"eff", ...>> waits for an  *)
(*      effect on the world, <<"done", how>>                               *)
(*   k  continuation frames          s  the variables (cells)              *)
(*   e  names of local variables     u  names of current objects           *)
(*   b  where the names of this function start in e                        *)
(*   g  counter that makes cells unique    q  values grabbed by the        *)
(*   closure that runs.                                                    *)
(* Step(P, t) is the next state of thread t (deterministic).               *)
(***************************************************************************)
EXTENDS DyonPrims

Fr(k, n) == [k |-> k, n |-> n, i |-> 1, vs |-> <<>>, st |-> 0, lc |-> 0, cu |-> 0, b |-> 0, x |-> <<>>]

RtV(t, v) == [t EXCEPT !.c = <<"rt", v>>]
Ev(t, n)  == [t EXCEPT !.c = <<"ev", n>>]
Er(t)     == [t EXCEPT !.c = <<"er">>]
End(t, h) == [t EXCEPT !.c = <<"done", h>>]
PushF(t, f) == [t EXCEPT !.k = Append(@, f)]
PopF(t)   == [t EXCEPT !.k = SubSeq(@, 1, Len(@) - 1)]
TopF(t)   == t.k[Len(t.k)]
SetTop(t, f) == [t EXCEPT !.k[Len(t.k)] = f]
Trunc(t, f) == [t EXCEPT !.s = SubSeq(@, 1, f.st), !.e = SubSeq(@, 1, f.lc), !.u = SubSeq(@, 1, f.cu)]
(* remembers how many variables and names there are *)
Mark(t, f) == [f EXCEPT !.st = Len(t.s), !.lc = Len(t.e), !.cu = Len(t.u)]

Bind(t, name, v) == [t EXCEPT !.s = Append(@, [v |-> v, g |-> t.g]), !.g = @ + 1,
                              !.e = Append(@, <<name, Len(t.s) + 1>>)]

(* the variable that a name stands for now: the latest one of this function *)
RECURSIVE Find(_, _, _, _)
Find(e, b, name, i) == IF i <= b THEN 0 ELSE IF e[i][1] = name THEN e[i][2] ELSE Find(e, b, name, i - 1)
Lookup(t, name) == Find(t.e, t.b, name, Len(t.e))
VarRef(t, name) == LET a == Lookup(t, name) IN
                   IF a = 0 THEN <<"dang">>
                   ELSE IF t.s[a].v[1] = "r" THEN t.s[a].v ELSE <<"r", a, t.s[a].g>>

IsAtom(nd) == nd.k \in {"lit", "var", "grab"}
Atom(t, nd) == CASE nd.k = "lit" -> Lit(nd.v)
                 [] nd.k = "var" -> VarRef(t, nd.x)
                 [] nd.k = "grab" -> t.q[nd.id]

(***************************************************************************)
(* Look up by index and key.                                               *)
(***************************************************************************)
(* Ids of an item with the values of the computed ones filled in.          *)
RECURSIVE FillIds(_, _, _, _, _)
FillIds(S, ids, vs, i, k) ==    \* k: next value
    IF i > Len(ids) THEN <<>>
    ELSE IF ids[i][1] = "e"
         THEN << <<"e", Res(S, vs[k])>> >> \o FillIds(S, ids, vs, i + 1, k + 1)
         ELSE <<ids[i]>> \o FillIds(S, ids, vs, i + 1, k)

(* One step from container c: <<"at", locs, v>> (locs: steps of a location),
   <<"miss", locs>> (key not there), Err, Ood *)
RECURSIVE IndexPath(_, _, _, _, _)
IndexPath(S, c, ind, i, locs) ==    \* look up by an array of indices
    IF i > Len(ind) \/ c[1] # "a" THEN Err
    ELSE LET x == Res(S, ind[i]) IN
         CASE x[1] = "n" -> IF x[2] < 0 THEN Ood ELSE IF x[2] >= Len(c[2]) THEN Err
                            ELSE LET v == c[2][x[2] + 1]
                                     l2 == Append(locs, <<"i", x[2]>>)
                                 IN IF i = Len(ind) THEN <<"at", l2, v>>
                                    ELSE IF v[1] = "r" THEN IndexPath(S, Res(S, v), ind, i + 1, <<v>>)
                                    ELSE IndexPath(S, v, ind, i + 1, l2)
           [] x[1] = "x" -> Ood
           [] OTHER -> Err

Child(S, c, id) ==
    CASE c[1] = "o" ->
            LET key == CASE id[1] = "k" -> <<id[2]>>
                         [] id[1] = "e" -> IF id[2][1] = "s" THEN <<id[2][2]>> ELSE <<>>
                         [] OTHER -> <<>>
            IN IF key = <<>> THEN Err
               ELSE IF key[1] \in DOMAIN c[2] THEN <<"at", << <<"k", key[1]>> >>, c[2][key[1]]>>
               ELSE <<"miss", << <<"k", key[1]>> >> >>
      [] c[1] = "a" ->
            CASE id[1] = "i" -> IF id[2] < Len(c[2]) THEN <<"at", << <<"i", id[2]>> >>, c[2][id[2] + 1]>> ELSE Err
              [] id[1] = "e" ->
                    CASE id[2][1] = "n" -> IF id[2][2] < 0 THEN Ood
                                           ELSE IF id[2][2] < Len(c[2]) THEN <<"at", << <<"i", id[2][2]>> >>, c[2][id[2][2] + 1]>>
                                           ELSE Err
                      [] id[2][1] = "a" -> IndexPath(S, c, id[2][2], 1, <<>>)
                      [] id[2][1] = "x" -> Ood
                      [] OTHER -> Err
              [] OTHER -> Err
      [] OTHER -> Err

(* Reads an item: <<"v", value>>, Err, Ood or <<"fail", error>> (a `?`).   *)
RECURSIVE Read(_, _, _, _, _)
Read(S, c, ids, i, tries) ==
    LET r == Child(S, c, ids[i]) IN
    IF r[1] = "miss" THEN Err
    ELSE IF r[1] # "at" THEN r
    ELSE LET v == r[3]
             last == i = Len(ids)
         IN IF i \in Range(tries)
            THEN LET m == TryMsg(Res(S, v)) IN
                 CASE m[1] = "pass" -> IF last THEN V(m[2]) ELSE Read(S, m[2], ids, i + 1, tries)
                   [] m[1] = "fail" -> <<"fail", m[2]>>
                   [] OTHER -> Err
            ELSE IF last THEN V(v)
            ELSE Read(S, Res(S, v), ids, i + 1, tries)

(* Where an item is: <<"loc", addr, path, old>>, old = <<>> when `:=` makes
   a new key.  A reference on the way leads to the variable it refers to;
   the last one is the slot itself. *)
RECURSIVE Place(_, _, _, _, _, _, _)
Place(S, addr, path, c, ids, i, ins) ==
    LET r == Child(S, c, ids[i])
        last == i = Len(ids)
        \* a jump in a look up by array of indices restarts the path
        jump == r[1] = "at" /\ r[2][1][1] = "r"
        ad == IF jump THEN r[2][1][2] ELSE addr
        pa == IF jump THEN SubSeq(r[2], 2, Len(r[2])) ELSE path \o r[2]
    IN CASE r[1] = "miss" -> IF ins /\ last THEN <<"loc", addr, path \o r[2], <<>> >> ELSE Err
         [] r[1] = "at" ->
              IF last THEN <<"loc", ad, pa, <<r[3]>> >>
              ELSE IF r[3][1] = "r"
                   THEN IF Live(S, r[3]) THEN Place(S, r[3][2], <<>>, S[r[3][2]].v, ids, i + 1, ins) ELSE <<"dang">>
                   ELSE Place(S, ad, pa, r[3], ids, i + 1, ins)
         [] OTHER -> r

RECURSIVE Put(_, _, _, _)
Put(c, path, i, new) ==
    IF i > Len(path) THEN new
    ELSE IF path[i][1] = "k"
         THEN LET k == path[i][2] IN
              <<"o", IF k \in DOMAIN c[2] THEN [c[2] EXCEPT ![k] = Put(@, path, i + 1, new)]
                     ELSE [x \in DOMAIN c[2] \cup {k} |-> IF x = k THEN new ELSE c[2][x]]>>
         ELSE <<"a", [c[2] EXCEPT ![path[i][2] + 1] = Put(@, path, i + 1, new)]>>

Write(t, addr, path, new) == [t EXCEPT !.s[addr].v = Put(@, path, 1, new)]

(***************************************************************************)
(* Assignment: the new value of a place that holds a, given b.             *)
(***************************************************************************)
AssignVal(op, a, b) ==
    LET ta == a[1]
        tb == b[1]
        ar == SubSeq(op, 1, Len(op) - 1)       \* "+=" -> "+"
    IN
    IF ta = "ret" THEN IF op = "=" THEN V(b) ELSE Err
    ELSE IF tb = "t" \/ tb = "in" THEN Err
    ELSE IF op = "=" THEN
        IF ta = tb \/ {ta, tb} \in {{"n", "x"}, {"some", "none"}, {"ok", "err"}} THEN V(b) ELSE Err
    ELSE IF ta = "l" THEN
            CASE tb = "l" -> IF op = "+=" THEN V(<<"l", a[2] \o b[2]>>)
                             ELSE IF op = "-=" THEN V(<<"l", b[2] \o a[2]>>) ELSE Err
              [] tb \in {"n", "x", "b", "s"} ->
                    IF op = "+=" THEN V(<<"l", a[2] \o LinkItem(b)[2]>>) ELSE Err
              [] OTHER -> Err
    ELSE IF IsNum(a) /\ IsNum(b) THEN
            LET r == NumArith(ar, a, b) IN IF r[1] = "v" THEN V(<<r[2][1], r[2][2], b[3]>>) ELSE r
    ELSE IF ta = "s" /\ tb = "s" THEN IF op = "+=" THEN V(Str(a[2] \o b[2])) ELSE Err
    ELSE IF ta = "v" /\ tb \in {"v", "n"} THEN Arith(ar, a, b)
    ELSE IF ta = "v" /\ tb = "x" THEN Ood
    ELSE IF ta = "m" /\ tb = "m" THEN Arith(ar, a, b)
    ELSE Err

(***************************************************************************)
(* Loops that compute something.                                           *)
(***************************************************************************)
AccInit(kd) == CASE kd = "sum" -> N(0) [] kd = "prod" -> N(1) [] kd \in {"min", "max"} -> NaN
                 [] kd = "any" -> B(FALSE) [] kd = "all" -> B(TRUE) [] kd = "sift" -> <<"a", <<>> >>
                 [] kd = "link" -> <<"l", <<>> >> [] kd = "sumv" -> <<"v", Rep4(0)>>
                 [] kd = "prodv" -> <<"v", Rep4(1)>> [] OTHER -> Void

(* v: what the body gave (not resolved);  ind: the index as a value;
   inl: a loop over messages.  <<"v", acc>>, <<"stop", acc>>, Err, Ood *)
Accum(S, kd, acc, v, ind, inl) ==
    LET w == Res(S, v) IN
    IF kd = "for" THEN V(acc)
    ELSE IF v = Void THEN IF inl /\ kd \in {"sum", "prod"} THEN V(acc) ELSE Err
    ELSE CASE kd = "sum" -> IF IsNum(w) THEN NumArith("+", acc, w) ELSE Err
           [] kd = "prod" -> IF IsNum(w) THEN NumArith("*", acc, w) ELSE Err
           [] kd = "min" -> IF IsNum(w) THEN
                    IF IsNaN(acc) \/ (~IsNaN(w) /\ NumLess(w, acc)) THEN V(AddSec(w, ind)) ELSE V(acc) ELSE Err
           [] kd = "max" -> IF IsNum(w) THEN
                    IF IsNaN(acc) \/ (~IsNaN(w) /\ NumLess(acc, w)) THEN V(AddSec(w, ind)) ELSE V(acc) ELSE Err
           [] kd = "any" -> IF w[1] = "b" THEN IF w[2] THEN <<"stop", AddSec(w, ind)>> ELSE V(acc) ELSE Err
           [] kd = "all" -> IF w[1] = "b" THEN IF ~w[2] THEN <<"stop", AddSec(w, ind)>> ELSE V(acc) ELSE Err
           [] kd = "sift" -> V(<<"a", Append(acc[2], v)>>)
           [] kd = "sumv" -> IF w[1] = "v" THEN Arith("+", acc, w) ELSE Err
           [] kd = "prodv" -> IF w[1] = "v" THEN Arith("*", acc, w) ELSE Err

(***************************************************************************)
(* Calls.                                                                  *)
(***************************************************************************)
RECURSIVE FindCur(_, _, _)
FindCur(u, name, i) == IF i = 0 THEN 0 ELSE IF u[i][1] = name THEN u[i][2] ELSE FindCur(u, name, i - 1)
RECURSIVE BindCurs(_, _, _)
BindCurs(t, cus, i) ==
    IF i > Len(cus) THEN t
    ELSE LET a == FindCur(t.u, cus[i], Len(t.u)) IN
         BindCurs(Bind(t, cus[i], IF t.s[a].v[1] = "r" THEN t.s[a].v ELSE <<"r", a, t.s[a].g>>), cus, i + 1)
RECURSIVE BindArgs(_, _, _, _)
BindArgs(t, names, vs, i) ==
    IF i > Len(names) THEN t ELSE BindArgs(Bind(t, names[i], vs[i]), names, vs, i + 1)

(* fd: a record with args, rets, cus, body;  q: grabbed values *)
Enter(t, n, fd, vs, q) ==
    IF Len(vs) # Len(fd.args) THEN Er(t)
    ELSE IF \E i \in 1..Len(fd.cus) : FindCur(t.u, fd.cus[i], Len(t.u)) = 0 THEN Er(t)
    ELSE LET f == [Mark(t, Fr("fn", n)) EXCEPT !.b = t.b, !.x = <<fd.rets, t.q>>, !.vs = <<fd.body>>]
             t1 == [PushF(t, f) EXCEPT !.b = Len(t.e), !.q = q]
             t2 == BindCurs(t1, fd.cus, 1)
             t3 == IF fd.rets THEN Bind(t2, "return", <<"ret">>) ELSE t2
         IN Ev(BindArgs(t3, fd.args, vs, 1), fd.body)

CallFn(P, t, n, f, vs) ==
    LET fd == P.fns[f]
        t1 == Enter(t, n, fd, vs, <<>>)
    IN IF t1.c[1] = "ev" /\ fd.ins
       THEN \* everyone who listens gets the arguments and the current objects
            LET msg == [i \in 1..Len(vs) |-> Deep(t.s, vs[i])]
                       \o [i \in 1..Len(fd.cus) |-> Deep(t.s, t.s[FindCur(t.u, fd.cus[i], Len(t.u))].v)]
            IN [t1 EXCEPT !.c = <<"eff", "send", f, <<"a", msg>>, fd.body>>]
       ELSE t1

(* Where an error happened: the functions that were being called, from the
   outside, and the statement (or body of a function) that was running. *)
RECURSIVE Calls(_, _, _)
Calls(P, k, i) ==
    IF i > Len(k) THEN <<>>
    ELSE IF k[i].k # "fn" THEN Calls(P, k, i + 1)
    ELSE <<IF k[i].n = 0 THEN P.fns[CHOOSE f \in DOMAIN P.fns : P.fns[f].body = k[i].vs[1]].name
           ELSE IF P.nodes[k[i].n].k = "callc" THEN P.nodes[k[i].n].x
           ELSE P.fns[P.nodes[k[i].n].f].name>> \o Calls(P, k, i + 1)
RECURSIVE Stmt(_, _, _)
Stmt(P, k, i) ==
    IF i = 0 THEN 0
    ELSE IF k[i].k = "blk" THEN P.nodes[k[i].n].a[k[i].i]
    ELSE IF k[i].k = "fn" THEN k[i].vs[1]
    ELSE Stmt(P, k, i - 1)
(* What an error that leaves a function by `?` remembers: the function and
   the lines of the statement (where they are known). *)
Passed(P, k) ==
    LET cs == Calls(P, k, 1)
        nd == P.nodes[Stmt(P, k, Len(k))]
    IN <<cs[Len(cs)], IF "ln" \in DOMAIN nd THEN nd.ln ELSE <<>> >>

(* The value of `?` on v in thread t *)
TryVal(P, t, v) ==
    LET m == TryMsg(Res(t.s, v)) IN
    CASE m[1] = "pass" -> RtV(t, m[2])
      [] m[1] = "fail" -> LET a == Lookup(t, "return") IN
                          IF a # 0 /\ t.s[a].v[1] = "ret"
                          THEN [t EXCEPT !.c = <<"fl", "ret", "", <<"err", m[2][2], Append(m[2][3], Passed(P, t.k))>> >>]
                          ELSE Er(t)
      [] OTHER -> Er(t)

(* Some variable holds a reference to a variable that is gone *)
CellDang(S) == \E i \in 1..Len(S) : S[i].v[1] \in {"r", "a", "o"} /\ HasDang(Deep(S, S[i].v))
ValDang(S, v) == v[1] \in {"r", "a", "o"} /\ HasDang(Deep(S, v))

(***************************************************************************)
(* Evaluation.                                                             *)
(***************************************************************************)
LazyHit(P, t, nd, i, v) ==
    LET lz == CASE nd.k = "call" -> P.fns[nd.f].lz
                [] nd.k = "prim" -> LazyOf(nd.op)
                [] OTHER -> <<>>
    IN IF i > Len(lz) THEN <<>> ELSE LazyAny(Res(t.s, v), lz[i], 1)

FromRes(t, r) ==     \* the outcome of a library function
    CASE r[1] = "v" -> RtV(t, r[2])
      [] r[1] = "z" -> RtV(t, Void)
      [] r[1] = "e" -> Er(t)
      [] r[1] = "o" -> End(t, "ood")
      [] r[1] = "w" -> RtV([t EXCEPT !.s[r[2]].v = r[3]], r[4])
      [] r[1] = "p" -> IF HasDang(r[2]) THEN End(t, "dang")
                       ELSE [t EXCEPT !.c = <<"eff", "ev", r[2], r[3]>>]

(* the components of a vector; a swizzle stands for several *)
RECURSIVE VecParts(_, _, _)
VecParts(S, vs, i) ==
    IF i > Len(vs) THEN <<>>
    ELSE (IF vs[i][1] = "swz" THEN vs[i][2] ELSE <<Res(S, vs[i])>>) \o VecParts(S, vs, i + 1)
RowsToCols(vs) == [j \in 1..4 |-> [i \in 1..4 |-> vs[i][2][j]]]

Finish(P, t, n, vs, x) ==
    LET nd == P.nodes[n]
        S == t.s
    IN
    CASE nd.k = "prim" ->
            IF \E i \in 1..Len(vs) : Res(S, vs[i])[1] = "dang" THEN End(t, "dang")
            ELSE FromRes(t, Prim(S, nd.op, vs))
      [] nd.k = "arr" -> RtV(t, <<"a", vs>>)
      [] nd.k = "obj" -> RtV(t, <<"o", [k \in Range(nd.ks) |-> vs[CHOOSE i \in 1..Len(vs) : nd.ks[i] = k]]>>)
      [] nd.k = "fill" ->
            LET m == Res(S, vs[2]) IN
            CASE m[1] = "n" -> IF m[2] < 0 THEN End(t, "ood")
                               ELSE RtV(t, <<"a", [i \in 1..m[2] |-> Res(S, vs[1])]>>)
              [] m[1] = "x" -> End(t, "ood")
              [] OTHER -> Er(t)
      [] nd.k = "vec4" ->
            LET c == VecParts(S, vs, 1) IN
            IF Len(c) # 4 THEN End(t, "ood")
            ELSE IF \A i \in 1..4 : c[i][1] = "n" THEN
                IF \A i \in 1..4 : Abs(c[i][2]) <= 16000000
                THEN RtV(t, <<"v", [i \in 1..4 |-> c[i][2]]>>) ELSE End(t, "ood")
            ELSE IF \A i \in 1..4 : IsNum(c[i]) THEN End(t, "ood") ELSE Er(t)
      [] nd.k = "swz" ->
            LET w == Res(S, vs[1]) IN
            IF w[1] = "v" THEN RtV(t, <<"swz", [i \in 1..Len(nd.ix) |-> N(w[2][nd.ix[i]])]>>)
            ELSE IF w[1] = "dang" THEN End(t, "dang") ELSE Er(t)
      [] nd.k = "mat4" ->
            IF \A i \in 1..4 : Res(S, vs[i])[1] = "v"
            THEN RtV(t, <<"m", RowsToCols([i \in 1..4 |-> Res(S, vs[i])])>>) ELSE Er(t)
      [] nd.k = "decl" ->
            LET v == Res(S, vs[1])
                t1 == Bind(t, nd.x, v)
            IN IF v[1] = "dang" THEN End(t, "dang")
               ELSE RtV(IF nd.cur THEN [t1 EXCEPT !.u = Append(@, <<nd.x, Len(t1.s)>>)] ELSE t1, Void)
      [] nd.k = "asg" ->
            LET r == VarRef(t, nd.x)
                b == Res(S, vs[1])
                ids == FillIds(S, nd.ids, vs, 1, 2)
            IN IF r[1] = "dang" \/ b[1] = "dang" THEN End(t, "dang")
               ELSE IF ids = <<>> THEN
                    LET v == AssignVal(nd.op, S[r[2]].v, b) IN
                    CASE v[1] = "v" -> RtV([t EXCEPT !.s[r[2]].v = v[2]], Void)
                      [] v[1] = "o" -> End(t, "ood")
                      [] OTHER -> Er(t)
               ELSE LET p == Place(S, r[2], <<>>, S[r[2]].v, ids, 1, nd.op = ":=") IN
                    CASE p[1] = "loc" ->
                            IF nd.op = ":=" THEN RtV(Write(t, p[2], p[3], b), Void)
                            ELSE \* the slot of a reference becomes a copy of what it refers to
                                 LET v == AssignVal(nd.op, Res(S, p[4][1]), b) IN
                                 CASE v[1] = "v" -> RtV(Write(t, p[2], p[3], v[2]), Void)
                                   [] v[1] = "o" -> End(t, "ood")
                                   [] OTHER -> Er(IF p[4][1][1] = "r" THEN Write(t, p[2], p[3], Res(S, p[4][1])) ELSE t)
                      [] p[1] = "o" -> End(t, "ood")
                      [] p[1] = "dang" -> End(t, "dang")
                      [] OTHER -> Er(t)
      [] nd.k \in {"item", "itemc"} ->
            LET r == VarRef(t, nd.x)
                ids == FillIds(S, nd.ids, vs, 1, 1)
                v == IF r[1] = "dang" THEN <<"dang">>
                     ELSE Read(S, S[r[2]].v, ids, 1, nd.tries)
            IN CASE v[1] = "v" -> RtV(t, v[2])
                 [] v[1] = "fail" -> TryVal(P, t, v[2])
                 [] v[1] = "o" -> End(t, "ood")
                 [] v[1] = "dang" -> End(t, "dang")
                 [] OTHER -> Er(t)
      [] nd.k = "call" -> CallFn(P, t, n, nd.f, vs)
      [] nd.k = "callc" -> Enter(t, n, P.nodes[x[2]], vs, x[3])
      [] nd.k = "clos" ->
            RtV(t, <<"c", n, [k \in DOMAIN t.q \cup Range(nd.gs) |->
                        IF k \in Range(nd.gs) THEN Deep(S, vs[CHOOSE i \in 1..Len(vs) : nd.gs[i] = k])
                        ELSE t.q[k]]>>)
      [] nd.k = "ret" -> [t EXCEPT !.c = <<"fl", "ret", "", vs[1]>>]
      [] nd.k = "q" -> TryVal(P, t, vs[1])
      [] nd.k = "if" ->
            LET v == Res(S, vs[1]) IN
            IF v[1] # "b" THEN Er(t)
            ELSE IF v[2] THEN Ev(t, nd.th)
            ELSE IF nd.el = 0 THEN RtV(t, Void) ELSE Ev(t, nd.el)
      [] nd.k = "go" -> [t EXCEPT !.c = <<"eff", "spawn", nd.f, [i \in 1..Len(vs) |-> Deep(S, vs[i])]>>]
      [] nd.k = "join" -> [t EXCEPT !.c = <<"eff", "join", vs[1]>>]
      [] nd.k = "next" -> LET v == Res(S, vs[1]) IN
                          IF v[1] = "in" THEN [t EXCEPT !.c = <<"eff", "recv", v[2], nd.w>>] ELSE Er(t)

(* Evaluates the children of node n from number i on; simple ones at once. *)
RECURSIVE Collect(_, _, _, _, _, _)
Collect(P, t, n, i, vs, x) ==
    LET nd == P.nodes[n] IN
    IF i > Len(nd.a) \/ (nd.k = "vec4" /\ i > 1 /\ Len(VecParts(t.s, vs, 1)) >= 4) THEN Finish(P, t, n, vs, x)
    ELSE LET c == nd.a[i]
             cn == P.nodes[c]
         IN IF IsAtom(cn)
            THEN LET v == Atom(t, cn)
                     h == LazyHit(P, t, nd, i, v)
                 IN IF h # <<>> THEN RtV(t, h[1]) ELSE Collect(P, t, n, i + 1, Append(vs, v), x)
            ELSE Ev(PushF(t, [Fr("st", n) EXCEPT !.i = i, !.vs = vs, !.x = x]), c)

(* The next statement of a block *)
BlockAt(P, t, f, v) ==      \* f: the frame, not on the stack; v: value of the statement before
    LET nd == P.nodes[f.n] IN
    IF f.i > Len(nd.a)
    THEN LET t1 == Trunc(t, f) IN
         IF ValDang(t1.s, v) \/ CellDang(t1.s) THEN End(t1, "dang") ELSE RtV(t1, v)
    ELSE Ev(PushF(t, f), nd.a[f.i])

(* A loop over numbers: begins an iteration or ends.  f.x = <<end, acc, ind>> *)
LoopIter(P, t, f) ==        \* f not on the stack; t.s truncated to the counter
    LET nd == P.nodes[f.n]
        v == t.s[f.st + 1].v
    IN IF ~IsNum(v) THEN Er(t)
       ELSE IF ~IsNaN(v) /\ ~IsNaN(f.x[1]) /\ NumLess(v, f.x[1])
       THEN LET f1 == [f EXCEPT !.x[3] = <<v[1], v[2], NoSec>>, !.b = 1] IN
            IF nd.kd = "link" /\ Len(nd.a) = 0 THEN Ev(PushF(t, [f1 EXCEPT !.i = 4]), 0)
            ELSE Ev(PushF(t, [f1 EXCEPT !.i = 3]), IF nd.kd = "link" THEN nd.a[1] ELSE nd.body)
       ELSE RtV(Trunc(t, f), f.x[2])
LoopInc(P, t, f) ==
    LET t1 == [t EXCEPT !.s = SubSeq(@, 1, f.st + 1), !.e = SubSeq(@, 1, f.lc + 1)]
        v == t1.s[f.st + 1].v
    IN IF ~IsNum(v) THEN Er(t1)
       ELSE LoopIter(P, [t1 EXCEPT !.s[f.st + 1].v = IF v[1] = "n" THEN <<"n", v[2] + 1, v[3]>> ELSE v], f)

(* the body of a loop (numbers or messages) gave value v *)
NextIter(P, t, f) ==
    IF P.nodes[f.n].k = "forn" THEN LoopInc(P, t, f)
    ELSE [PushF(t, [f EXCEPT !.i = 5]) EXCEPT !.c = <<"eff", "recv", f.x[1], FALSE>>]
LoopGot(P, t, f, v) ==      \* f not on the stack
    LET nd == P.nodes[f.n] IN
    IF nd.kd = "link" THEN
        LET w == Res(t.s, v)
            it == IF v = Void THEN V(<<>>) ELSE LinkItem(w)
            f1 == [f EXCEPT !.x[2] = <<"l", @[2] \o it[2]>>, !.b = @ + 1]
        IN IF it[1] # "v" THEN Er(t)
           ELSE IF f1.b > Len(nd.a) THEN NextIter(P, t, f1)
           ELSE Ev(PushF(t, f1), nd.a[f1.b])
    ELSE LET r == Accum(t.s, nd.kd, f.x[2], v, f.x[3], nd.k = "forin") IN
         CASE r[1] = "v" -> NextIter(P, t, [f EXCEPT !.x[2] = r[2]])
           [] r[1] = "stop" -> RtV(Trunc(t, f), r[2])
           [] r[1] = "o" -> End(t, "ood")
           [] OTHER -> Er(t)

(* C-style loops *)
ForCond(P, t, f) ==
    LET nd == P.nodes[f.n] IN
    IF nd.a[2] = 0 THEN Ev(PushF(t, [f EXCEPT !.i = 3]), nd.a[4])
    ELSE Ev(PushF(t, [f EXCEPT !.i = 2]), nd.a[2])
ForStep(P, t, f) ==
    LET nd == P.nodes[f.n] IN
    IF nd.a[3] = 0 THEN ForCond(P, t, f)
    ELSE Ev(PushF(t, [f EXCEPT !.i = 4]), nd.a[3])

Eval(P, t, n) ==
    IF n = 0 THEN RtV(t, Void)
    ELSE LET nd == P.nodes[n] IN
    CASE IsAtom(nd) -> RtV(t, Atom(t, nd))
      [] nd.k = "block" -> BlockAt(P, t, Mark(t, Fr("blk", n)), Void)
      [] nd.k = "forn" ->
            LET f == Mark(t, Fr("loop", n)) IN
            IF nd.st = 0 THEN Ev(PushF(t, [f EXCEPT !.i = 2, !.x = <<N(0)>>]), nd.en)
            ELSE Ev(PushF(t, f), nd.st)
      [] nd.k = "forin" -> Ev(PushF(t, [Mark(t, Fr("loop", n)) EXCEPT !.i = 1]), nd.it)
      [] nd.k = "for" ->
            LET f == Mark(t, Fr("for", n)) IN
            IF nd.a[1] = 0 THEN ForCond(P, t, f) ELSE Ev(PushF(t, f), nd.a[1])
      [] nd.k = "brk" -> [t EXCEPT !.c = <<"fl", "brk", nd.lb, Void>>]
      [] nd.k = "cont" -> [t EXCEPT !.c = <<"fl", "cont", nd.lb, Void>>]
      [] nd.k = "retv" -> [t EXCEPT !.c = <<"fl", "ret", "", Void>>]
      [] nd.k = "try" -> Ev(PushF(t, [Mark(t, Fr("try", n)) EXCEPT !.b = t.b, !.x = t.q]), nd.a[1])
      [] nd.k = "link" ->
            IF nd.a = <<>> THEN RtV(t, <<"l", <<>> >>)
            ELSE Ev(PushF(t, [Mark(t, Fr("lnk", n)) EXCEPT !.x = <<"l", <<>> >>]), nd.a[1])
      [] nd.k = "in" -> [t EXCEPT !.c = <<"eff", "newin", nd.f>>]
      [] nd.k = "callc" ->
            LET r == VarRef(t, nd.x)
                v == IF r[1] = "dang" THEN <<"dang">>
                     ELSE IF nd.ids = <<>> THEN V(r)
                     ELSE Read(t.s, t.s[r[2]].v, nd.ids, 1, <<>>)
            IN CASE v[1] = "v" ->
                        LET c == Res(t.s, v[2]) IN
                        IF c[1] # "c" THEN Er(t)
                        ELSE IF Len(P.nodes[c[2]].args) # Len(nd.a) THEN Er(t)
                        ELSE Collect(P, t, n, 1, <<>>, c)
                 [] v[1] = "o" -> End(t, "ood")
                 [] OTHER -> Er(t)
      [] OTHER -> Collect(P, t, n, 1, <<>>, <<>>)

(* A value arrives at the top frame *)
Return(P, t0, v) ==
    IF t0.k = <<>> THEN [t0 EXCEPT !.c = <<"done", "ok", Deep(t0.s, v)>>]
    ELSE
    LET f == TopF(t0)
        t == PopF(t0)
        nd == IF f.n = 0 THEN [k |-> "main"] ELSE P.nodes[f.n]
    IN
    CASE f.k = "st" ->
            IF v = Void THEN Er(t)
            ELSE LET h == LazyHit(P, t, nd, f.i, v) IN
                 IF h # <<>> THEN RtV(t, h[1]) ELSE Collect(P, t, f.n, f.i + 1, Append(f.vs, v), f.x)
      [] f.k = "blk" -> BlockAt(P, t, [f EXCEPT !.i = @ + 1], v)
      [] f.k = "fn" ->
            LET a == Lookup(t, "return")
                w == IF f.x[1] /\ v = Void THEN t.s[a].v ELSE v
                t1 == [Trunc(t, f) EXCEPT !.b = f.b, !.q = f.x[2]]
            IN IF f.x[1] THEN IF w[1] = "ret" THEN Er(t1)
                              ELSE IF ValDang(t1.s, w) \/ CellDang(t1.s) THEN End(t1, "dang") ELSE RtV(t1, w)
               ELSE IF v = Void THEN RtV(t1, Void) ELSE Er(t1)
      [] f.k = "try" -> IF v = Void THEN Er(t) ELSE RtV(t, <<"ok", Deep(t.s, v)>>)
      [] f.k = "lnk" ->
            LET it == IF v = Void THEN V(<<>>) ELSE LinkItem(Res(t.s, v)) IN
            IF it[1] # "v" THEN Er(t)
            ELSE LET l == <<"l", f.x[2] \o it[2]>> IN
                 IF f.i = Len(nd.a) THEN RtV(Trunc(t, f), l)
                 ELSE Ev(PushF(t, [f EXCEPT !.i = @ + 1, !.x = l]), nd.a[f.i + 1])
      [] f.k = "for" ->
           (CASE f.i = 1 -> IF v # Void THEN Er(t) ELSE ForCond(P, t, f)
              [] f.i = 2 -> LET b == Res(t.s, v) IN
                            IF b[1] # "b" THEN Er(t)
                            ELSE IF b[2] THEN Ev(PushF(t, [f EXCEPT !.i = 3]), nd.a[4])
                            ELSE RtV(Trunc(t, f), Void)
              [] f.i = 3 -> ForStep(P, t, f)
              [] f.i = 4 -> IF v # Void THEN Er(t) ELSE ForCond(P, t, f))
      [] f.k = "loop" /\ nd.k = "forn" ->
           (CASE f.i = 1 -> LET w == Res(t.s, v) IN
                            IF ~IsNum(w) THEN Er(t)
                            ELSE Ev(PushF(t, [f EXCEPT !.i = 2, !.x = <<<<w[1], w[2], NoSec>> >>]), nd.en)
              [] f.i = 2 -> LET w == Res(t.s, v) IN
                            IF ~IsNum(w) THEN Er(t)
                            ELSE LoopIter(P, Bind(t, nd.x, f.x[1]), [f EXCEPT !.x = <<w, AccInit(nd.kd), Void>>])
              [] f.i = 3 -> LoopGot(P, t, f, v)
              [] f.i = 4 -> LoopInc(P, t, f))
      [] f.k = "loop" /\ nd.k = "forin" ->
            CASE f.i = 1 -> LET w == Res(t.s, v) IN
                            IF w[1] # "in" THEN Er(t)
                            ELSE [PushF(t, [f EXCEPT !.i = 2, !.x = <<w[2], AccInit(nd.kd), Void>>])
                                    EXCEPT !.c = <<"eff", "recv", w[2], FALSE>>]
              [] f.i \in {2, 5} ->
                    IF v = <<"none">> THEN RtV(Trunc(t, f), f.x[2])
                    ELSE LET t1 == Bind(Trunc(t, f), nd.x, v[2])
                             f1 == [f EXCEPT !.i = 3, !.x[3] = v[2], !.b = 1]
                         IN IF nd.kd = "link" /\ nd.a = <<>> THEN NextIter(P, t1, f1)
                            ELSE Ev(PushF(t1, f1), IF nd.kd = "link" THEN nd.a[1] ELSE nd.body)
              [] f.i = 3 -> LoopGot(P, t, f, v)

(* break, continue or return arrives at the top frame *)
Flow(P, t0, kind, lb, v) ==
    IF t0.k = <<>> THEN End(t0, "ok")
    ELSE
    LET f == TopF(t0)
        t == PopF(t0)
        nd == IF f.n = 0 THEN [k |-> "main"] ELSE P.nodes[f.n]
        strict == IF kind = "ret" THEN t ELSE Er(t)
        mine == lb = "" \/ (nd.k \in {"for", "forn", "forin"} /\ nd.lb = lb)
        partial == IF v[1] = "l" THEN v[2] ELSE <<>>
    IN
    CASE f.k = "blk" -> Trunc(t, f)
      [] f.k \in {"try", "lnk"} -> t
      [] f.k = "st" -> strict
      [] f.k = "fn" -> IF kind = "ret" THEN Return(P, t0, v) ELSE Er(t)
      [] f.k = "for" ->
            IF kind = "ret" THEN t ELSE IF f.i # 3 THEN Er(t)
            ELSE IF kind = "brk" THEN IF mine THEN RtV(Trunc(t, f), Void) ELSE Trunc(t, f)
            ELSE IF mine THEN ForStep(P, t, f) ELSE Trunc(t, f)
      [] f.k = "loop" ->
            IF kind = "ret" THEN t ELSE IF f.i # 3 THEN Er(t)
            ELSE LET packed == nd.kd = "link" /\ nd.pk
                     acc == IF packed THEN <<"l", f.x[2][2] \o partial>> ELSE f.x[2]
                     pass == [Trunc(t, f) EXCEPT !.c[4] = IF nd.kd = "link" THEN acc ELSE Void]
                 IN IF kind = "brk" THEN IF mine THEN RtV(Trunc(t, f), acc) ELSE pass
                    ELSE IF mine THEN NextIter(P, t, [f EXCEPT !.x[2] = acc]) ELSE pass

(* A run time error goes to the innermost `try` *)
RECURSIVE LastTry(_, _)
LastTry(k, i) == IF i = 0 THEN 0 ELSE IF k[i].k = "try" THEN i ELSE LastTry(k, i - 1)
Unwind(P, t) ==
    LET i == LastTry(t.k, Len(t.k)) IN
    IF i = 0 THEN [t EXCEPT !.c = <<"done", "err", Calls(P, t.k, 1), Stmt(P, t.k, Len(t.k))>>]
    ELSE LET f == t.k[i] IN
         RtV([Trunc(t, f) EXCEPT !.k = SubSeq(t.k, 1, i - 1), !.b = f.b, !.q = f.x], <<"err", AnyMsg, <<>> >>)

Step(P, t) ==
    CASE t.c[1] = "ev" -> Eval(P, t, t.c[2])
      [] t.c[1] = "rt" -> Return(P, t, t.c[2])
      [] t.c[1] = "fl" -> Flow(P, t, t.c[2], t.c[3], t.c[4])
      [] t.c[1] = "er" -> Unwind(P, t)

(* Runs the thread until it waits for an effect or ends, at most n steps.  *)
RECURSIVE Run(_, _, _)
Run(P, t, n) == IF n = 0 \/ t.c[1] \in {"eff", "done"} THEN t ELSE Run(P, Step(P, t), n - 1)

Fresh == [c |-> <<"ev", 0>>, k |-> <<>>, s |-> <<>>, e |-> <<>>, u |-> <<>>, b |-> 0, g |-> 1, q |-> <<>>]
StartMain(P) == CallFn(P, Fresh, 0, P.main, <<>>)
=============================================================================
