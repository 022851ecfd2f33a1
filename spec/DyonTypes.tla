----------------------------- MODULE DyonTypes ------------------------------
(***************************************************************************)
(* The rules of types: which declared type goes with which, what type an   *)
(* expression has, how the extra types of a function refine its result,    *)
(* and which programs are accepted.  A type is a sequence:                 *)
(*   <<"any">> <<"void">> <<"unr">> <<"bool">> <<"f64">> <<"str">> ...     *)
(*   <<"arr", T>> <<"opt", T>> <<"res", T>> <<"thr", T>> <<"in", T>>       *)
(*   <<"sec", T>> <<"ad", name, T>> <<"clos", Ts, R>>                      *)
(* and <<"none">> where the checker knows nothing.                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

ANY == <<"any">>   VOID == <<"void">>   UNR == <<"unr">>   NONE == <<"none">>
BOOL == <<"bool">> F64 == <<"f64">>     STR == <<"str">>
SEC(t) == <<"sec", t>>
Boxes == {"arr", "opt", "res", "thr", "in"}

(* A is what is asked for, B what is given *)
RECURSIVE Goes(_, _)
Goes(A, B) ==
    IF B[1] = "ad" /\ A[1] # "ad" THEN Goes(B, A)
    ELSE IF B[1] = "sec" THEN (IF A[1] = "sec" THEN Goes(A[2], B[2]) ELSE Goes(A, B[2]))
    ELSE IF A = UNR \/ B = UNR THEN TRUE
    ELSE IF A = ANY THEN B # VOID
    ELSE IF A = VOID THEN B = VOID
    ELSE IF A[1] = "ad" THEN (IF B[1] = "ad" THEN A[2] = B[2] /\ Goes(A[3], B[3])
                              ELSE B # VOID /\ Goes(A[3], B))
    ELSE IF B = ANY THEN TRUE
    ELSE IF A[1] \in Boxes THEN B[1] = A[1] /\ Goes(A[2], B[2])
    ELSE IF A[1] = "clos" THEN /\ B[1] = "clos"
                               /\ Len(A[2]) = Len(B[2])
                               /\ \A i \in 1..Len(A[2]) : Goes(A[2][i], B[2][i])
                               /\ Goes(A[3], B[3])
    ELSE A = B

(* the given type may turn out to be something that does not fit *)
RECURSIVE Ambig(_, _)
Ambig(A, B) ==
    IF A[1] = "ad" /\ B[1] = "ad" /\ A[2] = B[2] THEN Ambig(A[3], B[3])
    ELSE IF A[1] = "ad" THEN Goes(A[3], B)
    ELSE IF A[1] \in Boxes /\ B[1] = A[1] THEN Ambig(A[2], B[2])
    ELSE B = ANY /\ (A[1] \in Boxes \/ A[1] \in {"bool", "f64", "str", "vec4", "mat4", "link", "sec"})

(* type variables: vs is a function from variables to a name or "" *)
RECURSIVE Bind(_, _, _)
Bind(A, B, vs) ==
    IF DOMAIN vs = {} \/ A[1] # "ad" THEN [ok |-> TRUE, ty |-> A, vs |-> vs]
    ELSE IF B[1] = "ad" THEN
        IF A[2] \in DOMAIN vs THEN
            IF vs[A[2]] # "" THEN
                LET r == Bind(A[3], B[3], vs) IN
                IF ~r.ok THEN r
                ELSE IF vs[A[2]] # B[2] /\ Goes(r.ty, B[3]) /\ ~Ambig(r.ty, B[3]) THEN [r EXCEPT !.ok = FALSE]
                ELSE [r EXCEPT !.ty = <<"ad", vs[A[2]], @>>]
            ELSE LET r == Bind(A[3], B[3], [vs EXCEPT ![A[2]] = B[2]]) IN [r EXCEPT !.ty = <<"ad", B[2], @>>]
        ELSE LET r == Bind(A[3], B[3], vs) IN [r EXCEPT !.ty = <<"ad", A[2], @>>]
    ELSE LET r == Bind(A[3], B, vs) IN
         IF r.ok /\ A[2] \in DOMAIN vs /\ vs[A[2]] # "" /\ Goes(r.ty, B) /\ ~Ambig(r.ty, B) THEN [r EXCEPT !.ok = FALSE]
         ELSE r
RECURSIVE Subst(_, _)
Subst(t, vs) == IF t[1] # "ad" THEN t
                ELSE IF t[2] \in DOMAIN vs
                     THEN (IF vs[t[2]] = "" THEN Subst(t[3], vs) ELSE <<"ad", vs[t[2]], Subst(t[3], vs)>>)
                     ELSE <<"ad", t[2], Subst(t[3], vs)>>

(* Extra types of a function, in order, against the types of the arguments:  *)
(* "found" with a type, "amb" (not known yet), "err" (conflict), "no".       *)
RECURSIVE MatchArgs(_, _, _, _)
MatchArgs(ext, ts, i, vs) ==
    IF i > Len(ts) THEN [r |-> "found", ty |-> Subst(ext.ret, vs)]
    ELSE IF ts[i] = NONE THEN [r |-> "amb", ty |-> NONE]
    ELSE LET b == Bind(ext.args[i], ts[i], vs) IN
         IF ~b.ok THEN [r |-> "err", ty |-> NONE]
         ELSE IF ~Goes(b.ty, ts[i]) THEN [r |-> "no", ty |-> NONE]
         ELSE IF Ambig(b.ty, ts[i]) THEN [r |-> "amb", ty |-> NONE]
         ELSE MatchArgs(ext, ts, i + 1, b.vs)
RECURSIVE Refine(_, _, _)
Refine(exts, ts, i) ==
    IF i > Len(exts) THEN [r |-> "no", ty |-> NONE]
    ELSE LET m == MatchArgs(exts[i], ts, 1, [v \in {exts[i].vars[k] : k \in 1..Len(exts[i].vars)} |-> ""]) IN
         IF m.r = "no" THEN Refine(exts, ts, i + 1) ELSE m

(* the type of a call of a function with signature sig (args, ret, ext) *)
CallTy(sig, ts) ==
    IF Len(ts) # Len(sig.args) \/ \E i \in 1..Len(ts) : ts[i] # NONE /\ ~Goes(sig.args[i], ts[i]) THEN [ok |-> FALSE, ty |-> NONE]
    ELSE IF sig.ext = <<>> THEN [ok |-> TRUE, ty |-> sig.ret]
    ELSE LET m == Refine(sig.ext, ts, 1) IN
         CASE m.r = "found" -> [ok |-> TRUE, ty |-> m.ty]
           [] m.r = "amb" -> [ok |-> TRUE, ty |-> sig.ret]
           [] OTHER -> [ok |-> FALSE, ty |-> NONE]

(* ------------------------------------------------------------------------ *)
(* the library *)
Sig(a, r) == [args |-> a, ret |-> r, ext |-> <<>>]
X(a, r) == [vars |-> <<>>, args |-> a, ret |-> r]
AllX(a, r) == [vars |-> <<"T">>, args |-> [i \in 1..Len(a) |-> <<"ad", "T", a[i]>>], ret |-> <<"ad", "T", r>>]
Ext(a, r, x) == [args |-> a, ret |-> r, ext |-> x]
ARR(t) == <<"arr", t>>  OPT(t) == <<"opt", t>>  RES(t) == <<"res", t>>
VEC4 == <<"vec4">>  MAT4 == <<"mat4">>  LINK == <<"link">>  OBJ == <<"obj">>
CmpNum == <<X(<<SEC(F64), F64>>, SEC(BOOL)), X(<<F64, F64>>, BOOL), X(<<STR, STR>>, BOOL)>>
CmpAll == CmpNum \o <<X(<<SEC(BOOL), BOOL>>, SEC(BOOL)), X(<<BOOL, BOOL>>, BOOL), X(<<VEC4, VEC4>>, BOOL), X(<<OBJ, OBJ>>, BOOL),
                      X(<<ARR(ANY), ARR(ANY)>>, BOOL), X(<<OPT(ANY), OPT(ANY)>>, BOOL)>>
Logic == <<X(<<SEC(BOOL), BOOL>>, SEC(BOOL)), X(<<BOOL, BOOL>>, BOOL)>>
VecNum == <<X(<<F64, F64>>, F64), X(<<VEC4, VEC4>>, VEC4), X(<<VEC4, F64>>, VEC4), X(<<F64, VEC4>>, VEC4)>>
AddSub == <<AllX(<<F64, F64>>, F64), AllX(<<VEC4, VEC4>>, VEC4), AllX(<<VEC4, F64>>, VEC4), AllX(<<F64, VEC4>>, VEC4),
            AllX(<<MAT4, MAT4>>, MAT4), AllX(<<F64, MAT4>>, MAT4), AllX(<<MAT4, F64>>, MAT4), AllX(<<BOOL, BOOL>>, BOOL)>>
AA == <<ANY, ANY>>
Lib(f) ==
    CASE f \in {"<", "<=", ">", ">="} -> Ext(AA, BOOL, CmpNum)
      [] f \in {"==", "!="} -> Ext(AA, BOOL, CmpAll)
      [] f \in {"&&", "||"} -> Ext(<<BOOL, BOOL>>, ANY, Logic)
      [] f = "+" -> Ext(AA, ANY, AddSub \o <<AllX(<<STR, STR>>, STR), AllX(<<LINK, LINK>>, LINK)>>)
      [] f = "-" -> Ext(AA, ANY, AddSub)
      [] f = "*" -> Ext(AA, ANY, VecNum \o <<X(<<MAT4, MAT4>>, MAT4), X(<<F64, MAT4>>, MAT4), X(<<MAT4, F64>>, MAT4),
                                             X(<<MAT4, VEC4>>, VEC4), AllX(<<BOOL, BOOL>>, BOOL)>>)
      [] f \in {"/", "%"} -> Ext(AA, ANY, VecNum)
      [] f = "^" -> Ext(AA, ANY, VecNum \o <<AllX(<<BOOL, BOOL>>, BOOL)>>)
      [] f = "!" -> Ext(<<ANY>>, ANY, <<X(<<SEC(BOOL)>>, SEC(BOOL)), X(<<BOOL>>, BOOL)>>)
      [] f = "neg" -> Ext(<<ANY>>, ANY, <<X(<<F64>>, F64), X(<<VEC4>>, VEC4), X(<<MAT4>>, MAT4)>>)
      [] f = "*." -> Ext(AA, F64, <<X(<<VEC4, VEC4>>, F64), X(<<VEC4, F64>>, F64), X(<<F64, VEC4>>, F64)>>)
      [] f \in {"x", "y", "z", "w"} -> Sig(<<VEC4>>, F64)
      [] f = "det" -> Sig(<<MAT4>>, F64)
      [] f = "inv" -> Sig(<<MAT4>>, MAT4)
      [] f = "s" -> Sig(<<VEC4, F64>>, F64)
      [] f \in {"rv", "cv"} -> Sig(<<MAT4, F64>>, VEC4)
      [] f \in {"rx", "cy"} -> Sig(<<MAT4>>, VEC4)
      [] f \in {"sqrt", "sin", "abs", "floor", "round"} -> Sig(<<F64>>, F64)
      [] f = "atan2" -> Sig(<<F64, F64>>, F64)
      [] f = "is_nan" -> Sig(<<F64>>, BOOL)
      [] f = "clone" -> Sig(<<ANY>>, ANY)
      [] f \in {"str", "typeof"} -> Sig(<<ANY>>, STR)
      [] f \in {"trim", "trim_left", "trim_right"} -> Sig(<<STR>>, STR)
      [] f = "parse_number" -> Sig(<<STR>>, OPT(F64))
      [] f = "println" -> Sig(<<ANY>>, VOID)
      [] f = "some" -> Sig(<<ANY>>, OPT(ANY))
      [] f = "none" -> Sig(<<>>, OPT(ANY))
      [] f \in {"ok", "err"} -> Sig(<<ANY>>, RES(ANY))
      [] f \in {"is_ok", "is_err"} -> Sig(<<RES(ANY)>>, BOOL)
      [] f = "unwrap" -> Sig(<<ANY>>, ANY)
      [] f \in {"minf", "maxf"} -> Sig(<<ARR(F64)>>, F64)
      [] f = "why" -> Sig(<<SEC(BOOL)>>, ARR(ANY))
      [] f = "where" -> Sig(<<SEC(F64)>>, ARR(ANY))
      [] f = "explain_why" -> Sig(<<BOOL, ANY>>, SEC(BOOL))
      [] f = "explain_where" -> Sig(<<F64, ANY>>, SEC(F64))
      [] f = "len" -> Sig(<<ARR(ANY)>>, F64)
      [] f = "keys" -> Sig(<<OBJ>>, ARR(STR))
      [] f = "has" -> Sig(<<OBJ, STR>>, BOOL)
      [] f = "chars" -> Sig(<<STR>>, ARR(STR))
      [] f = "head" -> Sig(<<LINK>>, ANY)
      [] f = "tip" -> Sig(<<LINK>>, OPT(ANY))
      [] f \in {"tail", "neck"} -> Sig(<<LINK>>, LINK)
      [] f = "is_empty" -> Sig(<<LINK>>, BOOL)
      [] f = "unwrap_or" -> Sig(<<ANY, ANY>>, ANY)
      [] f = "unwrap_err" -> Sig(<<ANY>>, ANY)
      [] f = "next" -> Sig(<<<<"in", ANY>>>>, OPT(ANY))
      [] f = "push" -> Sig(<<ARR(ANY), ANY>>, VOID)
      [] f = "insert" -> Sig(<<ARR(ANY), F64, ANY>>, VOID)
      [] f = "pop" -> Sig(<<ARR(ANY)>>, ANY)
      [] f = "remove" -> Sig(<<ARR(ANY), F64>>, ANY)
      [] f \in {"reverse", "clear"} -> Sig(<<ARR(ANY)>>, VOID)
      [] f = "swap" -> Sig(<<ARR(ANY), F64, F64>>, VOID)
      [] f = "join" -> Sig(<<<<"thr", ANY>>>>, RES(ANY))

(* ------------------------------------------------------------------------ *)
Inner(t, q) == IF q /\ t[1] \in {"opt", "res"} THEN t[2] ELSE t

RECURSIVE ClosRet(_)
ClosRet(t) == CASE t[1] = "clos" -> t[3] [] t[1] = "ad" -> ClosRet(t[3]) [] t = ANY -> ANY [] t = NONE -> NONE [] OTHER -> <<"bad">>

Fn(P, f) == CHOOSE i \in 1..Len(P.fns) : P.fns[i].name = f
Var(env, x) == LET i == CHOOSE i \in 1..Len(env) : env[i].x = x /\ \A k \in i + 1..Len(env) : env[k].x # x IN env[i].ty

R(ok, t) == [ok |-> ok, ty |-> t]
Bad == R(FALSE, NONE)
IsCond(r) == r.ok /\ (r.ty = NONE \/ Goes(BOOL, r.ty))

(* an expression: its type, with the ? that may follow it *)
RECURSIVE Ty(_, _, _), Ret(_, _), Blk(_, _, _), Stm(_, _, _), InferBody(_, _)
Args(P, es, env) == [i \in 1..Len(es) |-> Ty(P, es[i], env)]
Ty0(P, e, env) ==
    LET as == Args(P, e.a, env)
        ok == \A i \in 1..Len(as) : as[i].ok
        ts == [i \in 1..Len(as) |-> as[i].ty]
    IN
    IF ~ok THEN Bad
    ELSE CASE e.k = "lit" -> R(TRUE, e.ty)
           [] e.k = "var" -> R(TRUE, Var(env, e.x))
           [] e.k = "item" -> R(TRUE, NONE)
           [] e.k = "vec" -> R(\A i \in 1..Len(ts) : ts[i] = NONE \/ Goes(ts[i], F64), VEC4)
           [] e.k = "op" -> CallTy(Lib(e.f), ts)
           [] e.k = "call" -> LET fd == P.fns[Fn(P, e.f)] IN
                              CallTy([args |-> fd.tys, ret |-> Ret(P, Fn(P, e.f)), ext |-> fd.ext], ts)
           [] e.k = "callc" -> LET t == ClosRet(Var(env, e.x)) IN IF t = <<"bad">> THEN Bad ELSE R(TRUE, t)
           [] e.k = "clos" -> LET b == Ty(P, e.body, env \o [i \in 1..Len(e.args) |-> [x |-> e.args[i], ty |-> e.tys[i]]]) IN
                              IF ~b.ok THEN Bad ELSE R(TRUE, IF b.ty = NONE THEN NONE ELSE <<"clos", e.tys, b.ty>>)
           [] e.k = "if" -> LET t == Blk(P, e.th, env)
                                f == Blk(P, e.el, env)
                            IN IF ~t.ok \/ ~f.ok \/ ~IsCond(as[1]) THEN Bad
                               ELSE R(t.ty = NONE \/ f.ty = NONE \/ Goes(f.ty, t.ty), t.ty)
           [] e.k = "go" -> LET fd == P.fns[Fn(P, e.f)]
                                c == CallTy([args |-> fd.tys, ret |-> Ret(P, Fn(P, e.f)), ext |-> fd.ext], ts)
                            IN R(c.ok /\ Ret(P, Fn(P, e.f)) # VOID, <<"thr", c.ty>>)
           [] e.k = "in" -> R(TRUE, <<"in", ARR(ANY)>>)
           [] e.k = "sift" -> LET b == Blk(P, e.body, Append(env, [x |-> "i", ty |-> F64])) IN
                              IF ~b.ok THEN Bad ELSE R(TRUE, IF b.ty = NONE THEN ARR(ANY) ELSE ARR(b.ty))
Ty(P, e, env) == LET r == Ty0(P, e, env) IN IF ~r.ok THEN r ELSE R(TRUE, Inner(r.ty, e.q))

(* += and -= *)
RECURSIVE AddTo(_, _)
AddTo(L, B) == CASE L = NONE \/ B = NONE -> TRUE
                 [] L[1] = "ad" /\ B[1] = "ad" -> L[2] = B[2] /\ Goes(L[3], B[3]) /\ AddTo(L[3], B[3])
                 [] L[1] = "ad" \/ B[1] = "ad" -> FALSE
                 [] OTHER -> L # VOID /\ B # VOID

(* a statement: gives its type and the variables after it; what a return  *)
(* gives has to fit the function, which is in env as "return"              *)
St(ok, t, env) == [ok |-> ok, ty |-> t, env |-> env]
Stm(P, s, env) ==
    CASE s.k = "decl" -> LET r == Ty(P, s.a[1], env) IN St(r.ok, VOID, Append(env, [x |-> s.x, ty |-> r.ty]))
      [] s.k = "asg" -> LET r == Ty(P, s.a[1], env) IN
                        St(r.ok /\ (s.op \in {"+=", "-="} => AddTo(Var(env, s.x), r.ty)), VOID, env)
      [] s.k = "retv" -> St(Var(env, "return") = VOID, UNR, env)
      [] s.k = "ret" -> LET r == Ty(P, s.a[1], env) IN St(r.ok /\ (r.ty = NONE \/ Goes(Var(env, "return"), r.ty)), UNR, env)
      [] OTHER -> LET r == Ty(P, s, env) IN St(r.ok, r.ty, env)

(* the statements of a block: only the last one gives a result *)
Blk(P, ss, env) ==
    IF ss = <<>> THEN R(TRUE, VOID)
    ELSE LET r == Stm(P, ss[1], env) IN
         IF ~r.ok THEN Bad
         ELSE IF Len(ss) = 1 THEN R(TRUE, r.ty)
         ELSE IF r.ty \notin {VOID, NONE, UNR} THEN Bad
         ELSE Blk(P, Tail(ss), r.env)

ArgEnv(fd) == <<[x |-> "return", ty |-> fd.ret]>> \o [i \in 1..Len(fd.args) |-> [x |-> fd.args[i], ty |-> fd.tys[i]]]
InferBody(P, f) == Ty(P, P.fns[f].body[1], ArgEnv(P.fns[f]))
(* the type that a function is known to return *)
Ret(P, f) == IF P.fns[f].ex THEN InferBody(P, f).ty ELSE P.fns[f].ret

(* is there a return somewhere *)
RECURSIVE HasRet(_)
HasRet(s) == \/ s.k \in {"ret", "retv"}
             \/ s.k = "if" /\ (\/ \E i \in 1..Len(s.th) : HasRet(s.th[i])
                              \/ \E i \in 1..Len(s.el) : HasRet(s.el[i]))

ExtOK(fd, x) == /\ fd.ret # VOID
                /\ Len(x.args) = Len(fd.tys)
                /\ \A i \in 1..Len(x.args) : Goes(fd.tys[i], x.args[i])
                /\ Goes(fd.ret, x.ret)
FnOK(P, f) ==
    LET fd == P.fns[f] IN
    /\ \A i \in 1..Len(fd.ext) : ExtOK(fd, fd.ext[i])
    /\ IF fd.ex THEN InferBody(P, f).ok /\ InferBody(P, f).ty # NONE
       ELSE LET b == Blk(P, fd.body, ArgEnv(fd)) IN
            /\ b.ok
            /\ fd.ret = VOID => b.ty \in {VOID, NONE, UNR}
            /\ fd.ret # VOID => \E i \in 1..Len(fd.body) : HasRet(fd.body[i])
AcceptT(P) == \A f \in 1..Len(P.fns) : FnOK(P, f)
=============================================================================
