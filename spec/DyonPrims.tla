----------------------------- MODULE DyonPrims ------------------------------
(***************************************************************************)
(* The functions of the standard library.  Prim(S, op, vs) gives the       *)
(* result of calling op with the argument values vs in store S:            *)
(*   <<"v", value>>            a value                                     *)
(*   <<"z">>                   nothing (a void function)                   *)
(*   <<"w", addr, new, ret>>   the variable at addr becomes new            *)
(*   <<"p", value, ret>>       value is observed by the host               *)
(*   <<"e">>  run time error   <<"o">>  outside of the domain              *)
(***************************************************************************)
EXTENDS DyonValues

Range(f) == {f[i] : i \in DOMAIN f}
BinArith == {"+", "-", "*", "/", "%", "^"}
BinCmp == {"<", "<=", ">", ">="}

RECURSIVE ISqrt(_, _)
ISqrt(n, i) == IF i * i >= n THEN i ELSE ISqrt(n, i + 1)

TypeName(v) ==
    CASE v[1] \in {"n", "x"} -> "number" [] v[1] = "b" -> "boolean" [] v[1] = "s" -> "string"
      [] v[1] = "a" -> "array" [] v[1] = "o" -> "object" [] v[1] = "l" -> "link"
      [] v[1] = "v" -> "vec4" [] v[1] = "m" -> "mat4" [] v[1] \in {"none", "some"} -> "option"
      [] v[1] \in {"ok", "err"} -> "result" [] v[1] = "c" -> "closure" [] v[1] = "t" -> "thread"
      [] v[1] = "in" -> "in" [] OTHER -> "?"

RECURSIVE TrimL(_)
TrimL(s) == IF Len(s) > 0 /\ Char(s, 1) = " " THEN TrimL(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF Len(s) > 0 /\ Char(s, Len(s)) = " " THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal == [c \in Digits |-> (CHOOSE i \in 1..10 : Char("0123456789", i) = c) - 1]
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Char(s, i) \in Digits
RECURSIVE DecVal(_, _, _)
DecVal(s, i, acc) == IF i > Len(s) THEN acc ELSE DecVal(s, i + 1, 10 * acc + DigitVal[Char(s, i)])
ParseNum(s0) ==
    LET s == TrimR(TrimL(s0))
        neg == Len(s) > 0 /\ Char(s, 1) = "-"
        d == IF neg THEN SubSeq(s, 2, Len(s)) ELSE s
    IN IF AllDigits(d) /\ Len(d) <= 7 THEN
            IF neg /\ DecVal(d, 1, 0) = 0 THEN Ood
            ELSE V(<<"some", N(IF neg THEN -DecVal(d, 1, 0) ELSE DecVal(d, 1, 0))>>)
       ELSE IF s = "" \/ (Char(d, 1) \notin Digits /\ Char(d, 1) \notin {".", "i", "I", "n", "N", "+"})
            THEN V(<<"none">>)
       ELSE Ood

(* `str` of a deep value; inside of arrays and the like text is quoted.
   Zero is left out, because the sign of zero is not part of the model. *)
AlnumSet == {Char("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_", i) : i \in 1..63}
RECURSIVE TextOf(_, _), TextList(_, _, _, _)
TextOf(v, quoted) ==
    CASE v[1] = "n" -> IF v[2] = 0 THEN Ood ELSE V(ToString(v[2]))
      [] v[1] = "b" -> V(IF v[2] THEN "true" ELSE "false")
      [] v[1] = "s" -> V(IF quoted THEN "\"" \o v[2] \o "\"" ELSE v[2])
      [] v[1] = "x" -> V(CASE v[2] = "nan" -> "NaN" [] v[2] = "inf" -> "inf" [] OTHER -> "-inf")
      [] v[1] = "a" -> LET r == TextList(v[2], 1, ", ", TRUE) IN
                       IF r[1] = "v" THEN V("[" \o r[2] \o "]") ELSE r
      [] v[1] = "l" -> IF quoted THEN LET r == TextList(v[2], 1, " ", TRUE) IN
                            IF r[1] = "v" THEN V("link { " \o r[2] \o (IF v[2] = <<>> THEN "}" ELSE " }")) ELSE r
                       ELSE TextList(v[2], 1, "", FALSE)
      [] v[1] = "none" -> V("none()")
      [] v[1] \in {"some", "ok"} -> LET r == TextOf(v[2], TRUE) IN
                       IF r[1] = "v" THEN V(v[1] \o "(" \o r[2] \o ")") ELSE r
      [] v[1] = "err" -> IF v[2][1] = "any" THEN Ood ELSE LET r == TextOf(v[2], TRUE) IN
                       IF r[1] = "v" THEN V("err(" \o r[2] \o ")") ELSE r
      [] v[1] = "o" ->
            IF Cardinality(DOMAIN v[2]) = 0 THEN V("{}")
            ELSE IF Cardinality(DOMAIN v[2]) > 1 THEN Ood
            ELSE LET k == CHOOSE k \in DOMAIN v[2] : TRUE
                     r == TextOf(v[2][k], TRUE)
                     plain == \A i \in 1..Len(k) : Char(k, i) \in AlnumSet
                 IN IF r[1] = "v" THEN V("{" \o (IF plain THEN k ELSE "\"" \o k \o "\"") \o ": " \o r[2] \o "}") ELSE r
      [] OTHER -> Ood
TextList(q, i, sep, quoted) ==
    IF i > Len(q) THEN V("")
    ELSE LET r == TextOf(q[i], quoted)
             t == TextList(q, i + 1, sep, quoted)
         IN IF r[1] # "v" THEN r ELSE IF t[1] # "v" THEN t
            ELSE V(r[2] \o (IF i < Len(q) THEN sep ELSE "") \o t[2])

RevSeq(q) == [i \in 1..Len(q) |-> q[Len(q) - i + 1]]
InsertSeq(q, i, v) == SubSeq(q, 1, i) \o <<v>> \o SubSeq(q, i + 1, Len(q))   \* i counts from 0
RemoveSeq(q, i) == SubSeq(q, 1, i) \o SubSeq(q, i + 2, Len(q))

(* What a list of values puts into a link *)
LinkItem(v) == CASE v[1] \in {"n", "x", "b"} -> <<"v", << <<v[1], v[2], NoSec>> >> >>
                 [] v[1] = "s" -> <<"v", <<v>> >>
                 [] v[1] = "l" -> <<"v", v[2]>>
                 [] OTHER -> Err

RECURSIVE Extreme(_, _, _, _)
Extreme(S, q, i, acc) ==     \* acc: <<"min"|"max", best>>
    IF i > Len(q) THEN acc[2]
    ELSE LET v == Res(S, q[i])
             better == IsNum(v) /\ (IsNaN(acc[2]) \/ (~IsNaN(v) /\
                          IF acc[1] = "min" THEN NumLess(v, acc[2]) ELSE NumLess(acc[2], v)))
         IN Extreme(S, q, i + 1, IF better THEN <<acc[1], v>> ELSE acc)

BinOp(S, op, x, y) ==
    LET a == Res(S, x)
        b == Res(S, y)
    IN
    CASE op \in BinArith -> Arith(op, a, b)
      [] op \in BinCmp -> Compare(op, a, b)
      [] op = "==" -> EqOp(Deep(S, a), Deep(S, b))
      [] op = "!=" -> LET r == EqOp(Deep(S, a), Deep(S, b)) IN
                      IF r[1] = "v" THEN V(<<"b", ~r[2][2], r[2][3]>>) ELSE r
      [] op = "dot" ->
            CASE a[1] = "v" /\ b[1] = "v" ->
                    IF Small4(a[2], 1000) /\ Small4(b[2], 1000) THEN V(N(Dot4(a[2], b[2]))) ELSE Ood
              [] a[1] = "v" /\ b[1] = "n" ->
                    IF Small4(a[2], 1000) /\ Abs(b[2]) <= 1000 THEN V(N(Dot4(a[2], Rep4(b[2])))) ELSE Ood
              [] a[1] = "n" /\ b[1] = "v" ->
                    IF Small4(b[2], 1000) /\ Abs(a[2]) <= 1000 THEN V(N(Dot4(Rep4(a[2]), b[2]))) ELSE Ood
              [] {a[1], b[1]} = {"v", "x"} -> Ood
              [] OTHER -> Err
      [] op = "cross" ->
            IF a[1] = "v" /\ b[1] = "v" THEN
                IF Small4(a[2], 1000) /\ Small4(b[2], 1000) THEN
                    LET f == a[2] g == b[2] IN
                    V(<<"v", <<f[2] * g[3] - f[3] * g[2], f[3] * g[1] - f[1] * g[3],
                               f[1] * g[2] - f[2] * g[1], 0>> >>)
                ELSE Ood
            ELSE Err

BinOps == BinArith \cup BinCmp \cup {"==", "!=", "dot", "cross"}

UnOps == {"neg", "not", "len", "clone", "some", "ok", "err", "is_ok", "is_err", "unwrap",
          "unwrap_err", "why", "where", "str", "typeof", "trim", "trim_left", "trim_right",
          "parse_number", "chars", "keys", "min", "max", "abs", "sqrt", "floor", "ceil", "round", "floor2", "ceil2", "round2", "floor4", "ceil4", "round4", "norm", "is_nan", "head", "tip",
          "tail", "neck", "is_empty", "x", "y", "z", "w", "mov", "scale", "det",
          "rx", "ry", "rz", "rw", "cx", "cy", "cz", "cw", "dynv"}

Row(m, i) == [j \in 1..4 |-> m[j][i]]

UnOp(S, op, x) ==
    LET a == Res(S, x)
        t == a[1]
    IN
    CASE op = "neg" ->
            CASE t = "n" -> V(<<"n", -a[2], a[3]>>)
              [] t = "v" -> V(<<"v", [i \in 1..4 |-> -a[2][i]]>>)
              [] t = "m" -> V(<<"m", [i \in 1..4 |-> [j \in 1..4 |-> -a[2][i][j]]]>>)
              [] t = "x" -> IF IsNaN(a) THEN V(a) ELSE V(<<"x", IF a[2] = "inf" THEN "ninf" ELSE "inf", a[3]>>)
              [] OTHER -> Err
      [] op = "not" -> IF t = "b" THEN V(<<"b", ~a[2], a[3]>>) ELSE Err
      [] op = "len" -> IF t = "a" THEN V(N(Len(a[2]))) ELSE Err
      [] op \in {"clone", "dynv"} -> V(Deep(S, a))
      [] op = "some" -> V(<<"some", Deep(S, a)>>)
      [] op = "ok" -> V(<<"ok", Deep(S, a)>>)
      [] op = "err" -> V(<<"err", Deep(S, a), <<>> >>)
      [] op = "is_ok" -> IF t \in {"ok", "err"} THEN V(B(t = "ok")) ELSE Err
      [] op = "is_err" -> IF t \in {"ok", "err"} THEN V(B(t = "err")) ELSE Err
      [] op = "unwrap" -> IF t \in {"some", "ok"} THEN V(a[2]) ELSE Err
      [] op = "unwrap_err" -> IF t = "err" THEN V(a[2]) ELSE Err
      [] op = "why" -> IF t = "b" /\ a[2] /\ a[3] # NoSec THEN V(<<"a", RevSeq(a[3][1])>>) ELSE Err
      [] op = "where" -> IF IsNum(a) /\ ~IsNaN(a) /\ a[3] # NoSec THEN V(<<"a", RevSeq(a[3][1])>>) ELSE Err
      [] op = "str" -> LET r == TextOf(Deep(S, a), FALSE) IN IF r[1] = "v" THEN V(Str(r[2])) ELSE r
      [] op = "typeof" -> V(Str(TypeName(a)))
      [] op = "trim" -> IF t = "s" THEN V(Str(TrimR(TrimL(a[2])))) ELSE Err
      [] op = "trim_left" -> IF t = "s" THEN V(Str(TrimL(a[2]))) ELSE Err
      [] op = "trim_right" -> IF t = "s" THEN V(Str(TrimR(a[2]))) ELSE Err
      [] op = "parse_number" -> IF t = "s" THEN ParseNum(a[2]) ELSE Err
      [] op = "chars" -> IF t = "s" THEN V(<<"a", [i \in 1..Len(a[2]) |-> Str(Char(a[2], i))]>>) ELSE Err
      [] op = "keys" -> IF t = "o" THEN
                            IF Cardinality(DOMAIN a[2]) > 1 THEN Ood
                            ELSE V(<<"a", IF DOMAIN a[2] = {} THEN <<>>
                                          ELSE <<Str(CHOOSE k \in DOMAIN a[2] : TRUE)>> >>)
                        ELSE Err
      [] op \in {"min", "max"} ->
            IF t = "a" THEN LET r == Extreme(S, a[2], 1, <<op, NaN>>) IN V(<<r[1], r[2], NoSec>>) ELSE Err
      [] op = "abs" -> CASE t = "n" -> V(N(Abs(a[2]))) [] t = "x" -> Ood [] OTHER -> Err
      [] op \in {"floor2", "ceil2", "round2", "floor4", "ceil4", "round4"} ->    \* of a half, of a quarter
            LET d == IF op \in {"floor2", "ceil2", "round2"} THEN 2 ELSE 4
                up(i) == -((-i) \div d)
            IN CASE t = "n" -> V(N(CASE op \in {"floor2", "floor4"} -> a[2] \div d
                                     [] op \in {"ceil2", "ceil4"} -> up(a[2])
                                     [] a[2] >= 0 -> (a[2] + d \div 2) \div d       \* halves away from 0
                                     [] OTHER -> up(a[2] - d \div 2)))
                 [] t = "x" -> Ood [] t \in {"v", "m"} -> Ood [] OTHER -> Err
      [] op = "norm" -> IF t # "v" THEN Err ELSE IF ~Small4(a[2], 100) THEN Ood
                        ELSE LET d == Dot4(a[2], a[2]) r == ISqrt(d, 0) IN IF r * r = d THEN V(N(r)) ELSE Ood
      [] op \in {"floor", "ceil", "round"} -> CASE t = "n" -> V(N(a[2])) [] t = "x" -> Ood [] OTHER -> Err
      [] op = "sqrt" ->
            CASE t = "n" -> IF a[2] >= 0 /\ a[2] <= 10000 /\ ISqrt(a[2], 0) * ISqrt(a[2], 0) = a[2]
                            THEN V(N(ISqrt(a[2], 0))) ELSE IF a[2] < 0 THEN V(NaN) ELSE Ood
              [] t = "x" -> Ood [] OTHER -> Err
      [] op = "is_nan" -> IF IsNum(a) THEN V(B(IsNaN(a))) ELSE Err
      [] op = "head" -> IF t = "l" THEN V(IF a[2] = <<>> THEN <<"none">> ELSE <<"some", a[2][1]>>) ELSE Err
      [] op = "tip" -> IF t = "l" THEN V(IF a[2] = <<>> THEN <<"none">> ELSE <<"some", a[2][Len(a[2])]>>) ELSE Err
      [] op = "tail" -> IF t = "l" THEN V(<<"l", IF a[2] = <<>> THEN <<>> ELSE SubSeq(a[2], 2, Len(a[2]))>>) ELSE Err
      [] op = "neck" -> IF t = "l" THEN V(<<"l", IF a[2] = <<>> THEN <<>> ELSE SubSeq(a[2], 1, Len(a[2]) - 1)>>) ELSE Err
      [] op = "is_empty" -> IF t = "l" THEN V(B(a[2] = <<>>)) ELSE Err
      [] op \in {"x", "y", "z", "w"} ->
            IF t = "v" THEN V(N(a[2][CASE op = "x" -> 1 [] op = "y" -> 2 [] op = "z" -> 3 [] OTHER -> 4])) ELSE Err
      [] op = "mov" -> IF t = "v" THEN V(<<"m", <<<<1,0,0,0>>, <<0,1,0,0>>, <<0,0,1,0>>,
                                            <<a[2][1], a[2][2], a[2][3], 1>> >> >>) ELSE Err
      [] op = "scale" -> IF t = "v" THEN V(<<"m", <<<<a[2][1],0,0,0>>, <<0,a[2][2],0,0>>,
                                            <<0,0,a[2][3],0>>, <<0,0,0,1>> >> >>) ELSE Err
      [] op \in {"cx", "cy", "cz", "cw"} ->
            IF t = "m" THEN V(<<"v", a[2][CASE op = "cx" -> 1 [] op = "cy" -> 2 [] op = "cz" -> 3 [] OTHER -> 4]>>) ELSE Err
      [] op \in {"rx", "ry", "rz", "rw"} ->
            IF t = "m" THEN V(<<"v", Row(a[2], CASE op = "rx" -> 1 [] op = "ry" -> 2 [] op = "rz" -> 3 [] OTHER -> 4)>>) ELSE Err
      [] OTHER -> Ood

(* Functions that change the array in the variable that argument 1 refers to *)
ArrOps == {"push", "push_ref", "insert", "insert_ref", "pop", "remove", "reverse", "clear", "swap"}
ArrOp(S, op, vs) ==
    LET r == vs[1]
        isarr == r[1] = "r" /\ Live(S, r) /\ S[r[2]].v[1] = "a"
        q == S[r[2]].v[2]
        W(new, ret) == <<"w", r[2], <<"a", new>>, ret>>
        idx(i) == Res(S, vs[i])
        \* <<"v", n>> an index, counted from 0;  Err: not a number
        Ix(i) == CASE idx(i)[1] = "n" -> IF idx(i)[2] < 0 THEN Ood ELSE V(idx(i)[2])
                   [] idx(i)[1] = "x" -> Ood
                   [] OTHER -> Err
    IN
    IF ~isarr THEN Err
    ELSE CASE op = "push" -> W(Append(q, Deep(S, vs[2])), Void)
           [] op = "push_ref" -> W(Append(q, vs[2]), Void)
           [] op \in {"insert", "insert_ref"} ->
                LET i == Ix(2) v == IF op = "insert" THEN Deep(S, vs[3]) ELSE vs[3] IN
                IF i[1] # "v" THEN i ELSE IF i[2] > Len(q) THEN Err ELSE W(InsertSeq(q, i[2], v), Void)
           [] op = "pop" -> IF q = <<>> THEN Err ELSE W(SubSeq(q, 1, Len(q) - 1), q[Len(q)])
           [] op = "remove" ->
                LET i == Ix(2) IN
                IF i[1] # "v" THEN i ELSE IF i[2] >= Len(q) THEN Err ELSE W(RemoveSeq(q, i[2]), q[i[2] + 1])
           [] op = "reverse" -> W(RevSeq(q), Void)
           [] op = "clear" -> W(<<>>, Void)
           [] op = "swap" ->
                LET i == Ix(2) k == Ix(3) IN
                IF i[1] # "v" THEN i ELSE IF k[1] # "v" THEN k
                ELSE IF i[2] >= Len(q) \/ k[2] >= Len(q) THEN Err
                ELSE W([q EXCEPT ![i[2] + 1] = q[k[2] + 1], ![k[2] + 1] = q[i[2] + 1]], Void)

(* Functions that do not look into their arguments *)
Blind == {"probe", "pr", "clone", "dynv", "some", "ok", "err", "is_ok", "is_err", "unwrap", "unwrap_err", "unwrap_or",
          "len", "explain_why", "explain_where", "why", "where"} \cup ArrOps

Prim(S, op, vs) ==
    CASE op \notin Blind /\ (\E i \in 1..Len(vs) : HasAny(Deep(S, vs[i]))) -> Ood
      [] op \in BinOps -> BinOp(S, op, vs[1], vs[2])
      [] op = "probe" -> <<"p", Deep(S, vs[1]), Void>>
      [] op = "pr" -> LET d == Deep(S, vs[1]) IN <<"p", d, d>>
      [] op \in UnOps -> UnOp(S, op, vs[1])
      [] op \in ArrOps -> ArrOp(S, op, vs)
      [] op = "none" -> V(<<"none">>)
      [] op = "law" -> V(B(TRUE))      \* the text of an equation between functions of the library
      [] op = "mvp" -> LET m == Res(S, vs[1]) v == Res(S, vs[2]) p == Res(S, vs[3]) IN
                       IF m[1] # "m" \/ v[1] # "m" \/ p[1] # "m" THEN Err
                       ELSE LET pv == Arith("*", p, v) IN IF pv[1] = "v" THEN Arith("*", pv[2], m) ELSE pv
      [] op = "ortho" -> LET q == [i \in 1..4 |-> Res(S, vs[i])] IN
                       IF \E i \in 1..4 : q[i][1] # "v" THEN Err
                       ELSE IF \E i \in 1..4 : ~Small4(q[i][2], 1000) \/ q[i][2][4] # 0 THEN Ood
                       ELSE V(<<"m", << <<q[2][2][1], q[3][2][1], q[4][2][1], 0>>, <<q[2][2][2], q[3][2][2], q[4][2][2], 0>>, <<q[2][2][3], q[3][2][3], q[4][2][3], 0>>,
                                        <<-Dot4(q[1][2], q[2][2]), -Dot4(q[1][2], q[3][2]), -Dot4(q[1][2], q[4][2]), 1>> >> >>)
      [] op = "boom" -> Err
      [] op = "has" -> LET o == Res(S, vs[1]) k == Res(S, vs[2]) IN
                       IF o[1] = "o" /\ k[1] = "s" THEN V(B(k[2] \in DOMAIN o[2])) ELSE Err
      [] op = "explain_why" -> LET v == Res(S, vs[1]) IN
                       IF v[1] = "b" THEN V(AddSec(v, Deep(S, vs[2]))) ELSE Err
      [] op = "explain_where" -> LET v == Res(S, vs[1]) IN
                       IF IsNum(v) THEN V(AddSec(v, Deep(S, vs[2]))) ELSE Err
      [] op = "s" -> LET v == Res(S, vs[1]) i == Res(S, vs[2]) IN
                     IF v[1] # "v" \/ i[1] # "n" THEN Ood ELSE IF i[2] < 0 THEN Ood
                     ELSE IF i[2] > 3 THEN Err ELSE V(N(v[2][i[2] + 1]))
      [] op = "cv" -> LET v == Res(S, vs[1]) i == Res(S, vs[2]) IN
                     IF v[1] # "m" \/ i[1] # "n" THEN Ood ELSE IF i[2] < 0 THEN Ood
                     ELSE IF i[2] > 3 THEN Err ELSE V(<<"v", v[2][i[2] + 1]>>)
      [] op = "rv" -> LET v == Res(S, vs[1]) i == Res(S, vs[2]) IN
                     IF v[1] # "m" \/ i[1] # "n" THEN Ood ELSE IF i[2] < 0 THEN Ood
                     ELSE IF i[2] > 3 THEN Err ELSE V(<<"v", Row(v[2], i[2] + 1)>>)
      \* lazy operators whose left argument did not decide the result
      [] op = "and" -> LET a == Res(S, vs[1]) b == Res(S, vs[2]) IN
                       IF a[1] = "b" /\ b[1] = "b" THEN V(<<"b", a[2] /\ b[2], a[3]>>) ELSE Err
      [] op = "or" -> LET a == Res(S, vs[1]) b == Res(S, vs[2]) IN
                       IF a[1] = "b" /\ b[1] = "b" THEN V(<<"b", a[2] \/ b[2], a[3]>>) ELSE Err
      [] op = "unwrap_or" -> LET a == Res(S, vs[1]) IN
                       CASE a[1] \in {"some", "ok"} -> V(a[2])
                         [] a[1] \in {"none", "err"} -> V(Deep(S, vs[2]))
                         [] OTHER -> Err
      [] OTHER -> Ood

(* The lazy invariants of the library: list of <<argument, what>> *)
LazyOf(op) == CASE op = "and" -> << << <<"b", FALSE>> >> >>
                [] op = "or" -> << << <<"b", TRUE>> >> >>
                [] op = "unwrap_or" -> << << <<"uok">>, <<"usome">> >> >>
                [] OTHER -> <<>>
(* <<>> or <<v>>: does value a meet the lazy invariant lz? *)
LazyTest(a, lz) ==
    CASE lz[1] = "uok" -> IF a[1] = "ok" THEN <<a[2]>> ELSE <<>>
      [] lz[1] = "uerr" -> IF a[1] = "err" THEN <<a[2]>> ELSE <<>>
      [] lz[1] = "usome" -> IF a[1] = "some" THEN <<a[2]>> ELSE <<>>
      [] OTHER -> IF LazyEq(a, lz) THEN <<a>> ELSE <<>>
RECURSIVE LazyAny(_, _, _)
LazyAny(a, lzs, i) ==
    IF i > Len(lzs) THEN <<>>
    ELSE LET r == LazyTest(a, lzs[i]) IN IF r # <<>> THEN r ELSE LazyAny(a, lzs, i + 1)
=============================================================================
