------------------------------ MODULE DyonExpr ------------------------------
(* How the text of an expression groups, and in which order its operands    *)
(* are evaluated.                                                           *)
(* An expression is a sequence of tokens:                                   *)
(*   <<"v", value, observed>>  an operand; observed: evaluating it is seen  *)
(*   <<"p", tokens>>           parentheses                                  *)
(*   <<"n", tokens>>           |..|, the length of a vector                 *)
(*   <<"o", operator>>         "neg" and "not" stand before their operand   *)
(* A comparison takes one primary on the left and all there is on the       *)
(* right; sums group to the left, products within them too; a minus sign    *)
(* takes the rest of its product; a power has two primaries; `!` takes a    *)
(* primary.                                                                 *)
EXTENDS DyonPrims
AddOps == {"+", "-", "or"}
MulOps == {"*", "/", "%", "and", "dot", "cross"}
CmpOps == {"<", "<=", ">", ">=", "==", "!="}
Is(ts, i, ops) == i <= Len(ts) /\ ts[i][1] = "o" /\ ts[i][2] \in ops

RECURSIVE ExprAt(_, _), AddMore(_, _, _), MulMore(_, _, _), Prim1(_, _), Factor(_, _), Product(_, _)
(* each gives <<tree, index behind it>> *)
Prim1(ts, i) ==
    LET t == ts[i] IN
    CASE t[1] = "v" -> << <<"val", Lit(t[2]), t[3]>>, i + 1>>
      [] t[1] = "p" -> <<ExprAt(t[2], 1)[1], i + 1>>
      [] t[1] = "n" -> << <<"un", "norm", ExprAt(t[2], 1)[1]>>, i + 1>>
      [] OTHER -> LET r == Prim1(ts, i + 1) IN << <<"un", "not", r[1]>>, r[2]>>
Factor(ts, i) ==
    IF Is(ts, i, {"neg"}) THEN LET r == Product(ts, i + 1) IN << <<"un", "neg", r[1]>>, r[2]>>
    ELSE LET a == Prim1(ts, i) IN
         IF Is(ts, a[2], {"^"}) THEN LET b == Prim1(ts, a[2] + 1) IN << <<"bin", "^", a[1], b[1]>>, b[2]>>
         ELSE a
MulMore(ts, left, i) ==
    IF Is(ts, i, MulOps) THEN LET r == Factor(ts, i + 1) IN MulMore(ts, <<"bin", ts[i][2], left, r[1]>>, r[2])
    ELSE <<left, i>>
Product(ts, i) == LET a == Factor(ts, i) IN MulMore(ts, a[1], a[2])
AddMore(ts, left, i) ==
    IF Is(ts, i, AddOps) THEN LET r == Product(ts, i + 1) IN AddMore(ts, <<"bin", ts[i][2], left, r[1]>>, r[2])
    ELSE <<left, i>>
ExprAt(ts, i) ==
    IF ~Is(ts, i, {"neg"}) /\ Is(ts, Prim1(ts, i)[2], CmpOps)
    THEN LET a == Prim1(ts, i) b == ExprAt(ts, a[2] + 1) IN << <<"bin", ts[a[2]][2], a[1], b[1]>>, b[2]>>
    ELSE LET a == Product(ts, i) IN AddMore(ts, a[1], a[2])
Tree(ts) == ExprAt(ts, 1)[1]
Whole(ts) == ExprAt(ts, 1)[2] = Len(ts) + 1

(* what is seen, and the result *)
RECURSIVE Eval(_)
Eval(t) ==
    CASE t[1] = "val" -> [ev |-> IF t[3] THEN <<t[2]>> ELSE <<>>, r |-> V(t[2])]
      [] t[1] = "un" ->
           LET a == Eval(t[3]) IN
           IF a.r[1] # "v" THEN a
           ELSE IF t[2] = "norm" THEN
                LET x == a.r[2] IN
                [ev |-> a.ev, r |-> IF x[1] # "v" THEN Err
                                    ELSE IF ~Small4(x[2], 100) THEN Ood
                                    ELSE LET d == Dot4(x[2], x[2]) s == ISqrt(d, 0) IN IF s * s = d THEN V(N(s)) ELSE Ood]
           ELSE [ev |-> a.ev, r |-> UnOp(<<>>, t[2], a.r[2])]
      [] OTHER ->
           LET a == Eval(t[3]) IN
           IF a.r[1] # "v" THEN a
           ELSE IF t[2] \in {"and", "or"} /\ a.r[2][1] = "b" /\ a.r[2][2] = (t[2] = "or") THEN a
           ELSE LET b == Eval(t[4]) IN
                IF b.r[1] # "v" THEN [ev |-> a.ev \o b.ev, r |-> b.r]
                ELSE [ev |-> a.ev \o b.ev,
                      r |-> IF t[2] \in {"and", "or"} THEN Prim(<<>>, t[2], <<a.r[2], b.r[2]>>)
                            ELSE BinOp(<<>>, t[2], a.r[2], b.r[2])]
=============================================================================
