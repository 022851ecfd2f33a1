----------------------------- MODULE DyonValues -----------------------------
(***************************************************************************)
(* Values of the Dyon language and the pure operations on them.            *)
(*                                                                         *)
(* A value is a tuple whose first element is a tag:                        *)
(*   <<"n", i, sec>>   number (integers only; everything else is outside   *)
(*                     of the domain of the specification)                 *)
(*   <<"x", w, sec>>   the numbers "nan", "inf", "ninf"                    *)
(*   <<"b", b, sec>>   boolean                                             *)
(*   <<"s", str>>      text                                                *)
(*   <<"a", seq>>      array          <<"o", fcn>>   object                *)
(*   <<"l", seq>>      link           <<"v", xyzw>>  4D vector             *)
(*   <<"m", cols>>     4D matrix      <<"c", node, grabs>> closure         *)
(*   <<"none">>  <<"some", v>>  <<"ok", v>>  <<"err", v, passed>>        *)
(*   <<"t", tid>>      thread handle  <<"in", chan>> receiver              *)
(*   <<"r", addr, gen>> reference to a variable of the store               *)
(*   <<"ret">>         a return slot without a value                       *)
(*   <<"void">>        no value        <<"dang">>  a dead variable         *)
(* sec is <<>> (no secret) or <<seq>> (a secret: why it is so).            *)
(* A store is a sequence of cells [v, g]; g is unique per cell over the    *)
(* whole run, so that a reference to a variable that is gone is noticed.   *)
(*                                                                         *)
(* Operations return <<"v", value>>, <<"e">> (run time error) or <<"o">>   *)
(* (outside of the domain of the specification: not judged).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

MaxNum == 20000000
Void  == <<"void">>
NoSec == <<>>
N(i)  == <<"n", i, NoSec>>
B(b)  == <<"b", b, NoSec>>
Str(s) == <<"s", s>>
NaN   == <<"x", "nan", NoSec>>
Err   == <<"e">>
Ood   == <<"o">>
V(v)  == <<"v", v>>

Tag(v) == v[1]
IsNum(v) == v[1] \in {"n", "x"}
Abs(i) == IF i < 0 THEN -i ELSE i
Max2(a, b) == IF a > b THEN a ELSE b

(* Follows a reference (references to references do not exist). *)
Live(S, r) == r[2] <= Len(S) /\ S[r[2]].g = r[3]
Res(S, v) == IF v[1] # "r" THEN v
             ELSE IF Live(S, v) THEN S[v[2]].v ELSE <<"dang">>

(* A value that does not depend on any variable. *)
RECURSIVE Deep(_, _)
Deep(S, v) ==
    CASE v[1] = "r" -> LET w == Res(S, v) IN IF w[1] = "r" THEN <<"dang">> ELSE Deep(S, w)
      [] v[1] = "a" -> <<"a", [i \in 1..Len(v[2]) |-> Deep(S, v[2][i])]>>
      [] v[1] = "o" -> <<"o", [k \in DOMAIN v[2] |-> Deep(S, v[2][k])]>>
      [] v[1] \in {"some", "ok"} -> <<v[1], Deep(S, v[2])>>
      [] v[1] = "err" -> <<v[1], Deep(S, v[2]), v[3]>>
      [] OTHER -> v

(* Does a deep value mention a variable that is gone? *)
RECURSIVE HasDang(_)
HasDang(v) ==
    CASE v[1] = "dang" -> TRUE
      [] v[1] = "a" -> \E i \in 1..Len(v[2]) : HasDang(v[2][i])
      [] v[1] = "o" -> \E k \in DOMAIN v[2] : HasDang(v[2][k])
      [] v[1] \in {"some", "ok", "err"} -> HasDang(v[2])
      [] OTHER -> FALSE

(* Does a deep value contain text made by the interpreter? *)
RECURSIVE HasAny(_)
HasAny(v) ==
    CASE v[1] = "any" -> TRUE
      [] v[1] = "a" -> \E i \in 1..Len(v[2]) : HasAny(v[2][i])
      [] v[1] = "o" -> \E k \in DOMAIN v[2] : HasAny(v[2][k])
      [] v[1] \in {"some", "ok", "err"} -> HasAny(v[2])
      [] OTHER -> FALSE

(* Compares a deep value with a recorded snapshot of the implementation. *)
RECURSIVE Match(_, _)
Match(v, e) ==
    IF v[1] = "any" THEN TRUE     \* a message made by the interpreter
    ELSE IF v[1] # e[1] THEN FALSE
    ELSE CASE v[1] = "s" -> v[2] = e[2]
           [] v[1] \in {"n", "x", "b"} ->
                /\ v[2] = e[2]
                /\ IF v[3] = <<>> THEN Len(e) = 2
                   ELSE /\ Len(e) = 3
                        /\ Len(e[3]) = Len(v[3][1])
                        /\ \A i \in 1..Len(e[3]) : Match(v[3][1][i], e[3][i])
           [] v[1] \in {"a", "l"} ->
                /\ Len(v[2]) = Len(e[2])
                /\ \A i \in 1..Len(v[2]) : Match(v[2][i], e[2][i])
           [] v[1] = "o" ->
                /\ Cardinality(DOMAIN v[2]) = Len(e[2])
                /\ \A i \in 1..Len(e[2]) : /\ e[2][i][1] \in DOMAIN v[2]
                                           /\ Match(v[2][e[2][i][1]], e[2][i][2])
           [] v[1] \in {"some", "ok"} -> Match(v[2], e[2])
           [] v[1] = "err" -> /\ Match(v[2], e[2])
                              /\ Len(v[3]) = Len(e[3])
                              /\ \A i \in 1..Len(v[3]) :
                                   /\ v[3][i][1] = e[3][i][1]
                                   /\ v[3][i][2] = <<>> \/ \E l \in 1..Len(v[3][i][2]) : v[3][i][2][l][1] <= e[3][i][2] /\ e[3][i][2] <= v[3][i][2][l][2]
           [] v[1] = "v" -> v[2] = e[2]
           [] v[1] = "m" -> v[2] = e[2]
           [] OTHER -> TRUE

(* The literals of a program come from JSON and lack secrets. *)
RECURSIVE Lit(_)
Lit(j) == CASE j[1] \in {"n", "b", "x"} -> <<j[1], j[2], NoSec>>
            [] OTHER -> j

(***************************************************************************)
(* Text.                                                                   *)
(***************************************************************************)
Alphabet == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Char(s, i) == SubSeq(s, i, i)
CharSet == {Char(Alphabet, i) : i \in 1..Len(Alphabet)}
Rank == [c \in CharSet |-> CHOOSE i \in 1..Len(Alphabet) : Char(Alphabet, i) = c]
RECURSIVE StrLess(_, _, _)
StrLess(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF Char(a, i) = Char(b, i) THEN StrLess(a, b, i + 1)
    ELSE Rank[Char(a, i)] < Rank[Char(b, i)]

(***************************************************************************)
(* Numbers.  The secret of the left operand is kept.                       *)
(***************************************************************************)
TruncDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
MulOk(a, b) == a = 0 \/ Abs(b) <= MaxNum \div Abs(a)
RECURSIVE IPow(_, _, _)
IPow(a, b, acc) ==    \* <<ok, value>>
    IF b = 0 THEN <<TRUE, acc>>
    ELSE IF MulOk(acc, a) THEN IPow(a, b - 1, acc * a) ELSE <<FALSE, 0>>

(* <<TRUE, i>>, or <<FALSE, 0>> when the result is not an integer in range *)
IArith(op, a, b) ==
    CASE op = "+" -> <<Abs(a + b) <= MaxNum, a + b>>
      [] op = "-" -> <<Abs(a - b) <= MaxNum, a - b>>
      [] op = "*" -> IF MulOk(a, b) THEN <<TRUE, a * b>> ELSE <<FALSE, 0>>
      [] op = "/" -> IF b # 0 /\ Abs(a) % Abs(b) = 0 THEN <<TRUE, TruncDiv(a, b)>> ELSE <<FALSE, 0>>
      [] op = "%" -> IF b # 0 THEN <<TRUE, a - b * TruncDiv(a, b)>> ELSE <<FALSE, 0>>
      [] op = "^" -> IF b >= 0 /\ b <= 24 THEN IPow(a, b, 1) ELSE <<FALSE, 0>>

NumArith(op, a, b) ==
    IF a[1] = "n" /\ b[1] = "n" THEN
        IF b[2] = 0 /\ (op = "%" \/ (op = "/" /\ a[2] = 0)) THEN V(<<"x", "nan", a[3]>>)
        ELSE LET r == IArith(op, a[2], b[2]) IN
             IF r[1] THEN V(<<"n", r[2], a[3]>>) ELSE Ood
    ELSE IF (a[1] = "x" /\ a[2] = "nan") \/ (b[1] = "x" /\ b[2] = "nan")
         THEN IF op = "^" THEN Ood ELSE V(<<"x", "nan", a[3]>>)
    ELSE Ood

(* Component-wise arithmetic on vectors; F is a pair of functions 1..4 -> Int *)
VecOk(op, f, g) == \A i \in 1..4 : IArith(op, f[i], g[i])[1]
VecArith(op, f, g) ==
    IF VecOk(op, f, g) THEN V(<<"v", [i \in 1..4 |-> IArith(op, f[i], g[i])[2]]>>) ELSE Ood
Rep4(i) == <<i, i, i, i>>
MatArith(op, f, g) ==
    IF \A i \in 1..4 : VecOk(op, f[i], g[i])
    THEN V(<<"m", [i \in 1..4 |-> [j \in 1..4 |-> IArith(op, f[i][j], g[i][j])[2]]]>>) ELSE Ood

Small4(f, lim) == \A i \in 1..4 : Abs(f[i]) <= lim
SmallM(m, lim) == \A i \in 1..4 : Small4(m[i], lim)
(* matrices are sequences of columns *)
MatVec(m, v) == [i \in 1..4 |-> m[1][i] * v[1] + m[2][i] * v[2] + m[3][i] * v[3] + m[4][i] * v[4]]
Dot4(f, g) == f[1] * g[1] + f[2] * g[2] + f[3] * g[3] + f[4] * g[4]

Arith(op, a, b) ==
    LET ta == a[1]
        tb == b[1]
    IN
    CASE IsNum(a) /\ IsNum(b) -> NumArith(op, a, b)
      [] ta = "b" /\ tb = "b" ->
            CASE op = "+" -> V(<<"b", a[2] \/ b[2], a[3]>>)
              [] op = "*" -> V(<<"b", a[2] /\ b[2], a[3]>>)
              [] op = "-" -> V(<<"b", a[2] /\ ~b[2], a[3]>>)
              [] op = "^" -> V(<<"b", a[2] # b[2], a[3]>>)
              [] OTHER -> Err
      [] ta = "s" /\ tb = "s" -> IF op = "+" THEN V(Str(a[2] \o b[2])) ELSE Err
      [] ta = "l" /\ tb = "l" -> IF op = "+" THEN V(<<"l", a[2] \o b[2]>>) ELSE Err
      [] ta = "v" /\ tb = "v" -> VecArith(op, a[2], b[2])
      [] ta = "v" /\ tb = "n" -> VecArith(op, a[2], Rep4(b[2]))
      [] ta = "n" /\ tb = "v" -> VecArith(op, Rep4(a[2]), b[2])
      [] ta = "m" /\ tb = "m" ->
            CASE op \in {"+", "-"} -> MatArith(op, a[2], b[2])
              [] op = "*" -> IF SmallM(a[2], 1000) /\ SmallM(b[2], 1000)
                             THEN V(<<"m", [j \in 1..4 |-> MatVec(a[2], b[2][j])]>>) ELSE Ood
              [] OTHER -> Err
      [] ta = "m" /\ tb = "n" ->
            IF op \in {"+", "-", "*"} THEN MatArith(op, a[2], Rep4(Rep4(b[2]))) ELSE Err
      [] ta = "n" /\ tb = "m" ->
            IF op \in {"+", "-", "*"} THEN MatArith(op, Rep4(Rep4(a[2])), b[2]) ELSE Err
      [] ta = "m" /\ tb = "v" ->
            IF op = "*" THEN IF SmallM(a[2], 1000) /\ Small4(b[2], 1000)
                             THEN V(<<"v", MatVec(a[2], b[2])>>) ELSE Ood
            ELSE Err
      [] {ta, tb} \cap {"x"} # {} /\ {ta, tb} \cap {"v", "m"} # {} -> Ood
      [] OTHER -> Err

(***************************************************************************)
(* Comparison.                                                             *)
(***************************************************************************)
NumLess(a, b) ==   \* both numbers, neither NaN
    LET r(v) == IF v[1] = "n" THEN v[2] ELSE IF v[2] = "inf" THEN 100 * MaxNum ELSE -100 * MaxNum
    IN r(a) < r(b)
IsNaN(v) == v[1] = "x" /\ v[2] = "nan"
NumEq(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ a[1] = b[1] /\ a[2] = b[2]

Compare(op, a, b) ==
    CASE IsNum(a) /\ IsNum(b) ->
            LET nan == IsNaN(a) \/ IsNaN(b) IN
            V(<<"b", CASE op = "<"  -> ~nan /\ NumLess(a, b)
                       [] op = "<=" -> ~nan /\ ~NumLess(b, a)
                       [] op = ">"  -> ~nan /\ NumLess(b, a)
                       [] op = ">=" -> ~nan /\ ~NumLess(a, b), a[3]>>)
      [] a[1] = "s" /\ b[1] = "s" ->
            V(B(CASE op = "<"  -> StrLess(a[2], b[2], 1)
                  [] op = "<=" -> ~StrLess(b[2], a[2], 1)
                  [] op = ">"  -> StrLess(b[2], a[2], 1)
                  [] op = ">=" -> ~StrLess(a[2], b[2], 1)))
      [] OTHER -> Err

RECURSIVE EqOp(_, _)       \* on deep values
EqTrue(a, b) == LET r == EqOp(a, b) IN r[1] = "v" /\ r[2][2] = TRUE
EqOp(a, b) ==
    LET ta == a[1]
        tb == b[1]
    IN
    CASE IsNum(a) /\ IsNum(b) -> V(<<"b", NumEq(a, b), a[3]>>)
      [] ta = "s" /\ tb = "s" -> V(B(a[2] = b[2]))
      [] ta = "b" /\ tb = "b" -> V(<<"b", a[2] = b[2], a[3]>>)
      [] ta = "v" /\ tb = "v" -> V(B(a[2] = b[2]))
      [] ta = "o" /\ tb = "o" ->
            V(B(DOMAIN a[2] = DOMAIN b[2] /\ \A k \in DOMAIN a[2] : EqTrue(a[2][k], b[2][k])))
      [] ta = "a" /\ tb = "a" ->
            V(B(Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : EqTrue(a[2][i], b[2][i])))
      [] ta = "none" /\ tb = "none" -> V(B(TRUE))
      [] {ta, tb} = {"none", "some"} -> V(B(FALSE))
      [] ta = "some" /\ tb = "some" -> EqOp(a[2], b[2])
      [] OTHER -> Err

(* The equality used by lazy invariants: only simple values, secrets ignored *)
LazyEq(a, lit) ==
    CASE IsNum(a) /\ IsNum(lit) -> NumEq(a, lit)
      [] a[1] = lit[1] /\ a[1] \in {"b", "s"} -> a[2] = lit[2]
      [] OTHER -> FALSE

(***************************************************************************)
(* Options, results and the `?` operator.                                  *)
(* Returns <<"pass", v>>, <<"fail", err>> or <<"bad">>.                    *)
(***************************************************************************)
AnyMsg == <<"any">>
TryMsg(v) ==
    CASE v[1] \in {"ok", "some"} -> <<"pass", v[2]>>
      [] v[1] = "err" -> <<"fail", v>>
      [] v[1] = "none" -> <<"fail", <<"err", AnyMsg, <<>> >> >>
      [] v[1] = "b" -> IF v[2] /\ v[3] # NoSec THEN <<"pass", v>> ELSE <<"fail", <<"err", AnyMsg, <<>> >> >>
      [] v[1] \in {"n", "x"} ->
            IF ~IsNaN(v) /\ v[3] # NoSec THEN <<"pass", v>> ELSE <<"fail", <<"err", AnyMsg, <<>> >> >>
      [] OTHER -> <<"bad">>

AddSec(v, w) == <<v[1], v[2], << (IF v[3] = NoSec THEN <<>> ELSE v[3][1]) \o <<w>> >> >>
=============================================================================
