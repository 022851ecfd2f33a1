------------------------------- MODULE DyonConv -------------------------------
(***************************************************************************)
(* Values between Dyon and Rust.  A host function has a Rust type for each  *)
(* of its arguments; a value fits a type or it does not, and what fits      *)
(* comes back as it was, without what the type leaves out.                  *)
(*                                                                         *)
(* Values (texts and numbers as in DyonData):                               *)
(*   <<"n", txt>> <<"b", bool>> <<"t", txt>> <<"v", 4 txt>> <<"m", 16 txt>> *)
(*   <<"none">> <<"some", v>> <<"ok", v>> <<"err", v>> <<"a", <<v..>>>>     *)
(*   <<"o", {<<key, v>>..}>>                                                *)
(* Types:                                                                   *)
(*   <<"any">> <<"num">> <<"int">> <<"bool">> <<"str">> <<"vec4">> <<"mat4">> *)
(*   <<"opt", T>> <<"res", T, U>> <<"vec", T>> <<"tup", <<T..>>>>           *)
(*   <<"obj", <<<<key, T>>..>>>> <<"part", n>>: n components of a vector    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Fits(v) == [st |-> "ok", v |-> v]
Not == [st |-> "err", v |-> <<>>]
Ood == [st |-> "ood", v |-> <<>>]
Zero == <<48>>

(* All of the results, or the first that is not one *)
AllOf(rs, F(_)) ==
    LET bad == {i \in 1..Len(rs) : rs[i].st # "ok"}
    IN IF bad = {} THEN Fits(F([i \in 1..Len(rs) |-> rs[i].v]))
       ELSE IF \E i \in bad : rs[i].st = "ood" THEN Ood ELSE Not

RECURSIVE Conv(_, _)
Conv(T, v) ==
    CASE T[1] = "any" -> Fits(v)
      [] T[1] = "num" -> IF v[1] = "n" THEN Fits(v) ELSE Not
      [] T[1] = "int" -> IF v[1] # "n" THEN Not
                         ELSE IF \E i \in 1..Len(v[2]) : v[2][i] \in {45, 46} THEN Ood ELSE Fits(v)
      [] T[1] = "bool" -> IF v[1] = "b" THEN Fits(v) ELSE Not
      [] T[1] = "str" -> IF v[1] = "t" THEN Fits(v) ELSE Not
      [] T[1] = "vec4" -> IF v[1] = "v" THEN Fits(v) ELSE Not
      [] T[1] = "mat4" -> IF v[1] = "m" THEN Fits(v) ELSE Not
      [] T[1] = "part" -> IF v[1] = "v" THEN Fits(<<"v", [i \in 1..4 |-> IF i <= T[2] THEN v[2][i] ELSE Zero]>>) ELSE Not
      [] T[1] = "opt" -> IF v[1] = "none" THEN Fits(v)
                         ELSE IF v[1] # "some" THEN Not
                         ELSE LET x == Conv(T[2], v[2]) IN IF x.st = "ok" THEN Fits(<<"some", x.v>>) ELSE x
      [] T[1] = "res" -> IF v[1] = "ok" THEN LET x == Conv(T[2], v[2]) IN IF x.st = "ok" THEN Fits(<<"ok", x.v>>) ELSE x
                         ELSE IF v[1] = "err" THEN LET x == Conv(T[3], v[2]) IN IF x.st = "ok" THEN Fits(<<"err", x.v>>) ELSE x
                         ELSE Not
      [] T[1] = "vec" -> IF v[1] # "a" THEN Not
                         ELSE AllOf([i \in 1..Len(v[2]) |-> Conv(T[2], v[2][i])], LAMBDA s : <<"a", s>>)
      [] T[1] = "tup" -> IF v[1] # "a" THEN Not
                         ELSE IF Len(v[2]) < Len(T[2]) THEN Not        \* more items than asked for are left out
                         ELSE AllOf([i \in 1..Len(T[2]) |-> Conv(T[2][i], v[2][i])], LAMBDA s : <<"a", s>>)
      [] T[1] = "obj" -> IF v[1] # "o" THEN Not
                         ELSE LET val(k) == {f \in v[2] : f[1] = k}
                                  rs == [i \in 1..Len(T[2]) |->
                                            IF val(T[2][i][1]) = {} THEN Not
                                            ELSE Conv(T[2][i][2], (CHOOSE f \in val(T[2][i][1]) : TRUE)[2])]
                              IN AllOf(rs, LAMBDA s : <<"o", {<<T[2][i][1], s[i]>> : i \in 1..Len(s)}>>)

(* What came back fits again, and does not change any more.                 *)
Stable(T, v) == LET x == Conv(T, v) IN x.st = "ok" => Conv(T, x.v) = x
===============================================================================
