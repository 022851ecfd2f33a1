------------------------------- MODULE DyonList -------------------------------
(***************************************************************************)
(* What `functions` tells about a module.  A module has the functions it    *)
(* was loaded with, those of its imports, and the library.  Texts are       *)
(* sequences of code points.  A function is                                 *)
(*   [name, args, ret]  with args of [name, mut, lt, ty]                     *)
(* A type is <<"any">>, <<"void">>, <<word, text>> for plain ones, or       *)
(* <<"arr" | "opt" | "res" | "thr" | "in", type>>, <<"sec", type>>,         *)
(* <<"clo", types, type>>, <<"adhoc", text, type>>.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
ANY == <<97, 110, 121>>
VOID == <<118, 111, 105, 100>>
OPT == <<111, 112, 116>>
RES == <<114, 101, 115>>
THR == <<116, 104, 114>>
SEC == <<115, 101, 99>>
IN_ == <<105, 110>>
MUT == <<109, 117, 116>>
ARROW == <<41, 32, 45, 62, 32>>
RECURSIVE Desc(_), Descs(_)
Inside(w, t) == IF t = <<"any">> THEN w ELSE w \o <<91>> \o Desc(t) \o <<93>>
Desc(t) == CASE t[1] = "any" -> ANY
             [] t[1] = "void" -> VOID
             [] t[1] = "w" -> t[2]
             [] t[1] = "arr" -> IF t[2] = <<"any">> THEN <<91, 93>> ELSE <<91>> \o Desc(t[2]) \o <<93>>
             [] t[1] = "opt" -> Inside(OPT, t[2])
             [] t[1] = "res" -> Inside(RES, t[2])
             [] t[1] = "thr" -> Inside(THR, t[2])
             [] t[1] = "in" -> Inside(IN_, t[2])
             [] t[1] = "sec" -> Inside(SEC, t[2])
             [] t[1] = "adhoc" -> t[2] \o <<32>> \o Desc(t[3])
             [] OTHER -> <<92, 40>> \o Descs(t[2]) \o ARROW \o Desc(t[3])
Descs(ts) == IF ts = <<>> THEN <<>> ELSE Desc(ts[1]) \o (IF Len(ts) = 1 THEN <<>> ELSE <<44, 32>> \o Descs(Tail(ts)))

(* Functions with mutable arguments say so in their names *)
RECURSIVE Marks(_)
Marks(as) == IF as = <<>> THEN <<>>
             ELSE (IF as[1].mut THEN MUT ELSE <<95>>) \o (IF Len(as) = 1 THEN <<>> ELSE <<44>> \o Marks(Tail(as)))
FullName(f) == IF \E i \in 1..Len(f.args) : f.args[i].mut THEN f.name \o <<40>> \o Marks(f.args) \o <<41>> ELSE f.name
Entry(f) == [name |-> FullName(f),
             args |-> [i \in 1..Len(f.args) |-> [name |-> f.args[i].name, lt |-> f.args[i].lt, ty |-> Desc(f.args[i].ty)]],
             ret |-> Desc(f.ret)]

(* texts in the order of their code points *)
RECURSIVE Leq(_, _)
Leq(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
             ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Leq(Tail(a), Tail(b))
Sorted(ns) == \A i \in 1..Len(ns) - 1 : Leq(ns[i], ns[i + 1])

(* Modules are numbered; each has its own functions and imports earlier ones. A function is there once per way it was imported. *)
RECURSIVE All(_, _), Imported(_, _)
Imported(ms, is) == IF is = <<>> THEN <<>> ELSE All(ms, is[1]) \o Imported(ms, Tail(is))
All(ms, m) == Imported(ms, ms[m].imports) \o ms[m].fns
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
=============================================================================
