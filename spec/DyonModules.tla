----------------------------- MODULE DyonModules -----------------------------
(***************************************************************************)
(* Modules: how sources are put together and which function a call means.   *)
(*                                                                         *)
(* A definition is a function as it was written; it is bound once, when its *)
(* source is loaded: each call in it means one definition (or one function  *)
(* of the host) for ever, whatever the module is imported into later.       *)
(* The body of a function that gives a closure is that of the closure; it   *)
(* is bound like any other, and runs in the module that made it.            *)
(* A module is a sequence of definitions, of which the first `tr` are seen  *)
(* by modules that are loaded while it runs.                                *)
(*                                                                         *)
(* Names of functions are pairs: the name and which arguments are mutable,  *)
(* because `f(mut x)` and `f(x)` are different functions.                   *)
(*                                                                         *)
(* Statements of a body:                                                    *)
(*   <<"p", k>>                   observe k                                 *)
(*   <<"c", alias, name, n>>      call with n arguments, no result          *)
(*   <<"r", alias, name, n>>      call and observe the result               *)
(*   <<"g", alias, name, n>>      call on a new thread, join, observe       *)
(*   <<"k", alias, name, 0>>      call and keep the closure it gives, call that, observe *)
(*   <<"kc", v, name, 0>>         the same, of a module                     *)
(*   <<"lz", alias>>              alias::unwrap_or(some(1), boom(2)), observe *)
(*   <<"new", v, src, imports, tr, usetr>>  load a source as module v       *)
(*   <<"ck", src, imports, usetr>>  read a source without loading it        *)
(*   <<"cm", v, name, n>>, <<"cr", v, name, n>>  call into a module         *)
(*   <<"fs", v>>                  names of the functions of a module        *)
(*   <<"er", k>>                  fails, on a line of its own with k        *)
(*   <<"tb">> .. <<"te">>         what is between is tried; observe if it went well *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Range_(s) == {s[i] : i \in 1..Len(s)}

(* What the host and the library give: name, namespace, arguments, result *)
Ext == << [name |-> <<"pr", "">>, ns |-> <<"host">>, n |-> 1, ret |-> TRUE],
          [name |-> <<"probe", "">>, ns |-> <<"host">>, n |-> 1, ret |-> FALSE],
          [name |-> <<"unwrap_or", "">>, ns |-> <<"std">>, n |-> 2, ret |-> TRUE] >>
ExtIds(P(_)) == {i \in 1..Len(Ext) : P(Ext[i])}

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y

None == <<"none">>

(* ------------------------------------------------------ namespace aliases *)
(* the target of name `nm` by one `use`, among the functions fs             *)
Picked(defs, fs, u, nm) ==
    LET asked(f) == IF u.fns = <<>> THEN f = nm    \* the whole namespace
                    ELSE FALSE
        \* the last entry of `{..}` that makes this name
        ent == {k \in 1..Len(u.fns) : u.fns[k][2] = nm[1]}
        hits(k) == {i \in 1..Len(fs) : defs[fs[i]].ns = u.names /\ defs[fs[i]].name = <<u.fns[k][1], nm[2]>>}
        ehits(k) == {i \in 1..Len(Ext) : Ext[i].ns = u.names /\ Ext[i].name = <<u.fns[k][1], nm[2]>>}
        works == {k \in ent : hits(k) # {} \/ ehits(k) # {}}
        best(h, e) == IF e # {} THEN <<"ext", Least(e)>>
                      ELSE IF h # {} THEN <<"def", fs[Least(h)]>> ELSE None
    IN IF u.fns = <<>>
       THEN best({i \in 1..Len(fs) : defs[fs[i]].ns = u.names /\ asked(defs[fs[i]].name)},
                 {i \in 1..Len(Ext) : Ext[i].ns = u.names /\ asked(Ext[i].name)})
       ELSE IF works = {} THEN None ELSE best(hits(Most(works)), ehits(Most(works)))

(* functions that are named stand before whole namespaces, later uses before earlier *)
ByAlias(defs, fs, uses, alias, nm) ==
    LET of(k) == Picked(defs, fs, uses[k], nm)
        mine == {k \in 1..Len(uses) : uses[k].alias = alias /\ of(k) # None}
        named == {k \in mine : uses[k].fns # <<>>}
    IN IF named # {} THEN of(Most(named))
       ELSE IF mine # {} THEN of(Most(mine)) ELSE None

(* fs: the functions of the module before the own ones, which start at def lo *)
ByName(defs, fs, src, lo, nm) ==
    LET own == {i \in 1..Len(src.fns) : src.fns[i].name = nm}
        imp == {i \in 1..Len(fs) : defs[fs[i]].name = nm}
        ext == {i \in 1..Len(Ext) : Ext[i].name = nm}
    IN IF own # {} THEN <<"def", lo + Most(own) - 1>>
       ELSE IF imp # {} THEN <<"def", fs[Most(imp)]>>
       ELSE IF ext # {} THEN <<"ext", Most(ext)>> ELSE None

Meant(defs, fs, src, lo, st) ==
    CASE st[1] \in {"c", "r", "g", "k"} ->
           IF st[2] = "" THEN ByName(defs, fs, src, lo, st[3]) ELSE ByAlias(defs, fs, src.uses, st[2], st[3])
      [] st[1] = "lz" ->
           IF st[2] = "" THEN ByName(defs, fs, src, lo, <<"unwrap_or", "">>) ELSE ByAlias(defs, fs, src.uses, st[2], <<"unwrap_or", "">>)
      [] OTHER -> <<"-">>

(* the definitions of a source *)
Own(defs, fs, src) ==
    LET lo == Len(defs) + 1 IN
    [i \in 1..Len(src.fns) |->
        [name |-> src.fns[i].name, ns |-> src.ns, file |-> src.file, n |-> src.fns[i].n, ret |-> src.fns[i].ret, tag |-> src.fns[i].tag,
         body |-> src.fns[i].body,
         bind |-> [k \in 1..Len(src.fns[i].body) |-> Meant(defs, fs, src, lo, src.fns[i].body[k])]]]

(* Is a source accepted, given its definitions?  Calls have to find a       *)
(* function, with the right number of arguments, that gives a result if and *)
(* only if one is used.                                                     *)
Fits(all, own) ==
    /\ \A i, k \in 1..Len(own) : own[i].name = own[k].name => i = k
    /\ \A i \in 1..Len(own) : \A k \in 1..Len(own[i].body) :
         LET st == own[i].body[k]
             b == own[i].bind[k]
             f == IF b[1] = "def" THEN all[b[2]] ELSE Ext[b[2]]
         IN CASE st[1] = "c" -> b # None /\ f.n = st[4] /\ ~f.ret
              [] st[1] \in {"r", "g", "k"} -> b # None /\ f.n = st[4] /\ f.ret
              [] st[1] = "lz" -> b # None /\ f.n = 2 /\ f.ret
              [] OTHER -> TRUE

(* --------------------------------------------------------------- modules  *)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

(* what the new module has before its own functions *)
Before(mods, cur, imports, usetr) ==
    LET pre == IF usetr THEN SubSeq(mods[cur].fs, 1, mods[cur].tr) ELSE <<>>
    IN [fs |-> pre \o Cat([i \in 1..Len(imports) |-> mods[imports[i]].fs]), tr |-> Len(pre)]

(* [ok, defs, mod] after loading src in module cur *)
Load(defs, mods, cur, src, imports, tr, usetr) ==
    LET b == Before(mods, cur, imports, usetr)
        own == Own(defs, b.fs, src)
        all == defs \o own
        fs == b.fs \o [i \in 1..Len(own) |-> Len(defs) + i]
    IN IF Fits(all, own)
       THEN [ok |-> TRUE, defs |-> all, mod |-> [fs |-> fs, tr |-> IF tr THEN Len(fs) ELSE b.tr]]
       ELSE [ok |-> FALSE, defs |-> defs, mod |-> [fs |-> <<>>, tr |-> 0]]

(* a function of a module by name, from outside *)
Find(defs, mod, nm) ==
    LET hs == {i \in 1..Len(mod.fs) : defs[mod.fs[i]].name = nm}
    IN IF hs = {} THEN 0 ELSE mod.fs[Most(hs)]

(* --------------------------------------------- invariants of the structure *)
(* whatever a function of a module calls is in that module *)
Closed(defs, mods) ==
    \A m \in Range_(mods) : \A d \in Range_(m.fs) : \A k \in 1..Len(defs[d].bind) :
        LET b == defs[d].bind[k] IN b[1] = "def" => b[2] \in Range_(m.fs)
(* also among the functions that are handed on *)
TrClosed(defs, mods) ==
    \A i \in 1..Len(mods) : LET m == mods[i] IN
        m.tr <= Len(m.fs) /\ Closed(defs, <<[fs |-> SubSeq(m.fs, 1, m.tr), tr |-> 0]>>)
=============================================================================
