------------------------------- MODULE DyonMeta -------------------------------
(***************************************************************************)
(* Texts that are read with meta rules (`syntax`, `meta`, `load(meta:)`),   *)
(* and the JSON that `json_from_meta_data` makes of what was read.          *)
(* A document is a sequence of items, each one of                           *)
(*   <<"b", bool>>  <<"n", txt>>  <<"t", txt>>  <<"node", kind, items>>     *)
(* N gives the property names of the rules: [yes, num, text, node] where    *)
(* node is a sequence with one name per kind of node.  The rules write a    *)
(* node in its own pair of brackets and one space between two items.        *)
(* What is read is a sequence of tokens                                     *)
(*   <<offset, length, kind, name>>  or  <<offset, length, kind, name, v>>  *)
(* where offset and length count bytes of the text.                         *)
(***************************************************************************)
EXTENDS DyonData

Open == <<40, 91, 60>>
Shut == <<41, 93, 62>>
Utf8(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
RECURSIVE Bytes(_)
Bytes(t) == IF t = <<>> THEN 0 ELSE Utf8(t[1]) + Bytes(Tail(t))

RECURSIVE ItemText(_), ItemsText(_)
ItemText(x) == CASE x[1] = "b" -> IF x[2] THEN <<43>> ELSE <<33>>
                 [] x[1] = "n" -> x[2]
                 [] x[1] = "t" -> Json(x[2])
                 [] OTHER -> <<Open[x[2]]>> \o ItemsText(x[3]) \o <<Shut[x[2]]>>
ItemsText(xs) == IF xs = <<>> THEN <<>>
                 ELSE ItemText(xs[1]) \o (IF Len(xs) = 1 THEN <<>> ELSE <<32>> \o ItemsText(Tail(xs)))

(* The tokens of an item that starts at offset o *)
RECURSIVE Tokens(_, _, _), ItemTokens(_, _, _)
ItemTokens(N, x, o) ==
    LET n == Bytes(ItemText(x))
    IN CASE x[1] = "b" -> <<<<o, n, "bool", N.yes, <<"b", x[2]>>>>>>
         [] x[1] = "n" -> <<<<o, n, "f64", N.num, <<"n", x[2]>>>>>>
         [] x[1] = "t" -> <<<<o, n, "str", N.text, <<"t", x[2]>>>>>>
         [] OTHER -> <<<<o, 0, "start", N.node[x[2]]>>>> \o Tokens(N, x[3], o + 1)
                     \o <<<<o, n, "end", N.node[x[2]]>>>>
Tokens(N, xs, o) == IF xs = <<>> THEN <<>>
                    ELSE ItemTokens(N, xs[1], o) \o Tokens(N, Tail(xs), o + Bytes(ItemText(xs[1])) + 1)

(* The JSON of tokens, without white space between its parts *)
CommaAt(t, i) == t[i][3] # "end" /\ i > 1 /\ t[i - 1][3] # "start"
Part(t) == CASE t[3] = "start" -> Json(t[4]) \o <<58, 123>>
             [] t[3] = "end" -> <<125>>
             [] t[3] = "bool" -> Json(t[4]) \o <<58>> \o (IF t[5][2] THEN TRUE_ ELSE FALSE_)
             [] t[3] = "f64" -> Json(t[4]) \o <<58>> \o t[5][2]
             [] OTHER -> Json(t[4]) \o <<58>> \o Json(t[5][2])
RECURSIVE JsonOf(_, _)
JsonOf(t, i) == IF i > Len(t) THEN <<>>
                ELSE (IF CommaAt(t, i) THEN <<44>> ELSE <<>>) \o Part(t[i]) \o JsonOf(t, i + 1)

(* The text without the white space outside of quotes *)
RECURSIVE Compact(_, _, _)
Compact(t, i, q) ==
    IF i > Len(t) THEN <<>>
    ELSE IF ~q THEN (IF t[i] \in White THEN <<>> ELSE <<t[i]>>) \o Compact(t, i + 1, t[i] = 34)
    ELSE IF t[i] = 92 /\ i < Len(t) THEN <<t[i], t[i + 1]>> \o Compact(t, i + 2, TRUE)
    ELSE <<t[i]>> \o Compact(t, i + 1, t[i] # 34)

(* What every reading keeps: nodes nest, nothing lies outside of its node,  *)
(* and tokens come in the order of the text.                                *)
RECURSIVE Nest(_, _, _)
Nest(t, i, open) ==
    IF i > Len(t) THEN open = <<>>
    ELSE IF t[i][3] = "start" THEN Nest(t, i + 1, Append(open, t[i]))
    ELSE IF t[i][3] = "end"
    THEN open # <<>> /\ LET s == open[Len(open)] IN
            s[1] = t[i][1] /\ s[4] = t[i][4] /\ Nest(t, i + 1, SubSeq(open, 1, Len(open) - 1))
    ELSE Nest(t, i + 1, open)
WellFormed(t) ==
    /\ Nest(t, 1, <<>>)
    /\ \A i \in 1..Len(t) - 1 : t[i + 1][3] # "end" => t[i][1] <= t[i + 1][1]
=============================================================================
