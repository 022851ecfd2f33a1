------------------------------- MODULE DyonData -------------------------------
(***************************************************************************)
(* Data as text: what load_data reads, and what str, json_string and save   *)
(* write.  Texts are sequences of code points.  Data values:                *)
(*   <<"n", txt>>            a number, by its shortest decimal text         *)
(*   <<"b", bool>>  <<"t", txt>>  <<"v", <<txt, txt, txt, txt>>>>           *)
(*   <<"none">>  <<"some", v>>  <<"a", <<v..>>>>  <<"l", <<v..>>>>          *)
(*   <<"o", {<<key, v>> ..}>>                                               *)
(* Reading gives [st |-> "ok", v, i] (i: where reading stopped), "err", or   *)
(* "ood" for texts this specification says nothing about.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

White == {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
Digit == 48..57
Seps == {40, 41, 123, 125, 91, 93, 44, 46, 58, 59, 10, 34, 92}
(* words *)
LINK == <<108, 105, 110, 107>>
FALSE_ == <<102, 97, 108, 115, 101>>
TRUE_ == <<116, 114, 117, 101>>
NONE_ == <<110, 111, 110, 101, 40, 41>>
SOME_ == <<115, 111, 109, 101, 40>>

Tag(t, i, w) == i + Len(w) - 1 <= Len(t) /\ \A k \in 1..Len(w) : t[i + k - 1] = w[k]
At(t, i, c) == i <= Len(t) /\ t[i] = c

(* ------------------------------------------------------------ white space *)
RECURSIVE Past(_, _, _), Comment(_, _, _), Skip(_, _)
Past(t, i, S) == IF i > Len(t) THEN i ELSE IF t[i] \in S THEN Past(t, i + 1, S) ELSE i
UntilNl(t, i) == LET S == {k \in i..Len(t) : t[k] = 10}
                 IN IF S = {} THEN Len(t) + 1 ELSE CHOOSE x \in S : \A y \in S : x <= y
(* comments nest; one that is not closed goes on to the end *)
Comment(t, i, d) ==
    IF d = 0 \/ i > Len(t) THEN i
    ELSE IF Tag(t, i, <<47, 42>>) THEN Comment(t, i + 2, d + 1)
    ELSE IF Tag(t, i, <<42, 47>>) THEN Comment(t, i + 2, d - 1)
    ELSE Comment(t, i + 1, d)
Skip(t, i) ==
    LET k == Past(t, i, White)
        k2 == IF Tag(t, k, <<47, 47>>) THEN UntilNl(t, k)
              ELSE IF Tag(t, k, <<47, 42>>) THEN Comment(t, k + 2, 1) ELSE k
    IN IF k2 = i THEN i ELSE Skip(t, k2)

Good(v, i) == [st |-> "ok", v |-> v, i |-> i]
Err == [st |-> "err", v |-> <<>>, i |-> 0]
Ood == [st |-> "ood", v |-> <<>>, i |-> 0]

(* ---------------------------------------------------------------- numbers *)
(* the end of what can be a number that starts at i0; sci: it has an exponent *)
RECURSIVE NumEnd(_, _, _, _, _, _, _)
NumEnd(t, i0, i, dec, sci, esign, dig) ==
    IF i > Len(t) THEN [e |-> i, sci |-> sci]
    ELSE LET c == t[i] IN
      IF i = i0 /\ c \in {43, 45} THEN NumEnd(t, i0, i + 1, dec, sci, esign, dig)
      ELSE IF c \in Digit THEN NumEnd(t, i0, i + 1, dec, sci, esign, TRUE)
      ELSE IF dig /\ c = 95 THEN NumEnd(t, i0, i + 1, dec, sci, esign, dig)
      ELSE IF ~dec /\ c = 46 THEN NumEnd(t, i0, i + 1, TRUE, sci, esign, dig)
      ELSE IF ~sci /\ c \in {101, 69} /\ i > i0 THEN NumEnd(t, i0, i + 1, dec, TRUE, esign, dig)
      ELSE IF sci /\ ~esign /\ c \in {43, 45} THEN NumEnd(t, i0, i + 1, dec, sci, TRUE, dig)
      ELSE [e |-> i, sci |-> sci]

Only(t, S) == SelectSeq(t, LAMBDA c : c \in S)
RECURSIVE StripL(_), StripR(_)
StripL(t) == IF Len(t) > 1 /\ t[1] = 48 THEN StripL(Tail(t)) ELSE t
StripR(t) == IF Len(t) > 0 /\ t[Len(t)] = 48 THEN StripR(SubSeq(t, 1, Len(t) - 1)) ELSE t
(* the shortest text of the same number *)
Canon(s) ==
    LET neg == s[1] = 45
        dots == {k \in 1..Len(s) : s[k] = 46}
        d == IF dots = {} THEN Len(s) + 1 ELSE CHOOSE k \in dots : TRUE
        int == StripL(<<48>> \o Only(SubSeq(s, 1, d - 1), Digit))
        frac == StripR(Only(SubSeq(s, d + 1, Len(s)), Digit))
    IN (IF neg THEN <<45>> ELSE <<>>) \o int \o (IF frac = <<>> THEN <<>> ELSE <<46>> \o frac)
Exact(s) == Cardinality({k \in 1..Len(s) : s[k] \in Digit}) <= 15 \/ s = Canon(s)

(* st "no": there is no number *)
Num(t, i) ==
    IF i > Len(t) THEN [st |-> "no", v |-> <<>>, i |-> i]
    ELSE LET n == NumEnd(t, i, i, FALSE, FALSE, FALSE, FALSE)
             s == SubSeq(t, i, n.e - 1)
         IN IF n.e = i THEN [st |-> "no", v |-> <<>>, i |-> i]
            ELSE IF n.sci THEN Ood
            ELSE IF Only(s, Digit) = <<>> THEN Err
            ELSE IF ~Exact(s) THEN Ood
            ELSE Good(Canon(s), n.e)

(* ---------------------------------------------------------------- strings *)
Hex(c) == IF c \in Digit THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 16
Escapes == [c \in {34, 92, 47, 98, 102, 110, 114, 116} |->
              CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c]
(* is there a closing quote; escapes do not matter for that but to hide one *)
RECURSIVE Close(_, _)
Close(t, i) == IF i > Len(t) THEN 0
               ELSE IF t[i] = 92 THEN Close(t, i + 2)
               ELSE IF t[i] = 34 THEN i ELSE Close(t, i + 1)
RECURSIVE Chars(_, _, _, _)
Chars(t, i, e, acc) ==
    IF i = e THEN Good(acc, e + 1)
    ELSE IF t[i] # 92 THEN Chars(t, i + 1, e, Append(acc, t[i]))
    ELSE LET c == t[i + 1] IN
         IF c \in DOMAIN Escapes THEN Chars(t, i + 2, e, Append(acc, Escapes[c]))
         ELSE IF c # 117 THEN Err
         ELSE IF i + 5 > e - 1 THEN Err
         ELSE IF \E k \in 2..5 : Hex(t[i + k]) > 15 THEN Err
         ELSE LET u == Hex(t[i + 2]) * 4096 + Hex(t[i + 3]) * 256 + Hex(t[i + 4]) * 16 + Hex(t[i + 5])
              IN IF u \in 55296..57343 THEN Err ELSE Chars(t, i + 6, e, Append(acc, u))
(* "no": there is no string at i *)
Str(t, i) == IF ~At(t, i, 34) THEN [st |-> "no", v |-> <<>>, i |-> i]
             ELSE LET e == Close(t, i + 1)
                  IN IF e = 0 THEN [st |-> "no", v |-> <<>>, i |-> i] ELSE Chars(t, i + 1, e, <<>>)

RECURSIVE Until(_, _, _)
Until(t, i, S) == IF i > Len(t) THEN i ELSE IF t[i] \in S THEN i ELSE Until(t, i + 1, S)

(* ----------------------------------------------------------------- colors *)
Fifths == << <<48>>, <<48, 46, 50>>, <<48, 46, 52>>, <<48, 46, 54>>, <<48, 46, 56>>, <<49>> >>
Color(t, i) ==
    LET e == Until(t, i, Seps \cup White)
        n == e - i
        byte(k) == Hex(t[i + 2 * k]) * 16 + Hex(t[i + 2 * k + 1])
        part(k) == Fifths[byte(k) \div 51 + 1]
    IN IF n < 6 THEN Err
       ELSE IF n \notin {6, 8} \/ \E k \in i..(e - 1) : Hex(t[k]) > 15 THEN Ood
       ELSE IF \E k \in 0..(n \div 2 - 1) : byte(k) % 51 # 0 THEN Ood
       ELSE Good(<<"v", <<part(0), part(1), part(2), IF n = 8 THEN part(3) ELSE <<49>> >> >>, e)

(* ---------------------------------------------------------------- vectors *)
Zero == <<48>>
Comma(t, i) == LET k == Skip(t, i) IN IF At(t, k, 44) THEN [b |-> TRUE, i |-> Skip(t, k + 1)] ELSE [b |-> FALSE, i |-> k]
Vec(t, i) ==
    LET close(k, v) == LET c == Skip(t, k) IN IF At(t, c, 41) THEN Good(<<"v", v>>, c + 1) ELSE Err
        x == Num(t, Skip(t, i))
    IN IF x.st = "no" THEN Err ELSE IF x.st # "ok" THEN x ELSE
       LET y == Num(t, Comma(t, x.i).i) IN
       IF y.st = "no" THEN Err ELSE IF y.st # "ok" THEN y ELSE
       LET c == Comma(t, y.i) IN
       IF ~c.b THEN close(c.i, <<x.v, y.v, Zero, Zero>>)
       ELSE LET z == Num(t, c.i) IN
            IF z.st = "no" THEN close(c.i, <<x.v, y.v, Zero, Zero>>)
            ELSE IF z.st # "ok" THEN z ELSE
            LET w == Num(t, Comma(t, z.i).i) IN
            IF w.st = "no" THEN close(Comma(t, z.i).i, <<x.v, y.v, z.v, Zero>>)
            ELSE IF w.st # "ok" THEN w
            ELSE close(w.i, <<x.v, y.v, z.v, w.v>>)

(* ------------------------------------------------------------- everything *)
RECURSIVE Expr(_, _), Items(_, _, _, _), Fields(_, _, _, _), Links(_, _, _)
(* sep: there was a comma *)
Items(t, i, acc, sep) ==
    LET k == Skip(t, i) IN
    IF At(t, k, 93) THEN Good(<<"a", acc>>, k + 1)
    ELSE IF acc # <<>> /\ ~sep THEN Err
    ELSE LET x == Expr(t, k) IN
         IF x.st # "ok" THEN x
         ELSE LET c == Comma(t, x.i) IN Items(t, c.i, Append(acc, x.v), c.b)
Fields(t, i, acc, sep) ==
    LET k == Skip(t, i) IN
    IF At(t, k, 125) THEN Good(<<"o", acc>>, k + 1)
    ELSE IF acc # {} /\ ~sep THEN Err
    ELSE LET q == Str(t, k)
             e == Until(t, k, Seps \cup White)
             key == IF q.st = "no" THEN (IF e = k THEN Err ELSE Good(SubSeq(t, k, e - 1), e)) ELSE q
         IN IF key.st # "ok" THEN key
            ELSE LET c == Skip(t, key.i) IN
                 IF ~At(t, c, 58) THEN Err
                 ELSE LET x == Expr(t, Skip(t, c + 1)) IN
                      IF x.st # "ok" THEN x
                      ELSE LET m == Comma(t, x.i)
                           IN Fields(t, m.i, {f \in acc : f[1] # key.v} \cup {<<key.v, x.v>>}, m.b)
(* what can be an item of a link; links in links melt together *)
Linkable(v) == v[1] \in {"n", "b", "t", "l"}
Links(t, i, acc) ==
    LET k == Skip(t, i) IN
    IF At(t, k, 125) THEN Good(<<"l", acc>>, k + 1)
    ELSE LET x == Expr(t, k) IN
         IF x.st # "ok" THEN x
         ELSE IF ~Linkable(x.v) THEN Err
         ELSE Links(t, x.i, IF x.v[1] = "l" THEN acc \o x.v[2] ELSE Append(acc, x.v))
Expr(t, i) ==
    IF At(t, i, 123) THEN Fields(t, i + 1, {}, FALSE)
    ELSE IF At(t, i, 91) THEN Items(t, i + 1, <<>>, FALSE)
    ELSE IF At(t, i, 40) THEN Vec(t, i + 1)
    ELSE IF At(t, i, 35) THEN Color(t, i + 1)
    ELSE IF Tag(t, i, LINK) THEN
         LET k == Skip(t, i + 4) IN IF At(t, k, 123) THEN Links(t, k + 1, <<>>) ELSE Err
    ELSE LET s == Str(t, i) IN
    IF s.st = "ok" THEN Good(<<"t", s.v>>, s.i)
    ELSE IF s.st # "no" THEN s
    ELSE LET n == Num(t, i) IN
    IF n.st = "ok" THEN Good(<<"n", n.v>>, n.i)
    ELSE IF n.st # "no" THEN n
    ELSE IF Tag(t, i, FALSE_) THEN Good(<<"b", FALSE>>, i + 5)
    ELSE IF Tag(t, i, TRUE_) THEN Good(<<"b", TRUE>>, i + 4)
    ELSE IF Tag(t, i, NONE_) THEN Good(<<"none">>, i + 6)
    ELSE IF Tag(t, i, SOME_) THEN
         LET x == Expr(t, Skip(t, i + 5)) IN
         IF x.st # "ok" THEN x
         ELSE LET k == Skip(t, x.i) IN IF At(t, k, 41) THEN Good(<<"some", x.v>>, k + 1) ELSE Err
    ELSE Err
(* text after the value is not looked at *)
Read(t) == Expr(t, Skip(t, 1))

(* ---------------------------------------------------------------- writing *)
RECURSIVE Quoted(_)
Quoted(s) == IF s = <<>> THEN <<>>
             ELSE (CASE s[1] = 92 -> <<92, 92>> [] s[1] = 34 -> <<92, 34>> [] s[1] = 10 -> <<92, 110>>
                     [] s[1] = 13 -> <<92, 114>> [] s[1] = 9 -> <<92, 116>> [] OTHER -> <<s[1]>>) \o Quoted(Tail(s))
Json(s) == <<34>> \o Quoted(s) \o <<34>>
Plain(k) == k # <<>> /\ \A i \in 1..Len(k) : k[i] \in Digit \cup (65..90) \cup (97..122) \cup {95} \cup {230, 937, 960}
Sep == <<44, 32>>
IsZero(n) == n \in {<<48>>, <<45, 48>>}
VecText(v) == <<40>> \o v[1] \o Sep \o v[2]
              \o (IF IsZero(v[3]) /\ IsZero(v[4]) THEN <<>>
                  ELSE Sep \o v[3] \o (IF IsZero(v[4]) THEN <<>> ELSE Sep \o v[4])) \o <<41>>
(* the texts of a value: objects can come in any order *)
RECURSIVE Texts(_, _), Row(_, _, _), Rows(_)
Row(vs, sep, esc) ==     \* texts of the items one after the other
    IF vs = <<>> THEN {<<>>}
    ELSE {a \o (IF Len(vs) > 1 THEN sep ELSE <<>>) \o b : a \in Texts(vs[1], esc), b \in Row(Tail(vs), sep, esc)}
Rows(fs) ==              \* texts of fields, in every order
    IF fs = {} THEN {<<>>}
    ELSE UNION {{(IF Plain(f[1]) THEN f[1] ELSE Json(f[1])) \o <<58, 32>> \o a \o (IF Cardinality(fs) > 1 THEN Sep ELSE <<>>) \o b :
                    a \in Texts(f[2], TRUE), b \in Rows(fs \ {f})} : f \in fs}
Texts(v, esc) ==
    CASE v[1] = "n" -> {v[2]}
      [] v[1] = "b" -> {IF v[2] THEN TRUE_ ELSE FALSE_}
      [] v[1] = "t" -> {IF esc THEN Json(v[2]) ELSE v[2]}
      [] v[1] = "v" -> {VecText(v[2])}
      [] v[1] = "none" -> {NONE_}
      [] v[1] = "some" -> {SOME_ \o a \o <<41>> : a \in Texts(v[2], TRUE)}
      [] v[1] = "a" -> {<<91>> \o a \o <<93>> : a \in Row(v[2], Sep, TRUE)}
      [] v[1] = "o" -> {<<123>> \o a \o <<125>> : a \in Rows(v[2])}
      [] v[1] = "l" -> IF esc THEN {LINK \o <<32, 123, 32>> \o a \o (IF v[2] = <<>> THEN <<>> ELSE <<32>>) \o <<125>> : a \in Row(v[2], <<32>>, TRUE)}
                       ELSE Row(v[2], <<>>, FALSE)

(* What is written reads back as it was.                                    *)
RoundTrip(v) == \A t \in Texts(v, TRUE) : LET r == Read(t) IN r.st = "ok" /\ r.v = v /\ r.i = Len(t) + 1
===============================================================================
