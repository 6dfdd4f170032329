------------------------------- MODULE MC_With -------------------------------
(* C07.  A custom format delimits and converts its own field, and no other.   *)
EXTENDS Scope, Lang

Str == Sc("str")
L(seq) == MapSeq(LAMBDA x : T(x), seq)
\* a format, a type and characters its pattern is sensitive to
Formats == <<<<"num", "str", "1a">>, <<"num", "u8", "12">>, <<"alt", "str", "a1-">>, <<"alt2", "str", "ab-">>, <<"grp", "str", "x1-">>, <<"nest", "str", "x12">>, <<"nest", "str", "y23">>,
             <<"old", "str", "a-1">>, <<"cis", "str", "aBb">>, <<"rej", "str", "no-">>, <<"dota", "str", "a-">>, <<"brk", "u8", "[]1">>, <<"brkr", "str", "[]a">>,
             <<"hex", "u8", "f1-">>, <<"fmt", "str", "a-">>, <<"pad", "i8", "-1">>>>
Fo(w) == Filter(Formats, LAMBDA x : x[1] = w)[1]
Alpha2(f, more) == TLCEval(LET all == T(f[3]) \o more IN all)
\* one field with the format, beside a plain one, at the start, the end and in the middle
Vals(ty) == IF ty = "str" THEN <<<<T("a"), T("-")>>, <<T("x1"), T("")>>, <<T(""), T("[")>>>> ELSE <<<<T("1"), T("a")>>, <<T("100"), T("]")>>>>
One == MapSeq(LAMBDA p :
         [Entry(<<Struct("X", <<Fmt(p[2])>>, <<Fld("a", Sc(p[1][2]), <<With(p[1][1])>>), Fld("b", Str, <<>>)>>)>>, Alpha2(p[1], IF p[2] = T("{a}{b}") THEN <<>> ELSE T("-")), Pick(4, 5))
           EXCEPT !.vals = Vals(p[1][2])],
         Prod2(Formats, L(<<"{a}{b}", "{b}{a}", "{b}-{a}">>)))
\* two custom formats next to each other
Pairs == MapSeq(LAMBDA p :
         LET f == Fo(p[1][1])
             g == Fo(p[1][2])
         IN [Entry(<<Struct("X", <<Fmt(p[2])>>, <<Fld("0", Sc(f[2]), <<With(f[1])>>), Fld("1", Sc(g[2]), <<With(g[1])>>)>>)>>, TLCEval(T(f[3]) \o T(g[3])), Pick(3, 5))
             EXCEPT !.vals = <<<<IF f[2] = "str" THEN T("a") ELSE T("1"), IF g[2] = "str" THEN T("x") ELSE T("2")>>>>],
         Prod2(<<<<"nest", "grp">>, <<"grp", "nest">>, <<"alt", "alt2">>, <<"alt2", "alt">>, <<"cis", "old">>, <<"old", "cis">>, <<"grp", "num">>, <<"nest", "hex">>, <<"brk", "brkr">>, <<"dota", "num">>, <<"alt", "rej">>>>, L(<<"{0}{1}", "{1}{0}">>)))
\* the same format for several fields of one item
Same == MapSeq(LAMBDA p :
         LET f == Fo(p[1])
             W == IF p[3] = 1 THEN With(f[1]) ELSE WithF(f[1])
         IN [Entry(<<Struct("X", <<Fmt(p[2])>>, <<Fld("a", Sc(f[2]), <<W>>), Fld("b", Sc(f[2]), <<W>>), Fld("c", Sc(f[2]), <<W>>), Fld("d", Str, <<>>)>>)>>, Alpha2(f, <<>>), Pick(4, 6))
             EXCEPT !.vals = <<IF f[2] = "str" THEN <<T("a"), T("x"), T(""), T("-")>> ELSE <<T("1"), T("2"), T("10"), T("a")>>>>],
         Prod3(<<"num", "alt", "alt2", "grp", "nest", "hex", "cis", "dota", "brkr">>, L(<<"{a}{b}{c}{d}", "{d}{a}{b}{c}", "{c}{b}{d}{a}">>), <<1, 2>>))
\* with a field format, and optional
Framed == MapSeq(LAMBDA p :
         LET f == p[1]
             ty == IF p[2][2] THEN OptTy(Sc(f[2])) ELSE Sc(f[2])
         IN [Entry(<<Struct("X", <<Fmt(T("{b}{a}"))>>, <<Fld("a", ty, <<With(f[1])>> \o (IF p[2][1] = <<>> THEN <<>> ELSE <<Fmt(p[2][1])>>) \o (IF p[2][2] THEN <<OptA>> ELSE <<>>)), Fld("b", Str, <<>>)>>)>>,
                   Alpha2(f, T("-")), Pick(3, 5))
             EXCEPT !.vals = IF p[2][2] THEN <<<< <<>>, T("z")>>, << <<IF f[2] = "str" THEN T("a") ELSE T("1")>>, T("z")>>>> ELSE Vals(f[2])],
         Prod2(Formats, <<<<T("-{}"), FALSE>>, <<<<>>, TRUE>>, <<T("-{}a"), TRUE>>>>))
\* display and parsing with different formats
Split == MapSeq(LAMBDA p :
         [Entry(<<Struct("X", <<Fmt(T("{a}-{b}"))>>, <<Fld("a", Sc("u8"), p), Fld("b", Str, <<>>)>>)>>, T("1-["), Pick(4, 5)) EXCEPT !.vals = <<<<T("10"), T("q")>>>>],
         <<<<With("dis"), WithF("fro")>>, <<WithF("fro"), With("dis")>>, <<With("brk"), WithF("num")>>, <<With("hex"), WithF("brk")>>, <<WithF("num")>>, <<With("num"), WithF("hex")>>,
           <<With("brk"), With("hex")>>, <<WithF("hex"), WithF("fmt")>>>>)
\* in variants of an enum
InEnum == MapSeq(LAMBDA f :
         [Entry(<<Enum("X", <<>>, <<Vr("A", <<Fmt(T("{0}-{1}"))>>, <<Fld("0", Sc(f[2]), <<With(f[1])>>), Fld("1", Str, <<>>)>>), Vr("B", <<Fmt(T("{0}{1}"))>>, <<Fld("0", Str, <<>>), Fld("1", Sc(f[2]), <<With(f[1])>>)>>)>>)>>, Alpha2(f, T("-")), Pick(3, 4))
             EXCEPT !.vals = <<[v |-> 1, f |-> Vals(f[2])[1]], [v |-> 2, f |-> <<Vals(f[2])[2][2], Vals(f[2])[2][1]>>]>>], Formats)

\* formats given by their pattern, many of them close to the one that accepts everything
Lazy == [k |-> "dotall", a |-> <<Rep(0, -1, FALSE, [k |-> "any"])>>]
Dots(lo, g) == Rep(lo, -1, g, [k |-> "any"])
Pats == <<Lazy, Cat(<<Lazy, Lit(T("-"))>>), Cat(<<Lit(T("-")), Lazy>>), Cat(<<Lazy, Lit(T("-")), Lazy>>), Alt(<<Lazy, Lit(T("-"))>>), Alt(<<Lit(T("-")), Lazy>>), Dots(0, FALSE), Dots(1, FALSE), Dots(1, TRUE),
          Rep(2, 2, TRUE, Lazy), Cat(<<Lazy, Lazy>>), [k |-> "dotall", a |-> <<Dots(0, TRUE)>>], [k |-> "dotall", a |-> <<Dots(1, FALSE)>>], Opt([k |-> "any"]), Rep(0, 1, FALSE, Lit(T("a"))), Lit(<<>>),
          [k |-> "ci", a |-> <<Cat(<<Lit(T("a")), Lazy>>)>>], Rep(0, 2, FALSE, [k |-> "any"]), Cat(<<[k |-> "grp", a |-> <<Alt(<<Lit(T("a")), Lit(T("-"))>>)>>], Lazy>>)>>
WithRx(n) == [DA EXCEPT !.with = <<[n |-> "rx", re |-> <<n>>]>>]
WithRxF(n) == [FA EXCEPT !.with = <<[n |-> "rx", re |-> <<n>>]>>]
Given == MapSeq(LAMBDA p :
         [Entry(<<Struct("X", <<Fmt(p[2])>>, <<Fld("a", Str, <<IF p[2] = T("{b}{a}") THEN WithRxF(p[1]) ELSE WithRx(p[1])>>), Fld("b", Str, <<>>)>>)>>, TLCEval(T("a-") \o <<NL>>), Pick(3, 5))
           EXCEPT !.vals = <<<<T("a"), T("-")>>>>],
         Prod2(Pats, L(<<"{a}{b}", "{b}{a}">>)))

ASSUME Load(One \o Pairs \o Same \o Framed \o Split \o InEnum \o Given) /\ AllValid

Node(v) == Cat(Pat(fi)[Fam[fi].root][v].nodes)
Variants == 1..Len(Pat(fi)[Fam[fi].root])
Denotation == OnTexts(\A v \in Variants : (MatchAll(<<Node(v)>>, s) # <<>>) = InLang(Node(v), s))
Preference == OnTexts(\A v \in Variants : MatchAll(<<Node(v)>>, s) = Preferred(Node(v), s))
\* a field with a format gets what its own pattern describes, converted by its own parse
IsStruct == D.types[Fam[fi].root].kind = "struct"
TheV == D.types[Fam[fi].root].vs[1]
Own == OnTexts(IsStruct => LET r == ParseOf(s)
                               m == MatchAll(<<Node(1)>>, s)
                           IN r.ok => \A i \in 1..Len(TheV.fs) :
                                LET f == TheV.fs[i]
                                    a == Resolve(f.attrs, TRUE)
                                    t == CapText(m[1], i, <<>>, s)
                                    ty == ValueTy(f, a)
                                IN a.with # <<>> =>
                                     IF t = <<>> THEN r.v[i] = <<>>
                                     ELSE /\ InLang(FormatNode(D, a.with[1], ty), t[1])
                                          /\ LET w == ParseWith(D, Pat(fi), a.with[1], ty, t[1])
                                             IN w.ok /\ r.v[i] = (IF a.opt THEN <<w.v>> ELSE w.v))
\* the text of such a field is what its format writes
Written == OnValues(IsStruct => \A i \in 1..Len(TheV.fs) :
                      LET f == TheV.fs[i]
                          a == Resolve(f.attrs, FALSE)
                      IN (a.with # <<>> /\ ~a.opt) => Contains(TextOf(Value), WriteWith(D, a.with[1], f.ty, Value[i], NoSpec)))
=============================================================================
