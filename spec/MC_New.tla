------------------------------- MODULE MC_New --------------------------------
(* C11.  What `new` builds, in terms of what the declaration without it would *)
(* parse: the expression applied to those fields; a rejection fails a struct, *)
(* and leaves an enum to its other variants.                                  *)
EXTENDS Scope

Str == Sc("str")
U8 == Sc("u8")
F(x) == Fmt(T(x))
New(map, kind, rej, mark) == [FA EXCEPT !.new = <<[map |-> map, kind |-> kind, rej |-> rej, mark |-> mark]>>]
Rej(f, v) == <<[f |-> f, v |-> v]>>
Mark(f, v) == <<[f |-> f, v |-> v]>>
In == Struct("I", <<F("{x}_{y}"), New(<<1, 2>>, "opt", Rej(1, T("0")), Mark(2, T("m")))>>, <<Fld("x", U8, <<>>), Fld("y", Str, <<>>)>>)
DI == [Struct("J", <<>>, <<Fld("x", U8, <<>>), Fld("y", Str, <<>>)>>) EXCEPT !.ds = <<"m">>, !.dv = <<<<T("7"), T("dy")>>>>]
Types == <<In, DI>>
Perms3 == <<<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>, <<1, 1, 1>>, <<2, 2, 1>>>>
Kinds == <<"self", "opt", "res">>
RejOf(k, r) == IF k = "self" THEN <<>> ELSE r
\* shapes of three fields of one type, in all orders
Orders == MapSeq(LAMBDA p :
            LET ks == IF p[3] = "n" THEN <<"c", "a", "b">> ELSE <<"0", "1", "2">>
                f == IF p[3] = "n" THEN F("{a}-{b}-{c}") ELSE F("{2}-{0}-{1}")
            IN Entry(Types \o <<FStruct("X", <<f, New(p[1], p[2], RejOf(p[2], Rej(2, T("a"))), <<>>)>>, MapSeq(LAMBDA k : Fld(k, Str, <<>>), ks))>>, T("a-1"), Pick(5, 7)),
            Prod3(Perms3, Kinds, <<"n", "t">>))
\* fields of other types and attributes: [type, attrs, how the format names it, a rejected value]
Others == <<<<U8, <<>>, "{a}", T("1")>>, <<OptTy(U8), <<OptA>>, "{a}", <<>>>>, <<OptTy(U8), <<OptA, F("<{}>")>>, "{a}", <<T("1")>>>>, <<Str, <<F("<{}>")>>, "{a}", T("1")>>, <<Str, <<Rx(Plus(Rng("0", "9")))>>, "{a}", T("1")>>,
            <<U8, <<Dflt>>, "", T("0")>>, <<U8, <<Dflt>>, "", T("1")>>, <<Str, <<With("brk")>>, "{a}", T("")>>, <<Ref(1), <<>>, "{a}", <<T("1"), T("m")>>>>, <<Ref(1), <<>>, "{a}", <<T("1"), T("1")>>>>, <<Ref(2), <<Dflt>>, "{a.x}", <<T("1"), T("dy")>>>>, <<Ref(2), <<Dflt>>, "{a.y}<{a.x}", <<T("1"), T("")>>>>,
            <<Ref(2), <<Dflt>>, "", <<T("0"), T("")>>>>, <<Ref(2), <<Dflt>>, "", <<T("7"), T("dy")>>>>>>
Mixed == MapSeq(LAMBDA p :
            Entry(Types \o <<FStruct("X", <<F(p[1][3] \o p[2] \o "{b}"), New(<<1, 2>>, p[3], RejOf(p[3], Rej(1, p[1][4])), Mark(2, T("new")))>>, <<Fld("a", p[1][1], p[1][2]), Fld("b", Str, <<>>)>>)>>, T("1-<>[]0_"), Pick(3, 5)),
            Prod3(Others, <<"", "-">>, <<"self", "opt", "res">>))
ByRegex == MapSeq(LAMBDA p :
            Entry(Types \o <<FStruct("X", <<Rx(p[1]), New(<<2, 1>>, p[2], RejOf(p[2], Rej(1, T(""))), <<>>)>>, <<Fld("a", Str, <<>>), Fld("b", Str, <<>>)>>)>>, T("a1-"), Pick(4, 6)),
            Prod2(<<Cat(<<Rep(0, 1, TRUE, Named(T("b"), Plus(Rng("a", "b")))), Named(T("a"), Star(DigitCls))>>), Alt(<<Cat(<<Lit(T("-")), Named(T("a"), Star(Dot))>>), Cat(<<Named(T("b"), DigitCls), Star(Dot)>>)>>)>> \o <<>>, Kinds))
\* several `new`: the last one counts; Newtype; no field at all
Odd == <<Entry(Types \o <<FStruct("X", <<F("{0}-{1}"), New(<<2, 1>>, "self", <<>>, <<>>), New(<<1, 1>>, "opt", <<>>, <<>>)>>, <<Fld("0", Str, <<>>), Fld("1", Str, <<>>)>>)>>, T("a-1"), 4),
         Entry(Types \o <<FStruct("X", <<New(<<1>>, "opt", Rej(1, T("1")), <<>>)>>, <<Fld("0", U8, <<>>)>>)>>, T("1-+0"), 4), Entry(Types \o <<FStruct("X", <<New(<<1>>, "res", Rej(1, T("")), Mark(1, T("q")))>>, <<Fld("a", Str, <<>>)>>)>>, T("a1"), 4)>>
\* the whole struct has a default too, which `new` leaves nothing to
ValOf(o) == IF o[3] = "" THEN o[4] ELSE IF o[1].k = "opt" THEN <<T("9")>> ELSE IF o[1].k = "ref" THEN <<T("9"), T("w")>> ELSE T("9")
Whole == MapSeq(LAMBDA p :
            Entry(Types \o <<[FStruct("X", IF p[3] THEN <<Dflt, F(p[1][3] \o "-{b}"), New(<<1, 2>>, p[2], RejOf(p[2], Rej(1, p[1][4])), <<>>)>>
                                                    ELSE <<F(p[1][3] \o "-{b}"), New(<<1, 2>>, p[2], RejOf(p[2], Rej(1, p[1][4])), Mark(2, T("new"))), Dflt>>,
                                       <<Fld("a", p[1][1], p[1][2]), Fld("b", Str, <<>>)>>) EXCEPT !.ds = Append(@, "m"), !.dv = <<<<ValOf(p[1]), T("whole")>>>>]>>, T("1-<>0_"), Pick(3, 5)),
            Prod3(Others, Pick(<<"opt">>, <<"self", "opt", "res">>), <<TRUE, FALSE>>))
\* variants of an enum: two with new around one without, same texts
Bodies == <<<<<<F("{0}"), New(<<1>>, "opt", Rej(1, T("1")), <<>>)>>, <<Fld("0", U8, <<>>)>>>>, <<<<F("{0}"), New(<<1>>, "self", <<>>, Mark(1, T("m")))>>, <<Fld("0", Str, <<Rx(Plus(Rng("a", "b")))>>)>>>>,
            <<<<F("{0}{1}"), New(<<2, 1>>, "res", Rej(2, T("a")), <<>>)>>, <<Fld("0", Str, <<>>), Fld("1", Str, <<>>)>>>>, <<<<F("a"), New(<<1>>, "opt", Rej(1, T("0")), <<>>)>>, <<Fld("0", U8, <<Dflt>>)>>>>,
            <<<<F("a"), New(<<1>>, "opt", <<>>, Mark(1, T("9")))>>, <<Fld("n", U8, <<Dflt>>)>>>>, <<<<F("1"), New(<<>>, "res", <<>>, <<>>)>>, <<>>>>, <<<<F("{n}"), New(<<1>>, "res", Rej(1, <<T("1"), T("m")>>), <<>>)>>, <<Fld("n", Ref(1), <<>>)>>>>,
            <<<<F("{n.x}"), New(<<1, 2>>, "opt", Rej(1, <<T("1"), T("dy")>>), Mark(2, T("5")))>>, <<Fld("n", Ref(2), <<Dflt>>), Fld("m", U8, <<Dflt>>)>>>>, <<<<F("{0}"), FA>>, <<Fld("0", U8, <<>>)>>>>, <<<<>>, <<>>>>>>
InEnum == MapSeq(LAMBDA p : Entry(Types \o <<FEnum("X", <<>>, <<Vr("a", p[1][1], p[1][2]), Vr("b", p[2][1], p[2][2]), Vr("c", p[3][1], p[3][2])>>)>>, T("a1b_"), Pick(3, 4)),
            Prod3(Bodies, Bodies, Pick(<<Bodies[9]>>, <<Bodies[3], Bodies[9]>>)))

ASSUME Load(Orders \o Mixed \o ByRegex \o Odd \o Whole \o InEnum) /\ AllValid

Rt == Fam[fi].root
TD == D.types[Rt]
NV == Len(TD.vs)
IsStruct == TD.kind = "struct"
NoNew(as) == MapSeq(LAMBDA a : [a EXCEPT !.new = <<>>], as)
NewOf(as) == LET is == {i \in 1..Len(as) : as[i].new # <<>>} IN IF is = {} THEN <<>> ELSE as[CHOOSE i \in is : \A j \in is : j <= i].new
\* the declaration whose root has no new, and for an enum only variant i
Plainly(d, rt) == [d EXCEPT !.types[rt].attrs = NoNew(@), !.types[rt].vs = [j \in 1..Len(@) |-> [@[j] EXCEPT !.attrs = NoNew(@)]]]
OnlyV(d, rt, i) == IF d.types[rt].kind = "struct" THEN d
                   ELSE [d EXCEPT !.types[rt].vs = [j \in 1..Len(@) |-> IF j = i THEN @[j] ELSE [@[j] EXCEPT !.attrs = Append(@, [FA EXCEPT !.ign = TRUE])]]]
\* register 21: for each entry and variant, the plain declaration and its patterns
ASSUME TLCSet(21, Settled([i \in 1..Len(Fam) |-> [v \in 1..Len(Fam[i].d.types[Fam[i].root].vs) |->
                   LET d == TLCEval(OnlyV(Plainly(Fam[i].d, Fam[i].root), Fam[i].root, v)) IN TLCEval(<<d, Compile(d)>>)]]))
PlainOf(v) == ParseTy(TLCGet(21)[fi][v][1], TLCGet(21)[fi][v][2], Root, s)
Eq(x, y) == ToString(x) = ToString(y)
\* the expression: <<>> (rejects) or <<value>>
Apply(n, fs) == IF n.rej # <<>> /\ Eq(fs[n.rej[1].f], n.rej[1].v) THEN <<>>
                ELSE <<[j \in 1..Len(fs) |-> IF n.mark # <<>> /\ n.mark[1].f = j THEN n.mark[1].v ELSE fs[n.map[j]]]>>
\* what variant v alone gives: <<>> or <<fields>>
VariantGives(v) == LET r == TLCEval(PlainOf(v))
                       n == NewOf(IF IsStruct THEN TD.attrs ELSE TD.vs[v].attrs)
                   IN IF ~r.ok THEN <<>> ELSE LET fs == IF IsStruct THEN r.v ELSE r.v.f IN IF n = <<>> THEN <<fs>> ELSE Apply(n[1], fs)
Through == OnTexts(IsStruct => LET r == ParseOf(s) g == VariantGives(1) IN r.ok = (g # <<>>) /\ (r.ok => r.v = g[1]))
\* a rejection says nothing of the fields; a failed field does
Messages == OnTexts(IsStruct => LET r == ParseOf(s) p == PlainOf(1) IN ~r.ok => r.msgs = IF p.ok THEN {Generic} ELSE p.msgs)
IsText(i) == Pat(fi)[Rt][i].lit
InOrder == OnTexts(~IsStruct =>
             LET r == ParseOf(s)
                 g == TLCEval([v \in 1..NV |-> VariantGives(v)])
                 texts == {v \in 1..NV : IsText(v) /\ Pat(fi)[Rt][v].text = s}
                 arm == IF texts = {} THEN 0 ELSE CHOOSE v \in texts : \A w \in texts : v <= w
                 others == {v \in 1..NV : ~IsText(v) /\ g[v] # <<>>}
                 win == IF arm # 0 /\ g[IF arm = 0 THEN 1 ELSE arm] # <<>> THEN arm ELSE IF others = {} THEN 0 ELSE CHOOSE v \in others : \A w \in others : v <= w
             IN IF win = 0 THEN ~r.ok ELSE r.ok /\ r.v = [v |-> win, f |-> g[win][1]])
=============================================================================
