------------------------------ MODULE MC_Format ------------------------------
(* C01.  Formats given piece by piece: what is written is the pieces' texts   *)
(* one after the other; which format counts; what a caller asks for does not  *)
(* reach the parts.                                                           *)
EXTENDS Scope

Str == Sc("str")
U8 == Sc("u8")
F(x) == Fmt(T(x))
In == [Struct("I", <<F("<{a}|{b}>")>>, <<Fld("a", U8, <<>>), Fld("b", Str, <<F("'{}'")>>)>>) EXCEPT !.ds = <<"D", "G">>]
E1 == [Enum("E", <<F("#{}")>>, <<Vr("Aa", <<>>, <<>>), Vr("Bb", <<F("{x}{}")>>, <<Fld("x", U8, <<>>)>>), Vr("r_c", <<F("{{{}}}")>>, <<>>)>>) EXCEPT !.ds = <<"D", "G">>]
Tup == [k |-> "tup", es |-> <<U8, Str>>]
Types == <<In, E1>>
\* pieces: literal text as it is written in the format and what it stands for; a place and its path
Lt(x, y) == [src |-> T(x), lit |-> T(y), path |-> <<>>, var |-> FALSE, sp |-> <<>>]
Vp(x, p) == [src |-> T("{") \o T(x) \o T("}"), lit |-> <<>>, path |-> MapSeq(LAMBDA k : T(k), p), var |-> TRUE, sp |-> <<>>]
Vs(x, p, sp) == [Vp(x \o ":" \o sp, p) EXCEPT !.sp = T(sp)]
Self == Vp("", <<>>)
Src(ps) == Flatten(MapSeq(LAMBDA p : p.src, ps))
Lits == <<Lt("a", "a"), Lt("{{", "{"), Lt("}}", "}"), Lt(" ", " "), Lt("\\", "\\"), Lt("{{}}", "{}"), Lt("%", "%"), Lt("\n", "\n")>>
Seqs1(pool) == MapSeq(LAMBDA x : <<x>>, pool)
UpTo2(pool) == Seqs1(pool) \o Prod2(pool, pool)
\* all sequences of two, a sample of those of three and four
Seqs(pool0, s3, s4) == LET pool == TLCEval(pool0) n == Len(pool) IN UpTo2(pool)
   \o [i \in 1..((n * n * n) \div s3) |-> LET k == i * s3 - 1 IN <<pool[1 + (k % n)], pool[1 + ((k \div n) % n)], pool[1 + (k \div (n * n))]>>]
   \o [i \in 1..((n * n * n * n) \div s4) |-> LET k == i * s4 - 1 IN <<pool[1 + (k % n)], pool[1 + ((k \div n) % n)], pool[1 + ((k \div (n * n)) % n)], pool[1 + (k \div (n * n * n))]>>]
Ent(e, ps) == [d |-> e.d, root |-> e.root, alpha |-> e.alpha, n |-> e.n, extra |-> e.extra, vals |-> e.vals, rx |-> e.rx, ps |-> ps]
DTypes(t) == [t EXCEPT !.ds = <<"D", "G">>]
\* ---- a struct with named fields
NPool == Lits \o <<Vp("a", <<"a">>), Vp("b", <<"b">>), Vp("i", <<"i">>), Vp("e", <<"e">>), Vp("i.a", <<"i", "a">>), Vp("i.b", <<"i", "b">>), Vp("t.1", <<"t", "1">>), Vs("b", <<"b">>, "?"), Vs("a", <<"a">>, ">3")>>
NFields == <<Fld("e", Ref(2), <<>>), Fld("b", Str, <<>>), Fld("t", Tup, <<>>), Fld("i", Ref(1), <<>>), Fld("a", U8, <<>>)>>
NVals == <<<<[v |-> 1, f |-> <<>>], T("x"), <<T("1"), T("t")>>, <<T("2"), T("q")>>, T("7")>>, <<[v |-> 2, f |-> <<T("3")>>], T("{}"), <<T("0"), T("")>>, <<T("255"), T("")>>, T("42")>>>>
Named1 == MapSeq(LAMBDA ps : Ent([Entry(Types \o <<DTypes(Struct("X", <<Fmt(Src(ps))>>, NFields))>>, <<>>, 0) EXCEPT !.vals = NVals], ps), Seqs(NPool, Pick(31, 5), Pick(601, 101)))
\* ---- a tuple struct; formats on fields
TPool == <<Lt("0", "0"), Lt("{{0}}", "{0}"), Vp("0", <<"0">>), Vp("1", <<"1">>), Vp("1.a", <<"1", "a">>), Vp("2.1", <<"2", "1">>)>>
TVals == <<<<T("5"), <<T("2"), T("q")>>, <<T("1"), T("t")>>>>>>
TupleS == MapSeq(LAMBDA ps : Ent([Entry(Types \o <<DTypes(Struct("X", <<Fmt(Src(ps))>>, <<Fld("0", U8, <<>>), Fld("1", Ref(1), <<>>), Fld("2", Tup, <<>>)>>))>>, <<>>, 0) EXCEPT !.vals = TVals], ps), Seqs(TPool, Pick(9, 2), Pick(101, 11)))
FPool == <<Lt("a", "a"), Lt("{{", "{"), Lt("}}", "}"), Self, Vp("a", <<"a">>), Vp("b", <<"b">>)>>
FieldF == MapSeq(LAMBDA ps : Ent([Entry(Types \o <<DTypes(Struct("X", <<F("<{i}{i.b}>")>>, <<Fld("i", Ref(1), <<Fmt(Src(ps))>>)>>))>>, <<>>, 0) EXCEPT !.vals = <<<<<<T("2"), T("q")>>>>>>], ps), Seqs(FPool, Pick(7, 1), Pick(31, 5)))
\* ---- enums: [format of the type, formats of the variants]
EPool == <<Lt("a", "a"), Lt("{{}}", "{}"), Self, Vp("x", <<"x">>)>>
EVals == MapSeq(LAMBDA i : [v |-> i, f |-> <<T("1"), T("y")>>], <<1, 2, 3>>)
VFs == <<Fld("x", U8, <<>>), Fld("y", Str, <<F("[{}]")>>)>>
EnumT == MapSeq(LAMBDA ps : Ent([Entry(Types \o <<DTypes(Enum("X", <<Fmt(Src(ps))>>, <<Vr("Aa", <<>>, VFs), Vr("Bb", <<F("{y}:{}")>>, VFs), Vr("r_c", <<F("{x}")>>, VFs)>>))>>, <<>>, 0) EXCEPT !.vals = EVals], ps), Seqs(EPool, Pick(3, 1), Pick(13, 3)))
EnumV == MapSeq(LAMBDA ps : Ent([Entry(Types \o <<DTypes(Enum("X", <<F("T{y}")>>, <<Vr("Aa", <<Fmt(Src(ps))>>, VFs), Vr("Bb", <<>>, VFs), Vr("r_c", <<Fmt(Src(ps)), F("{x}")>>, VFs)>>))>>, <<>>, 0) EXCEPT !.vals = EVals], ps), Seqs(EPool, Pick(3, 1), Pick(13, 3)))
ASSUME TLCSet(21, Settled(<<Named1, TupleS, FieldF, EnumT, EnumV>>))
Parts == TLCGet(21)
ASSUME Load(Parts[1] \o Parts[2] \o Parts[3] \o Parts[4] \o Parts[5]) /\ AllValid
Part == LET RECURSIVE P(_, _) P(p, n) == IF fi <= n + Len(Parts[p]) THEN p ELSE P(p + 1, n + Len(Parts[p])) IN P(1, 0)
Ps == Fam[fi].ps

\* what the pieces say of a struct or variant V, its values vs and the text nm of {}
Say(ps, V, vs, nm) == Flatten(MapSeq(LAMBDA p :
    IF ~p.var THEN p.lit
    ELSE IF p.path = <<>> THEN nm
    ELSE LET i == CHOOSE i \in 1..Len(V.fs) : V.fs[i].key = p.path[1]
             sp == ParseSpec(p.sp)
         IN IF Len(p.path) = 1 /\ V.fs[i].attrs # <<>>  THEN T("[") \o FmtValue(D, V.fs[i].ty, vs[i], sp) \o T("]")
            ELSE FmtValue(D, TypeAt(D, V.fs[i].ty, Tail(p.path))[1], GetAt(D, V.fs[i].ty, vs[i], Tail(p.path)), sp), ps))
X == D.types[3]
Inner == [fs |-> D.types[1].vs[1].fs]
\* a piece of the inner struct is written without the format its own field has there
Bare == [fs |-> MapSeq(LAMBDA f : [f EXCEPT !.attrs = <<>>], D.types[1].vs[1].fs)]
InText(v) == T("<") \o v[1] \o T("|'") \o v[2] \o T("'>")
Pieces == OnValues(TextOf(Value) =
   CASE Part \in {1, 2} -> Say(Ps, X.vs[1], Value, <<>>)
     [] Part = 3 -> T("<") \o Say(Ps, Bare, Value[1], InText(Value[1])) \o Value[1][2] \o T(">")
     [] Part = 4 -> (CASE Value.v = 1 -> Say(Ps, X.vs[1], Value.f, T("Aa")) [] Value.v = 2 -> T("[") \o Value.f[2] \o T("]:Bb") [] OTHER -> Value.f[1])
     [] Part = 5 -> (CASE Value.v = 1 -> Say(Ps, X.vs[1], Value.f, T("Aa")) [] Value.v = 2 -> T("T[") \o Value.f[2] \o T("]") [] OTHER -> Value.f[1]))
\* splitting a format loses nothing but the doubling of braces
Esc(x) == Flatten(MapSeq(LAMBDA c : IF c \in {LB, RB} THEN <<c, c>> ELSE <<c>>, x))
Whole == (s = <<>> /\ vi = 0) => LET q == SplitFormat(Src(Ps)) IN
   q.ok /\ Src(Ps) = Flatten(MapSeq(LAMBDA p : IF p.k = "str" THEN Esc(p.s) ELSE T("{") \o p.arg \o (IF p.spec = <<>> THEN <<>> ELSE T(":") \o p.spec) \o T("}"), q.parts))
=============================================================================
