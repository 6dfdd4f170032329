-------------------------------- MODULE Scope --------------------------------
(* Small scopes: families of declarations, each with all texts over a small   *)
(* alphabet up to some length and a list of values.  The texts are explored   *)
(* character by character; every module MC_* states a property of every       *)
(* state.  The families are also written out, compiled against the real       *)
(* derives, and the same texts and values are run there (lib/family.py).      *)
EXTENDS RoundTrip, Json, IOUtils

Thorough == "DEEP" \in DOMAIN IOEnv /\ IOEnv.DEEP = "1"
Pick(quick, deep) == IF Thorough THEN deep ELSE quick

\* ---- building declarations -------------------------------------------------------
Attr(w) == [w |-> w, fmt |-> <<>>, opt |-> FALSE, style |-> <<>>, rx |-> <<>>, infer |-> FALSE, new |-> <<>>, dflt |-> FALSE,
            dfields |-> <<>>, ign |-> FALSE, bound |-> <<>>, with |-> <<>>]
DA == Attr("d")
FA == Attr("f")
Fmt(x) == [DA EXCEPT !.fmt = <<x>>]
Rx(n) == [FA EXCEPT !.rx = <<n>>]
Named(n, x) == [k |-> "cap", n |-> n, a |-> <<x>>]
Dot == [k |-> "any"]
Dflt == [FA EXCEPT !.dflt = TRUE]
Infer == [FA EXCEPT !.infer = TRUE]
With(n) == [DA EXCEPT !.with = <<[n |-> n]>>]
WithF(n) == [FA EXCEPT !.with = <<[n |-> n]>>]
OptA == [DA EXCEPT !.opt = TRUE]
Sc(k) == [k |-> k]
OptTy(t) == [k |-> "opt", e |-> t]
Ref(i) == [k |-> "named", n |-> i]
Fld(key, ty, attrs) == [key |-> T(key), ty |-> ty, attrs |-> attrs]
Shape(fs) == IF fs = <<>> THEN "unit" ELSE IF AllDigits(fs[1].key) THEN "tuple" ELSE "named"
Vr(name, attrs, fs) == [name |-> T(name), shape |-> Shape(fs), attrs |-> attrs, fs |-> fs]
Ty(name, kind, attrs, vs, ds, dv) == [name |-> T(name), kind |-> kind, attrs |-> attrs, vs |-> vs, ds |-> ds, dv |-> dv]
Struct(name, attrs, fs) == Ty(name, "struct", attrs, <<Vr(name, <<>>, fs)>>, <<"D", "F">>, <<>>)
FStruct(name, attrs, fs) == Ty(name, "struct", attrs, <<Vr(name, <<>>, fs)>>, <<"F">>, <<>>)
FEnum(name, attrs, vs) == Ty(name, "enum", attrs, vs, <<"F">>, <<>>)
Enum(name, attrs, vs) == Ty(name, "enum", attrs, vs, <<"D", "F">>, <<>>)
\* entries of a family: the last type is the root
Entry(types, alpha, n) == [d |-> [types |-> types], root |-> Len(types), alpha |-> alpha, n |-> n, extra |-> <<>>, vals |-> <<>>, rx |-> FALSE]

\* sequence products
Prod2(a, b) == Flatten(MapSeq(LAMBDA x : MapSeq(LAMBDA y : <<x, y>>, b), a))
Prod3(a, b, c) == Flatten(MapSeq(LAMBDA x : MapSeq(LAMBDA y : <<x>> \o y, Prod2(b, c)), a))
Prod4(a, b, c, e) == Flatten(MapSeq(LAMBDA x : MapSeq(LAMBDA y : <<x>> \o y, Prod3(b, c, e)), a))
Filter(f, Test(_)) == SelectSeq(f, Test)

\* ---- exploration -----------------------------------------------------------------
\* register 11: the family, 12: its patterns (<<>> for a rejected declaration)
\* comparing a value puts all of it in TLC's normal form, once, before the
\* workers share it (they sort the fields of a record in place)
Settled(x) == LET f == TLCEval(x) IN IF f = f THEN f ELSE <<>>
Load(fam) ==
  /\ TLCSet(11, Settled(fam))
  /\ TLCSet(13, Settled([i \in 1..Len(TLCGet(11)) |-> TLCEval(Errs(TLCGet(11)[i].d))]))
  /\ TLCSet(12, Settled([i \in 1..Len(TLCGet(11)) |-> IF TLCGet(13)[i] # {} THEN <<>> ELSE Compile(TLCGet(11)[i].d)]))
  /\ "OUT" \in DOMAIN IOEnv => JsonSerialize(IOEnv.OUT, TLCGet(11))
  /\ PrintT(<<"INFO", "declarations", Len(TLCGet(11))>>)
  /\ PrintT(<<"COUNT", "rejected declarations", Cardinality({i \in 1..Len(TLCGet(11)) : TLCGet(13)[i] # {}})>>)
Fam == TLCGet(11)
Pat(i) == TLCGet(12)[i]
Valid(i) == TLCGet(13)[i] = {}
AllValid == \A i \in 1..Len(Fam) : IF Valid(i) THEN TRUE ELSE PrintT(<<"rejected declaration", i, TLCGet(13)[i], Fam[i].d>>) /\ FALSE

VARIABLES fi, s, vi
Init == fi \in 1..Len(Fam) /\ s = <<>> /\ vi = 0
Next == /\ vi = 0
        /\ Valid(fi)
        /\ fi' = fi
        /\ \/ /\ Len(s) < Fam[fi].n
              /\ \E c \in RangeOf(Fam[fi].alpha) : s' = Append(s, c)
              /\ vi' = vi
           \/ /\ s = <<>>
              /\ s' \in RangeOf(Fam[fi].extra)
              /\ vi' = vi
           \/ /\ s = <<>>
              /\ vi' \in 1..Len(Fam[fi].vals)
              /\ s' = s
D == Fam[fi].d
Root == Ref(Fam[fi].root)
Value == Fam[fi].vals[vi]
ParseOf(x) == ParseTy(D, Pat(fi), Root, x)
TextOf(v) == FmtValue(D, Root, v, NoSpec)
\* a property of texts, and one of values
OnTexts(P) == (vi = 0 /\ Valid(fi)) => P
OnValues(P) == (vi > 0 /\ Valid(fi)) => P
=============================================================================
