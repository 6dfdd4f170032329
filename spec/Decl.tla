-------------------------------- MODULE Decl --------------------------------
(* Declarations: types with their helper attributes, attribute resolution,    *)
(* and the pattern ("what FromStr looks for") a declaration stands for.       *)
(*                                                                            *)
(* A declaration set D is a record with D.types, a sequence of                *)
(*   [name, kind: "struct"|"enum", attrs, vs, ds, dv]                         *)
(* where vs are the variants [name, shape, attrs, fs] (one for a struct), fs  *)
(* the fields [key, ty, attrs], ds the derived or hand written traits, dv the *)
(* Default value if any.                                                      *)
(* A helper attribute is a record [w |-> "d" or "f", ...], see NoAttr.        *)
EXTENDS Style, FormatText, Regex

NoAttr == [fmt |-> <<>>, with |-> <<>>, opt |-> FALSE, style |-> <<>>, rx |-> <<>>, infer |-> FALSE,
           new |-> <<>>, dflt |-> FALSE, dfields |-> <<>>, ign |-> FALSE, bd |-> <<>>, bf |-> <<>>]
Over(a, b) == IF b = <<>> THEN a ELSE b
AddBound(a, b) == IF b = <<>> THEN a ELSE IF a = <<>> THEN b ELSE <<a[1] \o b[1]>>
ApplyDisplay(r, a) == [r EXCEPT !.fmt = Over(@, a.fmt), !.with = Over(@, a.with), !.opt = @ \/ a.opt,
                                !.style = Over(@, a.style), !.bd = AddBound(@, a.bound)]
ApplyFromStr(r, a) == [r EXCEPT !.rx = Over(@, a.rx), !.infer = @ \/ a.infer, !.with = Over(@, a.with),
                                !.new = Over(@, a.new), !.dflt = @ \/ a.dflt, !.dfields = @ \o a.dfields,
                                !.ign = @ \/ a.ign, !.bf = AddBound(@, a.bound)]
\* Display looks at display attributes only; FromStr at those and then at from_str attributes
Resolve(attrs, fs) ==
  LET RECURSIVE F(_, _, _)
      F(i, r, w) == IF i > Len(attrs) THEN r
                    ELSE F(i + 1, IF attrs[i].w # w THEN r
                                  ELSE IF w = "d" THEN ApplyDisplay(r, attrs[i]) ELSE ApplyFromStr(r, attrs[i]), w)
      d == F(1, NoAttr, "d")
  IN IF fs THEN F(1, d, "f") ELSE d

FieldIx(V, k) == IF \E i \in 1..Len(V.fs) : V.fs[i].key = k THEN CHOOSE i \in 1..Len(V.fs) : V.fs[i].key = k ELSE 0
StyledName(td, V, fs) ==
  LET v == Resolve(V.attrs, fs).style
      t == Resolve(td.attrs, fs).style
      st == IF v # <<>> THEN v[1] ELSE IF t # <<>> THEN t[1] ELSE "none"
  IN StyleApply(st, V.name)

\* ---- format in force -----------------------------------------------------------
\* the parts of the format of a struct or variant: [ok, parts]
UnitParts == [ok |-> TRUE, parts |-> <<[k |-> "var", s |-> <<>>, arg |-> <<>>, spec |-> <<>>]>>]
NewtypeParts(V) == [ok |-> TRUE, parts |-> <<[k |-> "var", s |-> <<>>, arg |-> V.fs[1].key, spec |-> <<>>]>>]
NoParts == [ok |-> FALSE, parts |-> <<>>]
DefaultParts(td, V) == IF td.kind = "struct" THEN (IF Len(V.fs) = 1 THEN NewtypeParts(V) ELSE NoParts)
                       ELSE (IF V.shape = "unit" THEN UnitParts ELSE NoParts)
DisplayParts(td, V) ==
  LET va == Resolve(V.attrs, FALSE).fmt
      ta == Resolve(td.attrs, FALSE).fmt
  IN IF td.kind = "enum" /\ va # <<>> THEN SplitFormat(va[1])
     ELSE IF ta # <<>> THEN SplitFormat(ta[1]) ELSE DefaultParts(td, V)

\* ---- types -----------------------------------------------------------------------
Elem(ty) == ty.e
ValueTy(f, a) == IF a.opt /\ f.ty.k = "opt" THEN Elem(f.ty) ELSE f.ty
Pointers == {"ref", "box"}
RECURSIVE Under(_)
Under(ty) == IF ty.k \in Pointers THEN Under(ty.e) ELSE ty
\* the type at a nested path, <<>> if there is none
RECURSIVE TypeAt(_, _, _)
TypeAt(D, ty, p) ==
  IF p = <<>> THEN <<ty>>
  ELSE CASE ty.k = "tup" -> (IF AllDigits(p[1]) /\ NumOf(p[1]) < Len(ty.es) THEN TypeAt(D, ty.es[NumOf(p[1]) + 1], Tail(p)) ELSE <<>>)
         [] ty.k = "named" -> (LET td == D.types[ty.n]
                                   V == td.vs[1]
                                   i == FieldIx(V, p[1])
                               IN IF td.kind # "struct" \/ i = 0 THEN <<>> ELSE TypeAt(D, V.fs[i].ty, Tail(p)))
         [] ty.k \in Pointers -> TypeAt(D, ty.e, p)
         [] OTHER -> <<>>
StepIx(D, typ, key) == LET ty == Under(typ) IN IF ty.k = "tup" THEN NumOf(key) + 1 ELSE FieldIx(D.types[ty.n].vs[1], key)
StepTy(D, ty, key) == TypeAt(D, ty, <<key>>)[1]
RECURSIVE GetAt(_, _, _, _)
GetAt(D, ty, v, p) == IF p = <<>> THEN v ELSE GetAt(D, StepTy(D, ty, p[1]), v[StepIx(D, ty, p[1])], Tail(p))
RECURSIVE SetAt(_, _, _, _, _)
SetAt(D, ty, v, p, x) == IF p = <<>> THEN x
                         ELSE LET i == StepIx(D, ty, p[1])
                              IN [v EXCEPT ![i] = SetAt(D, StepTy(D, ty, p[1]), v[i], Tail(p), x)]

RECURSIVE DefaultOf(_, _)
DefaultOf(D, ty) ==
  CASE ty.k \in IntTypes -> <<48>> [] ty.k \in FloatTypes -> <<48>> [] ty.k = "str" -> <<>> [] ty.k = "char" -> <<NUL>>
    [] ty.k = "bool" -> T("false") [] ty.k \in {"opt", "vec"} -> <<>>
    [] ty.k = "tup" -> MapSeq(LAMBDA e : DefaultOf(D, e), ty.es)
    [] ty.k = "named" -> D.types[ty.n].dv[1]
    [] ty.k \in Pointers -> DefaultOf(D, ty.e)
    [] OTHER -> <<>>

\* ---- custom formats (the parse_display_with crate and the harness library) ----------
\* pattern of a format; LazyAny for the formats that report ANY_REGEX
RECURSIVE FormatNode(_, _, _), TypeNode(_, _), FieldNodes(_, _, _, _), ContainerPat(_, _, _)
Rng(a, b) == Cls(<<<<CodeOf(a), CodeOf(b)>>>>)
FormatNode(D, w, ty) ==
  CASE w.n = "infer" -> TypeNode(D, ty)
    [] w.n = "rx" -> Norm(w.re[1], FALSE, FALSE)
    [] w.n = "brkr" -> Cat(<<Lit(T("[")), Star([k |-> "cls", neg |-> TRUE, r |-> <<<<91, 91>>, <<93, 93>>>>]), Lit(T("]"))>>)
    [] w.n = "num" -> Plus(DigitCls)
    [] w.n = "alt" -> Alt(<<Plus(Rng("a", "c")), Rep(2, 2, TRUE, DigitCls)>>)
    [] w.n = "alt2" -> Alt(<<Lit(T("a")), Lit(T("ab"))>>)
    [] w.n = "grp" -> Cat(<<Alt(<<Lit(T("x")), Lit(T("y"))>>), Opt(Alt(<<Lit(T("1")), Lit(T("2"))>>))>>)
    [] w.n = "nest" -> Plus(Cat(<<Alt(<<Lit(T("x")), Lit(T("y"))>>), Opt(Alt(<<Lit(T("1")), Cat(<<Lit(T("2")), Lit(T("3"))>>)>>))>>))
    [] w.n = "old" -> Plus(Rng("a", "z"))
    [] w.n = "cis" -> Norm(Lit(T("ab")), TRUE, FALSE)
    [] w.n = "hex" -> Plus(Cls(<<<<48, 57>>, <<97, 102>>>>))
    [] w.n = "rej" -> Plus(Rng("a", "z"))
    [] w.n = "dota" -> Norm(Rep(0, -1, TRUE, [k |-> "any"]), FALSE, FALSE)
    [] OTHER -> LazyAny

\* the FromStrRegex of a type
TypeNode(D, ty) ==
  CASE ty.k \in IntTypes \cup NzTypes -> (IF IntSigned(ty.k) THEN Cat(<<Opt(Lit(T("-"))), Plus(DigitCls)>>) ELSE Plus(DigitCls))
    [] ty.k \in FloatTypes ->
         Norm(Alt(<<Cat(<<Opt(Cls(<<<<43, 43>>, <<45, 45>>>>)),
                          Alt(<<Cat(<<Plus(DigitCls), Opt(Lit(T(".")))>>), Cat(<<Star(DigitCls), Lit(T(".")), Plus(DigitCls)>>)>>),
                          Opt(Cat(<<Lit(T("e")), Opt(Cls(<<<<43, 43>>, <<45, 45>>>>)), Plus(DigitCls)>>))>>),
                    Cat(<<Opt(Cls(<<<<43, 43>>, <<45, 45>>>>)), Lit(T("inf"))>>),
                    Lit(T("nan"))>>), TRUE, FALSE)
    [] ty.k = "char" -> AnyChar
    [] ty.k = "bool" -> Alt(<<Lit(T("true")), Lit(T("false"))>>)
    [] ty.k = "prb" -> Alt(<<Lit(T("a")), Lit(T("ab")), Star([k |-> "cls", neg |-> TRUE, r |-> <<<<33, 33>>>>])>>)
    [] ty.k = "named" ->
         (LET td == D.types[ty.n]
              vis == SelectSeq([i \in 1..Len(td.vs) |-> i], LAMBDA i : ~Resolve(td.vs[i].attrs, TRUE).ign)
              P(i) == Strip(Cat(ContainerPat(D, ty.n, i).nodes))
          IN IF td.kind = "struct" THEN P(1)
             ELSE IF vis = <<>> THEN Lit(<<>>) ELSE Alt(MapSeq(P, vis)))
    [] OTHER -> LazyAny

\* ---- patterns --------------------------------------------------------------------------
\* a regex with its named groups turned into labels; base is <<>> in a struct or variant (the
\* first key of the group name is the field) or <<field index>> in a field (the name is a path);
\* the empty name stands for the literal nm there, and for the field itself here
RECURSIVE LabelCaps(_, _, _, _)
LabelCaps(V, n, base, nm) ==
  CASE n.k = "cap" ->
         (LET ks == Keys(n.n)
              sub == LabelCaps(V, n.a[1], base, nm)
          IN IF base # <<>> THEN Cap(base[1], ks, sub)
             ELSE IF ks = <<>> THEN Lit(nm)
             ELSE IF FieldIx(V, ks[1]) = 0 THEN sub          \* such a declaration is rejected
             ELSE Cap(FieldIx(V, ks[1]), Tail(ks), sub))
    [] n.k \in {"cat", "alt", "rep", "grp", "ci", "dotall", "nci", "nds"} -> [n EXCEPT !.a = MapSeq(LAMBDA x : LabelCaps(V, x, base, nm), n.a)]
    [] OTHER -> n

\* the `with` in force for a field, counting regex_infer of the field, variant or type
WithOf(a, infer) == IF a.with # <<>> THEN a.with ELSE IF a.infer \/ infer THEN <<[n |-> "infer"]>> ELSE <<>>
ContainerInfer(td, V) == Resolve(td.attrs, TRUE).infer \/ Resolve(V.attrs, TRUE).infer

\* the nodes a field stands for where the format names it
FieldNodes(D, td, V, fi) ==
  LET f == V.fs[fi]
      a == Resolve(f.attrs, TRUE)
      w == WithOf(a, ContainerInfer(td, V))
      wn == IF w = <<>> THEN LazyAny ELSE FormatNode(D, w[1], ValueTy(f, a))
      FmtNodes(parts, x) ==
        MapSeq(LAMBDA p : IF p.k = "str" THEN Lit(p.s)
                          ELSE IF Keys(p.arg) = <<>> THEN Cap(fi, <<>>, x)
                          ELSE Cap(fi, Keys(p.arg), LazyAny), parts)
      rn == Norm(a.rx[1], FALSE, FALSE)
      body == IF a.rx # <<>>
              THEN IF CapNames(a.rx[1]) # <<>> THEN <<Norm(LabelCaps(V, a.rx[1], <<fi>>, <<>>), FALSE, FALSE)>>
                   ELSE IF a.fmt # <<>> THEN FmtNodes(SplitFormat(a.fmt[1]).parts, rn)
                   ELSE <<Cap(fi, <<>>, rn)>>
              ELSE IF a.fmt # <<>> THEN FmtNodes(SplitFormat(a.fmt[1]).parts, wn)
              ELSE <<Cap(fi, <<>>, wn)>>
  IN IF a.opt THEN <<Rep(0, 1, FALSE, Cat(body))>> ELSE body

\* the source of the pattern of a struct or variant: [rx] or [parts]
PatSource(td, V) ==
  LET ta == Resolve(td.attrs, TRUE)
      va == Resolve(V.attrs, TRUE)
      none == [rx |-> <<>>, parts |-> NoParts]
      F(s) == [none EXCEPT !.parts = SplitFormat(s)]
      R(x) == [none EXCEPT !.rx = <<x>>]
  IN IF td.kind = "enum" /\ va.rx # <<>> THEN R(va.rx[1])
     ELSE IF td.kind = "enum" /\ va.fmt # <<>> THEN F(va.fmt[1])
     ELSE IF ta.rx # <<>> THEN R(ta.rx[1])
     ELSE IF ta.fmt # <<>> THEN F(ta.fmt[1])
     ELSE [none EXCEPT !.parts = DefaultParts(td, V)]

\* [lit: the accepted text is one fixed string, nodes]
ContainerPat(D, ti, vi) ==
  LET td == D.types[ti]
      V == td.vs[vi]
      src == PatSource(td, V)
      nm == IF td.kind = "enum" THEN StyledName(td, V, TRUE) ELSE <<>>
      IsText(p) == p.k = "str" \/ (td.kind = "enum" /\ Keys(p.arg) = <<>>)
      Part(p) == IF p.k = "str" THEN <<Lit(p.s)>>
                 ELSE LET ks == Keys(p.arg)
                      IN IF ks = <<>> THEN (IF td.kind = "enum" THEN <<Lit(nm)>> ELSE <<LazyAny>>)
                         ELSE IF FieldIx(V, ks[1]) = 0 THEN <<>>
                         ELSE IF Len(ks) = 1 THEN FieldNodes(D, td, V, FieldIx(V, ks[1]))
                         ELSE <<Cap(FieldIx(V, ks[1]), Tail(ks), LazyAny)>>
  IN IF src.rx # <<>>
     THEN [lit |-> FALSE, nodes |-> <<Norm(LabelCaps(V, src.rx[1], <<>>, nm), FALSE, FALSE)>>]
     ELSE [lit |-> \A i \in 1..Len(src.parts.parts) : IsText(src.parts.parts[i]),
           nodes |-> Flatten(MapSeq(Part, src.parts.parts))]
=============================================================================
