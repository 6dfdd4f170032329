------------------------------- MODULE Bounds --------------------------------
(* The where clauses of generated impls, and which instantiations of a        *)
(* generic type they admit.  Declarations are those of module Decl with       *)
(* generic types: D.types[i].np is the number of parameters, and a type may   *)
(* also be                                                                    *)
(*   [k |-> "param", i]        a parameter                                    *)
(*   [k |-> "mark", s]         a marker type that has exactly the traits s    *)
(*   [k |-> "cst", c]          a constant, argument of a const parameter      *)
(*   [k |-> "w", e]            a wrapper with every trait its content has     *)
(*   [k |-> "fix", e]          a wrapper with Display, Debug, FromStr and     *)
(*                             Default whatever its content                   *)
(*   [k |-> "bx", e]           Box: Display and Debug of its content          *)
(*   [k |-> "out", e, q]       the associated type of a parameter; of a       *)
(*                             marker: the marker of all other traits         *)
(*   [k |-> "arr", e]          a type with one const parameter                *)
(*   [k |-> "named", n, args]  a declared type with arguments                 *)
(* An item of a `bound(..)` list is [k |-> "ty", ty], [k |-> "pred", ty, trs] *)
(* or [k |-> "dots"].                                                         *)
EXTENDS Sem

\* FromStrRegex comes with FromStr
MarkTraits == {"Display", "Debug", "LowerHex", "FromStr", "FromStrRegex"}
MarkHas(s, tr) == (IF tr = "FromStrRegex" THEN "FromStr" ELSE tr) \in RangeOf(s)
RECURSIVE Subst(_, _)
Subst(ty, args) ==
  CASE ty.k = "param" -> args[ty.i]
    [] ty.k \in {"opt", "vec", "w", "fix", "bx", "out", "arr"} -> [ty EXCEPT !.e = Subst(ty.e, args)]
    [] ty.k = "tup" -> [ty EXCEPT !.es = MapSeq(LAMBDA x : Subst(x, args), ty.es)]
    [] ty.k = "named" -> [ty EXCEPT !.args = MapSeq(LAMBDA x : Subst(x, args), ty.args)]
    [] OTHER -> ty
RECURSIVE Mentions(_)
Mentions(ty) ==
  CASE ty.k = "param" -> TRUE
    [] ty.k \in {"opt", "vec", "w", "fix", "bx", "out", "arr"} -> Mentions(ty.e)
    [] ty.k = "tup" -> \E i \in 1..Len(ty.es) : Mentions(ty.es[i])
    [] ty.k = "named" -> \E i \in 1..Len(ty.args) : Mentions(ty.args[i])
    [] OTHER -> FALSE

\* ---- bounds of one derive -------------------------------------------------------------
(* A level (type, variant, field) has a list of its own or none.  Without one *)
(* everything below it counts; with one only the list does, unless it         *)
(* contains `..`.                                                             *)
Ob(ty, tr) == [ty |-> ty, tr |-> tr]
Items(l, tr) == UNION {CASE l[i].k = "ty" -> {Ob(l[i].ty, tr)}
                         [] l[i].k = "pred" -> {Ob(l[i].ty, t) : t \in RangeOf(l[i].trs)}
                         [] OTHER -> {} : i \in 1..Len(l)}
Opened(b) == b = <<>> \/ \E i \in 1..Len(b[1]) : b[1][i].k = "dots"
\* what a level contributes, given what is below it
Level(b, tr, below) == (IF b = <<>> THEN {} ELSE Items(b[1], tr)) \cup (IF Opened(b) THEN below ELSE {})
FromStrBound(a) == IF a.bf # <<>> THEN a.bf ELSE a.bd

\* the automatic requirements of a field shown under sp
FieldShow(f, sp) ==
  LET a == Resolve(f.attrs, FALSE)
      ty == ValueTy(f, a)
      Self(s) == IF a.with # <<>> \/ ~Mentions(ty) THEN {} ELSE {Ob(ty, TraitOf(s))}
      auto == IF a.fmt = <<>> THEN Self(sp)
              ELSE LET ps == SplitFormat(a.fmt[1]).parts
                   IN UNION {IF ps[i].k = "var" /\ Keys(ps[i].arg) = <<>> THEN Self(ParseSpec(ps[i].spec)) ELSE {} : i \in 1..Len(ps)}
  IN Level(a.bd, "Display", auto)
DisplayVariant(td, V) ==
  LET ps == DisplayParts(td, V).parts
  IN UNION {IF ps[i].k = "var" /\ Len(Keys(ps[i].arg)) = 1 THEN FieldShow(V.fs[FieldIx(V, Keys(ps[i].arg)[1])], ParseSpec(ps[i].spec)) ELSE {} : i \in 1..Len(ps)}
DisplayWhere(D, ti) ==
  LET td == D.types[ti]
      V(i) == IF td.kind = "struct" THEN DisplayVariant(td, td.vs[1])
              ELSE Level(Resolve(td.vs[i].attrs, FALSE).bd, "Display", DisplayVariant(td, td.vs[i]))
  IN Level(Resolve(td.attrs, FALSE).bd, "Display", UNION {V(i) : i \in 1..Len(td.vs)})

\* the fields of a variant the format captures whole
Captured(D, ti, vi, fi) == \E l \in RangeOf(Labels(Cat(ContainerPat(D, ti, vi).nodes))) : l = <<fi, <<>>>>
FromStrVariant(D, ti, vi) ==
  LET td == D.types[ti]
      V == td.vs[vi]
      One(fi) == LET f == V.fs[fi]
                     a == Resolve(f.attrs, TRUE)
                     ty == ValueTy(f, a)
                     auto == IF Captured(D, ti, vi, fi) /\ WithOf(a, ContainerInfer(td, V)) = <<>> /\ Mentions(ty) THEN {Ob(ty, "FromStr")} ELSE {}
                 IN Level(FromStrBound(a), "FromStr", auto)
  IN UNION {One(fi) : fi \in 1..Len(V.fs)}
FromStrWhere(D, ti) ==
  LET td == D.types[ti]
      Ign(i) == td.kind = "enum" /\ Resolve(td.vs[i].attrs, TRUE).ign
      V(i) == IF td.kind = "struct" THEN FromStrVariant(D, ti, 1)
              ELSE IF Ign(i) THEN {} ELSE Level(FromStrBound(Resolve(td.vs[i].attrs, TRUE)), "FromStr", FromStrVariant(D, ti, i))
  IN Level(FromStrBound(Resolve(td.attrs, TRUE)), "FromStr", UNION {V(i) : i \in 1..Len(td.vs)})
Where(D, ti, tr) == IF tr = "Display" THEN DisplayWhere(D, ti) ELSE FromStrWhere(D, ti)

\* ---- which types have which traits --------------------------------------------------------
FmtTraits == {"Display", "Debug", "LowerHex", "UpperHex", "Octal", "Binary", "LowerExp", "UpperExp"}
RECURSIVE Holds(_, _, _, _)
\* given the assumptions A
Holds(D, A, ty, tr) ==
  IF Ob(ty, tr) \in A \/ (tr = "FromStr" /\ Ob(ty, "FromStrRegex") \in A) THEN TRUE
  ELSE CASE ty.k = "mark" -> MarkHas(ty.s, tr)
         [] ty.k \in IntTypes \cup NzTypes -> tr \in FmtTraits \cup {"FromStr", "FromStrRegex"} \/ (tr \in {"Default", "TryFrom"} /\ ty.k \in IntTypes)
         [] ty.k \in FloatTypes -> tr \in {"Display", "Debug", "LowerExp", "UpperExp", "FromStr", "FromStrRegex", "Default"}
         [] ty.k \in {"str", "char", "bool"} -> tr \in {"Display", "Debug", "FromStr", "FromStrRegex", "Default"}
         [] ty.k \in {"opt", "vec"} -> tr = "Default" \/ (tr = "Debug" /\ Holds(D, A, ty.e, tr))
         [] ty.k = "tup" -> tr \in {"Debug", "Default"} /\ \A i \in 1..Len(ty.es) : Holds(D, A, ty.es[i], tr)
         [] ty.k = "w" -> tr \in MarkTraits /\ Holds(D, A, ty.e, tr)
         [] ty.k = "fix" -> tr \in {"Display", "Debug", "FromStr", "Default"}
         [] ty.k = "bx" -> tr \in {"Display", "Debug"} /\ Holds(D, A, ty.e, tr)
         [] ty.k = "out" -> ty.e.k = "mark" /\ tr \in MarkTraits /\ ~MarkHas(ty.e.s, tr)
         [] ty.k = "arr" -> ty.e.k = "cst" /\ ((tr = "Display" /\ ty.e.c \in {0, 1}) \/ (tr = "FromStr" /\ ty.e.c = 1) \/ (tr = "Debug" /\ ty.e.c \in {0, 2}))
         [] ty.k = "named" ->
              /\ (tr = "Display" /\ "D" \in RangeOf(D.types[ty.n].ds)) \/ (tr \in {"FromStr", "FromStrRegex"} /\ "F" \in RangeOf(D.types[ty.n].ds))
              /\ \A o \in Where(D, ty.n, tr) : Holds(D, A, Subst(o.ty, ty.args), o.tr)
         [] OTHER -> FALSE

\* ---- what the generated code uses (for every instantiation) -------------------------------
WithUse(w, ty, tr) == IF w.n = "hex" THEN (IF tr = "Display" THEN {Ob(ty, "LowerHex")} ELSE {Ob(ty, "TryFrom")})
                      ELSE IF w.n = "infer" THEN {Ob(ty, "FromStr"), Ob(ty, "FromStrRegex")} ELSE {Ob(ty, tr)}
RECURSIVE TyAt(_, _)
TyAt(ty, p) == IF p = <<>> THEN ty ELSE TyAt(ty.es[NumOf(p[1]) + 1], Tail(p))     \* paths go into tuples here
DisplayUse(D, ti) ==
  LET td == D.types[ti]
      Show(f, sp) ==
        LET a == Resolve(f.attrs, FALSE)
            ty == ValueTy(f, a)
            Self(s) == IF a.with # <<>> THEN WithUse(a.with[1], ty, "Display") ELSE {Ob(ty, TraitOf(s))}
            ps == SplitFormat(a.fmt[1]).parts
        IN IF a.fmt = <<>> THEN Self(sp)
           \* a formatted text has no other traits
           ELSE (IF TraitOf(sp) \in {"Display", "Debug"} THEN {} ELSE {Ob([k |-> "str"], TraitOf(sp))}) \cup UNION {IF ps[i].k = "str" THEN {} ELSE LET s == ParseSpec(ps[i].spec) ks == Keys(ps[i].arg)
                                                     IN IF ks = <<>> THEN Self(s) ELSE {Ob(TyAt(ty, ks), TraitOf(s))} : i \in 1..Len(ps)}
      Variant(V) == LET ps == DisplayParts(td, V).parts
                    IN UNION {LET ks == Keys(ps[i].arg)
                                  sp == ParseSpec(ps[i].spec)
                                  f == V.fs[FieldIx(V, ks[1])]
                              IN IF ps[i].k = "str" \/ ks = <<>> THEN {}
                                 ELSE IF Len(ks) = 1 THEN Show(f, sp) ELSE {Ob(TyAt(f.ty, Tail(ks)), TraitOf(sp))} : i \in 1..Len(ps)}
  IN UNION {Variant(td.vs[i]) : i \in 1..Len(td.vs)}
FromStrUse(D, ti) ==
  LET td == D.types[ti]
      Variant(vi) ==
        LET V == td.vs[vi]
            labs == RangeOf(Labels(Cat(ContainerPat(D, ti, vi).nodes)))
            F(fi) == LET f == V.fs[fi]
                         a == Resolve(f.attrs, TRUE)
                         ty == ValueTy(f, a)
                         w == WithOf(a, ContainerInfer(td, V))
                     IN IF <<fi, <<>>>> \in labs THEN (IF w # <<>> THEN WithUse(w[1], ty, "FromStr") ELSE {Ob(ty, "FromStr")})
                        ELSE {Ob(f.ty, "Default")}
        IN UNION {F(fi) : fi \in 1..Len(V.fs)} \cup {Ob(TyAt(V.fs[l[1]].ty, l[2]), "FromStr") : l \in {x \in labs : x[2] # <<>>}}
  IN UNION {IF td.kind = "enum" /\ Resolve(td.vs[vi].attrs, TRUE).ign THEN {} ELSE Variant(vi) : vi \in 1..Len(td.vs)}
Use(D, ti, tr) == IF tr = "Display" THEN DisplayUse(D, ti) ELSE FromStrUse(D, ti)

\* ---- verdicts --------------------------------------------------------------------------------
Derived(D, ti) == (IF "D" \in RangeOf(D.types[ti].ds) THEN {"Display"} ELSE {}) \cup (IF "F" \in RangeOf(D.types[ti].ds) THEN {"FromStr"} ELSE {})
\* the impls of a type compile: what their code uses follows from their where clauses
Compiles(D, ti) == \A tr \in Derived(D, ti) : LET A == Where(D, ti, tr) IN \A o \in Use(D, ti, tr) : Holds(D, A, o.ty, o.tr)
AllCompile(D) == \A ti \in 1..Len(D.types) : Compiles(D, ti)
\* an instantiation implements a trait
Applies(D, ti, args, tr) == Holds(D, {}, [k |-> "named", n |-> ti, args |-> args], tr)
=============================================================================
