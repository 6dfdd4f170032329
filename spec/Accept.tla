------------------------------- MODULE Accept -------------------------------
(* Which declarations are accepted.  Errors are named; a declaration whose    *)
(* set of errors is empty has to compile, any other has to be rejected.       *)
EXTENDS Sem

RECURSIVE HasTrait(_, _, _), HasFromStr(_, _), HasDefault(_, _)
\* the formatting traits of a type
HasTrait(D, ty, tr) ==
  CASE ty.k \in IntTypes \cup NzTypes -> tr # "Pointer"
    [] ty.k \in FloatTypes -> tr \in {"Display", "Debug", "LowerExp", "UpperExp"}
    [] ty.k \in {"str", "char", "bool"} -> tr \in {"Display", "Debug"}
    [] ty.k = "prb" -> TRUE
    [] ty.k \in {"path", "os"} -> tr = "Debug"
    [] ty.k = "box" -> tr \in {"Display", "Debug"} /\ HasTrait(D, ty.e, tr)
    [] ty.k = "ref" -> HasTrait(D, ty.e, tr)
    [] ty.k \in {"opt", "vec"} -> tr = "Debug" /\ HasTrait(D, ty.e, tr)
    [] ty.k = "tup" -> tr = "Debug" /\ \A i \in 1..Len(ty.es) : HasTrait(D, ty.es[i], tr)
    [] ty.k = "named" -> LET ds == RangeOf(D.types[ty.n].ds) IN (tr = "Display" /\ "D" \in ds) \/ (tr = "Debug" /\ "G" \in ds)
    [] OTHER -> FALSE
HasFromStr(D, ty) == IsScalar(ty.k) \/ (ty.k = "named" /\ "F" \in RangeOf(D.types[ty.n].ds))
HasDefault(D, ty) ==
  CASE ty.k \in NzTypes -> FALSE
    [] IsScalar(ty.k) \/ ty.k \in {"opt", "vec"} -> TRUE
    [] ty.k = "tup" -> \A i \in 1..Len(ty.es) : HasDefault(D, ty.es[i])
    [] ty.k = "named" -> RangeOf(D.types[ty.n].ds) \cap {"M", "m"} # {}
    [] ty.k = "box" -> HasDefault(D, ty.e)
    [] OTHER -> FALSE
\* what a custom format needs of the type it is used with
RECURSIVE WithDisplay(_, _, _), WithFromStr(_, _, _)
WithDisplay(D, w, ty) == CASE ty.k = "ref" -> WithDisplay(D, w, ty.e)
                           [] w.n = "fro" -> FALSE
                           [] w.n = "join" -> ty.k = "vec" /\ WithDisplay(D, w.item[1], ty.e)
                           [] w.n = "hex" -> HasTrait(D, ty, "LowerHex")
                           [] OTHER -> HasTrait(D, ty, "Display")
WithFromStr(D, w, ty) == CASE w.n = "dis" -> FALSE
                           [] w.n = "join" -> ty.k = "vec" /\ WithFromStr(D, w.item[1], ty.e)
                           [] w.n = "hex" -> ty.k \in IntTypes \cup {"bool"}
                           [] OTHER -> HasFromStr(D, ty)

\* a path that leads through a shared reference cannot be assigned to
RECURSIVE ThroughRef(_, _, _)
ThroughRef(D, ty, p) == p # <<>> /\ (CASE ty.k = "ref" -> TRUE [] ty.k = "box" -> ThroughRef(D, ty.e, p) [] OTHER -> ThroughRef(D, StepTy(D, ty, p[1]), Tail(p)))
When(cond, err) == IF cond THEN {err} ELSE {}
\* formats and styles have to be well formed wherever they are read, regexes where they are used
RECURSIVE RegexBad(_)
RegexBad(n) == n.k = "bad" \/ (n.k \in {"cat", "alt", "rep", "cap", "grp", "ci", "dotall", "nci", "nds"} /\ \E i \in 1..Len(n.a) : RegexBad(n.a[i]))
AttrErrs(attrs) ==
  UNION {LET a == attrs[i]
         IN When(a.w = "d" /\ a.fmt # <<>> /\ ~SplitFormat(a.fmt[1]).ok, "format syntax")
            \cup When(a.w = "d" /\ a.style # <<>> /\ a.style[1] \notin StyleNames, "style")
 : i \in 1..Len(attrs)}

\* ---- Display ---------------------------------------------------------------------
\* a field used in place of {name}, under format parameters
FieldDisplayErrs(D, f, sp) ==
  LET a == Resolve(f.attrs, FALSE)
      ty == ValueTy(f, a)
      bad == AttrErrs(f.attrs)
      Self(s) == IF a.with # <<>> THEN When(TraitOf(s) # "Display", "with and format trait") \cup When(~WithDisplay(D, a.with[1], ty), "with")
                 ELSE When(~HasTrait(D, ty, TraitOf(s)), "format trait")
      Part(p) == IF p.k = "str" THEN {}
                 ELSE LET s == ParseSpec(p.spec)
                          ks == Keys(p.arg)
                          t == TypeAt(D, ty, ks)
                      IN IF ~s.ok THEN {"format parameters"}
                         ELSE IF ks = <<>> THEN Self(s)
                         ELSE IF t = <<>> THEN {"nested field"} ELSE When(~HasTrait(D, t[1], TraitOf(s)), "format trait")
      parts == SplitFormat(a.fmt[1]).parts
  IN IF bad # {} THEN bad
     ELSE IF a.opt /\ f.ty.k # "opt" THEN {"opt on a type that is not Option"}
     ELSE IF a.fmt # <<>> THEN UNION {Part(parts[i]) : i \in 1..Len(parts)}
                               \cup When(TraitOf(sp) \notin {"Display", "Debug"}, "trait of a formatted field")
     ELSE Self(sp)
VariantDisplayErrs(D, ti, V) ==
  LET td == D.types[ti]
      bad == AttrErrs(td.attrs) \cup (IF td.kind = "enum" THEN AttrErrs(V.attrs) ELSE {})
      src == DisplayParts(td, V)
      Part(p) == IF p.k = "str" THEN {}
                 ELSE LET s == ParseSpec(p.spec)
                          ks == Keys(p.arg)
                          fi == FieldIx(V, ks[1])
                          t == IF fi = 0 THEN <<>> ELSE TypeAt(D, V.fs[fi].ty, Tail(ks))
                      IN IF ~s.ok THEN {"format parameters"}
                         ELSE IF ks = <<>>
                         THEN (IF TraitOf(s) # "Display" THEN When(~HasTrait(D, [k |-> "named", n |-> ti], TraitOf(s)), "trait of self")
                               ELSE When(td.kind = "struct", "{} in a struct"))
                         ELSE IF fi = 0 THEN {"unknown field"}
                         ELSE IF Len(ks) = 1 THEN FieldDisplayErrs(D, V.fs[fi], s)
                         ELSE IF t = <<>> THEN {"nested field"} ELSE When(~HasTrait(D, t[1], TraitOf(s)), "format trait")
  IN IF bad # {} THEN bad
     ELSE IF ~src.ok THEN {"no format"}
     ELSE UNION {Part(src.parts[i]) : i \in 1..Len(src.parts)}
DisplayErrs(D, ti) == UNION {VariantDisplayErrs(D, ti, D.types[ti].vs[i]) : i \in 1..Len(D.types[ti].vs)}

\* ---- FromStr -----------------------------------------------------------------------
VariantFromStrErrs(D, ti, vi) ==
  LET td == D.types[ti]
      V == td.vs[vi]
      ta == Resolve(td.attrs, TRUE)
      va == Resolve(V.attrs, TRUE)
      new == IF td.kind = "struct" THEN ta.new ELSE va.new
      bad == AttrErrs(td.attrs) \cup (IF td.kind = "enum" THEN AttrErrs(V.attrs) ELSE {})
             \cup UNION {AttrErrs(V.fs[i].attrs) : i \in 1..Len(V.fs)}
      src == PatSource(td, V)
      \* the names the pattern of the type or variant uses
      names == IF src.rx # <<>> THEN {Keys(CapNames(src.rx[1])[i]) : i \in 1..Len(CapNames(src.rx[1]))}
               ELSE {Keys(src.parts.parts[i].arg) : i \in {j \in 1..Len(src.parts.parts) : src.parts.parts[j].k = "var"}}
      unknown == {ks \in names : ks # <<>> /\ FieldIx(V, ks[1]) = 0}
      dnames == {ta.dfields[i] : i \in 1..Len(ta.dfields)} \cup {va.dfields[i] : i \in 1..Len(va.dfields)}
      labs == Labels(Cat(ContainerPat(D, ti, vi).nodes))
      Has(fi) == \E i \in 1..Len(labs) : labs[i] = <<fi, <<>>>>
      whole == td.kind = "struct" /\ ta.dflt /\ new = <<>>
      used == {fi \in 1..Len(V.fs) : src.rx = <<>> /\ <<V.fs[fi].key>> \in names}
      FieldErrs(fi) ==
        LET f == V.fs[fi]
            a == Resolve(f.attrs, TRUE)
            ty == ValueTy(f, a)
            w == WithOf(a, ContainerInfer(td, V))
            dflt == a.dflt \/ f.key \in dnames
        IN IF Has(fi)
           THEN When(a.opt /\ f.ty.k # "opt", "opt on a type that is not Option")
                \cup (IF w # <<>> /\ w[1].n # "infer" THEN When(~WithFromStr(D, w[1], ty), "with") ELSE When(~HasFromStr(D, ty), "FromStr"))
           ELSE When(a.opt /\ fi \in used /\ f.ty.k # "opt", "opt on a type that is not Option")
                \cup When(~whole /\ ~dflt, "undetermined field")
                \cup When(dflt /\ ~HasDefault(D, f.ty), "Default")
      DeepErrs(l) == LET t == TypeAt(D, V.fs[l[1]].ty, l[2])
                     IN IF t = <<>> THEN {"nested field"} ELSE When(~HasFromStr(D, t[1]), "FromStr") \cup When(ThroughRef(D, V.fs[l[1]].ty, l[2]), "assignment through a reference")
  IN IF td.kind = "enum" /\ ta.dflt THEN {"default on an enum"}
     ELSE IF td.kind = "enum" /\ va.ign THEN AttrErrs(td.attrs) \cup AttrErrs(V.attrs)
     ELSE IF bad # {} THEN bad
     ELSE IF src.rx = <<>> /\ ~src.parts.ok THEN {"no format"}
     ELSE IF src.rx # <<>> /\ RegexBad(src.rx[1]) THEN {"regex syntax"}
     ELSE IF unknown # {} THEN {"unknown field"}
     ELSE IF td.kind = "struct" /\ src.rx # <<>> /\ <<>> \in names THEN {"empty capture name"}
     ELSE IF src.rx # <<>> /\ Cardinality({i \in 1..Len(CapNames(src.rx[1])) : CapNames(src.rx[1])[i] = <<>>}) > 1 THEN {"empty capture name twice"}
     ELSE IF \E x \in dnames : FieldIx(V, x) = 0 THEN {"unknown default field"}
     ELSE IF \E fi \in used : LET a == Resolve(V.fs[fi].attrs, TRUE) IN a.rx # <<>> /\ RegexBad(a.rx[1]) THEN {"regex syntax"}
     ELSE When(\E i, j \in 1..Len(labs) : i # j /\ labs[i] = labs[j], "field captured twice")
          \cup When(whole /\ ~HasDefault(D, [k |-> "named", n |-> ti]), "Default")
          \cup UNION {FieldErrs(fi) : fi \in 1..Len(V.fs)}
          \cup UNION {DeepErrs(labs[i]) : i \in {j \in 1..Len(labs) : labs[j][2] # <<>>}}
FromStrErrs(D, ti) ==
  IF D.types[ti].vs = <<>> THEN When(Resolve(D.types[ti].attrs, TRUE).dflt, "default on an enum") \cup AttrErrs(D.types[ti].attrs)
  ELSE UNION {VariantFromStrErrs(D, ti, i) : i \in 1..Len(D.types[ti].vs)}

Errs(D) == UNION {LET ds == RangeOf(D.types[ti].ds)
                  IN (IF "D" \in ds THEN DisplayErrs(D, ti) ELSE {}) \cup (IF "F" \in ds THEN FromStrErrs(D, ti) ELSE {})
                  : ti \in 1..Len(D.types)}
=============================================================================
