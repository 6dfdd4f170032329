------------------------------ MODULE MC_Style -------------------------------
(* C05.  Every identifier of up to N characters under every style, and every  *)
(* pair of a style on the enum and one on the variant.                        *)
EXTENDS Scope

Styles == <<"none", "lowercase", "UPPERCASE", "snake_case", "SNAKE_CASE", "camelCase", "CamelCase",
            "kebab-case", "KEBAB-CASE", "Title Case", "Title case", "title case", "TITLE CASE">>
ASSUME RangeOf(Styles) = StyleNames
N == Pick(4, 5)
\* 233 and 201: e and E with an acute accent, 8255: a connector that is not a letter
Words(alpha, n) == LET RECURSIVE W(_)
                       W(k) == IF k = 0 THEN <<<<>>>> ELSE MapSeq(LAMBDA p : p[1] \o <<p[2]>>, Prod2(W(k - 1), alpha))
                   IN Flatten([i \in 1..n |-> W(i)])
IsIdent(x) == ~IsDigit(x[1]) /\ x # T("_") /\ x[1] # 8255
Idents == SelectSeq(Words(T("aB1_"), N), IsIdent)
          \o SelectSeq(Words(<<97, 66, 95, 233, 201>>, 3), LAMBDA x : IsIdent(x) /\ (Contains(x, <<233>>) \/ Contains(x, <<201>>)))
          \o <<T("HTTPServer2Go"), T("_x"), T("X__y__Z"), T("aB_cD"), T("A1B2c3"), <<97, 8255, 66>>, <<65, 1635, 98, 67>>, <<97, 12295, 66>>, <<2325, 2367, 66>>, <<2325, 2381, 88, 97>>, <<84, 170, 57>>, T("__A"), T("Type")>>
StyleA(x) == [DA EXCEPT !.style = <<x>>]
UnitV(x) == [name |-> x, shape |-> "unit", attrs |-> <<>>, fs |-> <<>>]
All == MapSeq(LAMBDA st :
         LET vs == MapSeq(UnitV, Idents)
         IN [Entry(<<Enum("X", <<StyleA(st)>>, vs)>>, T("aAbB1_- "), Pick(2, 3))
             EXCEPT !.vals = [i \in 1..Len(vs) |-> [v |-> i, f |-> <<>>]],
                    !.extra = MapSeq(LAMBDA v : StyleApply(st, v), Idents) \o Idents], Styles)
\* a style on the variant replaces the one of the enum; the name inside a longer format; names beside fields
Pairs == MapSeq(LAMBDA p :
           LET st(x) == IF x = "" THEN <<>> ELSE <<StyleA(x)>>
               vs == <<[UnitV(T("aB1c_D")) EXCEPT !.attrs = st(p[2])], UnitV(T("BBa")),
                       [name |-> T("Ab_B"), shape |-> "tuple", attrs |-> st(p[2]) \o <<Fmt(T("{}-{0}"))>>, fs |-> <<Fld("0", Sc("u8"), <<>>)>>],
                       [name |-> T("a1B"), shape |-> "unit", attrs |-> <<Fmt(T("[{}]"))>> \o st(p[2]), fs |-> <<>>]>>
               nm(i, x) == StyleApply(IF x # "" THEN x ELSE IF p[1] = "" THEN "none" ELSE p[1], vs[i].name)
               txt == <<nm(1, p[2]), nm(2, ""), nm(3, p[2]) \o T("-7"), T("[") \o nm(4, p[2]) \o T("]")>>
           IN [Entry(<<Enum("X", st(p[1]), vs)>>, <<>>, 0)
               EXCEPT !.vals = <<[v |-> 1, f |-> <<>>], [v |-> 2, f |-> <<>>], [v |-> 3, f |-> <<T("7")>>], [v |-> 4, f |-> <<>>]>>,
                      !.extra = txt \o MapSeq(LAMBDA x : StyleApply(x, vs[1].name), Styles)],
         Prod2(<<"">> \o Styles, <<"">> \o Styles))
ASSUME Load(All \o Pairs) /\ AllValid

Rt == D.types[1]
OwnStyle(V) == IF \E a \in RangeOf(V.attrs) : a.style # <<>> THEN (CHOOSE a \in RangeOf(V.attrs) : a.style # <<>>).style[1]
               ELSE IF Rt.attrs = <<>> THEN "none" ELSE Rt.attrs[1].style[1]
V0 == Rt.vs[Value.v]
St == OwnStyle(V0)
Out == StyleApply(St, V0.name)
\* the name written is the one of the style in force, inside whatever format
Written1 == OnValues(LET t == TextOf(Value) IN
              IF V0.fs = <<>> /\ (\A a \in RangeOf(V0.attrs) : a.fmt = <<>>) THEN t = Out
              ELSE IF V0.fs # <<>> THEN t = Out \o T("-7") ELSE t = T("[") \o Out \o T("]"))
\* the transducer says what the words of the identifier say
Declarative == OnValues(Out = StyleDecl(St, V0.name))
\* laws that do not mention the transducer
Letters(x) == SelectSeq(x, IsAlnum)
Low(x) == MapSeq(ToLower, x)
AsciiOnly(x) == \A i \in 1..Len(x) : x[i] < 128
Sub(x, a, b) == MapSeq(LAMBDA c : IF c = a THEN b ELSE c, x)
Is(st) == StyleApply(st, V0.name)
Sep(st) == StyleRule(st)[4]
Laws == OnValues(LET id == V0.name IN
  \* only the case of ASCII letters changes, and separators come and go
  /\ St # "none" => Low(Letters(Out)) = Low(Letters(id))
  /\ St = "none" => Out = id
  \* styles that differ in one respect only
  /\ Is("kebab-case") = Sub(Is("snake_case"), 95, 45) /\ Is("KEBAB-CASE") = Sub(Is("SNAKE_CASE"), 95, 45)
  /\ Is("title case") = Sub(Is("snake_case"), 95, 32) /\ Is("TITLE CASE") = Sub(Is("SNAKE_CASE"), 95, 32)
  /\ Is("SNAKE_CASE") = MapSeq(ToUpper, Is("snake_case"))
  /\ Is("lowercase") = SelectSeq(Is("snake_case"), IsAlnum) /\ Is("UPPERCASE") = MapSeq(ToUpper, Is("lowercase"))
  /\ Is("CamelCase") = SelectSeq(Is("Title Case"), IsAlnum)
  /\ LET a == Is("CamelCase") b == Is("camelCase") IN (a = <<>>) = (b = <<>>) /\ (a # <<>> => Tail(a) = Tail(b) /\ b[1] = ToLower(a[1]))
  /\ LET a == Is("Title Case") b == Is("Title case") IN (a = <<>>) = (b = <<>>) /\ (a # <<>> => a[1] = b[1] /\ Tail(b) = Low(Tail(a)))
  \* a separated name in lower case has the same words as the identifier (in upper case digits would start new ones)
  /\ AsciiOnly(id) /\ Sep(St) # <<>> /\ ~StyleRule(St)[3] => \A i \in 1..Len(Styles) : Styles[i] # "none" => StyleApply(Styles[i], Out) = Is(Styles[i])
  \* separators: never first, last or doubled
  /\ Sep(St) # <<>> => LET c == Sep(St)[1] IN \A i \in 1..Len(Out) : Out[i] = c => i > 1 /\ i < Len(Out) /\ Out[i - 1] # c)
\* a text is read as the first variant whose styled name it is
Live == {i \in 1..Len(Rt.vs) : Rt.vs[i].fs = <<>> /\ \A a \in RangeOf(Rt.vs[i].attrs) : a.fmt = <<>>}
Min(S) == CHOOSE i \in S : \A j \in S : i <= j
ReadBack == OnTexts(fi <= Len(Styles) =>
              LET hits == {i \in Live : StyleDecl(OwnStyle(Rt.vs[i]), Rt.vs[i].name) = s}
                  r == ParseOf(s)
              IN IF hits = {} THEN ~r.ok ELSE r.ok /\ r.v.v = Min(hits))
=============================================================================
