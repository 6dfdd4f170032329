----------------------------- MODULE FormatText -----------------------------
(* Format strings ("{a:>5}-{{{b.c}"), format parameters, and what std's       *)
(* formatting makes of them for the scalar types.                             *)
EXTENDS Text

LB == 123   RB == 125   COLON == 58

\* ---- format strings --------------------------------------------------------
\* [ok, parts]; a part is [k |-> "str", s] or [k |-> "var", arg, spec]
SplitFormat(s) ==
  LET n == Len(s)
      Bad == [ok |-> FALSE, parts |-> <<>>]
      Str(x) == [k |-> "str", s |-> x, arg |-> <<>>, spec |-> <<>>]
      Add(p, r) == IF r.ok THEN [r EXCEPT !.parts = <<p>> \o @] ELSE r
      \* first position >= i holding a character of cs (n + 1 if none)
      Next(i, cs) == LET RECURSIVE F(_)
                         F(j) == IF j > n \/ s[j] \in cs THEN j ELSE F(j + 1)
                     IN F(i)
      RECURSIVE F(_)
      F(i) ==
        IF i > n THEN [ok |-> TRUE, parts |-> <<>>]
        ELSE IF At(s, i, <<LB, LB>>) THEN Add(Str(<<LB>>), F(i + 2))
        ELSE IF At(s, i, <<RB, RB>>) THEN Add(Str(<<RB>>), F(i + 2))
        ELSE IF s[i] \notin {LB, RB} THEN LET j == Next(i, {LB, RB}) IN Add(Str(SubSeq(s, i, j - 1)), F(j))
        ELSE IF s[i] = RB THEN Bad
        ELSE LET j == Next(i + 1, {COLON, LB, RB})
             IN IF j > n \/ s[j] = LB THEN Bad
                ELSE IF s[j] = RB
                THEN Add([k |-> "var", s |-> <<>>, arg |-> SubSeq(s, i + 1, j - 1), spec |-> <<>>], F(j + 1))
                ELSE LET e == Next(j + 1, {RB})
                     IN IF e > n THEN Bad
                        ELSE Add([k |-> "var", s |-> <<>>, arg |-> SubSeq(s, i + 1, j - 1),
                                  spec |-> SubSeq(s, j + 1, e - 1)], F(e + 1))
  IN F(1)

\* one name or index of a path
KeyText(k) == IF AllDigits(k) THEN StripZeros(k)
              ELSE IF StartsWith(k, T("r#")) /\ ~AllDigits(Drop(k, 2)) THEN Drop(k, 2) ELSE k
Keys(arg) == IF arg = <<>> THEN <<>> ELSE MapSeq(KeyText, SplitText(arg, T(".")))

\* ---- format parameters -------------------------------------------------------
Aligns == {60, 62, 94}
Traits == [t \in {"", "?", "x?", "X?", "o", "x", "X", "p", "b", "e", "E"} |->
             CASE t = "" -> "Display" [] t \in {"?", "x?", "X?"} -> "Debug" [] t = "o" -> "Octal"
               [] t = "x" -> "LowerHex" [] t = "X" -> "UpperHex" [] t = "p" -> "Pointer"
               [] t = "b" -> "Binary" [] t = "e" -> "LowerExp" [] t = "E" -> "UpperExp"]
NoSpec == [ok |-> TRUE, fill |-> 32, align |-> 0, sign |-> 0, alt |-> FALSE, zero |-> FALSE,
           width |-> -1, prec |-> -1, ty |-> ""]
BadSpec == [NoSpec EXCEPT !.ok = FALSE]
ParseSpec(s) ==
  LET n == Len(s)
      a == IF n >= 2 /\ s[2] \in Aligns THEN <<s[1], s[2], 3>>
           ELSE IF n >= 1 /\ s[1] \in Aligns THEN <<32, s[1], 2>>
           ELSE <<32, 0, 1>>
      i1 == a[3]
      sg == IF i1 <= n /\ s[i1] \in {43, 45} THEN <<s[i1], i1 + 1>> ELSE <<0, i1>>
      al == IF sg[2] <= n /\ s[sg[2]] = 35 THEN <<TRUE, sg[2] + 1>> ELSE <<FALSE, sg[2]>>
      ze == IF al[2] <= n /\ s[al[2]] = 48 THEN <<TRUE, al[2] + 1>> ELSE <<FALSE, al[2]>>
      DigEnd(i) == LET RECURSIVE F(_)
                       F(j) == IF j <= n /\ IsDigit(s[j]) THEN F(j + 1) ELSE j
                   IN F(i)
      we == DigEnd(ze[2])
      wd == IF we > ze[2] THEN NumOf(SubSeq(s, ze[2], we - 1)) ELSE -1
      dot == we <= n /\ s[we] = 46
      pe == IF dot THEN DigEnd(we + 1) ELSE we
      badp == dot /\ pe = we + 1
      pr == IF dot /\ ~badp THEN NumOf(SubSeq(s, we + 1, pe - 1)) ELSE -1
      rest == SubSeq(s, pe, n)
      tys == {t \in DOMAIN Traits : T(t) = rest}
  IN IF badp \/ tys = {} THEN BadSpec
     ELSE [ok |-> TRUE, fill |-> a[1], align |-> a[2], sign |-> sg[1], alt |-> al[1], zero |-> ze[1],
           width |-> wd, prec |-> pr, ty |-> CHOOSE t \in tys : TRUE]
TraitOf(sp) == Traits[sp.ty]

\* ---- std rendering -----------------------------------------------------------
Pad(x, sp, def) ==
  IF sp.width <= Len(x) THEN x
  ELSE LET k == sp.width - Len(x)
           al == IF sp.align = 0 THEN def ELSE sp.align
           l == IF al = 60 THEN 0 ELSE IF al = 62 THEN k ELSE k \div 2
       IN Repeat(sp.fill, l) \o x \o Repeat(sp.fill, k - l)
FmtStr(x, sp) == Pad(IF sp.prec >= 0 /\ sp.prec < Len(x) THEN SubSeq(x, 1, sp.prec) ELSE x, sp, 60)
\* sign, prefix and digits, as Formatter::pad_integral lays them out
FmtNum(neg, prefix, digits, sp) ==
  LET sg == IF neg THEN <<45>> ELSE IF sp.sign = 43 THEN <<43>> ELSE <<>>
      w == Len(sg) + Len(prefix) + Len(digits)
  IN IF sp.zero
     THEN sg \o prefix \o Repeat(48, IF sp.width > w THEN sp.width - w ELSE 0) \o digits
     ELSE Pad(sg \o prefix \o digits, sp, 62)

IntTypes == {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}
NzTypes == {"nzu8", "nzu16", "nzu32", "nzu64", "nzu128", "nzusize", "nzi8", "nzi16", "nzi32", "nzi64", "nzi128", "nzisize"}
IntBits(k) == CASE k \in {"u8", "i8", "nzu8", "nzi8"} -> 8 [] k \in {"u16", "i16", "nzu16", "nzi16"} -> 16
                [] k \in {"u32", "i32", "nzu32", "nzi32"} -> 32
                [] k \in {"u64", "i64", "usize", "isize", "nzu64", "nzi64", "nzusize", "nzisize"} -> 64
                [] OTHER -> 128
IntSigned(k) == k \in {"i8", "i16", "i32", "i64", "i128", "isize", "nzi8", "nzi16", "nzi32", "nzi64", "nzi128", "nzisize"}
MaxText(k) == SubDigits(Pow2Text(IF IntSigned(k) THEN IntBits(k) - 1 ELSE IntBits(k)), <<49>>)
MinAbsText(k) == IF IntSigned(k) THEN Pow2Text(IntBits(k) - 1) ELSE <<48>>
\* canonical text of the integer written by s, or <<>> (what FromStr of the type accepts)
ParseInt(k, s) ==
  LET signed == Len(s) > 0 /\ (s[1] = 43 \/ (s[1] = 45 /\ IntSigned(k)))
      neg == signed /\ s[1] = 45
      d == IF signed THEN Tail(s) ELSE s
      c == StripZeros(d)
  IN IF ~AllDigits(d) THEN <<>>
     ELSE IF ~LeqDigits(c, IF neg THEN MinAbsText(k) ELSE MaxText(k)) THEN <<>>
     ELSE IF k \in NzTypes /\ c = <<48>> THEN <<>>
     ELSE IF neg /\ c # <<48>> THEN <<<<45>> \o c>> ELSE <<c>>
\* the first n digits of a digit text, rounded half to even (one digit more on a carry)
RoundAt(s, n) ==
  LET kept == SubSeq(s, 1, n)
      rest == Drop(s, n)
      tie == rest # <<>> /\ rest[1] = 53 /\ \A i \in 2..Len(rest) : rest[i] = 48
      up == IF tie THEN n > 0 /\ kept[n] % 2 = 1 ELSE rest # <<>> /\ rest[1] >= 53
      inc == MulAdd(IF kept = <<>> THEN <<48>> ELSE kept, 1, 1)
  IN IF up THEN Repeat(48, IF n > Len(inc) THEN n - Len(inc) ELSE 0) \o inc ELSE kept
\* d.ddde<exponent> of significant digits whose first one has weight 10^x
ExpText(ds, x, prec, e) ==
  LET lastNz == CHOOSE i \in 1..Len(ds) : (i = 1 \/ ds[i] # 48) /\ \A j \in (i+1)..Len(ds) : ds[j] = 48
      rounded == RoundAt(ds, prec + 1)
      m == IF prec < 0 THEN SubSeq(ds, 1, lastNz)
           ELSE IF Len(ds) <= prec + 1 THEN ds \o Repeat(48, prec + 1 - Len(ds))
           ELSE SubSeq(rounded, 1, prec + 1)
      y == IF prec >= 0 /\ Len(ds) > prec + 1 /\ Len(rounded) > prec + 1 THEN x + 1 ELSE x
  IN (IF Len(m) = 1 THEN m ELSE <<m[1], 46>> \o Tail(m)) \o <<e>> \o (IF y < 0 THEN <<45>> \o DigitsOf(0 - y) ELSE DigitsOf(y))
FmtInt(k, v, sp) ==
  LET neg == v[1] = 45
      abs == IF neg THEN Tail(v) ELSE v
      bits == IF neg THEN SubDigits(Pow2Text(IntBits(k)), abs) ELSE abs
      Radix(b, up, pre) == FmtNum(FALSE, IF sp.alt THEN T(pre) ELSE <<>>, RadixText(bits, b, up), sp)
      Exp(e) == ExpText(abs, Len(abs) - 1, sp.prec, e)
  IN CASE sp.ty \in {"", "?"} -> FmtNum(neg, <<>>, abs, sp)
       [] sp.ty \in {"x", "x?"} -> Radix(16, FALSE, "0x")
       [] sp.ty \in {"X", "X?"} -> Radix(16, TRUE, "0x")
       [] sp.ty = "o" -> Radix(8, FALSE, "0o")
       [] sp.ty = "b" -> Radix(2, FALSE, "0b")
       [] sp.ty = "e" -> FmtNum(neg, <<>>, Exp(101), sp)
       [] sp.ty = "E" -> FmtNum(neg, <<>>, Exp(69), sp)

\* combining marks of the corpora (Grapheme_Extend), which Debug escapes
GraphemeExtend == 768..879
EscChar(c, q) == CASE c = TAB -> T("\\t") [] c = NL -> T("\\n") [] c = CR -> T("\\r") [] c = NUL -> T("\\0")
                   [] c = 92 -> T("\\\\") [] c = q -> <<92, q>>
                   [] c \in GraphemeExtend -> T("\\u{") \o RadixText(DigitsOf(c), 16, FALSE) \o T("}") [] OTHER -> <<c>>
DebugStr(s) == <<34>> \o Flatten(MapSeq(LAMBDA c : EscChar(c, 34), s)) \o <<34>>
DebugChar(c) == <<39>> \o EscChar(c, 39) \o <<39>>

\* floats of few digits: canonical text (as Display writes it) of a decimal literal, or <<>>
FloatTypes == {"f32", "f64"}
ParseFloat(s) ==
  LET sg == Len(s) > 0 /\ s[1] \in {43, 45}
      neg == sg /\ s[1] = 45
      b == IF sg THEN Tail(s) ELSE s
      low == MapSeq(ToLower, b)
      ePos == IndexOf(low, 101)
      mant == IF ePos = 0 THEN b ELSE SubSeq(b, 1, ePos - 1)
      ex == IF ePos = 0 THEN <<48>> ELSE Drop(b, ePos)
      exSg == Len(ex) > 0 /\ ex[1] \in {43, 45}
      exD == IF exSg THEN Tail(ex) ELSE ex
      dotPos == IndexOf(mant, 46)
      ip == IF dotPos = 0 THEN mant ELSE SubSeq(mant, 1, dotPos - 1)
      fp == IF dotPos = 0 THEN <<>> ELSE Drop(mant, dotPos)
      OkD(x) == x = <<>> \/ AllDigits(x)
      e == IF exSg /\ ex[1] = 45 THEN 0 - NumOf(exD) ELSE NumOf(exD)
      ds == ip \o fp                      \* digits, decimal point after Len(ip) + e of them
      pt == Len(ip) + e
      ip2 == IF pt <= 0 THEN <<48>> ELSE IF pt >= Len(ds) THEN ds \o Repeat(48, pt - Len(ds)) ELSE SubSeq(ds, 1, pt)
      fp2 == IF pt >= Len(ds) THEN <<>> ELSE IF pt <= 0 THEN Repeat(48, 0 - pt) \o ds ELSE SubSeq(ds, pt + 1, Len(ds))
      RECURSIVE StripTail(_)
      StripTail(x) == IF x # <<>> /\ x[Len(x)] = 48 THEN StripTail(SubSeq(x, 1, Len(x) - 1)) ELSE x
      f3 == StripTail(fp2)
      out == StripZeros(ip2) \o (IF f3 = <<>> THEN <<>> ELSE <<46>> \o f3)
  IN IF low = T("nan") THEN <<T("NaN")>>
     ELSE IF low \in {T("inf"), T("infinity")} THEN <<(IF neg THEN <<45>> ELSE <<>>) \o T("inf")>>
     ELSE IF ~OkD(ip) \/ ~OkD(fp) \/ ip \o fp = <<>> \/ ~AllDigits(exD) THEN <<>>
     ELSE <<(IF neg THEN <<45>> ELSE <<>>) \o out>>
FmtFloat(v, sp) ==
  LET neg == v[1] = 45
      abs == IF neg THEN Tail(v) ELSE v
      special == abs \in {T("NaN"), T("inf")}
      dot == IndexOf(abs, 46)
      dec == IF dot = 0 THEN 0 ELSE Len(abs) - dot
      ip == IF dot = 0 THEN abs ELSE SubSeq(abs, 1, dot - 1)
      fp == IF dot = 0 THEN <<>> ELSE Drop(abs, dot)
      dbg == IF sp.ty \in {"?", "x?", "X?"} /\ dot = 0 /\ sp.prec < 0 THEN abs \o T(".0") ELSE abs
      pre == IF sp.prec >= 0 /\ sp.prec < dec
             THEN LET r == RoundAt(ip \o fp, Len(ip) + sp.prec)
                      k == Len(r) - sp.prec
                  IN SubSeq(r, 1, k) \o (IF sp.prec = 0 THEN <<>> ELSE <<46>> \o SubSeq(r, k + 1, Len(r)))
             ELSE IF sp.prec > dec THEN (IF dot = 0 THEN abs \o <<46>> ELSE abs) \o Repeat(48, sp.prec - dec) ELSE dbg
      \* scientific notation
      lead == CHOOSE i \in 1..(Len(ip \o fp) + 1) : (i > Len(ip \o fp) \/ (ip \o fp)[i] # 48) /\ \A j \in 1..(i - 1) : (ip \o fp)[j] = 48
      sig == Drop(ip \o fp, lead - 1)
      ex == IF sig = <<>> THEN 0 ELSE Len(ip) - lead
  IN IF special THEN FmtNum(neg, <<>>, abs, [sp EXCEPT !.sign = IF abs = T("NaN") THEN 0 ELSE @])
     ELSE IF sp.ty \in {"e", "E"} THEN FmtNum(neg, <<>>, ExpText(IF sig = <<>> THEN <<48>> ELSE sig, ex, sp.prec, IF sp.ty = "e" THEN 101 ELSE 69), sp)
     ELSE FmtNum(neg, <<>>, pre, sp)
=============================================================================
