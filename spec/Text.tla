-------------------------------- MODULE Text --------------------------------
(* Texts are sequences of Unicode scalar values (integers).  This module      *)
(* gives literals, elementary sequence operators and arithmetic on decimal    *)
(* digit sequences (TLC integers are 32 bit, Rust's go up to 128 bit).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeTab == [ch \in {SubSeq(Ascii, i, i) : i \in 1..95} \cup {"\n"} |-> IF ch = "\n" THEN 10 ELSE 31 + CHOOSE i \in 1..95 : SubSeq(Ascii, i, i) = ch]
CodeOf(ch) == CodeTab[ch]
\* the text written by a TLA+ string literal
T(str) == TLCEval([i \in 1..Len(str) |-> CodeOf(SubSeq(str, i, i))])

NL == 10   CR == 13   TAB == 9   NUL == 0

Flatten(ss) ==
  LET RECURSIVE F(_)
      F(i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o F(i + 1)
  IN F(1)
MapSeq(Op(_), s) == TLCEval([i \in 1..Len(s) |-> Op(s[i])])
Repeat(c, n) == TLCEval([i \in 1..n |-> c])
RangeOf(s) == {s[i] : i \in 1..Len(s)}
IndexOf(s, x) == IF \E i \in 1..Len(s) : s[i] = x
                 THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i-1) : s[j] # x
                 ELSE 0
\* x occurs in s at position i
At(s, i, x) == /\ i + Len(x) - 1 <= Len(s)
               /\ \A j \in 1..Len(x) : s[i + j - 1] = x[j]
Contains(s, x) == \E i \in 1..(Len(s) + 1) : At(s, i, x)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
StartsWith(s, x) == At(s, 1, x)
EndsWith(s, x) == Len(s) >= Len(x) /\ At(s, Len(s) - Len(x) + 1, x)

\* split at every (leftmost, non overlapping) occurrence of a separator; the
\* empty separator splits around every character, as str::split("") does
SplitText(s, sep) ==
  IF sep = <<>> THEN <<<<>>>> \o MapSeq(LAMBDA c : <<c>>, s) \o <<<<>>>>
  ELSE LET RECURSIVE F(_, _)
           F(b, i) == IF i > Len(s) THEN <<SubSeq(s, b, Len(s))>>
                      ELSE IF At(s, i, sep) THEN <<SubSeq(s, b, i - 1)>> \o F(i + Len(sep), i + Len(sep))
                      ELSE F(b, i + 1)
       IN F(1, 1)
JoinText(ss, sep) ==
  LET RECURSIVE F(_)
      F(i) == IF i > Len(ss) THEN <<>>
              ELSE (IF i > 1 THEN sep ELSE <<>>) \o ss[i] \o F(i + 1)
  IN F(1)

IsDigit(c) == c \in 48..57
IsUpper(c) == c \in 65..90
IsLower(c) == c \in 97..122
ToUpper(c) == IF IsLower(c) THEN c - 32 ELSE c
ToLower(c) == IF IsUpper(c) THEN c + 32 ELSE c
\* char::is_alphanumeric for the characters used in the corpora: of the
\* non-ASCII identifier characters only connectors and marks are not
NonAlnumIdent == {95, 8255, 8256, 65075, 65076, 65101, 769, 776, 1425, 2381}
IsAlnum(c) == IsDigit(c) \/ IsUpper(c) \/ IsLower(c) \/ (c >= 170 /\ c \notin NonAlnumIdent)

AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(s[i])
StripZeros(s) ==
  LET RECURSIVE F(_)
      F(i) == IF i < Len(s) /\ s[i] = 48 THEN F(i + 1) ELSE i
  IN IF s = <<>> THEN <<>> ELSE SubSeq(s, F(1), Len(s))
\* comparison of canonical digit texts
LeqDigits(a, b) ==
  \/ Len(a) < Len(b)
  \/ /\ Len(a) = Len(b)
     /\ \/ a = b
        \/ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]
\* small number of a short digit text
RECURSIVE NumOf(_)
NumOf(s) == IF s = <<>> THEN 0 ELSE 10 * NumOf(SubSeq(s, 1, Len(s) - 1)) + (s[Len(s)] - 48)
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE DigitsOf(n \div 10) \o <<48 + (n % 10)>>

\* digit text divided by a small number: <<quotient text, remainder>>
DivSmall(s, d) ==
  LET RECURSIVE F(_, _, _)
      F(i, q, r) == IF i > Len(s) THEN <<StripZeros(q), r>>
                    ELSE LET x == 10 * r + (s[i] - 48) IN F(i + 1, Append(q, 48 + (x \div d)), x % d)
  IN F(1, <<>>, 0)
\* a - b for digit texts with a >= b
SubDigits(a, b) ==
  LET n == Len(a)
      D(s, i) == IF i < Len(s) THEN s[Len(s) - i] - 48 ELSE 0
      RECURSIVE F(_, _, _)
      F(i, borrow, out) ==
        IF i = n THEN StripZeros(out)
        ELSE LET x == D(a, i) - D(b, i) - borrow
             IN IF x < 0 THEN F(i + 1, 1, <<48 + x + 10>> \o out) ELSE F(i + 1, 0, <<48 + x>> \o out)
  IN F(0, 0, <<>>)
RECURSIVE Pow2Text(_)
\* s * m + a
MulAdd(s, m, a) ==
  LET RECURSIVE F(_, _, _)
      F(i, carry, out) ==
        IF i = 0 THEN (IF carry = 0 THEN out ELSE DigitsOf(carry) \o out)
        ELSE LET x == (s[i] - 48) * m + carry IN F(i - 1, x \div 10, <<48 + (x % 10)>> \o out)
  IN StripZeros(F(Len(s), a, <<>>))
MulSmall(s, m) == MulAdd(s, m, 0)
Pow2Text(n) == IF n = 0 THEN <<49>> ELSE IF n >= 8 THEN MulSmall(Pow2Text(n - 8), 256) ELSE MulSmall(Pow2Text(n - 1), 2)

DigitChar(d, upper) == IF d < 10 THEN 48 + d ELSE (IF upper THEN 65 ELSE 97) + d - 10
RadixText(s, base, upper) ==
  LET RECURSIVE F(_, _)
      F(x, out) == LET qr == DivSmall(x, base)
                       o == <<DigitChar(qr[2], upper)>> \o out
                   IN IF qr[1] = <<48>> THEN o ELSE F(qr[1], o)
  IN F(s, <<>>)
=============================================================================
