------------------------------- MODULE Style --------------------------------
(* Variant-name styles: a one-pass transducer over the identifier.            *)
EXTENDS Text

StyleNames == {"none", "lowercase", "UPPERCASE", "snake_case", "SNAKE_CASE", "camelCase", "CamelCase",
               "kebab-case", "KEBAB-CASE", "Title Case", "Title case", "title case", "TITLE CASE"}

\* <<first word head upper, other word heads upper, rest upper, separator>>
StyleRule(st) ==
  CASE st = "lowercase"  -> <<FALSE, FALSE, FALSE, <<>>>>
    [] st = "UPPERCASE"  -> <<TRUE,  TRUE,  TRUE,  <<>>>>
    [] st = "snake_case" -> <<FALSE, FALSE, FALSE, T("_")>>
    [] st = "SNAKE_CASE" -> <<TRUE,  TRUE,  TRUE,  T("_")>>
    [] st = "camelCase"  -> <<FALSE, TRUE,  FALSE, <<>>>>
    [] st = "CamelCase"  -> <<TRUE,  TRUE,  FALSE, <<>>>>
    [] st = "kebab-case" -> <<FALSE, FALSE, FALSE, T("-")>>
    [] st = "KEBAB-CASE" -> <<TRUE,  TRUE,  TRUE,  T("-")>>
    [] st = "Title Case" -> <<TRUE,  TRUE,  FALSE, T(" ")>>
    [] st = "TITLE CASE" -> <<TRUE,  TRUE,  TRUE,  T(" ")>>
    [] st = "title case" -> <<FALSE, FALSE, FALSE, T(" ")>>
    [] st = "Title case" -> <<TRUE,  FALSE, FALSE, T(" ")>>
    [] OTHER -> <<FALSE, FALSE, FALSE, <<>>>>          \* no such style: the declaration is rejected

\* One step of the transducer.  State: <<at line head, at word head, last kept character, output>>
StyleInit == <<TRUE, TRUE, 0, <<>>>>
StyleStep(st, q, c) ==
  IF ~IsAlnum(c) THEN <<q[1], TRUE, q[3], q[4]>>
  ELSE LET r == StyleRule(st)
           head == q[2] \/ (~IsUpper(q[3]) /\ IsUpper(c))
           up == IF q[1] THEN r[1] ELSE IF head THEN r[2] ELSE r[3]
           sep == IF ~q[1] /\ head THEN r[4] ELSE <<>>
       IN <<FALSE, FALSE, c, q[4] \o sep \o <<IF up THEN ToUpper(c) ELSE ToLower(c)>>>>
StyleApply(st, ident) ==
  IF st = "none" THEN ident
  ELSE LET RECURSIVE F(_, _)
           F(i, q) == IF i > Len(ident) THEN q[4] ELSE F(i + 1, StyleStep(st, q, ident[i]))
       IN F(1, StyleInit)

(* The same, declaratively: the words of an identifier.                       *)
WordStart(s, i) ==
  /\ IsAlnum(s[i])
  /\ \/ \A j \in 1..(i-1) : ~IsAlnum(s[j])
     \/ i > 1 /\ ~IsAlnum(s[i-1])
     \/ i > 1 /\ IsUpper(s[i]) /\ ~IsUpper(s[i-1])
StyleDecl(st, s) ==
  IF st = "none" THEN s
  ELSE LET r == StyleRule(st)
           first == {i \in 1..Len(s) : IsAlnum(s[i]) /\ \A j \in 1..(i-1) : ~IsAlnum(s[j])}
           Piece(i) == IF ~IsAlnum(s[i]) THEN <<>>
                       ELSE IF i \in first THEN <<IF r[1] THEN ToUpper(s[i]) ELSE ToLower(s[i])>>
                       ELSE IF WordStart(s, i) THEN r[4] \o <<IF r[2] THEN ToUpper(s[i]) ELSE ToLower(s[i])>>
                       ELSE <<IF r[3] THEN ToUpper(s[i]) ELSE ToLower(s[i])>>
       IN Flatten([i \in 1..Len(s) |-> Piece(i)])
=============================================================================
