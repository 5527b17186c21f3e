------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings. A C string is the sequence of its bytes (0..255) without  *)
(* the terminating NUL; an optional string (NULL pointer or string) is     *)
(* <<>> or <<s>>. Offsets into strings are C offsets, counted from 0.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CodeOf == [c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |->
             31 + CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c]

B(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]

NL  == 10
SP  == 32
DASH == 45

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

At(s, i) == IF i < Len(s) THEN s[i + 1] ELSE 0        \* s[i], the NUL included
From(s, i) == SubSeq(s, i + 1, Len(s))                \* s + i
Take(s, n) == SubSeq(s, 1, Min(n, Len(s)))
Has(s, i, p) == i + Len(p) <= Len(s) /\ SubSeq(s, i + 1, i + Len(p)) = p
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

Rep(c, n) == [i \in 1..Max(n, 0) |-> c]

\* first / last offset of byte c in s at or after offset i, -1 if there is none
IndexFrom(s, c, i) ==
  IF \E j \in i..(Len(s) - 1) : s[j + 1] = c
  THEN CHOOSE j \in i..(Len(s) - 1) : s[j + 1] = c /\ \A k \in i..(j - 1) : s[k + 1] # c
  ELSE -1
LastIndex(s, c) ==
  IF \E j \in 0..(Len(s) - 1) : s[j + 1] = c
  THEN CHOOSE j \in 0..(Len(s) - 1) : s[j + 1] = c /\ \A k \in (j + 1)..(Len(s) - 1) : s[k + 1] # c
  ELSE -1

\* the C locale's character classes
IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)
IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsAlnum(c) == IsAlpha(c) \/ IsDigit(c)
IsXdigit(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
IsPrint(c) == c >= 32 /\ c <= 126
IsCntrl(c) == c < 32 \/ c = 127
IsPunct(c) == c > 32 /\ c <= 126 /\ ~IsAlnum(c)
ToUpper(c) == IF IsLower(c) THEN c - 32 ELSE c
ToLower(c) == IF IsUpper(c) THEN c + 32 ELSE c
Upper(s) == [i \in 1..Len(s) |-> ToUpper(s[i])]
Lower(s) == [i \in 1..Len(s) |-> ToLower(s[i])]

RECURSIVE SkipSpace(_, _)
SkipSpace(s, i) == IF IsSpace(At(s, i)) THEN SkipSpace(s, i + 1) ELSE i

\* split at commas the way the option names are stored: "a,b" -> a b, a trailing comma adds nothing
RECURSIVE Names(_)
Names(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET j == IndexFrom(s, 44, 0)
       IN  IF j = -1 THEN <<s>> ELSE <<Take(s, j)>> \o Names(From(s, j + 1))

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

\* decimal digits of a natural number
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
DecInt(n) == IF n < 0 THEN <<45>> \o Dec(0 - n) ELSE Dec(n)
Dec2(n) == <<48 + ((n \div 10) % 10), 48 + (n % 10)>>
=============================================================================
