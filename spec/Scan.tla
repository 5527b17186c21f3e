-------------------------------- MODULE Scan --------------------------------
(***************************************************************************)
(* What each kind of argument makes of one argument text: the value it     *)
(* stores or the error it reports. (Regular expressions: module Regex.)    *)
(***************************************************************************)
EXTENDS Bytes

EMINCOUNT == 1  EMAXCOUNT == 2  EBADINT == 3  EOVERFLOW == 4
EBADDOUBLE == 5  EBADDATE == 6  EREGNOMATCH == 7

(***************************** integers ************************************)
(* Magnitudes are <<hi, lo>> in base 65536; from 2^32 on they are all the  *)
(* same <<65536, lo>>: too large in any case.                              *)
MagBig == 65536
MagAdd(m, base, d) ==
  LET lo == m[2] * base + d
      hi == m[1] * base + lo \div 65536
  IN  IF m[1] >= MagBig \/ hi >= MagBig THEN <<MagBig, 0>> ELSE <<hi, lo % 65536>>

DigitVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF IsAlpha(c) THEN ToUpper(c) - 55 ELSE 99

RECURSIVE Digits(_, _, _, _)      \* digits of the given base from offset i: <<magnitude, offset behind>>
Digits(s, i, base, m) ==
  IF i < Len(s) /\ DigitVal(At(s, i)) < base
  THEN Digits(s, i + 1, base, MagAdd(m, base, DigitVal(At(s, i))))
  ELSE <<m, i>>

\* a number starts at offset i of s: sign, then prefix and digits
Numeral(s) ==
  LET i0 == SkipSpace(s, 0)
      neg == At(s, i0) = DASH
      i1 == IF At(s, i0) \in {43, DASH} THEN i0 + 1 ELSE i0
      X == ToUpper(At(s, i1 + 1))
      base == CASE X = 88 -> 16 [] X = 79 -> 8 [] X = 66 -> 2 [] OTHER -> 10
      pre == At(s, i1) = 48 /\ base # 10
             /\ DigitVal(At(s, i1 + 2)) < base
             /\ ~(At(s, i1 + 2) = 48 /\ ToUpper(At(s, i1 + 3)) = X)
      st == IF pre THEN i1 + 2 ELSE i1
      d == Digits(s, st, IF pre THEN base ELSE 10, <<0, 0>>)
  IN  [ok |-> d[2] > st, neg |-> neg, mag |-> d[1], rest |-> From(s, d[2])]

Blank(s) == \A i \in 1..Len(s) : IsSpace(s[i])
SuffixIs(s, sx) == Len(s) >= Len(sx) /\ Upper(Take(s, Len(sx))) = sx /\ Blank(From(s, Len(sx)))

MagLe(m, n) == m[1] < n[1] \/ (m[1] = n[1] /\ m[2] <= n[2])
MagShl(m, k) ==   \* times 2^k, 0 <= k <= 30, for results below 2^32
  LET RECURSIVE Sh(_, _)
      Sh(x, j) == IF j = 0 THEN x ELSE Sh(MagAdd(x, 2, 0), j - 1)
  IN  Sh(m, k)

\* largest admissible magnitude of a positive / negative number with 2^k suffix
MaxPos(k) == CASE k = 0 -> <<32767, 65535>> [] k = 10 -> <<31, 65535>> [] k = 20 -> <<0, 2047>> [] k = 30 -> <<0, 1>>
MaxNeg(k) == CASE k = 0 -> <<32768, 0>> [] k = 10 -> <<32, 0>> [] k = 20 -> <<0, 2048>> [] k = 30 -> <<0, 2>>

\* the int value v as stored and observed: <<negative?, high, low>>
IntVal(neg, m) == <<IF neg /\ m # <<0, 0>> THEN 1 ELSE 0, m[1], m[2]>>

ScanInt(s) ==
  LET n == Numeral(s)
      r == n.rest
      k == IF SuffixIs(r, B("KB")) THEN 10 ELSE IF SuffixIs(r, B("MB")) THEN 20
           ELSE IF SuffixIs(r, B("GB")) THEN 30 ELSE IF Blank(r) THEN 0 ELSE -1
  IN  IF ~n.ok \/ k = -1 THEN [err |-> EBADINT]
      ELSE IF ~MagLe(n.mag, IF n.neg THEN MaxNeg(k) ELSE MaxPos(k)) THEN [err |-> EOVERFLOW]
      ELSE [err |-> 0, val |-> IntVal(n.neg, MagShl(n.mag, k))]

(************************** floating point *********************************)
\* every character of s from i up to (not including) j satisfies the class
All(s, i, j, Cls(_)) == \A k \in i..(j - 1) : Cls(At(s, k))
Exp(s, i, e) ==   \* s from i is empty or an exponent introduced by byte e (either case)
  \/ i = Len(s)
  \/ /\ ToUpper(At(s, i)) = e
     /\ LET j == IF At(s, i + 1) \in {43, DASH} THEN i + 2 ELSE i + 1
        IN  j < Len(s) /\ All(s, j, Len(s), IsDigit)
RECURSIVE RunOf(_, _, _)
RunOf(s, i, hex) == IF i < Len(s) /\ (IF hex THEN IsXdigit(At(s, i)) ELSE IsDigit(At(s, i))) THEN RunOf(s, i + 1, hex) ELSE i
Mantissa(s, i, hex, e) ==
  LET j == RunOf(s, i, hex)
      k == IF At(s, j) = 46 /\ j < Len(s) THEN RunOf(s, j + 1, hex) ELSE j
      nd == (j - i) + (IF k > j THEN k - j - 1 ELSE 0)
  IN  nd > 0 /\ Exp(s, k, e)
IsDouble(s) ==
  LET i0 == SkipSpace(s, 0)
      i1 == IF At(s, i0) \in {43, DASH} THEN i0 + 1 ELSE i0
      w == Upper(From(s, i1))
  IN  \/ w \in {B("INF"), B("INFINITY"), B("NAN")}
      \/ /\ Len(w) >= 5 /\ Take(w, 4) = B("NAN(") /\ w[Len(w)] = 41
         /\ \A k \in 5..(Len(w) - 1) : IsAlnum(w[k]) \/ w[k] = 95
      \/ At(s, i1) = 48 /\ ToUpper(At(s, i1 + 1)) = 88 /\ Mantissa(s, i1 + 2, TRUE, 80)
      \/ Mantissa(s, i1, FALSE, 69)

\* IEEE 754 bits, as four 16-bit words, of (-1)^neg * n / 2^m for 0 <= n < 2^30
RECURSIVE Msb(_)
Msb(n) == IF n < 2 THEN 0 ELSE 1 + Msb(n \div 2)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
DyadicBits(neg, n, m) ==
  LET sg == IF neg THEN 32768 ELSE 0
      e == Msb(n)
      ex == 1023 + e - m
      f == n - Pow2(e)             \* fraction without its leading one, e bits
      \* the top 4 bits, then 16, 16, 16 of the 52 bit fraction f * 2^(52-e)
      bit(j) == IF j <= e THEN (f \div Pow2(e - j)) % 2 ELSE 0     \* j-th fraction bit, from 1
      RECURSIVE Word(_, _)
      Word(a, b) == IF b < a THEN 0 ELSE 2 * Word(a, b - 1) + bit(b)
  IN  IF n = 0 THEN <<sg, 0, 0, 0>>
      ELSE <<sg + ex * 16 + Word(1, 4), Word(5, 20), Word(21, 36), Word(37, 52)>>

\* plain decimals the specification evaluates itself: at most 5 integer digits and the fraction 0/.5/.25/.75/.125
SmallDecimal(s) ==
  LET neg == At(s, 0) = DASH
      i == IF At(s, 0) \in {43, DASH} THEN 1 ELSE 0
      j == RunOf(s, i, FALSE)
      fr == IF j = Len(s) THEN <<>> ELSE From(s, j + 1)
      eighths == CASE fr = <<>> -> 0 [] fr = B("0") -> 0 [] fr = B("5") -> 4 [] fr = B("25") -> 2
                   [] fr = B("75") -> 6 [] fr = B("125") -> 1 [] OTHER -> -1
      ip == Digits(s, i, 10, <<0, 0>>)[1]
  IN  IF j > i /\ j - i <= 5 /\ (j = Len(s) \/ At(s, j) = 46) /\ eighths >= 0
      THEN <<DyadicBits(neg, (ip[1] * 65536 + ip[2]) * 8 + eighths, 3)>>
      ELSE <<>>

(******************************* dates *************************************)
\* tm is <<sec, min, hour, mday, mon, year, wday, yday, isdst>>
DayNames == <<B("SUNDAY"), B("MONDAY"), B("TUESDAY"), B("WEDNESDAY"), B("THURSDAY"), B("FRIDAY"), B("SATURDAY")>>
MonNames == <<B("JANUARY"), B("FEBRUARY"), B("MARCH"), B("APRIL"), B("MAY"), B("JUNE"), B("JULY"),
              B("AUGUST"), B("SEPTEMBER"), B("OCTOBER"), B("NOVEMBER"), B("DECEMBER")>>

\* number at offset i with the given limits: <<>> or <<value, offset behind>>
RECURSIVE NumRun(_, _, _, _, _)
NumRun(s, i, res, ulim, rulim) ==
  LET r == res * 10 + (At(s, i) - 48)
  IN  IF r * 10 <= ulim /\ (rulim \div 10) > 0 /\ IsDigit(At(s, i + 1))
      THEN NumRun(s, i + 1, r, ulim, rulim \div 10) ELSE <<r, i + 1>>
ConvNum(s, i, lo, hi) ==
  IF ~IsDigit(At(s, i)) THEN <<>>
  ELSE LET r == NumRun(s, i, 0, hi, hi) IN IF r[1] < lo \/ r[1] > hi THEN <<>> ELSE r

\* name from a list at offset i, full or first three letters: <<>> or <<index from 0, offset behind>>
NameAt(s, i, names) ==
  LET U == Upper(From(s, i))
      hit(k) == IF IsPrefixOf(names[k], U) THEN Len(names[k]) ELSE IF IsPrefixOf(Take(names[k], 3), U) THEN 3 ELSE 0
      H == {k \in 1..Len(names) : hit(k) > 0}
  IN  IF H = {} THEN <<>>
      ELSE LET k == CHOOSE k \in H : \A j \in H : k <= j IN <<k - 1, i + hit(k)>>

TDiv(a, b) == IF a >= 0 THEN a \div b ELSE 0 - ((0 - a) \div b)     \* C's division
TMod(a, b) == a - b * TDiv(a, b)

DateFail == [ok |-> FALSE]
DateOk(i, tm) == [ok |-> TRUE, i |-> i, tm |-> tm]

RECURSIVE DateRun(_, _, _, _, _, _)
RECURSIVE DateConv(_, _, _, _, _, _, _)
\* s: text, i: offset in it, f: rest of the format, tm, sy: %y or %C was seen
DateRun(s, i, f, tm, sy, dummy) ==
  IF f = <<>> THEN DateOk(i, tm)
  ELSE IF IsSpace(f[1]) THEN DateRun(s, SkipSpace(s, i), Tail(f), tm, sy, 0)
  ELSE IF f[1] # 37 THEN (IF i < Len(s) /\ At(s, i) = f[1] THEN DateRun(s, i + 1, Tail(f), tm, sy, 0) ELSE DateFail)
  ELSE DateConv(s, i, Tail(f), tm, sy, "", 0)

\* f starts at the conversion character; alt is "", "E" or "O"
DateConv(s, i, f, tm, sy, alt, dummy) ==
  LET c == At(f, 0)
      g == IF f = <<>> THEN <<>> ELSE Tail(f)
      Go(j, t) == DateRun(s, j, g, t, sy, 0)
      Legal(a) == alt = "" \/ alt \in a
      Sub(fmt) == LET r == DateRun(s, i, fmt, tm, FALSE, 0) IN IF r.ok THEN Go(r.i, r.tm) ELSE DateFail
      Num(lo, hi, fld, add) == LET n == ConvNum(s, i, lo, hi)
                               IN  IF n = <<>> THEN DateFail ELSE Go(n[2], [tm EXCEPT ![fld] = n[1] + add])
  IN
  CASE c = 37 -> IF At(s, i) = 37 THEN Go(i + 1, tm) ELSE DateFail
    [] c = 69 -> IF alt = "" THEN DateConv(s, i, g, tm, sy, "E", 0) ELSE DateFail
    [] c = 79 -> IF alt = "" THEN DateConv(s, i, g, tm, sy, "O", 0) ELSE DateFail
    [] c = 99 -> IF Legal({"E"}) THEN Sub(B("%x %X")) ELSE DateFail
    [] c = 68 -> IF Legal({}) THEN Sub(B("%m/%d/%y")) ELSE DateFail
    [] c = 82 -> IF Legal({}) THEN Sub(B("%H:%M")) ELSE DateFail
    [] c = 114 -> IF Legal({}) THEN Sub(B("%I:%M:%S %p")) ELSE DateFail
    [] c = 84 -> IF Legal({}) THEN Sub(B("%H:%M:%S")) ELSE DateFail
    [] c = 88 -> IF Legal({"E"}) THEN Sub(B("%H:%M:%S")) ELSE DateFail
    [] c = 120 -> IF Legal({"E"}) THEN Sub(B("%m/%d/%y")) ELSE DateFail
    [] c \in {65, 97} -> LET n == NameAt(s, i, DayNames)
                         IN  IF Legal({}) /\ n # <<>> THEN Go(n[2], [tm EXCEPT ![7] = n[1]]) ELSE DateFail
    [] c \in {66, 98, 104} -> LET n == NameAt(s, i, MonNames)
                              IN  IF Legal({}) /\ n # <<>> THEN Go(n[2], [tm EXCEPT ![5] = n[1]]) ELSE DateFail
    [] c = 67 -> LET n == ConvNum(s, i, 0, 99)
                 IN  IF ~Legal({"E"}) \/ n = <<>> THEN DateFail
                     ELSE DateRun(s, n[2], g, [tm EXCEPT ![6] = (IF sy THEN TMod(tm[6], 100) ELSE 0) + n[1] * 100 - 1900], TRUE, 0)
    [] c \in {100, 101} -> IF Legal({"O"}) THEN Num(1, 31, 4, 0) ELSE DateFail
    [] c = 107 -> IF Legal({}) THEN Num(0, 23, 3, 0) ELSE DateFail
    [] c = 72 -> IF Legal({"O"}) THEN Num(0, 23, 3, 0) ELSE DateFail
    [] c \in {73, 108} -> LET n == ConvNum(s, i, 1, 12)
                 IN  IF Legal(IF c = 73 THEN {"O"} ELSE {}) /\ n # <<>> THEN Go(n[2], [tm EXCEPT ![3] = n[1] % 12]) ELSE DateFail
    [] c = 106 -> IF Legal({}) THEN Num(1, 366, 8, -1) ELSE DateFail
    [] c = 77 -> IF Legal({"O"}) THEN Num(0, 59, 2, 0) ELSE DateFail
    [] c = 109 -> IF Legal({"O"}) THEN Num(1, 12, 5, -1) ELSE DateFail
    [] c = 112 -> LET w == Upper(Take(From(s, i), 2))
                  IN  IF Legal({}) /\ w \in {B("AM"), B("PM")} /\ tm[3] <= 11
                      THEN Go(i + 2, IF w = B("PM") THEN [tm EXCEPT ![3] = @ + 12] ELSE tm) ELSE DateFail
    [] c = 83 -> IF Legal({"O"}) THEN Num(0, 61, 1, 0) ELSE DateFail
    [] c \in {85, 87} -> LET n == ConvNum(s, i, 0, 53)
                         IN  IF Legal({"O"}) /\ n # <<>> THEN Go(n[2], tm) ELSE DateFail
    [] c = 119 -> IF Legal({"O"}) THEN Num(0, 6, 7, 0) ELSE DateFail
    [] c = 89 -> IF Legal({"E"}) THEN Num(0, 9999, 6, -1900) ELSE DateFail
    [] c = 121 -> LET n == ConvNum(s, i, 0, 99)
                  IN  IF ~Legal({"E", "O"}) \/ n = <<>> THEN DateFail
                      ELSE DateRun(s, n[2], g,
                             [tm EXCEPT ![6] = IF sy THEN TDiv(tm[6], 100) * 100 + n[1]
                                               ELSE IF n[1] <= 68 THEN n[1] + 100 ELSE n[1]], TRUE, 0)
    [] c \in {110, 116} -> IF Legal({}) THEN Go(SkipSpace(s, i), tm) ELSE DateFail
    [] OTHER -> DateFail

ScanDate(s, fmt, tm) ==
  LET r == DateRun(s, 0, fmt, tm, FALSE, 0)
  IN  IF r.ok /\ r.i = Len(s) THEN [err |-> 0, val |-> r.tm] ELSE [err |-> EBADDATE]

(******************************* files *************************************)
\* offsets of base name and extension within the file name
BaseOff(s) == LET b == LastIndex(s, 47) + 1
              IN  IF From(s, b) \in {B("."), B("..")} THEN Len(s) ELSE b
ExtOff(s) == LET b == BaseOff(s)
                 d == LastIndex(From(s, b), 46)
             IN  IF d <= 0 \/ b + d = Len(s) - 1 THEN Len(s) ELSE b + d
=============================================================================
