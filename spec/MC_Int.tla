------------------------------- MODULE MC_Int -------------------------------
(***************************************************************************)
(* C01: numbers written out in every base, with signs, suffixes and blanks *)
(* come back as what was written or as an overflow; every short text over  *)
(* the characters of numbers is either a number or an invalid argument.    *)
(***************************************************************************)
EXTENDS Scan, Json, IOUtils, TLC

CONSTANT Short       \* length of the arbitrary texts
Gen == IOEnv.GEN = "1"

\* magnitudes as <<hi, lo>> in base 65536, around all the limits
Mags == {<<0, 0>>, <<0, 1>>, <<0, 2>>, <<0, 7>>, <<0, 8>>, <<0, 9>>, <<0, 10>>, <<0, 255>>, <<0, 2047>>, <<0, 2048>>, <<0, 2049>>,
         <<0, 65535>>, <<1, 0>>, <<31, 65535>>, <<32, 0>>, <<32, 1>>, <<32767, 65534>>, <<32767, 65535>>, <<32768, 0>>, <<32768, 1>>,
         <<65535, 65535>>}
Bases == {2, 8, 10, 16}
Digit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE Render(_, _)
Render(m, b) ==
  LET q1 == m[1] \div b
      r1 == m[1] % b
      t == r1 * 65536 + m[2]
  IN  (IF q1 = 0 /\ t \div b = 0 THEN <<>> ELSE Render(<<q1, t \div b>>, b)) \o <<Digit(t % b)>>
Prefix(b) == CASE b = 2 -> B("0b") [] b = 8 -> B("0o") [] b = 16 -> B("0x") [] OTHER -> <<>>
Signs == {<<>>, B("+"), B("-")}
Suffixes == {<<0, <<>>>>, <<10, B("KB")>>, <<20, B("MB")>>, <<30, B("GB")>>, <<0, B(" ")>>, <<10, B("kb ")>>}

Alphabet == {48, 49, 56, 57, 45, 43, 32, 120, 111, 98, 66, 107, 75, 77, 103, 102}   \* 0 1 8 9 - + space x o b B k K M g f

VARIABLES kind, w
Init == \/ /\ kind = "num"
           /\ w \in {<<s, b, m, x, z>> : s \in Signs, b \in Bases, m \in Mags, x \in Suffixes, z \in BOOLEAN}
        \/ kind = "txt" /\ w = <<>>
Next == kind = "txt" /\ Len(w) < Short /\ \E c \in Alphabet : w' = Append(w, c) /\ kind' = kind
Spec == Init /\ [][Next]_<<kind, w>>

Text == IF kind = "txt" THEN w
        ELSE w[1] \o Prefix(w[2]) \o (LET d == Render(w[3], w[2]) IN IF w[5] THEN Upper(d) ELSE d) \o w[4][2]
\* does magnitude m times 2^k fit? (independent of the limits used by the specification of the scanner)
RECURSIVE Double(_, _)
Double(m, k) == IF k = 0 THEN m ELSE Double(IF m[1] >= 32768 THEN <<65536, 0>> ELSE <<m[1] * 2 + (m[2] * 2) \div 65536, (m[2] * 2) % 65536>>, k - 1)
Fits(neg, m) == m[1] < 32768 \/ (neg /\ m = <<32768, 0>>)
Exact == kind = "num" =>
  LET neg == w[1] = B("-")
      v == Double(w[3], w[4][1])
      r == ScanInt(Text)
      z == v = <<0, 0>>
  IN  IF Fits(neg, v) /\ Fits(neg, w[3]) THEN r.err = 0 /\ r.val = <<IF neg /\ ~z THEN 1 ELSE 0, v[1], v[2]>>
      ELSE r.err = EOVERFLOW
\* a text accepted as a number consists of a numeral, perhaps a suffix, and blanks around them
Shape == kind = "txt" =>
  LET r == ScanInt(Text) IN
  /\ r.err \in {0, EBADINT, EOVERFLOW}
  /\ r.err = 0 => \E j \in 1..Len(w) : IsDigit(w[j])
  /\ (Len(w) > 0 /\ w[Len(w)] \in {45, 43, 120, 111}) => r.err # 0
  /\ w = <<>> => r.err = EBADINT
  \* a trailing blank changes nothing
  /\ r.err = 0 => ScanInt(w \o <<32>>) = r
Emit == IF Gen THEN PrintT(ToJson(<<"TEXT", Text>>)) ELSE TRUE
=============================================================================
