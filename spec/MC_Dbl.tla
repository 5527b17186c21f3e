------------------------------- MODULE MC_Dbl -------------------------------
(***************************************************************************)
(* C11: which texts are floating-point numbers. IsDouble is compared with  *)
(* a finite automaton for the notation of C (decimal and hexadecimal, both *)
(* cases, infinity and nan), over every short text of the characters of    *)
(* numbers and every text that starts like one of the names.               *)
(***************************************************************************)
EXTENDS Scan, Json, IOUtils, TLC
CONSTANT Short
Gen == IOEnv.GEN = "1"

Infinity == B("infinity")
Nan == B("nan(x_1)")
Numeric == {48, 49, 46, 101, 69, 45, 43, 120, 112, 102, 32}         \* 0 1 . e E - + x p f space
Named == {105, 110, 102, 116, 121, 97, 40, 41, 95, 78, 49}          \* i n f t y a ( ) _ N 1

VARIABLES kind, w, more
Init == \/ kind = "txt" /\ w = <<>> /\ more = Short
        \/ kind = "name" /\ more = 2 /\ \E n \in 0..8, z \in {Infinity, Nan}, g \in {<<>>, B("-"), B(" +")} : w = g \o Take(z, n)
Next == /\ more > 0 /\ more' = more - 1 /\ kind' = kind
        /\ \E c \in (IF kind = "txt" THEN Numeric ELSE Named) : w' = Append(w, c)
Spec == Init /\ [][Next]_<<kind, w, more>>

Digit(c) == c >= 48 /\ c <= 57
Hex(c) == Digit(c) \/ (c >= 97 /\ c <= 102)
Sign(c) == c \in {43, 45}
Begin(c) == CASE c = 48 -> "zero" [] Digit(c) -> "int" [] c = 46 -> "point" [] c = 105 -> "i" [] c = 110 -> "n" [] OTHER -> "no"
\* c in lower case
Delta(q, c) ==
  CASE q = "blank" -> IF IsSpace(c) THEN "blank" ELSE IF Sign(c) THEN "sign" ELSE Begin(c)
    [] q = "sign" -> Begin(c)
    [] q \in {"zero", "int"} -> IF Digit(c) THEN "int" ELSE IF c = 46 THEN "frac" ELSE IF c = 101 THEN "e" ELSE IF q = "zero" /\ c = 120 THEN "x" ELSE "no"
    [] q = "point" -> IF Digit(c) THEN "frac" ELSE "no"
    [] q = "frac" -> IF Digit(c) THEN "frac" ELSE IF c = 101 THEN "e" ELSE "no"
    [] q = "x" -> IF Hex(c) THEN "hint" ELSE IF c = 46 THEN "hpoint" ELSE "no"
    [] q = "hint" -> IF Hex(c) THEN "hint" ELSE IF c = 46 THEN "hfrac" ELSE IF c = 112 THEN "e" ELSE "no"
    [] q = "hpoint" -> IF Hex(c) THEN "hfrac" ELSE "no"
    [] q = "hfrac" -> IF Hex(c) THEN "hfrac" ELSE IF c = 112 THEN "e" ELSE "no"
    [] q = "e" -> IF Digit(c) THEN "exp" ELSE IF Sign(c) THEN "esign" ELSE "no"
    [] q \in {"esign", "exp"} -> IF Digit(c) THEN "exp" ELSE "no"
    [] q = "i" -> IF c = 110 THEN "in" ELSE "no"
    [] q = "in" -> IF c = 102 THEN "inf" ELSE "no"
    [] q = "inf" -> IF c = 105 THEN "infi" ELSE "no"
    [] q = "infi" -> IF c = 110 THEN "infin" ELSE "no"
    [] q = "infin" -> IF c = 105 THEN "infini" ELSE "no"
    [] q = "infini" -> IF c = 116 THEN "infinit" ELSE "no"
    [] q = "infinit" -> IF c = 121 THEN "infinity" ELSE "no"
    [] q = "n" -> IF c = 97 THEN "na" ELSE "no"
    [] q = "na" -> IF c = 110 THEN "nan" ELSE "no"
    [] q = "nan" -> IF c = 40 THEN "nan(" ELSE "no"
    [] q = "nan(" -> IF c = 41 THEN "nan()" ELSE IF IsAlnum(c) \/ c = 95 THEN "nan(" ELSE "no"
    [] OTHER -> "no"
RECURSIVE Run(_, _)
Run(q, s) == IF s = <<>> THEN q ELSE Run(Delta(q, ToLower(s[1])), Tail(s))
Number(s) == Run("blank", s) \in {"zero", "int", "frac", "hint", "hfrac", "exp", "inf", "infinity", "nan", "nan()"}

Same == IsDouble(w) = Number(w)
\* the plain decimals the specification evaluates itself are numbers
Small == kind = "txt" /\ SmallDecimal(w) # <<>> => IsDouble(w)
Emit == IF Gen THEN PrintT(ToJson(<<"TEXT", w>>)) ELSE TRUE
=============================================================================
