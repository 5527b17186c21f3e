------------------------------- MODULE MC_Date ------------------------------
(***************************************************************************)
(* C09: a timestamp written out in a format comes back field by field, and *)
(* fields the format does not name keep what was there.                    *)
(***************************************************************************)
EXTENDS Scan, Json, IOUtils, TLC
Gen == IOEnv.GEN = "1"
\* tm is <<sec, min, hour, mday, mon, year, wday, yday, isdst>>; the fields a conversion sets, and how it is written
Convs == <<B("%S"), B("%M"), B("%H"), B("%d"), B("%m"), B("%Y"), B("%w"), B("%j"), B("%b"), B("%A"), B("%y"), B("%D"), B("%T"), B("%R"), B("%e"), B("%k"), B("%C%y"), B("%y%C"), B("%I %p")>>
Sep == {B(":"), B(" "), B("-")}
Tms == {<<0, 0, 0, 1, 0, 69, 0, 0, 0>>, <<59, 59, 23, 31, 11, 168, 6, 365, 0>>, <<61, 30, 12, 15, 6, 99, 3, 200, 0>>, <<9, 5, 11, 28, 1, 100, 1, 58, 0>>}
Old == <<41, 42, 13, 14, 3, 77, 2, 33, 1>>
D3(n) == <<48 + n \div 100>> \o Dec2(n % 100)
Title(n) == <<n[1]>> \o Lower(Tail(n))
Write(c, t) ==
  CASE c = B("%S") -> Dec2(t[1]) [] c = B("%M") -> Dec2(t[2]) [] c = B("%H") -> Dec2(t[3]) [] c = B("%d") -> Dec2(t[4])
    [] c = B("%m") -> Dec2(t[5] + 1) [] c = B("%Y") -> Dec(t[6] + 1900) [] c = B("%w") -> Dec(t[7]) [] c = B("%j") -> D3(t[8] + 1)
    [] c = B("%b") -> Take(Title(MonNames[t[5] + 1]), 3) [] c = B("%A") -> Title(DayNames[t[7] + 1])
    [] c = B("%y") -> Dec2(t[6] % 100)
    [] c = B("%D") -> Dec2(t[5] + 1) \o B("/") \o Dec2(t[4]) \o B("/") \o Dec2(t[6] % 100)
    [] c = B("%T") -> Dec2(t[3]) \o B(":") \o Dec2(t[2]) \o B(":") \o Dec2(t[1])
    [] c = B("%R") -> Dec2(t[3]) \o B(":") \o Dec2(t[2])
    [] c = B("%e") -> Dec(t[4]) [] c = B("%k") -> Dec(t[3])
    [] c = B("%C%y") -> Dec((t[6] + 1900) \div 100) \o Dec2(t[6] % 100)
    [] c = B("%y%C") -> Dec2(t[6] % 100) \o Dec((t[6] + 1900) \div 100)
    [] c = B("%I %p") -> Dec2(IF t[3] % 12 = 0 THEN 12 ELSE t[3] % 12) \o B(" ") \o (IF t[3] < 12 THEN B("am") ELSE B("PM"))
Sets(c) ==
  CASE c = B("%S") -> {1} [] c = B("%M") -> {2} [] c \in {B("%H"), B("%k"), B("%I %p")} -> {3} [] c \in {B("%d"), B("%e")} -> {4} [] c \in {B("%m"), B("%b")} -> {5}
    [] c \in {B("%Y"), B("%y"), B("%C%y"), B("%y%C")} -> {6} [] c \in {B("%w"), B("%A")} -> {7} [] c = B("%j") -> {8}
    [] c = B("%D") -> {4, 5, 6} [] c = B("%T") -> {1, 2, 3} [] c = B("%R") -> {2, 3}
CONSTANT K
VARIABLES fm, sp, t
Init == sp \in Sep /\ t \in Tms /\ \E n \in 1..K : fm \in [1..n -> 1..Len(Convs)]
Next == UNCHANGED <<fm, sp, t>>
Spec == Init /\ [][Next]_<<fm, sp, t>>
RECURSIVE Join(_)
Join(x) == IF Len(x) = 1 THEN x[1] ELSE x[1] \o sp \o Join(Tail(x))
C(j) == Convs[fm[j]]
Fields == UNION {Sets(C(j)) : j \in 1..Len(fm)}
\* one conversion per field
Fair == \A i, j \in 1..Len(fm) : i # j => Sets(C(i)) \cap Sets(C(j)) = {}
Fmt == Join([j \in 1..Len(fm) |-> C(j)])
Txt == Join([j \in 1..Len(fm) |-> Write(C(j), t)])
RoundTrip == Fair =>
  LET r == ScanDate(Txt, Fmt, Old)
  IN  r.err = 0 /\ r.val = [f \in 1..9 |-> IF f \in Fields THEN t[f] ELSE Old[f]]
\* anything behind the timestamp makes it illegal
NoMore == Fair => ScanDate(Txt \o B("x"), Fmt, Old).err = EBADDATE
Emit == IF Gen THEN PrintT(ToJson(<<"DATE", Fmt, Txt>>)) ELSE TRUE
=============================================================================
