------------------------------- MODULE MC_Text ------------------------------
(***************************************************************************)
(* Every short text: C10 file names split into suffixes, C13 wrapping      *)
(* loses nothing and keeps to the column.                                  *)
(***************************************************************************)
EXTENDS Format, Json, IOUtils, TLC
CONSTANTS FLen, WLen
Gen == IOEnv.GEN = "1"

VARIABLES kind, s
Init == kind \in {"file", "wrap"} /\ s = <<>>
Next == /\ \/ kind = "file" /\ Len(s) < FLen /\ \E c \in {97, 46, 47} : s' = Append(s, c)      \* a . /
           \/ kind = "wrap" /\ Len(s) < WLen /\ \E c \in {97, 32, 10} : s' = Append(s, c)      \* a space newline
        /\ UNCHANGED kind
Spec == Init /\ [][Next]_<<kind, s>>

Base == From(s, BaseOff(s))
Ext == From(s, ExtOff(s))
Files == kind = "file" =>
  /\ BaseOff(s) <= Len(s) /\ ExtOff(s) <= Len(s) /\ ExtOff(s) >= BaseOff(s)
  /\ IndexFrom(Base, 47, 0) = -1                                        \* no separator in the base name
  /\ Base # <<>> => BaseOff(s) = 0 \/ At(s, BaseOff(s) - 1) = 47          \* which starts behind one
  /\ Base = <<>> => s = <<>> \/ At(s, Len(s) - 1) = 47 \/ At(s, Len(s) - 1) = 46
  /\ Ext # <<>> => At(Ext, 0) = 46 /\ Len(Ext) >= 2 /\ Len(Base) > Len(Ext) /\ IndexFrom(Ext, 46, 1) = -1
  /\ Ext = <<>> => (\A j \in 1..(Len(Base) - 2) : At(Base, j) = 46 => \E k \in (j + 1)..(Len(Base) - 1) : At(Base, k) = 46)

NonBlank(t) == SelectSeq(t, LAMBDA c : ~IsSpace(c))
RECURSIVE Lines(_)
Lines(t) == IF t = <<>> THEN <<>> ELSE LET j == IndexFrom(t, 10, 0) IN IF j = -1 THEN <<t>> ELSE <<Take(t, j)>> \o Lines(From(t, j + 1))
Wraps == kind = "wrap" =>
  \A lm \in {0, 2}, cw \in 1..4 :
    LET t == Formatted(lm, lm + cw - 1, s)
        L == Lines(t)
    IN  /\ NonBlank(t) = NonBlank(s)                                    \* nothing lost, added or reordered
        /\ \A j \in 1..Len(L) : Len(L[j]) <= lm + cw                    \* no line exceeds the column
        /\ s # <<>> => t # <<>> /\ t[Len(t)] \in {10, 32}
        \* a word that fits the column is not broken
        /\ \A i \in 0..(Len(s) - 1) : \A j \in (i + 1)..Len(s) :
             (j - i <= cw /\ (i = 0 \/ IsSpace(At(s, i - 1))) /\ (j = Len(s) \/ IsSpace(At(s, j)))
                /\ \A k \in i..(j - 1) : ~IsSpace(At(s, k)))
             => \E m \in 1..Len(L) : \E a \in 0..(Len(L[m]) - (j - i)) : Has(L[m], a, SubSeq(s, i + 1, j))
Emit == IF Gen THEN PrintT(ToJson(<<"TEXT", kind, s>>)) ELSE TRUE
=============================================================================
