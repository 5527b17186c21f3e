------------------------------- MODULE MC_Sort ------------------------------
(***************************************************************************)
(* C18: the merge sort, as the code does it, sorts every short array.      *)
(* Elements are <<key, tag>>; the merge step takes the right element of    *)
(* two equal ones, so equal elements may change their order.               *)
(***************************************************************************)
EXTENDS Stores, Json, IOUtils, TLC
Gen == IOEnv.GEN = "1"
CONSTANTS MaxLen, Keys
RECURSIVE Merge(_, _, _, _, _), MSort(_, _, _)
\* merge a[ip..j] and a[jp..k] into m (indexes from 0, inclusive)
Merge(a, ip, j, jp, k) ==
  IF ip > j THEN SubSeq(a, jp + 1, k + 1)
  ELSE IF jp > k THEN SubSeq(a, ip + 1, j + 1)
  ELSE IF a[ip + 1][1] < a[jp + 1][1] THEN <<a[ip + 1]>> \o Merge(a, ip + 1, j, jp, k)
  ELSE <<a[jp + 1]>> \o Merge(a, ip, j, jp + 1, k)
TDiv2(x) == IF x >= 0 THEN x \div 2 ELSE 0 - ((0 - x) \div 2)
MSort(a, i, k) ==
  IF i >= k THEN a
  ELSE LET j == TDiv2(i + k - 1)
           b == MSort(MSort(a, i, j), j + 1, k)
       IN  SubSeq(b, 1, i) \o Merge(b, i, j, j + 1, k) \o SubSeq(b, k + 2, Len(b))
VARIABLE a
Init == a = <<>>
Next == Len(a) < MaxLen /\ \E x \in Keys : a' = Append(a, <<x, Len(a)>>)
Spec == Init /\ [][Next]_a
Sorts == \A i \in 0..Len(a), k \in -1..(Len(a) - 1) : IsSorted(a, MSort(a, i, k), i, k, FALSE)
Emit == IF Gen THEN PrintT(ToJson(<<"SORT", a>>)) ELSE TRUE
=============================================================================
