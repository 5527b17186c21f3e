------------------------------- MODULE Stores -------------------------------
(***************************************************************************)
(* The library's containers: dynamic strings, the hash table, the          *)
(* registry of sub-commands, and the sort.                                 *)
(***************************************************************************)
EXTENDS Bytes

(**************************** dynamic strings ******************************)
(* d: txt contents, own who releases the buffer that holds them ("none",   *)
(* "dyn", "f1", "f2"), up FALSE once the buffer has been released while    *)
(* still in use (arg_dstr_free): the contents are then undefined until the *)
(* next set or reset.                                                      *)
DNew == [live |-> TRUE, txt |-> <<>>, own |-> "none", up |-> TRUE]
DGone == [live |-> FALSE, txt |-> <<>>, own |-> "none", up |-> TRUE]
InlineSize == 200     \* longer copies get a buffer of their own
\* a result: the new state, and how often each release function has been called
DRes(d, old) == [d |-> d, f1 |-> IF old.own = "f1" THEN 1 ELSE 0, f2 |-> IF old.own = "f2" THEN 1 ELSE 0]
DSet(d, mode, s) ==
  DRes([live |-> TRUE, up |-> TRUE,
        txt |-> CASE mode \in {"n", "N"} -> <<>> [] mode = "o" -> From(d.txt, Min(s, Len(d.txt))) [] OTHER -> s,
        own |-> CASE mode = "d" -> "dyn" [] mode = "1" -> "f1" [] mode = "2" -> "f2" [] OTHER -> "none"], d)
DCat(d, s) == DRes([d EXCEPT !.txt = @ \o s, !.own = "none"], d)
DReset(d) == DRes(DNew, d)
DDestroy(d) == DRes(DGone, d)
DFree(d, dangling) == DRes([d EXCEPT !.own = "none", !.up = ~dangling], d)
DKeep(d) == [d |-> d, f1 |-> 0, f2 |-> 0]
DCut(d, n) == DKeep([d EXCEPT !.txt = Take(@, n)])
DPoke(d, n, c) == DKeep([d EXCEPT !.txt = IF n < Len(@) THEN [@ EXCEPT ![n + 1] = c] ELSE @])

(****************************** hash table *********************************)
(* h: ents the set of entries [k key, v value] (values are unique), ord    *)
(* the order of iteration if it is known (<<>> or <<sequence of entries>>),*)
(* it the iterator: <<>> none, <<0>> past the end, <<i>> on entry ord[i].  *)
HNew == [live |-> TRUE, ents |-> {}, ord |-> <<<<>>>>, it |-> <<>>]
HGone == [live |-> FALSE, ents |-> {}, ord |-> <<<<>>>>, it |-> <<>>]
HWith(h, k) == {e \in h.ents : e.k = k}
HInsert(h, k, v) == [h EXCEPT !.ents = @ \cup {[k |-> k, v |-> v]}, !.ord = <<>>, !.it = <<>>]
\* as many insertions of new keys, with the values v, v + 1, ...
HInsertAll(h, ks, v) == [h EXCEPT !.ents = @ \cup {[k |-> ks[i], v |-> v + i - 1] : i \in 1..Len(ks)}, !.ord = <<>>, !.it = <<>>]
Without(ord, e) == IF ord = <<>> THEN <<>> ELSE <<SelectSeq(ord[1], LAMBDA x : x # e)>>
\* the possible states after removing key k: any one of its entries
HRemove(h, k) ==
  IF HWith(h, k) = {} THEN {h}
  ELSE {[h EXCEPT !.ents = @ \ {e}, !.ord = Without(@, e), !.it = <<>>] : e \in HWith(h, k)}
HChange(h, k, v) ==
  {[h EXCEPT !.ents = (@ \ {e}) \cup {[k |-> k, v |-> v]},
             !.ord = IF @ = <<>> THEN @ ELSE <<[i \in 1..Len(@[1]) |-> IF @[1][i] = e THEN [k |-> k, v |-> v] ELSE @[1][i]]>>]
     : e \in HWith(h, k)}
\* r lists every entry exactly once
HIsScan(h, r) == Len(r) = Cardinality(h.ents) /\ {r[i] : i \in 1..Len(r)} = h.ents
HCur(h) == IF h.it = <<>> \/ h.it = <<0>> THEN <<>> ELSE <<h.ord[1][h.it[1]]>>
HItr(h) == [h EXCEPT !.it = IF h.ents = {} THEN <<0>> ELSE <<1>>]
HAdvance(h) == [h EXCEPT !.it = IF @ = <<0>> \/ @[1] = Len(h.ord[1]) THEN <<0>> ELSE <<@[1] + 1>>]
HItrSearch(h, k) ==
  {[h EXCEPT !.it = <<i>>] : i \in {i \in 1..Len(h.ord[1]) : h.ord[1][i].k = k}}
HItrRemove(h) ==
  LET i == h.it[1]
      e == h.ord[1][i]
  IN  [h EXCEPT !.ents = @ \ {e}, !.ord = Without(@, e), !.it = IF i = Len(h.ord[1]) THEN <<0>> ELSE <<i>>]

(******************************* registry **********************************)
(* c: map from name to [d description, p handler, x context]; ord the last *)
(* order of iteration seen since the registry changed.                     *)
CNew == [live |-> TRUE, map |-> <<>>, ord |-> <<>>]
CGone == [live |-> FALSE, map |-> <<>>, ord |-> <<>>]
CNames(c) == DOMAIN c.map
CPut(c, n, d, p, x) ==
  [c EXCEPT !.map = [m \in CNames(c) \cup {n} |-> IF m = n THEN [d |-> d, p |-> p, x |-> x] ELSE c.map[m]], !.ord = <<>>]
CDrop(c, n) == [c EXCEPT !.map = [m \in CNames(c) \ {n} |-> c.map[m]], !.ord = IF n \in CNames(c) THEN <<>> ELSE @]
CInfo(c, n) == IF n \in CNames(c) THEN <<[n |-> n, d |-> c.map[n].d, p |-> c.map[n].p, x |-> c.map[n].x]>> ELSE <<>>
CDesc(c, n) == IF n \in CNames(c) THEN <<c.map[n].d>> ELSE <<>>

(********************************* sort ************************************)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
\* r is a correct result of sorting s between the indexes i and k (from 0) by first byte
IsSorted(s, r, i, k, desc) ==
  /\ Len(r) = Len(s)
  /\ \A j \in 1..Len(s) : (j <= i \/ j > k + 1) => r[j] = s[j]
  /\ \A j \in (i + 1)..k : IF desc THEN r[j][1] >= r[j + 1][1] ELSE r[j][1] <= r[j + 1][1]
  /\ LET a == SubSeq(s, i + 1, k + 1)
         b == SubSeq(r, i + 1, k + 1)
     IN  \A x \in {a[j] : j \in 1..Len(a)} \cup {b[j] : j \in 1..Len(b)} : Count(a, x) = Count(b, x)
=============================================================================
