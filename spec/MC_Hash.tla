------------------------------- MODULE MC_Hash ------------------------------
(***************************************************************************)
(* The hash table as the code builds it - buckets of chains, growth to the *)
(* next size when the load limit is reached, an iterator that is a bucket  *)
(* and a place in its chain - behaves like the multimap of module Stores.  *)
(* The sizes are scaled down so that growth happens within the bound.      *)
(* With GEN=1 the histories of Depth operations are printed for replay.    *)
(***************************************************************************)
EXTENDS Stores, Json, IOUtils, TLC
CONSTANTS Keys, MaxOps, Hash(_)
Gen == IOEnv.GEN = "1"
Sizes == <<2, 3, 5>>
Limit == <<1, 2, 3>>

VARIABLES tab,   \* bucket -> sequence of entries
          pi,    \* which size
          n,     \* entry count
          it,    \* iterator: <<>> none, <<b, j>> entry j of bucket b, <<"end">>
          h,     \* the multimap it should be
          ops    \* what was called
vars == <<tab, pi, n, it, h, ops>>
Empty(p) == [b \in 0..(Sizes[p] - 1) |-> <<>>]
Ix(p, k) == Hash(k) % Sizes[p]
\* entries go one by one, from the head of each chain, to the head of their new chain
RECURSIVE Move(_, _, _)
Move(new, es, p) == IF es = <<>> THEN new ELSE Move([new EXCEPT ![Ix(p, Head(es).k)] = <<Head(es)>> \o @], Tail(es), p)
RECURSIVE Flat(_, _)
Flat(t, b) == IF b \notin DOMAIN t THEN <<>> ELSE t[b] \o Flat(t, b + 1)
Grown == IF n + 1 > Limit[pi] /\ pi < Len(Sizes) THEN <<Move(Empty(pi + 1), Flat(tab, 0), pi + 1), pi + 1>> ELSE <<tab, pi>>
Order == Flat(tab, 0)
FirstOf(t, k) == LET b == Ix(pi, k) IN {j \in 1..Len(t[b]) : t[b][j].k = k /\ \A i \in 1..(j - 1) : t[b][i].k # k}
Cut(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Log(o) == ops' = Append(ops, o)
Val == Len(ops) + 1

Init == tab = Empty(1) /\ pi = 1 /\ n = 0 /\ it = <<>> /\ h = HNew /\ ops = <<>>
Insert(k) ==
  LET g == Grown
      e == [k |-> k, v |-> Val]
  IN  /\ it = <<>>
      /\ tab' = [g[1] EXCEPT ![Ix(g[2], k)] = <<e>> \o @] /\ pi' = g[2] /\ n' = n + 1
      /\ h' = HInsert(h, k, e.v) /\ it' = <<>> /\ Log(<<"i", k>>)
Remove(k) ==
  /\ it = <<>>
  /\ LET F == FirstOf(tab, k) IN
     IF F = {} THEN UNCHANGED <<tab, n, h>>
     ELSE LET j == CHOOSE j \in F : TRUE IN
          /\ tab' = [tab EXCEPT ![Ix(pi, k)] = Cut(@, j)] /\ n' = n - 1
          /\ h' = [h EXCEPT !.ents = @ \ {tab[Ix(pi, k)][j]}]
  /\ UNCHANGED <<pi, it>> /\ Log(<<"r", k>>)
Change(k) ==
  /\ LET F == FirstOf(tab, k) IN
     IF F = {} THEN UNCHANGED <<tab, h>>
     ELSE LET j == CHOOSE j \in F : TRUE
              o == tab[Ix(pi, k)][j]
              e == [k |-> k, v |-> Val] IN
          /\ tab' = [tab EXCEPT ![Ix(pi, k)][j] = e]
          /\ h' = [h EXCEPT !.ents = (@ \ {o}) \cup {e},
                            !.ord = IF it = <<>> THEN @ ELSE <<[i \in 1..Len(@[1]) |-> IF @[1][i] = o THEN e ELSE @[1][i]]>>]
  /\ UNCHANGED <<pi, n, it>> /\ Log(<<"c", k>>)
\* the iterator: first entry at or behind bucket b
RECURSIVE FirstFrom(_, _)
FirstFrom(t, b) == IF b \notin DOMAIN t THEN <<"end">> ELSE IF t[b] # <<>> THEN <<b, 1>> ELSE FirstFrom(t, b + 1)
NextOf(t, i) == IF i[2] < Len(t[i[1]]) THEN <<i[1], i[2] + 1>> ELSE FirstFrom(t, i[1] + 1)
ItCreate == /\ it = <<>> /\ it' = FirstFrom(tab, 0) /\ h' = HItr([h EXCEPT !.ord = <<Order>>])
            /\ UNCHANGED <<tab, pi, n>> /\ Log(<<"t", 0>>)
ItAdvance == /\ it # <<>>
             /\ it' = IF it = <<"end">> THEN it ELSE NextOf(tab, it)
             /\ h' = HAdvance(h) /\ UNCHANGED <<tab, pi, n>> /\ Log(<<"a", 0>>)
\* take out the current entry; what was behind it in its chain is now at its place
ItRemove == /\ it # <<>> /\ it # <<"end">>
            /\ LET t == [tab EXCEPT ![it[1]] = Cut(@, it[2])] IN
               /\ tab' = t
               /\ it' = IF it[2] <= Len(t[it[1]]) THEN it ELSE FirstFrom(t, it[1] + 1)
            /\ n' = n - 1 /\ h' = HItrRemove(h) /\ UNCHANGED pi /\ Log(<<"x", 0>>)
ItSearch(k) == /\ it # <<>>
               /\ LET F == FirstOf(tab, k) IN
                  IF F = {} THEN UNCHANGED <<it, h>>
                  ELSE /\ it' = <<Ix(pi, k), CHOOSE j \in F : TRUE>>
                       /\ h' \in {g \in HItrSearch(h, k) : HCur(g) = <<tab[it'[1]][it'[2]]>>}
               /\ UNCHANGED <<tab, pi, n>> /\ Log(<<"s", k>>)
ItDestroy == it # <<>> /\ it' = <<>> /\ h' = [h EXCEPT !.it = <<>>] /\ UNCHANGED <<tab, pi, n>> /\ Log(<<"d", 0>>)
Next == /\ Len(ops) < MaxOps
        /\ \/ \E k \in Keys : Insert(k) \/ Remove(k) \/ Change(k) \/ ItSearch(k)
           \/ ItCreate \/ ItAdvance \/ ItRemove \/ ItDestroy
Spec == Init /\ [][Next]_vars

\* refinement: the chains are the multimap, its count, its order of iteration and its iterator
SameMap == {Order[j] : j \in 1..Len(Order)} = h.ents /\ Len(Order) = Cardinality(h.ents) /\ n = Cardinality(h.ents)
InPlace == \A b \in DOMAIN tab : \A j \in 1..Len(tab[b]) : Ix(pi, tab[b][j].k) = b
Found == \A k \in Keys : (FirstOf(tab, k) # {}) = (HWith(h, k) # {})
SameItr == /\ it = <<>> => h.it = <<>>
           /\ it = <<"end">> => h.it = <<0>>
           /\ it # <<>> /\ it # <<"end">> => HCur(h) = <<tab[it[1]][it[2]]>>
           /\ it # <<>> => h.ord = <<Order>>
Emit == IF Gen /\ Len(ops) = MaxOps THEN PrintT(ToJson(<<"OPS", ops>>)) ELSE TRUE
View == <<tab, pi, n, it, h, Len(ops)>>
=============================================================================
