------------------------------- MODULE MC_Life ------------------------------
(***************************************************************************)
(* C19, C20: the life of a table, allocation by allocation. Every entry is *)
(* an object; calls in between allocate and release; any allocation may    *)
(* fail, after which nothing but the panic may happen; the caller may      *)
(* release and empty slots himself; the table is released as a whole, in   *)
(* two parts, or by arg_free, which takes an empty slot for the end.       *)
(***************************************************************************)
EXTENDS Memory, Json, IOUtils, TLC
CONSTANTS MaxEnt, MaxWork
Gen == IOEnv.GEN = "1"
VARIABLES slots, heap, pc, seen, twice, hist
vars == <<slots, heap, pc, seen, twice, hist>>
\* slots: the table (0: NULL), objects are numbered from 1; heap: what is allocated; seen: the call under way, as Memory sees it
Id == 1 + Len(hist) + Len(slots)
Init == slots = <<>> /\ heap = {} /\ pc = "build" /\ seen = "run" /\ twice = FALSE /\ hist = <<>>

Alloc(next) ==
  \/ heap' = heap \cup {Id} /\ next
  \/ seen' = After(seen, EvFail) /\ pc' = "failed" /\ UNCHANGED <<slots, heap, twice, hist>>
Free(S) == /\ twice' = (twice \/ ~(S \subseteq heap)) /\ heap' = heap \ S

Did(x, i) == hist' = Append(hist, <<x, i>>)
Holed == \E j \in 1..Len(hist) : hist[j][1] = "hole"

\* the constructors, arg_end last: each makes one object
New == pc = "build" /\ Len(slots) < MaxEnt /\ Alloc(slots' = Append(slots, Id) /\ UNCHANGED <<pc, seen, twice, hist>>)
End == pc = "build" /\ Len(slots) > 0 /\ pc' = "use" /\ UNCHANGED <<slots, heap, seen, twice, hist>>
\* a call that needs memory for its own purposes: it has it, and gives it back
Works == Cardinality({i \in 1..Len(hist) : hist[i][1] \in {"parse", "errors", "text"}})
Work(w) == /\ pc = "use" /\ Works < MaxWork /\ ~Holed
           /\ Alloc(pc' = "work" /\ hist' = Append(hist, <<w, Id>>) /\ UNCHANGED <<slots, seen, twice>>)
Done == pc = "work" /\ Free({hist[Len(hist)][2]}) /\ pc' = "use" /\ UNCHANGED <<slots, seen, hist>>
Panic == pc = "failed" /\ seen' = After(seen, EvPanic) /\ pc' = "panic" /\ UNCHANGED <<slots, heap, twice, hist>>
\* the caller releases an entry himself (in table order, so that there is one history for each set of holes; then only releases follow)
Hole(i) == pc = "use" /\ (\A j \in i..Len(slots) : slots[j] # 0) /\ Free({slots[i]}) /\ slots' = [slots EXCEPT ![i] = 0] /\ Did("hole", i) /\ UNCHANGED <<pc, seen>>
NonNull(S) == {slots[i] : i \in S} \ {0}
Part(S) == Free(NonNull(S)) /\ slots' = [i \in 1..Len(slots) |-> IF i \in S THEN 0 ELSE slots[i]]
Freetable == pc \in {"use", "first"} /\ Part(1..Len(slots)) /\ pc' = "released" /\ Did("freetable", 0) /\ UNCHANGED seen
First(k) == pc = "use" /\ Part(1..k) /\ pc' = "first" /\ Did("first", k) /\ UNCHANGED seen
Upto == IF \E i \in 1..Len(slots) : slots[i] = 0 THEN CHOOSE i \in 0..Len(slots) : slots[i + 1] = 0 /\ \A j \in 1..i : slots[j] # 0 ELSE Len(slots)
ArgFree == pc = "use" /\ Part(1..Upto) /\ pc' = "argfreed" /\ Did("argfree", 0) /\ UNCHANGED seen
Next == New \/ End \/ Done \/ Panic \/ Freetable \/ ArgFree
        \/ (\E w \in {"parse", "errors", "text"} : Work(w)) \/ (\E i \in 1..Len(slots) : Hole(i)) \/ (\E k \in 0..Len(slots) : First(k))
Spec == Init /\ [][Next]_vars

\* what arg_nullcheck answers
NullCheck == IF \E i \in 1..Len(slots) : slots[i] = 0 THEN 1 ELSE 0
Once == ~twice
Whole == pc = "released" => heap = {} /\ \A i \in 1..Len(slots) : slots[i] = 0
\* arg_free gives everything back exactly if there was no hole before its last entry
Deprecated == pc = "argfreed" => heap = NonNull(1..Len(slots))
Valid == pc \in {"use", "first"} => \A i \in 1..Len(slots) : slots[i] = 0 \/ slots[i] \in heap
NullAgrees == pc = "use" => (NullCheck = 0 <=> Cardinality(heap) = Len(slots))
\* once an allocation has failed there is nothing but the panic
Failing == /\ seen # "wrong"
           /\ pc = "failed" => seen = "failed"
           /\ pc = "panic" => seen = "panic" /\ ~ENABLED Next
Emit == IF Gen /\ pc \in {"released", "argfreed"} THEN PrintT(ToJson(<<"LIFE", Len(slots), hist>>)) ELSE TRUE
=============================================================================
