------------------------------- MODULE MC_Reg -------------------------------
(***************************************************************************)
(* C16: the registry is the map of the latest registrations. Every history *)
(* of MaxOps calls; with GEN=1 they are printed for replay.                *)
(***************************************************************************)
EXTENDS Stores, Json, IOUtils, TLC
CONSTANTS Names3, MaxOps
Gen == IOEnv.GEN = "1"
VARIABLES c, ops
Init == c = CNew /\ ops = <<>>
P == Len(ops) % 8
D(n) == <<100, 48 + Len(ops)>>
Register(n) == c' = CPut(c, n, D(n), P, P) /\ ops' = Append(ops, <<"r", n>>)
Reregister(n) == c' = (IF n \in CNames(c) THEN CPut(c, n, c.map[n].d, P, P) ELSE c) /\ ops' = Append(ops, <<"R", n>>)
Unregister(n) == c' = CDrop(c, n) /\ ops' = Append(ops, <<"u", n>>)
Look(o, n) == UNCHANGED c /\ ops' = Append(ops, <<o, n>>)
Next == Len(ops) < MaxOps /\
  \/ \E n \in Names3 : Register(n) \/ Reregister(n) \/ Unregister(n) \/ Look("i", n) \/ Look("s", n) \/ (n \in CNames(c) /\ Look("d", n))
  \/ Look("c", 0) \/ Look("n", 0)
Spec == Init /\ [][Next]_<<c, ops>>
\* the latest call that says anything about n
Last(n) == LET S == {j \in 1..Len(ops) : ops[j][2] = n /\ (ops[j][1] \in {"r", "u"})} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : k <= j
Latest == \A n \in Names3 : (n \in CNames(c)) <=> (Last(n) # 0 /\ ops[Last(n)][1] = "r")
Handler == \A n \in CNames(c) :
  \E j \in 1..Len(ops) : /\ ops[j][2] = n /\ ops[j][1] \in {"r", "R"} /\ c.map[n].p = (j - 1) % 8
                         /\ \A k \in (j + 1)..Len(ops) : ~(ops[k][2] = n /\ ops[k][1] \in {"r", "R", "u"})
                         /\ c.map[n].d[2] = 48 + Last(n) - 1
Emit == IF Gen /\ Len(ops) = MaxOps THEN PrintT(ToJson(<<"OPS", ops>>)) ELSE TRUE
=============================================================================
