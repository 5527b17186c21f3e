------------------------------- MODULE MC_DStr ------------------------------
(***************************************************************************)
(* A dynamic string as the code builds it - an inline buffer, a buffer     *)
(* owned by somebody, an append buffer that grows and is given back -      *)
(* holds what module Stores says it holds, never writes behind a buffer,   *)
(* never reads or releases a released one, and loses none. The sizes are   *)
(* scaled down: Inline characters fit the inline buffer, small totals get  *)
(* an append buffer of MinApp bytes, one above Shrink is not kept.         *)
(* With GEN=1 the histories are printed for replay.                        *)
(***************************************************************************)
EXTENDS Stores, Json, IOUtils, TLC
CONSTANTS Inline, MinApp, Shrink, MaxLen, MaxOps
Gen == IOEnv.GEN = "1"
VARIABLES heap,   \* buffer -> [sz, txt]; buffer 0 is the inline one
          next,   \* name of the next buffer
          data,   \* the buffer in use
          free,   \* who releases it: "none", "dyn", "f1", "f2"
          app,    \* the append buffer (-1: none)
          used,   \* remembered length of its text
          bad,    \* something forbidden has happened
          d,      \* the string it should be
          rel,    \* how often f1, f2 have been called: <<code, specification>>
          ops
vars == <<heap, next, data, free, app, used, bad, d, rel, ops>>
Init == /\ heap = (0 :> [sz |-> Inline + 1, txt |-> <<>>, st |-> FALSE]) /\ next = 1 /\ data = 0 /\ free = "none" /\ app = -1 /\ used = 0
        /\ bad = FALSE /\ d = DNew /\ rel = <<<<0, 0>>, <<0, 0>>>> /\ ops = <<>>
\* a machine state, for composing the code's steps
M == [heap |-> heap, next |-> next, data |-> data, free |-> free, app |-> app, used |-> used, bad |-> bad, c |-> rel[1]]
NewB(m, sz, txt, st) == [m EXCEPT !.heap = @ @@ (m.next :> [sz |-> sz, txt |-> txt, st |-> st]), !.next = @ + 1, !.bad = @ \/ Len(txt) >= sz]
New(m, sz, txt) == NewB(m, sz, txt, FALSE)
Release(m, b) == IF b \notin DOMAIN m.heap \/ b = 0 THEN [m EXCEPT !.bad = TRUE]
                 ELSE [m EXCEPT !.heap = [x \in DOMAIN @ \ {b} |-> @[x]]]
Text(m, b) == IF b \in DOMAIN m.heap THEN m.heap[b].txt ELSE <<>>
Write(m, b, txt) == IF b \notin DOMAIN m.heap \/ Len(txt) >= m.heap[b].sz THEN [m EXCEPT !.bad = TRUE]
                    ELSE [m EXCEPT !.heap[b].txt = txt]
Called(m, f) == [m EXCEPT !.c = IF f = "f1" THEN <<@[1] + 1, @[2]>> ELSE IF f = "f2" THEN <<@[1], @[2] + 1>> ELSE @]
FreeProc(m, f, b) == Called(Release(m, b), f)
CFree(m) == IF m.free = "none" THEN m ELSE [FreeProc(m, m.free, m.data) EXCEPT !.free = "none"]
DropApp(m) == IF m.app = -1 THEN m ELSE [Release(m, m.app) EXCEPT !.app = -1]
AppSize(m) == IF m.app = -1 THEN 0 ELSE m.heap[m.app].sz
\* set: mode n NULL, v volatile, o a part of itself, s static, d dynamic, 1/2 own release function
CSet(m, mode, txt) ==
  LET old == m.data
      of == m.free
      src == IF mode = "o" THEN From(Text(m, m.data), Min(1, Len(Text(m, m.data)))) ELSE txt
      a == CASE mode = "n" -> [Write(m, 0, <<>>) EXCEPT !.data = 0, !.free = "none"]
             [] mode \in {"v", "o"} ->
                  IF Len(src) > Inline THEN [New(m, Len(src) + 1, src) EXCEPT !.data = m.next, !.free = "dyn"]
                  ELSE [Write(m, 0, src) EXCEPT !.data = 0, !.free = "none"]
             [] OTHER -> [NewB(m, Len(txt) + 1, txt, mode = "s") EXCEPT !.data = m.next,      \* static text is never released
                          !.free = CASE mode = "s" -> "none" [] mode = "d" -> "dyn" [] mode = "1" -> "f1" [] OTHER -> "f2"]
      b == IF of # "none" /\ old # a.data THEN FreeProc(a, of, old) ELSE a
  IN  DropApp(b)
Setup(m, space) ==
  LET t == Text(m, m.data)
      a == IF m.data # m.app
           THEN [(IF AppSize(m) > Shrink THEN DropApp(m) ELSE m) EXCEPT !.used = Len(t)]
           ELSE IF m.used # Len(t) /\ m.used < Len(t) THEN [m EXCEPT !.used = Len(t)]     \* a character, not the end, is there
           ELSE m
      tot == space + a.used
      b == IF tot >= AppSize(a)
           THEN LET x == New(a, IF tot < MinApp \div 2 THEN MinApp ELSE 2 * tot, t)
                    y == IF a.app # -1 THEN Release(x, a.app) ELSE x
                IN  [y EXCEPT !.app = a.next]
           ELSE IF a.data # a.app THEN Write(a, a.app, t) ELSE a
      \* what is in use is released - unless it is the append buffer itself, which nobody else owns
      c == CFree(b)
  IN  [c EXCEPT !.data = c.app]
CCat(m, txt) == LET s == Setup(m, Len(txt) + 1) IN Write(s, s.data, Text(s, s.data) \o txt)
CReset(m) == LET a == CFree(m) IN DropApp([Write([a EXCEPT !.data = 0], 0, <<>>) EXCEPT !.data = 0])

To(m, r, o) ==
  /\ heap' = m.heap /\ next' = m.next /\ data' = m.data /\ free' = m.free /\ app' = m.app /\ used' = m.used /\ bad' = m.bad
  /\ d' = r.d /\ rel' = <<m.c, <<rel[2][1] + r.f1, rel[2][2] + r.f2>>>> /\ ops' = Append(ops, o)
Txt(n) == [i \in 1..n |-> 97 + (Len(ops) % 20)]
Set(mode, n) == To(CSet(M, mode, Txt(n)), DSet(d, mode, IF mode = "o" THEN 1 ELSE Txt(n)), <<"set", mode, n>>)
Catn(n) == d.up /\ To(CCat(M, Txt(n)), DCat(d, Txt(n)), <<"cat", "", n>>)
Reset == To(CReset(M), DReset(d), <<"reset", "", 0>>)
\* the caller edits the text in place
CutTo(n) == /\ d.up /\ n < Len(d.txt)
            /\ LET m == Write(M, data, Take(Text(M, data), n)) IN To(m, DCut(d, n), <<"cut", "", n>>)
Next == /\ Len(ops) < MaxOps /\ Len(d.txt) <= 3 * MaxLen
        /\ \/ \E mode \in {"v", "s", "d", "1"}, n \in {0, Inline, Inline + 1, MaxLen} : Set(mode, n)
           \/ Set("n", 0) \/ (d.up /\ Set("o", 0))
           \/ \E n \in {0, 1, Inline + 1, MaxLen} : Catn(n)
           \/ Reset
           \/ \E n \in {0, 1, Inline} : CutTo(n)
Spec == Init /\ [][Next]_vars

Safe == ~bad
Holds == data \in DOMAIN heap /\ heap[data].txt = d.txt
Released == rel[1] = rel[2]
\* no buffer is lost: those of the library's that are alive are the inline one, the append buffer and the owned one in use
NoLeak == \A b \in DOMAIN heap : heap[b].st \/ b = 0 \/ b = app \/ (b = data /\ free # "none")
NotStatic == (data \in DOMAIN heap /\ heap[data].st) => free = "none"
Fits == \A b \in DOMAIN heap : Len(heap[b].txt) < heap[b].sz
Emit == IF Gen /\ Len(ops) = MaxOps THEN PrintT(ToJson(<<"OPS", ops>>)) ELSE TRUE
View == <<[b \in DOMAIN heap |-> <<heap[b].sz, heap[b].txt>>], data, free, app, used, bad, d, Len(ops)>>
=============================================================================
