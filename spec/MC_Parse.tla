------------------------------ MODULE MC_Parse ------------------------------
(***************************************************************************)
(* Every command line of up to N words over a few tables, parsed step by   *)
(* step. The invariants are the properties C02..C06, C24, C25 of a parse.  *)
(* With GEN=1 each finished parse is printed as a behaviour for replay.    *)
(***************************************************************************)
EXTENDS ArgTable, Json, IOUtils, TLC

CONSTANT N
Gen == IOEnv.GEN = "1"

S(x) == <<B(x)>>
No == <<>>
E(k, sh, lo, mn, mx) == [k |-> k, sh |-> sh, lo |-> lo, dt |-> No, gl |-> No, mn |-> mn, mx |-> mx, opt |-> FALSE, aux |-> No, fl |-> 0, ct |-> "n"]
O(e) == [e EXCEPT !.opt = TRUE]
U(cb, hv, ck, sc, e) == e @@ [cb |-> B(cb), hv |-> hv, ck |-> ck, sc |-> sc]
Rx(p, fl, e) == [e EXCEPT !.aux = S(p), !.fl = fl]

Tables == <<
  [cap |-> 3, ents |-> <<E("l", S("a"), S("alpha"), 0, 2), E("s", S("b"), S("beta"), 0, 2), E("s", No, No, 0, 2)>>,
   words |-> <<B("-a"), B("-b"), B("-ab"), B("x"), B("--"), B("--alpha"), B("--be=v"), B("-"), B("-z")>>],
  [cap |-> 2, ents |-> <<E("l", S("a"), S("alpha"), 0, 9), E("l", No, S("alphabet,al-x"), 0, 9), E("s", No, S("alto,al"), 0, 9), E("s", No, No, 0, 1)>>,
   words |-> <<B("--a"), B("--al"), B("--alp"), B("--alpha"), B("--alphab"), B("--alt=1"), B("--alto"), B("--alpha=1"), B("x"), B("--al=")>>],
  [cap |-> 4, ents |-> <<O(E("s", S("o"), S("opt"), 0, 9)), E("l", S("v"), S("verbose"), 0, 9), E("i", S("n"), S("num,number"), 0, 9), E("f", No, No, 0, 9)>>,
   words |-> <<B("-o"), B("-oV"), B("--opt"), B("--opt="), B("-vo"), B("-n"), B("5"), B("-vn"), B("--num=5"), B("--")>>],
  [cap |-> 5, ents |-> <<E("l", S("a"), No, 1, 2), E("i", S("i"), S("int"), 1, 1), E("s", No, No, 1, 2), E("i", No, No, 0, 1)>>,
   words |-> <<B("-a"), B("-i"), B("1"), B("-i1"), B("x"), B("--int=2"), B("-ai"), B("--"), B("--int")>>],
  [cap |-> 2, ents |-> <<E("i", No, No, 0, 2), Rx("[a-c]+", 0, E("r", No, No, 1, 1)), E("d", No, No, 0, 1), E("s", No, No, 0, 1)>>,
   words |-> <<B("1"), B("12"), B("abc"), B("0.5"), B("zz"), B("-"), B("--"), B("-q")>>],
  [cap |-> 1, ents |-> <<E("l", S("a-"), S("a"), 0, 9), E("s", S("W;"), S("w-opt"), 0, 9), E("l", S("=,"), S("e"), 0, 9), E("s", No, No, 0, 9)>>,
   words |-> <<B("-a"), B("-a-"), B("-W"), B("-Wa"), B("-;"), B("-="), B("a"), B("w-opt=1"), B("---"), B("--=")>>],
  [cap |-> 2, ents |-> <<E("i", S("ijk"), S("one,two,three"), 0, 2), E("l", S("xyz"), S("flag,flag-two"), 1, 2), E("s", No, No, 2, 1)>>,
   words |-> <<B("-i1"), B("-j"), B("2"), B("--one=1"), B("--two"), B("-xyz"), B("--flag"), B("--f"), B("s"), B("--t")>>],
  [cap |-> 3, ents |-> <<E("s", No, No, 0, 0), E("i", No, No, 2, 2), E("l", S("q"), No, 0, 0), E("m", No, No, 0, 0), E("f", No, No, 1, 1)>>,
   words |-> <<B("1"), B("2"), B("-q"), B("a/b.c"), B("-qq"), B(""), B("--q")>>],
  [cap |-> 3, ents |-> <<U("rsce", TRUE, 0, <<0, 0, 7>>, E("u", S("u"), S("user"), 0, 1)), U("sc", FALSE, 9, <<0>>, E("u", S("w"), No, 1, 2)), U("sce", TRUE, 4, <<0>>, E("i", S("n"), No, 1, 1)),
                         U("rsc", TRUE, 0, <<0, 5, 0>>, E("u", No, No, 0, 1)), [U("rse", TRUE, 3, <<0>>, E("u", S("x"), S("xx"), 0, 1)) EXCEPT !.fl = 1], U("n", TRUE, 0, <<0>>, E("s", No, No, 0, 9))>>,
   words |-> <<B("-u"), B("1"), B("-w"), B("--us=v"), B("-wn1"), B("pos"), B("-x"), B("-nz")>>] >>

Ents(i) == LET d == Tables[i].ents IN [j \in 1..Len(d) |-> Entry(d[j])]
Fresh(i) == LET es == Ents(i)
            IN  NewTable(es, Tables[i].cap, [j \in 1..Len(es) |-> [n \in 1..Slots(es[j]) |->
                          IF es[j].k = "i" THEN <<0, 0, 0>> ELSE IF es[j].k = "d" THEN <<0, 0, 0, 0>> ELSE InitSlot(es[j])]])

ASSUME ~Gen \/ JsonSerialize(IOEnv.OUT, Tables)

VARIABLES tb, ws, px, P
vars == <<tb, ws, px, P>>
Argv(i, w) == <<B("prog")>> \o [j \in 1..Len(w) |-> Tables[i].words[w[j]]]
Init == \E i \in 1..Len(Tables), n \in 0..N, posix \in BOOLEAN :
        \E w \in [1..n -> 1..Len(Tables[i].words)] :
          /\ tb = i /\ ws = w /\ px = posix
          /\ P = BeginParse(Fresh(i), Argv(i, w), 1, posix, FALSE, <<>>)
Step == P.pc # "done" /\ P' = ParseStep(P) /\ UNCHANGED <<tb, ws, px>>
Next == Step
Spec == Init /\ [][Next]_vars

(******************************* invariants ********************************)
Good == Conserved(P) /\ BoundsHold(P) /\ ErrorsBounded(P) /\ Permuted(P)
\* C26: every step makes progress
Measure(p) ==
  CASE p.pc = "tagged" -> 1000000 + (Len(p.g.av) - p.g.oi) * 1000 + (IF p.g.pl = <<>> THEN 999 ELSE Len(p.g.pl[1].s))
    [] p.pc = "untagged" -> 10000 + (Len(p.g.av) - p.g.oi) * 100 + Len(p.t.ent) + 1 - p.i
    [] p.pc = "checks" -> 1
    [] p.pc = "done" -> 0
Progress == [][Measure(P') < Measure(P)]_vars

Bytes2(k, v) == CASE k \in {"s", "r"} -> v.b [] k = "f" -> <<v[1].b, v[2].b, v[3].b>> [] OTHER -> v
Accepted(t) == [i \in 1..Len(t.ent) |-> [j \in 1..Min(t.cnt[i], Len(t.val[i])) |-> Bytes2(t.ent[i].k, t.val[i][j])]]
\* C04: a good command line and the same one with its options moved to the front mean the same
Words(p) == [k \in 1..Len(p.g.av) |-> p.g.av[k].s]
SameMeaning ==
  P.pc = "done" /\ P.t.errs = <<>> =>
    LET Q == RunParse(BeginParse(Fresh(tb), Words(P), 1, px, FALSE, <<>>))
    IN  Q.t.cnt = P.t.cnt /\ Accepted(Q.t) = Accepted(P.t) /\ Len(Q.t.errs) = Len(P.t.errs)
\* C24: positional elements are met in the order of the command line
InOrder ==
  P.pc # "tagged" =>
    \A j, k \in 1..Len(P.g.av) : P.g.oi < j /\ j < k /\ P.use[1] = "prog" => P.g.av[j].k < P.g.av[k].k
\* C05: errors are in the order they were found and never beyond the capacity; the last is the marker only if it is full
ErrorsKept == \A j \in 1..Len(P.t.errs) : (P.t.errs[j].e = ELIMIT /\ P.t.errs[j].p = EndIx(P.t)) => j = P.t.cap
\* C05: once recorded, an error stays (except that the last slot may become the marker)
ErrorsStable == [][ \A j \in 1..(Len(P.t.errs) - (IF Len(P.t.errs) = P.t.cap THEN 1 ELSE 0)) : P'.t.errs[j] = P.t.errs[j] ]_vars
\* C06: parsing again, after any first command line, is like parsing with a fresh table
Again ==
  P.pc = "done" /\ Len(ws) <= 2 /\ (\A i \in 1..Len(P.t.ent) : Resets(P.t.ent[i]) \/ P.t.ent[i].k = "m") =>
    \A w \in {<<>>, <<1>>, <<2>>, <<3, 4>>} :
      LET a == Argv(tb, w)
          Q == RunParse(BeginParse(P.t, a, 1, px, FALSE, <<>>))
          F == RunParse(BeginParse(Fresh(tb), a, 1, px, FALSE, <<>>))
          Keeps(i) == P.t.ent[i].opt          \* an omitted optional value leaves the slot as it was
      IN  /\ Q.t.cnt = F.t.cnt /\ Q.t.errs = F.t.errs
          /\ \A i \in 1..Len(Q.t.ent) : Keeps(i) \/ Accepted(Q.t)[i] = Accepted(F.t)[i]
\* C25: an option with an optional value never takes the next element
NeverNext == P.pc = "done" /\ tb = 3 =>
  \A k \in 2..Len(ws) : P.use[k + 1] = "val" => P.use[k] = "opt" /\ Argv(tb, ws)[k] \in {B("-n"), B("-vn")}

\* C27: the caller's callbacks are called in this order: all the resets, the scans, all the checks; and the checks only of a good line
Stage(c) == CASE c.f = CbReset -> 1 [] c.f = CbScan -> 2 [] c.f = CbCheck -> 3
Protocol ==
  LET g == P.t.log
      Count(f, i) == Cardinality({j \in 1..Len(g) : g[j].f = f /\ g[j].i = i})
      Having(f, i) == Cardinality({j \in 1..Len(P.t.ent) : Own(P.t.ent[j], f) /\ Par(P.t, j) = i})
      failed == {j \in 1..Len(g) : g[j].f = CbScan /\ g[j].x # 0}
  IN  /\ \A j, k \in 1..Len(g) : j < k => Stage(g[j]) <= Stage(g[k])
      /\ \A i \in 1..Len(P.t.ent) : /\ Count(CbReset, i) = Having(CbReset, i)
                                    /\ Count(CbCheck, i) \in {0, Having(CbCheck, i)}
                                    /\ Count(CbScan, i) > 0 => Having(CbScan, i) > 0
      /\ (\E j \in 1..Len(g) : g[j].f = CbCheck) => P.pc = "done" /\ \A i \in 1..Len(P.t.ent) : Count(CbCheck, i) = Having(CbCheck, i)
      \* a scan that failed is an error, of its entry, unless a later positional entry took the word
      /\ P.pc = "done" /\ Len(P.t.errs) < P.t.cap =>
           \A j \in failed : Tagged(P.t.ent[g[j].i]) => \E k \in 1..Len(P.t.errs) : P.t.errs[k].p = g[j].i /\ P.t.errs[k].e = g[j].x
      \* and the other way round: codes come from the callbacks
      /\ \A k \in 1..Len(P.t.errs) : P.t.errs[k].p <= Len(P.t.ent) /\ P.t.ent[P.t.errs[k].p].k = "u" =>
           \E j \in 1..Len(g) : g[j].i = P.t.errs[k].p /\ g[j].x = P.t.errs[k].e

Emit == IF Gen /\ P.pc = "done" THEN PrintT(ToJson(<<"CASE", tb, ws, IF px THEN 1 ELSE 0>>)) ELSE TRUE
=============================================================================
