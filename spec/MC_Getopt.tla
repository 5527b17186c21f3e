----------------------------- MODULE MC_Getopt ------------------------------
(***************************************************************************)
(* getopt, getopt_long and getopt_long_only called directly, one call one  *)
(* step: every command line of up to N words, every way to call them (C30).*)
(***************************************************************************)
EXTENDS Getopt, Json, IOUtils, TLC

CONSTANT N
Gen == IOEnv.GEN = "1"
L(n, ha, f, v) == [n |-> B(n), ha |-> ha, v |-> <<f, v>>]
Setups == <<
  [ss |-> "ab:c::W;", ls |-> <<L("add", 0, 0, 65), L("adder", 1, 0, 66), L("bat", 2, 1, 7), L("b", 0, 2, 8)>>,
   words |-> <<"-a", "-b", "-bV", "-ac", "-cV", "--ad", "--add", "--adder", "--ba=V", "-W", "x", "-", "--", "-az", "--b", "-add">>],
  [ss |-> "x", ls |-> <<L("same", 1, 1, 5), L("sample", 1, 1, 5), L("sandy", 1, 1, 6), L("x", 0, 0, 9), L("xy", 0, 0, 9)>>,
   words |-> <<"--s", "--sam", "--sam=1", "--same", "--san=", "-x", "-xy", "--x", "--xy=1", "v", "-sam", "--">>] >>
Prefix == <<"", "+", "-", ":", "-:">>
ASSUME ~Gen \/ JsonSerialize(IOEnv.OUT, [i \in 1..Len(Setups) |->
          [ss |-> B(Setups[i].ss), ls |-> Setups[i].ls, words |-> [j \in 1..Len(Setups[i].words) |-> B(Setups[i].words[j])], pre |-> [j \in 1..Len(Prefix) |-> B(Prefix[j])]]])

VARIABLES su, how, pre, ws, px, S, last
vars == <<su, how, pre, ws, px, S, last>>
Argv == [k \in 1..(Len(ws) + 1) |-> [k |-> k - 1, s |-> IF k = 1 THEN B("prog") ELSE B(Setups[su].words[ws[k - 1]])]]
None == [ret |-> 0, arg |-> <<>>, msg |-> <<>>]
Init == /\ su \in 1..Len(Setups) /\ how \in 0..3 /\ pre \in 1..Len(Prefix) /\ px \in BOOLEAN
        /\ \E n \in 0..N : ws \in [1..n -> 1..Len(Setups[su].words)]
        /\ S = Session(how, <<B(Prefix[pre]) \o B(Setups[su].ss)>>, Setups[su].ls, TRUE, px, Argv, 1, 0, 2)
        /\ last = None
Next == /\ last.ret # -1
        /\ LET r == Getopt(S) IN S' = r.s /\ last' = [ret |-> r.ret, arg |-> r.arg, msg |-> r.msg]
        /\ UNCHANGED <<su, how, pre, ws, px>>
Spec == Init /\ [][Next]_vars

W(k) == Argv[k + 1].s
\* the vector only ever gets permuted, and only if asked to
Shuffled == /\ {S.g.av[k].k : k \in 1..Len(S.g.av)} = 0..Len(ws) /\ S.g.av[1].k = 0
            /\ S.o.posix \/ S.o.all => S.g.av = Argv
\* non-options keep their order; so do the others
InOrder == last.ret = -1 =>
  /\ \A j, k \in 1..Len(S.g.av) : j < k /\ S.g.oi < j => S.g.av[j].k < S.g.av[k].k
  /\ \A j, k \in 1..Len(S.g.av) : j < k /\ k <= S.g.oi => S.g.av[j].k < S.g.av[k].k
\* at the end what is left over are words that could not be options; or everything behind -- or, when told so, behind the first non-option
IsOpt(s) == Len(s) > 1 /\ s[1] = 45
Rest == {S.g.av[k].k : k \in (S.g.oi + 1)..Len(S.g.av)}
Left == last.ret = -1 =>
  /\ S.g.oi <= Len(S.g.av)
  /\ \A k \in Rest : IsOpt(W(k)) =>
       \/ \E j \in 1..(k - 1) : W(j) = B("--") /\ j \notin Rest
       \/ (S.o.posix /\ \E j \in Rest : j < k /\ ~IsOpt(W(j)))
\* a value comes from the command line, a missing one is ':' or '?'
Values == /\ last.arg # <<>> => last.arg[1].s = From(W(last.arg[1].k), last.arg[1].o) /\ last.ret \notin {-1, 63, 58}
          /\ (last.ret = 58 => pre \in {4, 5}) /\ (last.msg # <<>> => last.ret = 63 /\ pre \notin {4, 5})
          /\ last.ret = 1 => pre \in {3, 5} /\ ~IsOpt(last.arg[1].s) /\ last.arg[1].o = 0
\* every call gets on
Measure(s) == (Len(s.g.av) - s.g.oi) * 100 + (IF s.g.pl = <<>> THEN 99 ELSE Len(s.g.pl[1].s))
Progress == [][last'.ret = -1 \/ Measure(S') < Measure(S)]_vars
Emit == IF Gen /\ last = None THEN PrintT(ToJson(<<"GO", su, how, pre, ws, IF px THEN 1 ELSE 0>>)) ELSE TRUE
=============================================================================
