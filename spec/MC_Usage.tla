------------------------------ MODULE MC_Usage ------------------------------
(***************************************************************************)
(* C12, C13: usage lines and glossaries of every small table over a few    *)
(* kinds of entries. With GEN=1 the tables are printed for replay.         *)
(***************************************************************************)
EXTENDS Format, Json, IOUtils, TLC
CONSTANT MaxEnt
Gen == IOEnv.GEN = "1"
S(x) == <<B(x)>>
No == <<>>
\* kind, short, long, data type, glossary, min, max, optional value
D(k, sh, lo, dt, gl, mn, mx, opt) == [k |-> k, sh |-> sh, lo |-> lo, dt |-> dt, gl |-> gl, mn |-> mn, mx |-> mx, opt |-> opt, aux |-> No, fl |-> 0, ct |-> "n"]
Pool == <<D("l", S("a"), S("alpha"), No, S("first"), 0, 1, FALSE), D("l", S("bc"), No, No, S("two names"), 1, 1, FALSE), D("l", S("d"), No, No, No, 0, 3, FALSE),
          D("l", No, S("long"), No, S("long only"), 0, 2, FALSE), D("l", No, S("must,should"), No, No, 2, 5, FALSE),
          D("i", S("i"), S("int"), No, S("number"), 0, 1, FALSE), D("i", No, S("opt-val,o"), S("N"), No, 0, 1, TRUE), D("s", S("x"), No, S(""), S("empty type"), 1, 2, FALSE),
          D("s", No, No, No, S("positional"), 1, 4, FALSE), D("f", No, No, S("FILE"), No, 0, 2, FALSE), D("d", S("y"), No, No, S("optional"), 0, 1, TRUE),
          D("m", No, No, S("text"), S("remark"), 0, 0, FALSE), D("m", No, No, No, S("only text"), 0, 0, FALSE), D("m", No, No, S("type"), No, 0, 0, FALSE)>>
ASSUME ~Gen \/ JsonSerialize(IOEnv.OUT, Pool)
VARIABLE t
Init == t = <<>>
Next == Len(t) < MaxEnt /\ \E i \in 1..Len(Pool) : t' = Append(t, i)
Spec == Init /\ [][Next]_t
Es == [j \in 1..Len(t) |-> Entry(Pool[t[j]])]

\* brackets are balanced and never nested deeper than an optional value in an optional argument
RECURSIVE Depth(_, _)
Depth(s, n) == IF s = <<>> THEN n ELSE IF n < 0 \/ n > 2 THEN -9 ELSE Depth(Tail(s), IF Head(s) = 91 THEN n + 1 ELSE IF Head(s) = 93 THEN n - 1 ELSE n)
Balanced == Depth(Syntax(Es, No), 0) = 0 /\ Depth(SyntaxV(Es, No), 0) = 0
Occ(s, p) == Cardinality({i \in 0..(Len(s) - Len(p)) : Has(s, i, p)})
\* every name is in the verbose line, as often as the argument is shown
Shown(e) == e.mn + (IF e.mx - e.mn > 2 THEN 1 ELSE e.mx - e.mn)
AllNames ==
  LET v == SyntaxV(Es, S("!")) IN
  /\ v[Len(v)] = 33
  /\ \A j \in 1..Len(t) : LET e == Es[j] IN
       /\ (Len(t) = 1 /\ e.sh # No) => \A i \in 1..Len(e.sh[1]) : Occ(v, <<45, e.sh[1][i]>>) >= Shown(e)
       /\ e.lo # No => \A i \in 1..Len(Names(e.lo[1])) : Occ(v, B("--") \o Names(e.lo[1])[i]) >= Shown(e)
\* the usage of a table is that of its entries, one after the other (switches first in the compact form)
InTableOrder == Len(t) >= 1 =>
  /\ SyntaxV(Es, No) = SyntaxV(SubSeq(Es, 1, Len(t) - 1), No) \o SyntaxV(<<Es[Len(t)]>>, No)
  /\ Glossary(Es, No) = Glossary(SubSeq(Es, 1, Len(t) - 1), No) \o Glossary(<<Es[Len(t)]>>, No)
\* one line per described argument
Lines(s) == Cardinality({i \in 1..Len(s) : s[i] = 10})
OneLineEach == Lines(Glossary(Es, No)) = Cardinality({j \in 1..Len(t) : Es[j].gl # No})
Emit == IF Gen THEN PrintT(ToJson(<<"TAB", t>>)) ELSE TRUE
=============================================================================
