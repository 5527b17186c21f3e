------------------------------ MODULE ArgTable ------------------------------
(***************************************************************************)
(* Argument tables and arg_parse.                                          *)
(*                                                                         *)
(* A table is                                                              *)
(*   ent  the entries as built: [k kind l/i/d/s/r/f/t/m, sh, lo, dt, gl    *)
(*        optional strings, mn, mx, opt (optional value), aux (pattern or  *)
(*        date format), fl (regex flags), and where the caller supplies    *)
(*        callbacks of his own: cb, sc, ck, hv]                            *)
(*   cap  room for errors; cnt, val  counts and value slots per entry;     *)
(*   errs the recorded errors [e code, p entry (Len(ent)+1: the end), a];  *)
(*   log  the calls of the caller's callbacks during the last parse.       *)
(*                                                                         *)
(* A parse is a sequence of steps: option by option, then positional       *)
(* argument by positional argument, then the checks.                       *)
(***************************************************************************)
EXTENDS Scan, Regex, Getopt
LOCAL INSTANCE TLC

ELIMIT == 1
ENOMATCH == 3
ELONGOPT == 4
EMISSARG == 5

(***************************** construction ********************************)
\* The caller may define kinds of his own (k "u") and replace the callbacks of any entry: cb are the ones he supplies,
\* of reset, scan, check, error ("n": no reset at all); sc the results of successive scans, ck that of the check,
\* hv whether the kind takes a value, fl the earlier entry that is the parent of this one (0: it is its own): what its
\* callbacks are given and whose the errors are.
Custom(e) == "cb" \in DOMAIN e
Own(e, f) == Custom(e) /\ \E j \in 1..Len(e.cb) : e.cb[j] = f
CbReset == 114
CbScan == 115
CbCheck == 99
CbError == 101
CbNoReset == 110

\* d: the constructor's parameters; ct "0", "1" or "n"
BuiltIn(d) ==
  LET mn == CASE d.ct = "0" -> 0 [] d.ct = "1" -> 1 [] OTHER -> d.mn
      mx == IF d.ct \in {"0", "1"} THEN 1 ELSE Max(d.mx, d.mn)
      aux == IF d.k = "t" /\ d.aux = <<>> THEN <<B("%x")>> ELSE d.aux
      dt == CASE d.k = "l" -> <<>> [] d.k = "m" -> d.dt
              [] d.dt # <<>> -> d.dt
              [] d.k = "i" -> <<B("<int>")>> [] d.k = "d" -> <<B("<double>")>> [] d.k = "s" -> <<B("<string>")>>
              [] d.k = "f" -> <<B("<file>")>> [] OTHER -> aux
  IN  [k |-> d.k, sh |-> d.sh, lo |-> d.lo, dt |-> dt, gl |-> d.gl, mn |-> IF d.k = "m" THEN 1 ELSE mn,
       mx |-> IF d.k = "m" THEN 1 ELSE mx, opt |-> d.opt, aux |-> aux, fl |-> d.fl]
Entry(d) == IF d.k = "u" THEN d ELSE IF Custom(d) THEN BuiltIn(d) @@ [cb |-> d.cb, sc |-> d.sc, ck |-> d.ck, hv |-> d.hv] ELSE BuiltIn(d)

NoStr == [b |-> <<>>, w |-> <<0, 0, 0>>]
NoTime == <<0, 0, 0, 0, 0, 0, 0, 0, 0>>
\* the initial contents of value slots that the library does not set are unknown: any is allowed
InitSlot(e) == CASE e.k \in {"s", "r"} -> NoStr [] e.k = "f" -> <<NoStr, NoStr, NoStr>> [] e.k = "t" -> NoTime
Slots(e) == IF e.k \in {"l", "m", "u"} THEN 0 ELSE e.mx
HasValue(e) == IF e.k = "u" THEN e.hv ELSE e.k \notin {"l", "m"}
NoScan(e) == e.k = "m" \/ (e.k = "u" /\ ~Own(e, CbScan))
Tagged(e) == e.sh # <<>> \/ e.lo # <<>>

NewTable(ents, cap, val) ==
  [ent |-> ents, cap |-> Max(cap, 1), cnt |-> [i \in 1..Len(ents) |-> 0], val |-> val, errs |-> <<>>, log |-> <<>>]

(******************************* scanning **********************************)
StrVal(pn, p) == [b |-> p.s, w |-> <<pn, p.k, p.o>>]
\* the C library's value of a floating point text; dv: its values for each suffix of each word, if known
DblVal(dv, p) == IF dv = <<>> THEN SmallDecimal(p.s)[1] ELSE dv[p.k + 1][p.o + 1]

\* one occurrence of entry e with value a (<<>> or <<piece>>): [err, cnt, val]
Scan(e, cnt, val, a, pn, dv) ==
  LET Err(c) == [err |-> c, cnt |-> cnt, val |-> val]
      Put(v) == [err |-> 0, cnt |-> cnt + 1, val |-> [val EXCEPT ![cnt + 1] = v]]
      Got(r) == IF r.err # 0 THEN Err(r.err) ELSE Put(r.val)
  IN  IF e.k = "u" THEN [err |-> e.sc[(cnt % Len(e.sc)) + 1], cnt |-> cnt + 1, val |-> val]
      ELSE IF cnt >= e.mx THEN Err(EMAXCOUNT)
      ELSE IF e.k = "l" \/ a = <<>> THEN [err |-> 0, cnt |-> cnt + 1, val |-> val]
      ELSE LET p == a[1]
           IN  CASE e.k = "i" -> Got(ScanInt(p.s))
                 [] e.k = "d" -> IF IsDouble(p.s) THEN Put(DblVal(dv, p)) ELSE Err(EBADDOUBLE)
                 [] e.k = "s" -> Put(StrVal(pn, p))
                 [] e.k = "r" -> IF RexMatch(e.aux[1], e.fl % 2 = 1, p.s) THEN Put(StrVal(pn, p)) ELSE Err(EREGNOMATCH)
                 [] e.k = "f" -> Put(<<StrVal(pn, p), StrVal(pn, Behind(p, BaseOff(p.s))), StrVal(pn, Behind(p, ExtOff(p.s)))>>)
                 [] e.k = "t" -> Got(ScanDate(p.s, e.aux[1], val[cnt + 1]))

(*************************** recording errors ******************************)
Register(t, e, p, a) ==
  IF Len(t.errs) < t.cap THEN [t EXCEPT !.errs = Append(@, [e |-> e, p |-> p, a |-> a])]
  ELSE [t EXCEPT !.errs[t.cap] = [e |-> ELIMIT, p |-> Len(t.ent) + 1, a |-> <<>>]]
EndIx(t) == Len(t.ent) + 1
Par(t, i) == IF t.ent[i].k = "u" /\ t.ent[i].fl # 0 THEN t.ent[i].fl ELSE i
Called(f, i, a, x) == [f |-> f, i |-> i, a |-> a, x |-> x]
ScanInto(t, i, a, pn, dv) ==
  LET q == Par(t, i)
      r == Scan(t.ent[q], t.cnt[q], t.val[q], a, pn, dv)
      c == IF Own(t.ent[i], CbScan) THEN <<Called(CbScan, q, IF a = <<>> THEN <<>> ELSE <<StrVal(pn, a[1])>>, r.err)>> ELSE <<>>
  IN  [err |-> r.err, t |-> [t EXCEPT !.cnt[q] = r.cnt, !.val[q] = r.val, !.log = @ \o c]]

(****************************** the options ********************************)
RECURSIVE ShortString(_), LongList(_, _)
ShortString(es) ==
  IF es = <<>> THEN <<>>
  ELSE LET e == Head(es)
           m == (IF HasValue(e) THEN <<58>> ELSE <<>>) \o (IF e.opt THEN <<58>> ELSE <<>>)
       IN  (IF e.sh = <<>> THEN <<>> ELSE Cat([j \in 1..Len(e.sh[1]) |-> <<e.sh[1][j]>> \o m])) \o ShortString(Tail(es))
LongList(es, i) ==
  IF i > Len(es) THEN <<>>
  ELSE LET e == es[i]
           ns == IF e.lo = <<>> THEN <<>> ELSE Names(e.lo[1])
           ha == IF e.opt THEN 2 ELSE IF HasValue(e) THEN 1 ELSE 0
       IN  [j \in 1..Len(ns) |-> [n |-> ns[j], ha |-> ha, v |-> i - 1]] \o LongList(es, i + 1)
Options(t, posix, lonly) == [ss |-> <<58>> \o ShortString(t.ent), ls |-> LongList(t.ent, 1), posix |-> posix, lo |-> lonly, nl |-> FALSE, all |-> FALSE]

FindShort(t, c) ==
  LET S == {i \in 1..Len(t.ent) : t.ent[i].sh # <<>> /\ IndexFrom(t.ent[i].sh[1], c, 0) # -1}
  IN  CHOOSE i \in S : \A j \in S : i <= j

(******************************** parsing **********************************)
(* P: pc "tagged", "untagged", "checks" or "done"; t the table; o, g the option scanner; pn the number of this    *)
(* parse; i the untagged entry on offer; last the tentative error; use what each argv element was used for.      *)
Resets(e) == IF e.k = "u" THEN Own(e, CbReset) ELSE ~Own(e, CbNoReset)
RECURSIVE CallsFrom(_, _, _)
CallsFrom(t, i, f) ==     \* one call of this callback for each entry that has it, in table order
  IF i > Len(t.ent) THEN <<>>
  ELSE (IF Own(t.ent[i], f) THEN <<Called(f, Par(t, i), <<>>, IF f = CbCheck THEN t.ent[Par(t, i)].ck ELSE 0)>> ELSE <<>>) \o CallsFrom(t, i + 1, f)
ResetTable(t) ==
  [t EXCEPT !.errs = <<>>, !.cnt = [i \in 1..Len(t.ent) |-> IF \E j \in 1..Len(t.ent) : Par(t, j) = i /\ Resets(t.ent[j]) THEN 0 ELSE t.cnt[i]],
            !.log = CallsFrom(t, 1, CbReset),
            !.val = [i \in 1..Len(t.ent) |->
                       IF t.ent[i].k = "s" /\ Resets(t.ent[i]) THEN [j \in 1..Len(t.val[i]) |-> IF j <= t.cnt[i] THEN NoStr ELSE t.val[i][j]]
                       ELSE t.val[i]]]

BeginParse(t, argv, pn, posix, lonly, dv) ==
  LET av == [k \in 1..Len(argv) |-> [k |-> k - 1, s |-> argv[k]]]
  IN  [pc |-> IF argv = <<>> THEN "checks" ELSE "tagged", t |-> ResetTable(t), o |-> Options(t, posix, lonly), g |-> Start(av),
       pn |-> pn, dv |-> dv, i |-> 1, last |-> <<>>, use |-> [k \in 1..Len(argv) |-> IF k = 1 THEN "prog" ELSE "none"]]

\* an element may be met several times as an option cluster, but has only one use
Mark(use, k, u) ==
  IF use[k + 1] = "none" \/ (use[k + 1] \in {"opt", "err"} /\ u \in {"opt", "err"}) THEN [use EXCEPT ![k + 1] = u]
  ELSE [use EXCEPT ![k + 1] = "double"]

RECURSIVE MarkAll(_, _)
MarkAll(use, ks) == IF ks = <<>> THEN use ELSE MarkAll(Mark(use, Head(ks), "val"), Tail(ks))

TaggedStep(P) ==
  LET r == Call(P.o, P.g)
      g == r.g
      prev == LET w == Word(g, g.oi - 1) IN <<StrVal(P.pn, Piece(w, 0))>>          \* argv[optind - 1]
      arg == IF r.arg = <<>> THEN <<>> ELSE <<StrVal(P.pn, r.arg[1])>>
      u1 == IF r.what = "end" THEN (IF r.at = -1 THEN P.use ELSE Mark(P.use, r.at, "mark"))
            ELSE Mark(P.use, r.at, IF r.what \in {"long", "short"} THEN "opt" ELSE "err")
      u2 == MarkAll(u1, [j \in 1..Len(r.tk) |-> Word(g, r.tk[j]).k])
      Q == [P EXCEPT !.g = g, !.use = u2]
      end == EndIx(P.t)
      Occ(t, i) == LET s == ScanInto(t, i, r.arg, P.pn, P.dv)
                   IN  IF s.err = 0 THEN s.t ELSE Register(s.t, s.err, Par(t, i), arg)
  IN  CASE r.what = "end" -> [Q EXCEPT !.pc = "untagged"]
        [] r.what = "long" ->
             LET t1 == IF r.arg # <<>> /\ r.arg[1].s = <<>> /\ HasValue(P.t.ent[r.v + 1])
                       THEN Register(P.t, EMISSARG, end, prev) ELSE P.t
             IN  IF NoScan(P.t.ent[r.v + 1]) THEN [Q EXCEPT !.t = t1] ELSE [Q EXCEPT !.t = Occ(t1, r.v + 1)]
        [] r.what = "short" -> LET i == FindShort(P.t, r.c) IN IF NoScan(P.t.ent[i]) THEN Q ELSE [Q EXCEPT !.t = Occ(P.t, i)]
        [] r.what = "badch" -> [Q EXCEPT !.t = IF r.c = 0 THEN Register(P.t, ELONGOPT, end, prev)
                                               ELSE Register(P.t, SC(r.c), end, <<>>)]
        [] r.what = "badarg" -> [Q EXCEPT !.t = Register(P.t, EMISSARG, end, prev)]

UntaggedStep(P) ==
  LET n == Len(P.t.ent)
      argc == Len(P.g.av)
      oi == P.g.oi
      w == Word(P.g, oi)
      Here == <<StrVal(P.pn, Piece(w, 0))>>
  IN  IF P.i <= n
      THEN IF oi >= argc THEN [P EXCEPT !.pc = "checks"]
           ELSE IF Tagged(P.t.ent[P.i]) \/ NoScan(P.t.ent[P.i]) THEN [P EXCEPT !.i = @ + 1]
           ELSE LET s == ScanInto(P.t, P.i, <<Piece(w, 0)>>, P.pn, P.dv)
                IN  IF s.err = 0
                    THEN [P EXCEPT !.t = s.t, !.g.oi = @ + 1, !.last = <<>>, !.use = Mark(P.use, w.k, "pos")]
                    ELSE [P EXCEPT !.t = s.t, !.i = @ + 1, !.last = <<[e |-> s.err, p |-> Par(P.t, P.i)]>>]
      ELSE IF oi >= argc THEN [P EXCEPT !.pc = "checks"]
      ELSE [P EXCEPT !.t = IF P.last # <<>> THEN Register(P.t, P.last[1].e, P.last[1].p, Here)
                           ELSE Register(P.t, ENOMATCH, n + 1, Here),
                     !.last = <<>>, !.g.oi = @ + 1, !.use = Mark(P.use, w.k, "err")]

CheckCode(e, q, cnt) == IF Own(e, CbCheck) THEN q.ck ELSE IF e.k \notin {"m", "u"} /\ cnt < e.mn THEN EMINCOUNT ELSE 0
RECURSIVE CheckFrom(_, _)
CheckFrom(t, i) ==
  IF i > Len(t.ent) THEN [t EXCEPT !.log = @ \o CallsFrom(t, 1, CbCheck)]
  ELSE LET c == CheckCode(t.ent[i], t.ent[Par(t, i)], t.cnt[i]) IN CheckFrom(IF c # 0 THEN Register(t, c, Par(t, i), <<>>) ELSE t, i + 1)
ChecksStep(P) == [P EXCEPT !.pc = "done", !.t = IF P.t.errs = <<>> THEN CheckFrom(P.t, 1) ELSE P.t]

ParseStep(P) ==
  CASE P.pc = "tagged" -> TaggedStep(P)
    [] P.pc = "untagged" -> UntaggedStep(P)
    [] P.pc = "checks" -> ChecksStep(P)
RECURSIVE RunParse(_)
RunParse(P) == IF P.pc = "done" THEN P ELSE RunParse(ParseStep(P))

(************************* what must always hold ***************************)
\* C03: at the end every element has exactly one use
Conserved(P) == /\ \A k \in 1..Len(P.use) : P.use[k] # "double"
                /\ P.pc = "done" => \A k \in 1..Len(P.use) : P.use[k] # "none"
\* C02
BoundsHold(P) == /\ \A i \in 1..Len(P.t.ent) : P.t.ent[i].k = "u" \/ P.t.cnt[i] <= Max(P.t.ent[i].mx, 0)
                 /\ P.pc = "done" /\ P.t.errs = <<>> =>
                      \A i \in 1..Len(P.t.ent) : P.t.ent[i].k \in {"m", "u"} \/ Own(P.t.ent[i], CbCheck) \/ P.t.cnt[i] >= P.t.ent[i].mn
\* C05
ErrorsBounded(P) == Len(P.t.errs) <= P.t.cap
\* the argument vector is only ever permuted, and non-options keep their order
Permuted(P) == {P.g.av[k].k : k \in 1..Len(P.g.av)} = 0..(Len(P.g.av) - 1)
=============================================================================
