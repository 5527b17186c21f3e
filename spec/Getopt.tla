------------------------------- MODULE Getopt -------------------------------
(***************************************************************************)
(* Recognition of options on a command line. One call of the option        *)
(* scanner is one step: Call(o, g) consumes the next option of g.          *)
(*                                                                         *)
(* o: the options of a table - ss the short option string, ls the long     *)
(*    options [n name, ha 0 none/1 required/2 optional value, v entry],    *)
(*    posix: stop at the first non-option, lo: single dash long options,   *)
(*    nl: no list of long options at all, all: non-options are handed out  *)
(*    in their place (as the value of an option).                          *)
(* g: av the argument vector, permuted as scanning proceeds, of words      *)
(*    [k original index, s text]; oi the index (C: from 0) of the next     *)
(*    word; pl the unread rest of an option cluster (<<>> or <<piece>>);   *)
(*    ns, ne the block of skipped non-options (-1: none).                  *)
(* A piece of text is [k, o, s]: the text s at offset o of argv[k].        *)
(***************************************************************************)
EXTENDS Bytes

Piece(w, o) == [k |-> w.k, o |-> o, s |-> From(w.s, o)]
Behind(p, n) == [k |-> p.k, o |-> p.o + n, s |-> From(p.s, n)]
Word(g, i) == g.av[i + 1]

Start(av) == [av |-> av, oi |-> 1, pl |-> <<>>, ns |-> -1, ne |-> -1]

\* exchange the blocks a..b-1 and b..c-1 of the argument vector (C indexes)
Permute(av, a, b, c) ==
  SubSeq(av, 1, a) \o SubSeq(av, b + 1, c) \o SubSeq(av, a + 1, b) \o SubSeq(av, c + 1, Len(av))

\* results: what is
\*   "end"   no more options
\*   "long"  long option of entry v (from 0) with value arg;  "short"  option character c with value arg
\*   "badch" unknown option: c the character, 0 for a long one;  "badarg" missing value
\*   "arg"   a non-option, handed out as arg
\* at: where in argv the option was; tk: the C indexes of further words it used up; m: which of the long options
\* why, dash, nm: the reason of an error, the dashes and the text of the long option it is about
R(what, g) == [what |-> what, g |-> g, v |-> 0, c |-> 0, arg |-> <<>>, at |-> -1, tk |-> <<>>, m |-> 0, why |-> "", dash |-> <<>>, nm |-> <<>>]

\* the names that match text n, in the order of the table
LongHits(o, n, shorttoo) ==
  LET Hit(j) == IsPrefixOf(n, o.ls[j].n)
      Exact(j) == o.ls[j].n = n
      E == {j \in 1..Len(o.ls) : Exact(j)}
      P == {j \in 1..Len(o.ls) : Hit(j) /\ ~(shorttoo /\ Len(n) = 1)}
  IN  IF E # {} THEN LET e == CHOOSE j \in E : \A i \in E : j <= i IN [m |-> e, amb |-> FALSE]
      ELSE IF P = {} THEN [m |-> 0, amb |-> FALSE]
      ELSE LET f == CHOOSE j \in P : \A i \in P : j <= i
           IN  [m |-> f, amb |-> \E j \in P : j # f /\ (o.lo \/ o.ls[j].ha # o.ls[f].ha \/ o.ls[j].v # o.ls[f].v)]

\* p: the long option behind its dashes d, g.oi its word (or, for -W, the word behind it)
Long(o, g, p, shorttoo, d) ==
  LET e == IndexFrom(p.s, 61, 0)
      n == IF e = -1 THEN p.s ELSE Take(p.s, e)
      h == LongHits(o, n, shorttoo)
      g1 == [g EXCEPT !.oi = @ + 1, !.pl = <<>>]
      L == o.ls[h.m]
      No(what, why, nm) == [R(what, g1) EXCEPT !.at = p.k, !.m = h.m, !.why = why, !.dash = d, !.nm = nm]
      Yes(g2) == [R("long", g2) EXCEPT !.v = L.v, !.at = p.k, !.m = h.m]
  IN  IF h.m = 0 /\ shorttoo /\ ~h.amb THEN R("none", g)
      ELSE IF h.amb THEN No("badch", "ambiguous", n)
      ELSE IF h.m = 0 THEN No("badch", "unknown", p.s)
      ELSE IF L.ha = 0 /\ e # -1 THEN No("badch", "noarg", n)
      ELSE IF e # -1 THEN [Yes(g1) EXCEPT !.arg = <<Behind(p, e + 1)>>]
      ELSE IF L.ha # 1 THEN Yes(g1)
      ELSE IF g1.oi >= Len(g.av) THEN No("badarg", "longarg", p.s)
      ELSE [Yes([g1 EXCEPT !.oi = @ + 1]) EXCEPT !.arg = <<Piece(Word(g1, g1.oi), 0)>>, !.tk = <<g1.oi>>]

\* p: the unread characters of a cluster of short options in word g.oi
Short(o, g, p) ==
  LET c == At(p.s, 0)
      rest == Behind(p, 1)
      more == rest.s # <<>>
      j == IndexFrom(o.ss, c, 0)
      Next1(n) == [g EXCEPT !.oi = @ + n, !.pl = <<>>]
      gc == IF more THEN [g EXCEPT !.pl = <<rest>>] ELSE Next1(1)
      i1 == g.oi + 1
      Missing == [R("badarg", Next1(1)) EXCEPT !.at = p.k, !.c = c, !.why = "chararg"]
      Yes(g2) == [R("short", g2) EXCEPT !.c = c, !.at = p.k]
  IN  IF c = 45 /\ ~more /\ j = -1 THEN R("end", [g EXCEPT !.pl = <<>>])
      ELSE IF c = 58 \/ (c = 45 /\ more) \/ j = -1 THEN [R("badch", gc) EXCEPT !.c = c, !.at = p.k, !.why = "char"]
      ELSE IF c = 87 /\ At(o.ss, j + 1) = 59 /\ ~o.nl
      THEN IF more THEN Long(o, g, rest, FALSE, B("-W "))
           ELSE IF i1 >= Len(g.av) THEN Missing
           ELSE [Long(o, [g EXCEPT !.oi = i1], Piece(Word(g, i1), 0), FALSE, B("-W ")) EXCEPT !.at = p.k, !.tk = <<i1>> \o @]
      ELSE IF At(o.ss, j + 1) # 58 THEN Yes(gc)
      ELSE IF more THEN [Yes(Next1(1)) EXCEPT !.arg = <<rest>>]
      ELSE IF At(o.ss, j + 2) = 58 THEN Yes(Next1(1))
      ELSE IF i1 >= Len(g.av) THEN Missing
      ELSE [Yes(Next1(2)) EXCEPT !.arg = <<Piece(Word(g, i1), 0)>>, !.tk = <<i1>>]

\* an option is next: p its unread text (behind the first dash, or within a cluster)
Option(o, g, p) ==
  IF o.nl THEN Short(o, g, p)
  ELSE IF At(p.s, 0) = 45
  THEN IF Len(p.s) = 1 THEN [R("badch", [g EXCEPT !.oi = @ + 1, !.pl = <<>>]) EXCEPT !.c = 45, !.at = p.k, !.why = "dash"]
       ELSE Long(o, g, Behind(p, 1), FALSE, B("--"))
  ELSE IF o.lo
  THEN LET st == At(p.s, 0) # 58 /\ IndexFrom(o.ss, At(p.s, 0), 0) # -1
           r == Long(o, g, p, st, B("-"))
       IN  IF r.what = "none" THEN Short(o, g, p) ELSE r
  ELSE Short(o, g, p)

RECURSIVE Call(_, _)
Call(o, g) ==
  IF g.pl # <<>> THEN Option(o, g, g.pl[1])
  ELSE IF g.oi >= Len(g.av)
  THEN R("end", IF g.ne # -1
                THEN [g EXCEPT !.av = Permute(@, g.ns, g.ne, g.oi), !.oi = @ - (g.ne - g.ns), !.ns = -1, !.ne = -1]
                ELSE IF g.ns # -1 THEN [g EXCEPT !.oi = g.ns, !.ns = -1] ELSE g)
  ELSE LET w == Word(g, g.oi)
       IN  IF At(w.s, 0) # 45 \/ Len(w.s) = 1                     \* not an option
           THEN IF o.all THEN [R("arg", [g EXCEPT !.oi = @ + 1]) EXCEPT !.arg = <<Piece(w, 0)>>, !.at = w.k]
                ELSE IF o.posix THEN R("end", g)
                ELSE Call(o, IF g.ns = -1 THEN [g EXCEPT !.ns = g.oi, !.oi = @ + 1]
                             ELSE IF g.ne # -1
                             THEN [g EXCEPT !.av = Permute(@, g.ns, g.ne, g.oi), !.ns = g.oi - (g.ne - g.ns), !.ne = -1, !.oi = @ + 1]
                             ELSE [g EXCEPT !.oi = @ + 1])
           ELSE LET g1 == IF g.ns # -1 /\ g.ne = -1 THEN [g EXCEPT !.ne = g.oi] ELSE g
                IN  IF w.s = <<45, 45>>
                    THEN LET i == g.oi + 1
                         IN  [R("end", IF g1.ne # -1
                                       THEN [g1 EXCEPT !.av = Permute(@, g1.ns, g1.ne, i), !.oi = i - (g1.ne - g1.ns), !.ns = -1, !.ne = -1]
                                       ELSE [g1 EXCEPT !.oi = i, !.ns = -1, !.ne = -1])
                              EXCEPT !.at = w.k]
                    ELSE Option(o, g1, Piece(w, 1))

(************************ the functions themselves *************************)
(* A session of getopt (how 0), getopt_long (1; 3 with no list of long     *)
(* options) or getopt_long_only (2):                                       *)
(* raw the option string as given (<<>> none), o, g as above, err: report  *)
(* errors, px: POSIXLY_CORRECT is set; opt and ix what optopt and the      *)
(* index hold, fl the variables of the program that long options may set;  *)
(* ls here has v = <<variable or 0, value>>.                               *)
Session(how, raw, ls, err, px, av, oi, opt, nf) ==
  LET f == IF raw = <<>> \/ raw[1] = <<>> THEN 0 ELSE raw[1][1]
      ss == IF raw = <<>> THEN <<>> ELSE IF f \in {43, 45} THEN Tail(raw[1]) ELSE raw[1]
  IN  [o |-> [ss |-> ss, ls |-> ls, posix |-> how = 0 \/ (f # 45 /\ (px \/ f = 43)), lo |-> how = 2, nl |-> how \in {0, 3}, all |-> f = 45],
       g |-> [Start(av) EXCEPT !.oi = oi], raw |-> raw, err |-> err, px |-> px, opt |-> opt, ix |-> -1, fl |-> [i \in 1..nf |-> 0], over |-> FALSE]

Message(S, r) ==
  LET T == r.dash \o r.nm
  IN  IF ~S.err \/ At(S.o.ss, 0) = 58 THEN <<>>
      ELSE CASE r.why = "ambiguous" -> B("option `") \o T \o B("' is ambiguous")
             [] r.why = "noarg" -> B("option `") \o T \o B("' doesn't allow an argument")
             [] r.why = "unknown" -> B("unrecognized option `") \o T \o B("'")
             [] r.why = "longarg" -> B("option `") \o T \o B("' requires an argument")
             [] r.why = "chararg" -> B("option requires an argument -- ") \o <<r.c>>
             [] r.why = "char" -> (IF S.px THEN B("illegal option -- ") ELSE B("invalid option -- ")) \o <<r.c>>
             [] OTHER -> <<>>

\* one call: the session afterwards, what is returned, optarg, what is reported
Getopt(S) ==
  IF S.raw = <<>> THEN [s |-> S, ret |-> -1, arg |-> <<>>, msg |-> <<>>]
  ELSE LET r == Call(S.o, IF S.g.oi = 0 THEN [S.g EXCEPT !.oi = 1] ELSE S.g)
           v == S.o.ls[r.m].v
           S1 == [S EXCEPT !.g = r.g]
           Done(s, ret) == [s |-> s, ret |-> ret, arg |-> r.arg, msg |-> Message(S, r)]
           No(ret) == Done([S1 EXCEPT !.opt = CASE r.why \in {"ambiguous", "unknown"} -> 0
                                                [] r.why \in {"noarg", "longarg"} -> IF v[1] = 0 THEN v[2] ELSE 0
                                                [] OTHER -> r.c], ret)
       IN  CASE r.what = "end" -> Done(S1, -1)
             [] r.what = "arg" -> Done(S1, 1)
             [] r.what = "short" -> Done(S1, r.c)
             [] r.what = "long" -> IF v[1] = 0 THEN Done([S1 EXCEPT !.ix = r.m - 1], v[2])
                                   ELSE Done([S1 EXCEPT !.ix = r.m - 1, !.fl[v[1]] = v[2]], 0)
             [] r.what = "badch" -> No(63)
             [] r.what = "badarg" -> No(IF At(S.o.ss, 0) = 58 THEN 58 ELSE 63)
=============================================================================
