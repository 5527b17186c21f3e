------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* The regular expressions of arg_rex. Compile turns a pattern into a      *)
(* graph of nodes, MatchNode is the matcher (no backtracking: the first    *)
(* alternative that matches is taken, a repetition that has reached its    *)
(* minimum ends as soon as what follows it matches), and Ends is what the  *)
(* same graph denotes: all positions where a match may end.                *)
(***************************************************************************)
EXTENDS Bytes

ReBig == 65535
SC(c) == IF c < 128 THEN c ELSE c - 256          \* as a (signed) char

Node(ty, c) == [ty |-> ty, c |-> c, lf |-> 0, rt |-> 0, p0 |-> 0, p1 |-> 0, nx |-> 0]
(* compiler state: p offset in the pattern, nd the nodes, ok FALSE once the pattern is malformed *)
NewNode(st, ty, c) == [st EXCEPT !.nd = Append(@, Node(ty, c))]
Bad(st) == [st EXCEPT !.ok = FALSE]
Res(n, st) == [n |-> n, st |-> st]

EscVal(c) == CASE c = 110 -> 10 [] c = 116 -> 9 [] c = 114 -> 13 [] c = 102 -> 12 [] c = 118 -> 11 [] OTHER -> c
CClasses == {97, 65, 119, 87, 115, 83, 100, 68, 120, 88, 99, 67, 112, 80, 108, 117}   \* a A w W s S d D x X c C p P l u

\* one character of a pattern (or of a class, if isclass): a new node
CharNode(pat, st, isclass) ==
  LET p == st.p
      c == At(pat, p)
      e == At(pat, p + 1)
      Mk(ty, ch, n) == Res(Len(st.nd) + 1, [NewNode(st, ty, ch) EXCEPT !.p = p + n])
  IN  IF c = 92
      THEN IF e = 0 THEN Res(0, Bad(st))
           ELSE IF e \in {110, 116, 114, 102, 118} THEN Mk("char", EscVal(e), 2)
           ELSE IF e \in CClasses THEN Mk("cclass", e, 2)
           ELSE IF e \in {98, 66} /\ ~isclass THEN Mk("wb", e, 2)
           ELSE Mk("char", e, 2)
      ELSE IF ~IsPrint(c) THEN Res(0, Bad(st))
      ELSE Mk("char", c, 1)

\* the end of a range: <<ok, char, new offset>>
EscapeChar(pat, p) ==
  IF At(pat, p) = 92
  THEN IF At(pat, p + 1) = 0 THEN <<FALSE, 0, p>> ELSE <<TRUE, EscVal(At(pat, p + 1)), p + 2>>
  ELSE IF ~IsPrint(At(pat, p)) THEN <<FALSE, 0, p>> ELSE <<TRUE, At(pat, p), p + 1>>

\* the items of a class up to its closing bracket; items is the sequence of their nodes, first a pending char node (0: none)
RECURSIVE ClassItems(_, _, _, _)
ClassItems(pat, st, items, first) ==
  LET c == At(pat, st.p)
  IN  IF ~st.ok THEN [st |-> st, items |-> items]
      ELSE IF c = 93 THEN [st |-> st, items |-> IF first = 0 THEN items ELSE Append(items, first)]
      ELSE IF c = 45 /\ first # 0
      THEN LET e == EscapeChar(pat, st.p + 1)
               f == st.nd[first]
           IN  IF f.ty = "cclass" \/ ~e[1] \/ SC(f.c) > SC(e[2]) THEN [st |-> Bad(st), items |-> items]
               ELSE LET r == Len(st.nd) + 1
                        nd == Append(st.nd, [Node("range", f.c) EXCEPT !.p0 = e[2]])
                    IN  ClassItems(pat, [st EXCEPT !.nd = nd, !.p = e[3]], Append(items, r), 0)
      ELSE LET n == CharNode(pat, st, TRUE)
           IN  ClassItems(pat, n.st, IF first = 0 THEN items ELSE Append(items, first), n.n)

Class(pat, st) ==   \* behind the opening bracket
  LET neg == At(pat, st.p) = 94
      s1 == NewNode([st EXCEPT !.p = IF neg THEN @ + 1 ELSE @], IF neg THEN "nclass" ELSE "class", 0)
      me == Len(s1.nd)
  IN  IF At(pat, s1.p) = 93 THEN Res(0, Bad(st))
      ELSE LET r == ClassItems(pat, s1, <<>>, 0)
           IN  IF ~r.st.ok THEN Res(0, r.st)
               ELSE Res(me, [r.st EXCEPT !.nd[me].lf = r.items, !.p = @ + 1])

\* a repeat count: <<ok, value, new offset>>
RECURSIVE RepNum(_, _, _)
RepNum(pat, p, v) ==
  IF ~IsDigit(At(pat, p)) THEN <<TRUE, v, p>>
  ELSE LET w == v * 10 + At(pat, p) - 48 IN IF w >= ReBig THEN <<FALSE, 0, p>> ELSE RepNum(pat, p + 1, w)

\* quantifier at offset p: <<"no">>, <<"bad">> or <<"yes", min, max, new offset>>
Quant(pat, p) ==
  LET c == At(pat, p)
  IN  CASE c = 42 -> <<"yes", 0, ReBig, p + 1>>
        [] c = 43 -> <<"yes", 1, ReBig, p + 1>>
        [] c = 63 -> <<"yes", 0, 1, p + 1>>
        [] c = 123 ->
             IF ~IsDigit(At(pat, p + 1)) THEN <<"bad">>
             ELSE LET a == RepNum(pat, p + 1, 0)
                  IN  IF ~a[1] THEN <<"bad">>
                      ELSE IF At(pat, a[3]) = 125 THEN <<"yes", a[2], a[2], a[3] + 1>>
                      ELSE IF At(pat, a[3]) # 44 THEN <<"bad">>
                      ELSE LET b == IF IsDigit(At(pat, a[3] + 1)) THEN RepNum(pat, a[3] + 1, 0) ELSE <<TRUE, ReBig, a[3] + 1>>
                           IN  IF b[1] /\ At(pat, b[3]) = 125 THEN <<"yes", a[2], b[2], b[3] + 1>> ELSE <<"bad">>
        [] OTHER -> <<"no">>

RECURSIVE Element(_, _), List(_, _)
Atom(pat, st) ==
  LET c == At(pat, st.p)
  IN  CASE c = 40 ->
             LET ng == At(pat, st.p + 1) = 63
                 s1 == IF ng /\ At(pat, st.p + 2) # 58 THEN Bad(st)
                       ELSE NewNode([st EXCEPT !.p = IF ng THEN @ + 3 ELSE @ + 1], "expr", 0)
                 me == Len(s1.nd)
             IN  IF ~s1.ok THEN Res(0, s1)
                 ELSE LET r == List(pat, s1)
                      IN  IF ~r.st.ok \/ At(pat, r.st.p) # 41 THEN Res(0, Bad(r.st))
                          ELSE Res(me, [r.st EXCEPT !.nd[me].lf = r.n, !.p = @ + 1])
        [] c = 91 -> Class(pat, [st EXCEPT !.p = @ + 1])
        [] c = 36 -> Res(Len(st.nd) + 1, NewNode([st EXCEPT !.p = @ + 1], "eol", 0))
        [] c = 46 -> Res(Len(st.nd) + 1, NewNode([st EXCEPT !.p = @ + 1], "dot", 0))
        [] OTHER -> CharNode(pat, st, FALSE)

Element(pat, st) ==
  LET a == Atom(pat, st)
  IN  IF ~a.st.ok THEN a
      ELSE LET q == Quant(pat, a.st.p)
           IN  IF q[1] = "bad" THEN Res(0, Bad(a.st))
               ELSE LET b == IF q[1] = "no" THEN a
                             ELSE Res(Len(a.st.nd) + 1,
                                      [a.st EXCEPT !.nd = Append(@, [Node("greedy", 0) EXCEPT !.lf = a.n, !.p0 = q[2], !.p1 = q[3]]),
                                                   !.p = q[4]])
                    IN  IF At(pat, b.st.p) \in {124, 41, 42, 43, 0} THEN b      \* | ) * + end
                        ELSE LET r == Element(pat, b.st)
                             IN  IF ~r.st.ok THEN r ELSE Res(b.n, [r.st EXCEPT !.nd[b.n].nx = r.n])

List(pat, st) ==
  LET bol == At(pat, st.p) = 94
      s1 == IF bol THEN NewNode([st EXCEPT !.p = @ + 1], "bol", 0) ELSE st
      b == Len(s1.nd)
      e == Element(pat, s1)
  IN  IF ~e.st.ok THEN e
      ELSE LET h == IF bol THEN Res(b, [e.st EXCEPT !.nd[b].nx = e.n]) ELSE e
           IN  IF At(pat, h.st.p) # 124 THEN h
               ELSE LET s2 == NewNode([h.st EXCEPT !.p = @ + 1], "or", 0)
                        o == Len(s2.nd)
                        r == List(pat, s2)
                    IN  IF ~r.st.ok THEN r
                        ELSE Res(o, [r.st EXCEPT !.nd[o].lf = h.n, !.nd[o].rt = r.n])

\* the program of a pattern; node 1 is its root
Compile(pat) ==
  LET s0 == [p |-> 0, nd |-> <<Node("expr", 0)>>, ok |-> TRUE]
      r == List(pat, s0)
  IN  IF ~r.st.ok \/ At(pat, r.st.p) # 0 THEN [ok |-> FALSE]
      ELSE [ok |-> TRUE, nd |-> [r.st.nd EXCEPT ![1].lf = r.n]]

(****************************** characters *********************************)
InCClass(k, c) ==
  CASE k = 97 -> IsAlpha(c) [] k = 65 -> ~IsAlpha(c)
    [] k = 119 -> IsAlnum(c) \/ c = 95 [] k = 87 -> ~(IsAlnum(c) \/ c = 95)
    [] k = 115 -> IsSpace(c) [] k = 83 -> ~IsSpace(c)
    [] k = 100 -> IsDigit(c) [] k = 68 -> ~IsDigit(c)
    [] k = 120 -> IsXdigit(c) [] k = 88 -> ~IsXdigit(c)
    [] k = 99 -> IsCntrl(c) [] k = 67 -> ~IsCntrl(c)
    [] k = 112 -> IsPunct(c) [] k = 80 -> ~IsPunct(c)
    [] k = 108 -> IsLower(c) [] k = 117 -> IsUpper(c)
InRange(a, b, c) == SC(c) >= SC(a) /\ SC(c) <= SC(b)
InClass(nd, items, c, ic) ==
  \E j \in 1..Len(items) :
    LET n == nd[items[j]]
    IN  CASE n.ty = "range" -> IF ic THEN InRange(ToUpper(n.c), ToUpper(n.p0), c) \/ InRange(ToLower(n.c), ToLower(n.p0), c)
                               ELSE InRange(n.c, n.p0, c)
          [] n.ty = "cclass" -> InCClass(n.c, c)
          [] OTHER -> IF ic THEN c \in {ToUpper(n.c), ToLower(n.c)} ELSE c = n.c
\* does the one-character node n match character c of the text?
One(nd, n, c, ic) ==
  CASE n.ty = "dot" -> TRUE
    [] n.ty = "class" -> InClass(nd, n.lf, c, ic)
    [] n.ty = "nclass" -> ~InClass(nd, n.lf, c, ic)
    [] n.ty = "cclass" -> InCClass(n.c, c)
    [] n.ty = "char" -> IF ic THEN c \in {ToUpper(n.c), ToLower(n.c)} ELSE c = n.c
OneTypes == {"dot", "class", "nclass", "cclass", "char"}
AtBoundary(s, i) ==
  LET sp(j) == IsSpace(At(s, j))
  IN  \/ i = 0 /\ ~sp(i)
      \/ i = Len(s) /\ i > 0 /\ ~sp(i - 1)
      \/ i # Len(s) /\ sp(i) # sp(i + 1)
Zero(n, s, i) ==    \* does the zero-width node n match at i?
  CASE n.ty = "bol" -> i = 0
    [] n.ty = "eol" -> i = Len(s)
    [] n.ty = "wb" -> (n.c = 98) = AtBoundary(s, i)
ZeroTypes == {"bol", "eol", "wb"}

(******************************* the matcher *******************************)
RECURSIVE MatchNode(_, _, _, _, _, _), Greedy(_, _, _, _, _, _, _, _, _, _)
RECURSIVE MatchSeq(_, _, _, _, _, _)
\* nd nodes, ic ignore case, s text, k node, i offset, nxt the node that follows (0: none); result -1: no match, else the end
MatchNode(nd, ic, s, k, i, nxt) ==
  LET n == nd[k]
  IN  CASE n.ty \in OneTypes -> IF i < Len(s) /\ One(nd, n, At(s, i), ic) THEN i + 1 ELSE -1
        [] n.ty \in ZeroTypes -> IF Zero(n, s, i) THEN i ELSE -1
        [] n.ty = "expr" -> MatchSeq(nd, ic, s, n.lf, i, <<nxt>>)
        [] n.ty = "or" -> LET l == MatchSeq(nd, ic, s, n.lf, i, <<>>)
                          IN  IF l # -1 THEN l ELSE MatchSeq(nd, ic, s, n.rt, i, <<>>)
        [] n.ty = "greedy" -> Greedy(nd, ic, s, n, i, i, 0, IF n.nx # 0 THEN n.nx ELSE nxt, nxt, 0)
\* the chain of nodes from k on; f is <<follow>> within a group and <<>> in an alternative (which looks at nothing behind it)
MatchSeq(nd, ic, s, k, i, f) ==
  LET nx == nd[k].nx
      r == MatchNode(nd, ic, s, k, i, IF f = <<>> THEN 0 ELSE IF nx # 0 THEN nx ELSE f[1])
  IN  IF r = -1 \/ nx = 0 THEN r ELSE MatchSeq(nd, ic, s, nx, r, f)
Greedy(nd, ic, s, n, i, good, cnt, stop, nxt, dummy) ==
  LET fin(c, g) == IF c >= n.p0 /\ (n.p1 = ReBig \/ c <= n.p1) THEN g ELSE -1
  IN  IF cnt >= n.p1 THEN fin(cnt, good)
      ELSE LET r == MatchNode(nd, ic, s, n.lf, i, stop)
           IN  IF r = -1 THEN fin(cnt, good)
               ELSE IF r = i THEN fin(Max(cnt + 1, n.p0), r)
               ELSE LET c == cnt + 1
                        look == stop # 0 /\ (nd[stop].ty # "greedy" \/ nd[stop].p0 # 0)
                        gn == IF nd[stop].nx # 0 THEN nd[stop].nx
                              ELSE IF nxt # 0 /\ nd[nxt].nx # 0 THEN nd[nxt].nx ELSE 0
                    IN  IF (look /\ MatchNode(nd, ic, s, stop, r, gn) # -1 /\ fin(c, r) # -1) \/ r >= Len(s)
                        THEN fin(c, r)
                        ELSE Greedy(nd, ic, s, n, r, r, c, stop, nxt, 0)

\* does the whole text match?
RexMatch(pat, ic, s) ==
  LET pr == Compile(pat)
  IN  pr.ok /\ MatchNode(pr.nd, ic, s, 1, 0, 0) = Len(s)

(******************************* the language ******************************)
RECURSIVE Ends(_, _, _, _, _), SeqEnds(_, _, _, _, _), RepEnds(_, _, _, _, _, _)
Ends(nd, ic, s, k, I) ==           \* from which offsets I can a match of node k end where
  LET n == nd[k]
  IN  CASE n.ty \in OneTypes -> {i + 1 : i \in {i \in I : i < Len(s) /\ One(nd, n, At(s, i), ic)}}
        [] n.ty \in ZeroTypes -> {i \in I : Zero(n, s, i)}
        [] n.ty = "expr" -> SeqEnds(nd, ic, s, n.lf, I)
        [] n.ty = "or" -> SeqEnds(nd, ic, s, n.lf, I) \cup SeqEnds(nd, ic, s, n.rt, I)
        [] n.ty = "greedy" -> IF n.p0 > n.p1 THEN {} ELSE RepEnds(nd, ic, s, n, 0, I)
SeqEnds(nd, ic, s, k, I) ==
  LET E == Ends(nd, ic, s, k, I) IN IF nd[k].nx = 0 \/ E = {} THEN E ELSE SeqEnds(nd, ic, s, nd[k].nx, E)
\* ends of at least p0 and at most p1 repetitions, c of which brought us to I
RepEnds(nd, ic, s, n, c, I) ==
  IF I = {} THEN {}
  ELSE LET J == Ends(nd, ic, s, n.lf, I)
       IN  IF c < n.p0
           THEN IF J = I THEN RepEnds(nd, ic, s, n, n.p0, I)   \* nothing changes any more
                ELSE RepEnds(nd, ic, s, n, c + 1, J)
           ELSE IF c >= n.p1 \/ J \subseteq I THEN I
           ELSE I \cup RepEnds(nd, ic, s, n, c + 1, J)
InLanguage(pat, ic, s) ==
  LET pr == Compile(pat) IN pr.ok /\ Len(s) \in Ends(pr.nd, ic, s, 1, {0})
=============================================================================
