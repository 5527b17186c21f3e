-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Is what the real code did a behaviour of the specification? The file    *)
(* named by TRACE has one case per line: the sequence of calls, each with  *)
(* its arguments and everything that was observed of it. Every case is a   *)
(* behaviour of its own, starting in the initial state; an event is a step *)
(* and is only possible if the specification allows the observation.       *)
(***************************************************************************)
EXTENDS Format, Stores, Memory, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.TRACE)
LONGONLY == IOEnv.LONGONLY = "1"

VARIABLES ci, l, st

State0 == [tabs |-> <<>>, pn |-> 0, posix |-> FALSE,
           mod |-> <<>>, ver |-> <<>>, c |-> CGone,
           gs |-> <<>>, d |-> [i \in 0..3 |-> DGone], h |-> [i \in 0..2 |-> HGone]]

Init == ci \in 1..Len(Cases) /\ l = 1 /\ st = State0

Ev == Cases[ci].ev[l]

(**************************** comparing tables *****************************)
\* an empty string says nothing about where it lies
SameStr(x, y) == x.b = y.b /\ (x.b = <<>> \/ x.w = y.w)
SameSlot(k, x, y) ==
  CASE k \in {"s", "r"} -> SameStr(x, y)
    [] k = "f" -> \A j \in 1..3 : SameStr(x[j], y[j])
    [] OTHER -> x = y
SameVals(t, ents) ==
  \A i \in 1..Len(t.ent) : /\ ents[i].c = t.cnt[i]
                           /\ Len(ents[i].v) = Len(t.val[i])
                           /\ \A j \in 1..Len(t.val[i]) : SameSlot(t.ent[i].k, t.val[i][j], ents[i].v[j])
SameErr(x, y) == x.e = y.e /\ x.p = y.p /\ Len(x.a) = Len(y.a) /\ (x.a = <<>> \/ SameStr(x.a[1], y.a[1]))
SameErrs(t, es) == Len(es) = Len(t.errs) /\ \A i \in 1..Len(es) : SameErr(t.errs[i], es[i])
\* the caller's callbacks: which, of which entry, with which text, and what it answered
SameCall(x, y) == x.f = y.f /\ x.i = y.i /\ x.x = y.x /\ Len(x.a) = Len(y.a) /\ (x.a = <<>> \/ SameStr(x.a[1], y.a[1]))
SameLog(t, cs) == Len(cs) = Len(t.log) /\ \A j \in 1..Len(cs) : SameCall(t.log[j], cs[j])
SameTable(t, o) == SameVals(t, o.ents) /\ o.ec = Len(t.errs) /\ SameErrs(t, o.errs)

Silent(o) == o.io = 0                 \* nothing written to the standard streams
Quiet(o) == o.lv = 0 /\ o.avs = 1 /\ Silent(o)     \* no memory gained or lost, no command line changed
Tab(i) == st.tabs[i + 1]
SetTab(i, t) == [st EXCEPT !.tabs[i + 1] = t]

Diag(exp) == PrintT(<<"REJECT", Cases[ci].id, l, Ev.o, ToString(exp)>>) /\ FALSE
Expect(cond, exp) == IF cond THEN TRUE ELSE Diag(exp)
Step(s) == st' = s /\ l' = l + 1 /\ UNCHANGED ci

(******************************** tables ***********************************)
\* C29: what the public header of an entry holds
Header(e) == [fl |-> (IF HasValue(e) THEN 2 ELSE 0) + (IF e.opt THEN 4 ELSE 0), sh |-> e.sh, lo |-> e.lo, dt |-> e.dt, gl |-> e.gl,
              aux |-> IF e.k = "t" THEN e.aux ELSE <<>>, mn |-> e.mn, mx |-> e.mx, self |-> IF e.k = "u" /\ e.fl # 0 THEN 0 ELSE 1]
EndHeader(t) == [fl |-> 1, sh |-> <<>>, lo |-> <<>>, dt |-> <<>>, gl |-> <<>>, aux |-> <<>>, mn |-> 1, mx |-> t.cap, self |-> 1]
SameHeaders(t, hs) ==
  Len(hs) = Len(t.ent) + 1 /\ \A i \in 1..Len(hs) : hs[i] = IF i <= Len(t.ent) THEN Header(t.ent[i]) ELSE EndHeader(t)
\* a pattern that is not a regular expression may be complained about when the table is built
MayTalk(t) == \E i \in 1..Len(t.ent) : t.ent[i].k = "r" /\ ~Compile(t.ent[i].aux[1]).ok
DoTable(e) ==
  LET ents == [i \in 1..Len(e.ents) |-> Entry(e.ents[i])]
      val == [i \in 1..Len(ents) |->
                IF ents[i].k \in {"i", "d"} THEN e.obs.ents[i].v        \* not initialised: whatever is there
                ELSE [j \in 1..Slots(ents[i]) |-> InitSlot(ents[i])]]
      t == NewTable(ents, e.cap, val)
  IN  Expect(SameTable(t, e.obs) /\ SameHeaders(t, e.obs.hd) /\ (Silent(e.obs) \/ MayTalk(t)) /\ \A i \in 1..Len(ents) : Len(e.obs.ents[i].v) = Slots(ents[i]), t)
      /\ Step([st EXCEPT !.tabs = Append(@, t)])

DoParse(e) ==
  LET pn == st.pn + 1
  IN  \E P \in {RunParse(BeginParse(Tab(e.t), e.argv, pn, st.posix, LONGONLY, e.dv))} :
      /\ Assert(Conserved(P) /\ BoundsHold(P) /\ ErrorsBounded(P) /\ Permuted(P), "model invariant")
      /\ Expect(e.obs.ret = Len(P.t.errs) /\ e.obs.argvok = 1 /\ SameTable(P.t, e.obs) /\ SameLog(P.t, e.obs.log) /\ Quiet(e.obs),
                [ret |-> Len(P.t.errs), cnt |-> P.t.cnt, val |-> P.t.val, errs |-> P.t.errs, log |-> P.t.log])
      /\ Step([SetTab(e.t, P.t) EXCEPT !.pn = pn])

DoPreset(e) == Step(SetTab(e.t, [Tab(e.t) EXCEPT !.val[e.e + 1][e.i + 1] = e.v]))

\* the other tables still hold what they held
DoTables(e) == Expect(\A i \in 1..Len(st.tabs) : SameTable(st.tabs[i], e.obs.tabs[i]), st.tabs) /\ Step(st)

\* what is printed into a string comes behind what is there already
Text(e, x) == Expect(e.obs.t = Rep(64, e.obs.pre) \o x /\ e.obs.same = 1 /\ Quiet(e.obs), x) /\ Step(st)
DoErrors(e) == /\ Text(e, ErrorReport(Tab(e.t), Opt0(e.prog)))
               /\ Expect(SameTable(Tab(e.t), e.obs), Tab(e.t))

DoFree(e) == Expect(e.obs.nul = 1 /\ (e.last => e.obs.tot = 0), <<1, 0>>) /\ Step(st)
DoNullcheck(e) == Expect(e.obs.r = (IF e.holes = <<>> THEN 0 ELSE 1) /\ Quiet(e.obs), e.holes) /\ Step(st)

(******************************* messages **********************************)
Msg(e, x) == Expect(e.obs.t = <<64>> \o x /\ Quiet(e.obs), <<64>> \o x) /\ Step(st)
DoSynHelp(e) ==
  LET r == SyntaxErrHelp(Tab(e.t), st.mod, e.name, CDesc(st.c, e.name), e.help, e.nerr)
  IN  Expect(e.obs.r = r[1] /\ e.obs.x = r[2], r) /\ Msg(e, r[3])

(******************************* registry **********************************)
Reg(c) == [st EXCEPT !.c = c]
DoDispatch(e) ==
  LET i == st.c.map[e.name]
  IN  Expect(/\ e.obs.r = 1000 + i.p * 10 + Len(e.argv)
             /\ e.obs.calls = 1 /\ e.obs.id = i.p /\ e.obs.argc = Len(e.argv) /\ e.obs.argv = 1 /\ e.obs.x = i.x
             /\ e.obs.t = B("<") \o Dec(i.p) \o B(">") /\ Quiet(e.obs), i) /\ Step(st)
DoScanCmds(e) ==
  LET r == e.obs.r
      keys == [j \in 1..Len(r) |-> r[j].k]
  IN  Expect(/\ {keys[j] : j \in 1..Len(keys)} = CNames(st.c) /\ Len(keys) = Cardinality(CNames(st.c))
             /\ \A j \in 1..Len(r) : r[j].i = CInfo(st.c, keys[j])
             /\ e.obs.after = 0 /\ Quiet(e.obs), st.c)
      /\ Step(Reg([st.c EXCEPT !.ord = <<keys>>]))
DoSearchCmd(e) ==
  LET r == e.obs.r
      o == st.c.ord[1]
  IN  Expect(/\ e.obs.f = (IF e.name \in CNames(st.c) THEN 1 ELSE 0)
             /\ IF e.obs.f = 0 THEN r = <<>>
                ELSE IF st.c.ord # <<>> THEN \E j \in 1..Len(o) : o[j] = e.name /\ r = SubSeq(o, j, Len(o))
                ELSE /\ r # <<>> /\ r[1] = e.name
                     /\ Cardinality({r[j] : j \in 1..Len(r)}) = Len(r)
                     /\ {r[j] : j \in 1..Len(r)} \subseteq CNames(st.c)
             /\ Quiet(e.obs), st.c) /\ Step(st)

(**************************** dynamic strings ******************************)
FillC(c, n) == Rep(c, n)
(* a printf format of ordinary text, %% and %s (which stands for u) *)
RECURSIVE FmtFrom(_, _, _)
FmtFrom(f, u, i) ==
  IF i > Len(f) THEN <<>>
  ELSE IF f[i] # 37 THEN
    LET j == CHOOSE j \in i..Len(f) : (j = Len(f) \/ f[j + 1] = 37) /\ \A k \in i..j : f[k] # 37
    IN  SubSeq(f, i, j) \o FmtFrom(f, u, j + 1)
  ELSE (IF f[i + 1] = 115 THEN u ELSE <<37>>) \o FmtFrom(f, u, i + 2)
Fmt(f, u) == FmtFrom(f, u, 1)
DText(e) ==   \* the text a dcat* event appends
  CASE e.o = "dcat" -> e.s
    [] e.o = "dcatc" -> <<e.c>>
    [] e.o = "dcatf" -> CASE e.f = "s" -> e.s [] e.f = "i" -> B("<") \o DecInt(e.n) \o B(">")
                          [] e.f = "w" -> (IF e.n < 0 THEN PadR(e.s, 0 - e.n) ELSE PadL(e.s, e.n)) \o B("|")
                          [] e.f = "m" -> e.s \o <<e.c>> \o e.u
                          [] e.f = "l" -> Fmt(e.s, <<>>)
                          [] e.f = "q" -> Fmt(e.s, e.u) [] OTHER -> <<>>
DStep(e) ==
  LET d == st.d[e.d]
      r == CASE e.o = "dcreate" -> [d |-> DNew, f1 |-> 0, f2 |-> 0]
             [] e.o = "ddestroy" -> DDestroy(d)
             [] e.o = "dreset" -> DReset(d)
             [] e.o = "dfree" -> DFree(d, e.dangling = 1)
             [] e.o = "dset" -> DSet(d, e.m, e.s)
             [] e.o = "dcut" -> DCut(d, e.n)
             [] e.o = "dpoke" -> DPoke(d, e.n, e.c)
             [] e.o = "dcatf" /\ e.f = "n" -> DKeep(d)
             [] OTHER -> DCat(d, DText(e))
      n == [st EXCEPT !.d[e.d] = r.d]
  IN  /\ Expect(/\ e.obs.f1 = r.f1 /\ e.obs.f2 = r.f2
                /\ (r.d.up => e.obs.t = r.d.txt)
                /\ ((\A i \in 0..3 : ~n.d[i].live) => e.obs.tot = 0), r)
      /\ Step(n)

(****************************** hash tables ********************************)
HOk(e, h) == e.obs.cur = HCur(h)
HTo(e, h) == [st EXCEPT !.h[e.h] = h]
HStep(e) ==
  LET h == st.h[e.h]
      Known == h.ord # <<>>
      Same(cond) == Expect(cond /\ HOk(e, h), h) /\ Step(st)
      \* the allowed successor states
      To(S) == /\ Expect(S # {}, h)
               /\ \E n \in S : Step(HTo(e, n))
  IN  CASE e.o = "hcreate" -> IF e.ms > 1073741824 THEN Expect(e.obs.r = 0 /\ Quiet(e.obs), 0) /\ Step(st)
                                ELSE Expect(e.obs.r = 1, HNew) /\ Step(HTo(e, HNew))
        [] e.o = "hinsert" -> Step(HTo(e, HInsert(h, e.k, e.v)))
        [] e.o = "hfill" -> Expect(e.obs.r = Len(e.ks), h) /\ Step(HTo(e, HInsertAll(h, e.ks, e.v)))
        [] e.o = "hsearch" -> Same(IF HWith(h, e.k) = {} THEN e.obs.r = -1 ELSE \E x \in HWith(h, e.k) : x.v = e.obs.r)
        [] e.o = "hcount" -> Same(e.obs.r = Cardinality(h.ents))
        [] e.o = "hremove" -> To(HRemove(h, e.k))
        [] e.o = "hchange" -> IF HWith(h, e.k) = {} THEN Same(e.obs.r = 0) ELSE To({n \in HChange(h, e.k, e.v) : e.obs.r = 1})
        [] e.o = "hscan" -> Expect(HIsScan(h, e.obs.r) /\ e.obs.after = 0 /\ (Known => e.obs.r = h.ord[1]) /\ Quiet(e.obs), h)
                            /\ Step(HTo(e, [h EXCEPT !.ord = <<e.obs.r>>]))
        [] e.o = "hitr" -> To({n \in {HItr(h)} : HOk(e, n)})
        [] e.o = "hadv" -> To({n \in {HAdvance(h)} : HOk(e, n) /\ e.obs.r = (IF n.it = <<0>> THEN 0 ELSE 1)})
        [] e.o = "hitrsearch" -> IF HWith(h, e.k) = {} THEN Same(e.obs.r = 0)
                                 ELSE To({n \in HItrSearch(h, e.k) : HOk(e, n) /\ e.obs.r = 1})
        [] e.o = "hitrremove" -> IF h.it = <<0>> THEN Same(e.obs.r = 0)       \* past the end: not called
                                 ELSE To({n \in {HItrRemove(h)} : HOk(e, n) /\ e.obs.r = (IF n.it = <<0>> THEN 0 ELSE 1)})
        [] e.o = "hitrdestroy" -> Step(HTo(e, [h EXCEPT !.it = <<>>]))
        [] e.o = "hitrmove" ->      \* another table's entry: the iterator belongs to that one from now on
             LET g == st.h[e.to]
                 S == {n \in HItrSearch(g, e.k) : HOk(e, n) /\ e.obs.r = 1}
             IN  IF HWith(g, e.k) = {} THEN Same(e.obs.r = 0)
                 ELSE Expect(S # {}, g) /\ \E n \in S : Step([st EXCEPT !.h[e.h] = [h EXCEPT !.it = <<>>], !.h[e.to] = n])
        [] e.o = "hdestroy" -> Expect((\A i \in 0..2 : i # e.h => ~st.h[i].live) => e.obs.r = (IF e.fv = 1 THEN 0 ELSE Cardinality(h.ents)) /\ e.obs.tot = 0, h)
                               /\ Step(HTo(e, HGone))

(************************* getopt called directly **************************)
DoGopen(e) ==
  LET av == [k \in 1..Len(e.argv) |-> [k |-> k - 1, s |-> e.argv[k]]]
      ls == [j \in 1..Len(e.ls) |-> [n |-> e.ls[j].n, ha |-> e.ls[j].ha, v |-> <<e.ls[j].f, e.ls[j].v>>]]
  IN  Step([st EXCEPT !.gs = <<Session(e.how, e.ss, ls, e.err = 1, st.posix, av, e.oi, 0, 3)>>])
DoGcall(e) ==     \* a session is over once -1 has been returned: no further call is made
  IF e.obs.over = 1 THEN Expect(st.gs[1].over, "a call") /\ Step(st)
  ELSE
  LET r == Getopt(st.gs[1])
      s == r.s
      b == e.obs
  IN  /\ Expect(/\ b.ret = r.ret /\ b.oi = s.g.oi /\ b.op = s.opt /\ b.ix = s.ix /\ b.fl = s.fl
                /\ b.av = [k \in 1..Len(s.g.av) |-> s.g.av[k].k]
                /\ b.arg = (IF r.arg = <<>> THEN <<>> ELSE <<[k |-> r.arg[1].k, o |-> r.arg[1].o]>>)
                /\ b.tx = (IF r.msg = <<>> THEN <<>> ELSE B("prog: ") \o r.msg \o <<10>>)
                /\ ~st.gs[1].over /\ b.lv = 0, [r EXCEPT !.s.o = 0])
      /\ Step([st EXCEPT !.gs = <<[s EXCEPT !.over = (r.ret = -1)]>>])

(********************************* steps ***********************************)
Next ==
  /\ l <= Len(Cases[ci].ev)
  /\ "obs" \in DOMAIN Ev /\ Ev.o \notin {"tdone", "faults", "gcall"} => Expect(Silent(Ev.obs), "written to a standard stream")      \* C28
  /\ LET e == Ev IN
     CASE e.o = "tdone" -> DoTable(e)
       [] e.o = "env" -> Step([st EXCEPT !.posix = (e.v = 1)])
       [] e.o = "parse" -> DoParse(e)
       [] e.o = "gopen" -> DoGopen(e)
       [] e.o = "gcall" -> DoGcall(e)
       [] e.o = "preset" -> DoPreset(e)
       [] e.o = "tables" -> DoTables(e)
       [] e.o = "errors" -> DoErrors(e)
       [] e.o = "syntax" -> Text(e, Syntax(Tab(e.t).ent, e.sx))
       [] e.o = "syntaxv" -> Text(e, SyntaxV(Tab(e.t).ent, e.sx))
       [] e.o = "glossary" -> Text(e, Glossary(Tab(e.t).ent, e.sx))
       [] e.o = "gnu" -> Text(e, Gnu(Tab(e.t).ent))
       [] e.o = "option" -> Text(e, PrintOption(e.sh, e.lo, e.dt, Opt0(e.sx)))
       [] e.o = "formatted" -> Text(e, Formatted(e.lm, e.rm, e.s))
       [] e.o = "faults" -> Expect(FaultsOk(e.m, e.obs.r), OutOfMemory) /\ Step(st)
       [] e.o \in {"freetable", "argfree"} -> DoFree(e)
       [] e.o = "nullcheck" -> DoNullcheck(e)
       [] e.o = "modname" -> Expect(st.mod # <<>> => Quiet(e.obs), "memory") /\ Step([st EXCEPT !.mod = <<e.s>>])
       [] e.o = "modver" -> Expect(st.ver # <<>> => Quiet(e.obs), "memory") /\ Step([st EXCEPT !.ver = <<DecInt(e.v[1]) \o B(".") \o DecInt(e.v[2]) \o B(".") \o DecInt(e.v[3]) \o B(".") \o e.s>>])
       [] e.o = "gethelp" -> Msg(e, GetHelp(st.mod, st.ver))
       [] e.o = "help" -> Msg(e, HelpMsg(Tab(e.t).ent, st.mod, e.name, CDesc(st.c, e.name)))
       [] e.o = "synerr" -> Msg(e, SyntaxErrMsg(Tab(e.t), st.mod))
       [] e.o = "synhelp" -> DoSynHelp(e)
       [] e.o = "cinit" -> Step(Reg(CNew))
       [] e.o = "cuninit" -> Expect(e.last => e.obs.tot = 0, 0) /\ Step(Reg(CGone))
       [] e.o = "creg" -> Step(Reg(CPut(st.c, e.name, e.desc, e.p, e.x)))
       [] e.o = "crereg" -> Step(Reg(IF e.name \in CNames(st.c) THEN CPut(st.c, e.name, st.c.map[e.name].d, e.p, e.x) ELSE st.c))
       [] e.o = "cunreg" -> Step(Reg(CDrop(st.c, e.name)))
       [] e.o = "cinfo" -> Expect(e.obs.r = CInfo(st.c, e.name) /\ Quiet(e.obs), CInfo(st.c, e.name)) /\ Step(st)
       [] e.o = "ccount" -> Expect(e.obs.r = Cardinality(CNames(st.c)), st.c) /\ Step(st)
       [] e.o = "cdispatch" -> DoDispatch(e)
       [] e.o = "cscan" -> DoScanCmds(e)
       [] e.o = "csearch" -> DoSearchCmd(e)
       [] e.o = "sort" -> Expect(IsSorted(e.a, e.obs.r, e.i, e.k, e.desc = 1) /\ Quiet(e.obs), e.a) /\ Step(st)
       [] e.o \in {"dcreate", "ddestroy", "dreset", "dfree", "dset", "dcut", "dpoke", "dcat", "dcatc", "dcatf"} -> DStep(e)
       [] e.o \in {"hcreate", "hinsert", "hfill", "hsearch", "hcount", "hremove", "hchange", "hscan", "hitr", "hadv", "hitrsearch",
                   "hitrremove", "hitrmove", "hitrdestroy", "hdestroy"} -> HStep(e)
       [] OTHER -> Diag("no such action")     \* a crash, a hang: nothing the specification allows

Done == l > Len(Cases[ci].ev)
\* a case is accepted if it reaches its end
Report == IF Done THEN PrintT(<<"DONE", Cases[ci].id>>) ELSE TRUE
Spec == Init /\ [][Next]_<<ci, l, st>>
=============================================================================
