"""The bounded models TLC explores, and the behaviours TLC generates from them for replay into the real code."""
import itertools, json, os, random, re
import core, props
from core import Case, ToolError, ent, hx


class Model:
    """module with a configuration of spec/, some constants of which may be overridden"""

    def __init__(self, module, cfg, what, atleast=1, timeout=800, **const):
        self.module, self.cfg, self.what, self.atleast, self.timeout, self.const = module, cfg, what, atleast, timeout, const

    def config(self, gen=False):
        s = open(os.path.join(core.SPEC, self.cfg)).read()
        for k, v in self.const.items():
            s, n = re.subn(r"\b%s = [^\n]*" % k, "%s = %s" % (k, v), s)
            if n != 1:
                raise ToolError("no constant %s in %s" % (k, self.cfg))
        if gen:     # only enumerate: no invariants but the one that prints, every history on its own
            s = re.sub(r"(?m)^(VIEW|INVARIANTS?|PROPERTIES|PROPERTY|SYMMETRY)\b.*\n", "", s) + "INVARIANT Emit\n"
        p = os.path.join(core.scratch(), "%s%s.cfg" % (os.path.splitext(self.cfg)[0], "-gen" if gen else ""))
        open(p, "w").write(s)
        return p

    def run(self, gen=False):
        out = os.path.join(core.scratch(), "gen.json")
        return core.tlc(self.module, self.config(gen), env={"GEN": "1" if gen else "0", "OUT": out}, workers=core.NCPU, heap="10g", timeout=self.timeout)

    def generate(self):
        """-> (what the model wrote down about itself, the behaviours it printed)"""
        rc, out = self.run(True)
        if rc != 0:
            raise ToolError("generation from %s failed (%d):\n%s" % (self.cfg, rc, out[-4000:]))
        res = []
        for ln in out.splitlines():
            if ln.startswith('"['):
                res.append(json.loads(json.loads(ln)))
        p = os.path.join(core.scratch(), "gen.json")
        meta = json.load(open(p)) if os.path.exists(p) else None
        if os.path.exists(p):
            os.unlink(p)
        if not res:
            raise ToolError("%s generated nothing" % self.cfg)
        return meta, res


PARSE = "every command line of a few words over nine tables, step by step: elements conserved, bounds, errors within capacity and stable, order of positionals, same meaning as the permuted line, second parse like a first, callbacks in order, progress"
REGEX = "every short pattern against every short text: accepted implies in the language; complete without choices; malformed never matches"


def parse_model(n):
    return Model("MC_Parse.tla", "MC_Parse.cfg", PARSE, 500, N=n)


def regex_models(big):
    return [Model("MC_RegexC.tla", "MC_Regex%d.cfg" % i, REGEX, 500, PLen=4 if big or i == 1 else 3) for i in (1, 2, 3)]


def dstr_model(big):
    return Model("MC_DStr.tla", "MC_DStr.cfg", "the buffers of a dynamic string (inline, owned, append) hold the text, no overrun, no use after release, no leak", 500, MaxOps=7 if big else 5)


def reg_model(big):
    return Model("MC_Reg.tla", "MC_Reg.cfg", "the registry is the map of the latest registrations", 500, MaxOps=6 if big else 4)


def hash_models(big):
    return [Model("MC_HashC.tla", c, "buckets, chains, growth and iterator refine the multimap", 500, MaxOps=9 if big else 6) for c in ("MC_Hash.cfg", "MC_HashCollide.cfg")]


def usage_model(big):
    return Model("MC_Usage.tla", "MC_Usage.cfg", "usage lines: balanced brackets, every name as often as shown, entry by entry; one glossary line each", 100, MaxEnt=3 if big else 2)


def text_model(n):
    return Model("MC_Text.tla", "MC_Text.cfg", "file names split correctly; wrapping loses nothing, keeps to the column and breaks no word that fits", 500, FLen=n, WLen=n)


def getopt_model(n):
    return Model("MC_Getopt.tla", "MC_Getopt.cfg", "getopt, getopt_long and getopt_long_only call by call: the vector only permuted and only if asked to, order kept, only non-options left over, values from the line, progress", 500, N=n)


def int_model(n):
    return Model("MC_Int.tla", "MC_Int.cfg", "numbers written in any base, sign, suffix come back exactly or overflow; arbitrary short texts", 1000, Short=n)


def dbl_model(n):
    return Model("MC_Dbl.tla", "MC_Dbl.cfg", "which texts are floating-point numbers: the specification agrees with an automaton of the notation on every short text", 1000, Short=n)


def date_model():
    return Model("MC_Date.tla", "MC_Date.cfg", "a timestamp written out in a format comes back field by field, the rest untouched", 500)


def sort_model(n):
    return Model("MC_Sort.tla", "MC_Sort.cfg", "the merge procedure sorts every range of every small array", 100, MaxLen=n)


def make_model(big):
    return Model("MC_Make.tla", "MC_Make.cfg", "what each constructor makes of every combination of given and missing parameters and small bounds", 1000, Max0=3 if big else 2)


def msg_model(n):
    return Model("MC_Msg.tla", "MC_Msg.cfg", "after every parse of MC_Parse: texts handed out are pieces of the line, unused slots empty, flags counted, one message per error with name and culprit, help before errors before nothing", 500, N=n)


def life_model(big):
    return Model("MC_Life.tla", "MC_Life.cfg", "the life of a table allocation by allocation: nothing released twice or kept, slots emptied, only the panic after a failed allocation", 500, MaxEnt=5 if big else 4)


def for_property(pid, big):
    if pid == "C01":
        return [int_model(5 if big else 4)]
    if pid == "C11":
        return [dbl_model(6 if big else 4)]
    if pid in ("C07", "C14", "C21", "C22"):
        return [msg_model(3 if big else 2)]
    if pid in ("C19", "C20"):
        return [life_model(big)]
    if pid == "C29":
        return [make_model(big)]
    if pid in ("C02", "C03", "C04", "C05", "C06", "C24", "C25", "C26", "C27"):
        return [parse_model(4 if big else 2)]
    if pid == "C08":
        return regex_models(big)
    if pid == "C09":
        return [date_model()]
    if pid == "C10":
        return [text_model(9 if big else 7)]
    if pid in ("C12", "C13"):
        return [usage_model(big)] + ([text_model(9 if big else 7)] if pid == "C13" else [])
    if pid == "C15":
        return [dstr_model(big)]
    if pid == "C16":
        return [reg_model(big)]
    if pid == "C17":
        return hash_models(big)
    if pid == "C18":
        return [sort_model(8 if big else 6)]
    if pid == "C30":
        return [getopt_model(3 if big else 2)]
    return []


# ------------------------------------------------------------ behaviours -> cases
def bs(x):
    return bytes(x)


def ob(x):
    return bytes(x[0]) if x else None


def jent(e):
    return ent(e["k"], ob(e["sh"]), ob(e["lo"]), ob(e["dt"]), ob(e["gl"]), e["mn"], e["mx"], e["opt"], ob(e["aux"]), e["fl"], e["ct"],
               *([bytes(e["cb"]), e["hv"], e["ck"], e["sc"]] if "cb" in e else []))


def few(r, xs, n):
    return xs if n is None or len(xs) <= n else r.sample(xs, n)


def from_parse(r, big, limit, after=None, registry=False):
    tabs, res = parse_model(4 if big else 3).generate()
    res = few(r, res, limit)
    by = {}
    for _, tb, ws, px in res:
        by.setdefault((tb, px), []).append(ws)
    cs = []
    for (tb, px), lines in sorted(by.items()):
        t = tabs[tb - 1]
        r.shuffle(lines)
        for i in range(0, len(lines), 40):
            c = Case()
            if px:
                c.env(1)
            x = c.table([jent(e) for e in t["ents"]], t["cap"])
            reg = registry      # help messages look their command up, so the registry has to be there
            if reg:
                c.cinit()
                c.creg(r.choice([b"cmd", b"cm"]), 1, b"does things", 1)
            for ws in lines[i:i + 40]:
                c.parse(x, [b"prog"] + [bs(t["words"][w - 1]) for w in ws])
                if after:
                    after(c, x)
            if px:
                c.env(0)
            if reg:
                c.cuninit(False)
            c.freeall()
            cs.append(c)
    return cs


SYM = {1: [b"a", b"b", b".", b"*", b"?", b"+", b"|", b"(", b")"],
       2: [b"a", b"[a-b]", b"[^a]", b"\\w", b"*", b"{2}", b"{0,1}", b"^", b"$", b"\\b", b"(", b")", b"|"],
       3: [b"a", b"A", b"[", b"]", b"^", b"-", b"\\", b"{", b"1", b",", b"}"]}
LET = {1: [b"a", b"b"], 2: [b"a", b"b"], 3: [b"a", b"A", b" "]}


def from_regex(r, big, limit):
    cs = []
    for i, m in zip((1, 2, 3), regex_models(big)):
        _, res = m.generate()
        pats = [b"".join(SYM[i][j - 1] for j in p) for _, p in res]
        pats = few(r, [p for p in pats if props.nested_repeats(p) < 2], limit)
        texts = [b"".join(t) for n in range(0, 4) for t in itertools.product(LET[i], repeat=n)]
        cs += [props.rex_case(r, g, texts) for g in props.pack(pats, 8)]
    return cs


DLEN = {0: 0, 1: 1, 2: 199, 3: 200, 5: 260}


def from_dstr(r, big, limit):
    """lengths are scaled up: what fits the inline buffer of the model just fits the real one"""
    _, res = Model("MC_DStr.tla", "MC_DStr.cfg", "", MaxOps=4 if big else 3).generate()
    cs = []
    for _, ops in few(r, res, limit):
        c = Case()
        c.d("dcreate", 0)
        n = 0
        for k, (o, mode, ln) in enumerate(ops):
            s = bytes([97 + k % 20]) * DLEN[ln]
            if o == "set":
                if mode == "n":
                    c.d("dset", 0, ["n"], m="n", s=[])
                elif mode == "o":
                    c.d("dset", 0, ["o", 1], m="o", s=1)
                else:
                    c.d("dset", 0, [mode, hx(s)], m=mode, s=list(s))
            elif o == "cat":
                if ln == 1:
                    c.d("dcatc", 0, [97 + k % 20], c=97 + k % 20)
                elif r.random() < 0.5:
                    c.d("dcat", 0, [hx(s)], s=list(s))
                else:
                    c.d("dcatf", 0, ["s", hx(s)], f="s", s=list(s))
            elif o == "reset":
                c.d("dreset", 0)
            else:
                c.d("dcut", 0, [DLEN[ln]], n=DLEN[ln])
        c.d("dcat", 0, [hx(b"end")], s=list(b"end"))
        c.d("ddestroy", 0)
        cs.append(c)
    return cs


def from_reg(r, big, limit):
    _, res = reg_model(False).generate() if not big else Model("MC_Reg.tla", "MC_Reg.cfg", "", MaxOps=5).generate()
    cs = []
    for _, ops in few(r, res, limit):
        pool = r.choice([[b"", b"a", b"b"], [b"", b"add", b"adder"], [b"", b"x" * 60, b"x" * 61]])
        c = Case()
        c.cinit()
        fill = r.choice([0, 0, 0, 33, 34])
        for i in range(fill):
            c.creg(b"f%d" % i, i % 8, b"filler", i % 8)
        for j, (o, k) in enumerate(ops):
            n = pool[k]
            if o == "r":
                c.creg(n, j % 8, b"d%d" % j, j % 8 if r.random() < 0.6 else -1)
            elif o == "R":
                c.crereg(n, j % 8, j % 8 if r.random() < 0.6 else -1)
            elif o == "u":
                c.c1("cunreg", n)
            elif o == "i":
                c.c1("cinfo", n)
            elif o == "s":
                c.c1("csearch", n)
            elif o == "d":
                c.cdispatch(n, [n, b"arg"])
            elif o == "c":
                c.ccount()
            else:
                c.cscan()
        c.ccount()
        for n in pool[1:]:
            c.c1("cinfo", n)
        c.cuninit()
        cs.append(c)
    return cs


def from_hash(r, big, limit):
    cs = []
    for i, cfg in enumerate(("MC_Hash.cfg", "MC_HashCollide.cfg")):
        _, res = Model("MC_HashC.tla", cfg, "", MaxOps=5 if big else 4).generate()
        for _, ops in few(r, res, limit):
            c = Case()
            # hash 0..4 of the driver: different functions, one of them constant
            c.h("hcreate", 0, [0, r.randrange(5)], ms=0)
            v = 1
            for j in range(r.choice([0, 0, 0, 1, 33, 34])):       # growth happens at the 35th
                k = b"f%d" % j
                c.h("hinsert", 0, [hx(k), v], k=list(k), v=v)
                v += 1
            on = False
            for o, kk in ops:
                k = b"k%d" % kk
                if on and o in "irc":       # an iterator does not survive other changes
                    if o != "c":
                        c.h("hitrdestroy", 0)
                        on = False
                if o == "i":
                    c.h("hinsert", 0, [hx(k), v], k=list(k), v=v)
                    v += 1
                elif o == "r":
                    c.h("hremove", 0, [hx(k)], k=list(k))
                elif o == "c":
                    c.h("hchange", 0, [hx(k), v], k=list(k), v=v)
                    v += 1
                elif o == "t":
                    c.h("hscan", 0)
                    c.h("hitr", 0)
                    on = True
                elif not on:
                    continue
                elif o == "a":
                    c.h("hadv", 0)
                elif o == "x":
                    c.h("hitrremove", 0)
                elif o == "s":
                    c.h("hitrsearch", 0, [hx(k)], k=list(k))
                elif o == "d":
                    c.h("hitrdestroy", 0)
                    on = False
            if on:
                c.h("hitrdestroy", 0)
            c.h("hcount", 0)
            for kk in (1, 2, 3):
                c.h("hsearch", 0, [hx(b"k%d" % kk)], k=list(b"k%d" % kk))
            c.h("hscan", 0)
            c.h("hdestroy", 0, [1], fv=1)
            cs.append(c)
    return cs


def from_text(r, pid, big, limit):
    _, res = text_model(8 if big else 7).generate()
    want = "file" if pid == "C10" else "wrap"
    txt = few(r, [bs(s) for _, k, s in res if k == want], limit)
    if want == "file":
        return props.values_cases(txt, "f")
    cs = []
    for g in props.pack(txt, 12):
        c = Case()
        for s in g:
            for lm in (0, 2):
                for cw in (1, 2, 3, 4):
                    if r.random() < (1 if big else 0.5):
                        c.formatted(lm, lm + cw - 1, s)
        if len(c):
            cs.append(c)
    return cs


def from_usage(r, pid, big, limit):
    pool, res = usage_model(big).generate()
    cs = []
    for _, t in few(r, res, limit):
        c = Case()
        x = c.table([jent(pool[i - 1]) for i in t], 3)
        if pid == "C12":
            c.text("syntax", x, r.choice([None, b"\n"]))
            c.text("syntaxv", x, r.choice([None, b"\n"]))
        else:
            c.text("glossary", x, None)
            c.text("glossary", x, r.choice([b"%s|%s\n", b" %-30s %s\n", b"%-1s%s\n"]))
            c.gnu(x)
        c.freeall()
        cs.append(c)
    return cs


def from_getopt(r, big, limit):
    sets, res = getopt_model(2).generate()
    cs = []
    res = few(r, res, limit)
    r.shuffle(res)
    for g in props.pack(res, 12):
        c = Case()
        for _, su, how, pre, ws, px in g:
            s = sets[su - 1]
            words = [b"prog"] + [bs(s["words"][w - 1]) for w in ws]
            c.env(px)
            c.gopen(how, bs(s["pre"][pre - 1] + s["ss"]), [(bs(x["n"]), x["ha"], x["v"][0], x["v"][1]) for x in s["ls"]], 1, 1, words)
            c.gcall(1 + sum(max(1, len(w) - 1) for w in words[1:]))
        c.env(0)
        cs.append(c)
    return cs


def from_date(r, big, limit):
    _, res = date_model().generate()
    by = {}
    for _, f, t in few(r, res, limit):
        by.setdefault(bs(f), set()).add(bs(t))
    cs = []
    for f in sorted(by):
        vals = sorted(by[f])
        cs += props.values_cases(vals + [v + b"x" for v in vals] + [v[:-1] for v in vals], "t", aux=f, per=8)
    return cs


def from_sort(r, big, limit):
    _, res = sort_model(6 if big else 5).generate()
    cs, cur = [], Case()
    for _, a in few(r, res, limit):
        n = len(a)
        for i in range(n):
            for k in range(i, n):
                if r.random() < (1 if big else 0.5):
                    es = r.choice([2, 2, 3, 9])
                    cur.sort(es, i, k, 0, [bytes(x) + b"p" * (es - 2) for x in a])
        if len(cur) > 60:
            cs.append(cur)
            cur = Case()
    return cs + ([cur] if len(cur) else [])


def from_make(r, big, limit):
    _, res = make_model(big).generate()
    cs = []
    for g in props.pack(few(r, res, limit), 40):
        c = Case()
        for h in props.pack(g, 8):
            c.table([jent(d) for _, d in h], r.choice([-1, 0, 1, 2, 5]))
        c.tables()
        c.freeall()
        cs.append(c)
    return cs


def from_life(r, big, limit):
    _, res = life_model(big).generate()
    cs = []
    for _, n, hist in few(r, res, limit):
        es = props.calm(r, props.rand_table(r, kinds="lidsrrft"))[:n - 1]
        es += [ent("s", b"q", None, None, b"more", 0, 2) for _ in range(n - 1 - len(es))]
        c = Case()
        t = c.table(es, r.choice([1, 2, 20]))
        holes, first = [], None
        for o, x in hist:
            if o == "parse":
                c.parse(t, props.rand_argv(r, es))
            elif o == "errors":
                c.errors(t, b"prog")
            elif o == "text":
                r.choice([lambda: c.text("syntax", t, b"\n"), lambda: c.text("syntaxv", t, b"\n"), lambda: c.text("glossary", t, None), lambda: c.gnu(t)])()
            elif o == "hole":
                holes.append(x - 1)
            elif o == "first":
                first = x
            else:
                c.nullcheck(t, holes)
                if o == "argfree":
                    c.argfree(t, True, holes)
                else:
                    c.freetable(t, True, holes, first)
        cs.append(c)
    return cs


def printed(r):
    return lambda c, t: c.errors(t, r.choice([b"prog", b"tool", b"", b"a b"]))


def helped(r):
    def f(c, t):
        if r.random() < 0.5:
            c.synerr(t)
        else:
            c.synhelp(t, b"cmd", r.choice([0, 0, 1, 2]), r.choice([0, 1, 3]))
    return f


def behaviours(pid, seed, big):
    """(name of the model, build variant, cases)"""
    r = props.R("behaviours/%d/%s" % (seed, pid))
    if pid in ("C02", "C03", "C04", "C05", "C06", "C24", "C25", "C26", "C27"):
        # the whole of the model, in random order so that each line follows different ones
        yield "MC_Parse", "std", from_parse(r, big, 60000 if big else 7000)
    elif pid == "C23":
        yield "MC_Parse", "amalg", from_parse(r, big, 60000 if big else 5000)
    elif pid == "C07":
        yield "MC_Parse", "std", from_parse(r, False, None if big else 5000)
    elif pid == "C22":
        yield "MC_Parse", "std", from_parse(r, False, None if big else 5000)
    elif pid == "C14":
        yield "MC_Parse", "std", from_parse(r, False, None if big else 5000, printed(r))
    elif pid == "C21":
        yield "MC_Parse", "std", from_parse(r, False, None if big else 3000, helped(r), True)
    elif pid == "C28":
        yield "MC_Parse", "std", from_parse(r, False, None if big else 2000, lambda c, t: r.choice([printed(r), helped(r)])(c, t), True)
    elif pid in ("C01", "C11"):
        m = (int_model if pid == "C01" else dbl_model)(4)
        yield os.path.splitext(m.cfg)[0], "std", props.values_cases([bs(x[1]) for x in few(r, m.generate()[1], None if big else 12000)], "i" if pid == "C01" else "d")
    elif pid == "C09":
        yield "MC_Date", "std", from_date(r, big, None if big else 1500)
    elif pid == "C18":
        yield "MC_Sort", "std", from_sort(r, big, None)
    elif pid == "C29":
        yield "MC_Make", "std", from_make(r, big, None)
    elif pid == "C19":
        yield "MC_Life", "std", from_life(r, big, None)
    elif pid == "C08":
        yield "MC_Regex", "std", from_regex(r, big, 12000 if big else 700)
    elif pid in ("C10", "C13"):
        yield "MC_Text", "std", from_text(r, pid, big, None)
    if pid in ("C12", "C13"):
        yield "MC_Usage", "std", from_usage(r, pid, big, None)
    elif pid == "C15":
        yield "MC_DStr", "std", from_dstr(r, big, 40000 if big else 5000)
    elif pid == "C16":
        yield "MC_Reg", "std", from_reg(r, big, 40000 if big else 4000)
    elif pid == "C30":
        yield "MC_Getopt", "std", from_getopt(r, big, None if big else 6000)
    elif pid == "C17":
        yield "MC_Hash", "std", from_hash(r, big, 20000 if big else 2500)
