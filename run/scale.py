"""Inputs where size is the point: long texts, many occurrences, wide tables, long histories."""
import string
from core import Case, ent
from gen import *

LENS = [64, 80, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192]
COUNTS = [15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 126, 127, 128, 129, 130, 199, 200, 201, 254, 255, 256, 257, 258, 300]


def lens(r, big, n):
    out = r.sample(LENS, min(n, len(LENS)))
    return out + ([16384, 32768, 65535, 65536, 70000] if big else [r.choice([9000, 16384])])


def long_text(r, n, alpha=b"abcxyz -=,.%/"):
    if r.random() < 0.5:
        return bytes(r.choice(alpha) for _ in range(min(n, 9))) + b"q" * max(0, n - 11) + bytes(r.choice(alpha) for _ in range(min(2, max(0, n - 9))))
    return bytes(r.choice(alpha) for _ in range(n))


def clean(w):
    return w.replace(b"\0", b"")


def words_for(r, e, v):
    """e with value v, in one of the ways to write it"""
    f = []
    if e["sh"]:
        f += [[b"-" + e["sh"][:1] + v] if v else [b"-" + e["sh"][:1], v], [b"-" + e["sh"][:1], v]]
    if e["lo"]:
        n = e["lo"].split(b",")[0]
        f += [[b"--" + n + b"=" + v] if v else [b"--" + n, v], [b"--" + n, v]]
    return r.choice(f) if f else [v]


# ------------------------------------------------------------------- long texts
def long_values(r, big, kinds, n, errors=False):
    cs = []
    for ln in lens(r, big, n):
        k = r.choice(kinds)
        if k == "i":
            ln = min(ln, 2100)
            v = r.choice([b"0" * (ln - 2) + b"17", b"1" * ln, b"-" + b"0" * (ln - 3) + b"9x", b" " * (ln - 2) + b"12", b"12" + b" " * (ln - 2), b"0x" + b"0" * (ln - 4) + b"ff", b"0b" + b"1" * (ln - 2), b"z" * ln])
        elif k == "d":
            v = r.choice([b"0." + b"0" * (ln - 3) + b"5", b"1" * min(ln, 300), b"1e" + b"0" * (ln - 3) + b"5", b" " * (ln - 3) + b"1.5", b"1." + b"3" * (ln - 2), b"q" * ln])[:1100]
        elif k == "r":
            v = r.choice([b"a" * ln, b"ab" * (ln // 2), b"a" * (ln - 1) + b"!", b"x" * ln])[:1100]
        elif k == "t":
            v = r.choice([b"12:30" + b" " * (ln - 5), b" " * (ln - 5) + b"12:30", b"0" * (ln - 3) + b":30", b"x" * ln])
        elif k == "f":
            v = r.choice([long_text(r, ln, b"ab./"), b"/" + b"d" * (ln - 6) + b"/f.gz", b"n" * (ln - 3) + b".gz", b"." + b"n" * (ln - 1), b"a." + b"e" * (ln - 2), b"a/" * (ln // 2) + b"x", b"." * ln, b"/" * ln])
        else:
            v = long_text(r, ln)
        aux = {"r": r.choice([b"a*", b"[ab]+", b"(ab)*", b"\\w+", b".*"]), "t": b"%H:%M"}.get(k)
        e = ent(k, b"x", b"xx", None, None, 0, r.choice([4, 4, 1, 2]), aux=aux)
        u = ent(k, None, None, None, None, 0, r.choice([3, 3, 1]), aux=aux)
        c = Case()
        t, s = c.table([e, u, ent("l", b"v", None, None, None, 0, 9)], 6), c.table([ent("l", b"v", b"verbose", None, None, 0, 9)], 3)
        for _ in range(3):
            c.parse(t, [b"p"] + [w for _ in range(r.choice([1, 2, 3, 3, 5])) for w in (words_for(r, r.choice([e, u]), v if v[:1] != b"-" else b"7") if r.random() < 0.8 else [b"-v"])])
            if errors:
                c.errors(t, b"prog")
        # the same text where no value is wanted: an unknown option, an unknown long name, a stray word
        c.parse(s, [b"p", b"--" + clean(v).replace(b"=", b"-"), b"-v", clean(v)])
        if errors:
            c.errors(s, r.choice([b"prog", b"n" * r.choice([100, 300])]))
        c.tables()
        c.freeall()
        cs.append(c)
    return cs


# ------------------------------------------------------------- many occurrences
def many_times(r, big, kinds, n):
    cs = []
    val = {"i": b"%d", "d": b"%d.5", "s": b"s%d", "f": b"d/f%d.c", "r": b"a%d", "t": b"12:%02d"}
    for m in r.sample(COUNTS, n if not big else len(COUNTS)):
        k = r.choice(kinds)
        aux = {"r": b"a[0-9]*", "t": b"%H:%M"}.get(k)
        mx = m + r.choice([0, 0, 1, 40, -1])
        mn = r.choice([0, 0, m, m - 1, mx])
        e = ent(k, b"x", b"xx", None, None, min(mn, mx), mx, aux=aux)
        av = []
        for q in (m, m - 1, m + 1, r.choice([0, 1])):
            if k == "l":
                av.append([b"p"] + r.choice([[b"-x"] * q, [b"-" + b"x" * q] if q else [], [b"--xx"] * q, [b"-" + b"x" * (q // 2)] * 2 if q > 1 else []]))
            else:
                av.append([b"p"] + [w for j in range(q) for w in words_for(r, e, val[k] % (j % 60))])
        if k != "l" and r.random() < 0.6:
            e = dict(e, sh=None, lo=None)
            av = [[b"p"] + [val[k] % (j % 60) for j in range(q)] for q in (m, m - 1, m + 1, 2)]
        cs += chunk(av, [e, ent("l", b"v", None, None, None, 0, 1)], cap=r.choice([1, 20]))
    return cs


# ------------------------------------------------------------------- wide tables
def wide_table(r, n, kinds="lsi", pos=1, texts=False):
    shorts = [c for c in range(33, 255) if c not in b"?:-;W"]
    r.shuffle(shorts)
    es = []
    for i in range(n):
        k = r.choice(kinds)
        sh = bytes([shorts.pop()]) if shorts and r.random() < 0.8 else None
        base = r.choice([b"opt%d" % i, b"o%03d-%s" % (i, b"x" * r.choice([3, 40, 120])), b"%c%c%d" % (r.randrange(97, 123), r.randrange(97, 123), i)])
        lo = base if sh is None or r.random() < 0.7 else None
        if lo and r.random() < 0.2:
            lo += b",alt%d" % i
        es.append(ent(k, sh, lo, None if not texts else r.choice([None, b"<x%d>" % i]), None if not texts else r.choice([None, b"text %d" % i]), 0 if r.random() < 0.93 else 1, r.choice([1, 2, 3])))
    for _ in range(pos):
        es.insert(r.randrange(len(es) + 1), ent(r.choice("sfi"), None, None, None, None, 0, r.choice([1, 2, 5])))
    return es


def wide_argv(r, es, n):
    out = [b"p"]
    tag = [e for e in es if e["sh"] or e["lo"]]
    edge = tag[-3:] + tag[:2]
    for _ in range(n):
        e = r.choice(tag) if r.random() < 0.7 else r.choice(edge)
        if e["k"] == "l":
            out.append(b"-" + e["sh"] if e["sh"] and r.random() < 0.6 else b"--" + r.choice(e["lo"].split(b",")) if e["lo"] else b"-" + e["sh"])
        else:
            out += words_for(r, e, b"%d" % r.randrange(100))
        if r.random() < 0.15:
            out.append(r.choice([b"7", b"file.c", b"-", b"--opt", b"--o", b"--nope", b"-;"]))
    # every short flag at once
    if r.random() < 0.3:
        fl = [e["sh"] for e in es if e["k"] == "l" and e["sh"]]
        if fl:
            out.append(b"-" + b"".join(fl))
    return out


def wide_cases(r, big, n, texts=False, kinds="lsi", pos=1):
    cs = []
    sizes = [20, 31, 32, 33, 50, 63, 64, 65, 66, 90, 99, 100, 101, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300]
    for m in r.sample(sizes, min(len(sizes), n)) + ([] if not big else sizes):
        es = wide_table(r, m, kinds, pos, texts)
        if texts:
            c = Case()
            t = c.table(es, 5)
            for op in r.sample(["syntax", "syntaxv", "glossary", "gnu"], 2):
                if op == "gnu":
                    c.gnu(t)
                else:
                    c.text(op, t, b"\n" if op != "glossary" else None)
            c.freeall()
            cs.append(c)
        else:
            cs += chunk([wide_argv(r, es, r.choice([3, 10, 30])) for _ in range(4)], es, cap=r.choice([1, 20, 40]))
    return cs


# ------------------------------------------------------------ long command lines
def long_lines(r, big, n):
    cs = []
    es = [ent("i", b"i", b"int", None, None, 0, 700), ent("l", b"v", b"verb", None, None, 0, 700), ent("s", b"o", b"opt", None, None, 0, 700, opt=True), ent("s", None, None, None, None, 0, 900)]
    for _ in range(n):
        out = [b"p"]
        tot = r.choice([60, 127, 128, 130, 200, 256, 260, 300, 400] + ([600, 900] if big else []))
        while len(out) < tot:
            b = r.choice([1, 2, 3, 8, 20, 60, 100, 130, 257])
            out += [b"%c%d" % (r.randrange(97, 123), len(out) + j) for j in range(b)]
            for _ in range(r.choice([1, 2, 5, 33, 64, 129])):
                out += r.choice([[b"-v"], [b"-i", b"3"], [b"-i4"], [b"--opt=z"], [b"-o"], [b"--verb"], [b"-vvi", b"8"]])
        if r.random() < 0.3:
            out.insert(r.randrange(1, len(out)), b"--")
        cs += chunk([out, out[:20]], es)
    for m in [r.choice([1000, 2000]), r.choice([4096, 4097, 4200])] + ([9000] if big else []):
        x = r.random()
        if x < 0.6:
            out = [b"p"] + [r.choice([b"-v", b"-v", b"--verb", b"-vv"]) for _ in range(m)]
        else:
            out = [b"p"] + [b"-v"] * (m - 40) + [b"%d" % j for j in range(30)] + [b"-v"] * 9
        es2 = [ent("l", b"v", b"verb", None, None, 0, 20000), ent("s", None, None, None, None, 0, 40)]
        cs += chunk([out, out[:9]], es2)
    return cs


# --------------------------------------------------------------- many errors
def many_errors(r, big, n, report=False):
    cs = []
    es = [ent("i", b"i", b"int", None, None, 0, 400), ent("l", b"l", None, None, None, 0, 1), ent("r", b"r", None, None, None, 0, 9, aux=b"a+"), ent("i", None, None, None, None, 0, 2)]
    for _ in range(n):
        cap = r.choice([16, 31, 32, 33, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400])
        m = max(1, cap + r.choice([-3, -1, 0, 1, 2, 50]))
        c = Case()
        t = c.table(es, cap)
        for q in (m, m // 3 + 1, 0):
            c.parse(t, [b"p"] + [r.choice([b"-ix", b"-l", b"--nope", b"-Z", b"-rb", b"--int=", b"-i99999999999", b"stray"]) for _ in range(q)])
            if report and q <= 130:
                c.errors(t, b"prog")
        # as many arguments missing
        es2 = [ent("s", None, b"n%d" % i, None, None, 1, 1) for i in range(r.choice([20, 40, min(cap + 5, 300)]))]
        u = c.table(es2, cap)
        c.parse(u, [b"p"])
        if report and len(es2) < 50:
            c.errors(u, b"prog")
        c.freeall()
        cs.append(c)
    return cs


# --------------------------------------------------------------- long histories
def long_history(r, big, n):
    cs = []
    for _ in range(n):
        es = calm_dates(rand_table(r))
        c = Case()
        t = c.table(es, r.choice([1, 3, 20]))
        for _ in range(r.choice([70, 130, 260]) if not big else r.choice([130, 300, 700])):
            c.parse(t, rand_argv(r, es) if r.random() < 0.9 else [b"p"])
        c.tables()
        c.freeall()
        cs.append(c)
    return cs


def calm_dates(es):
    for e in es:
        if e["k"] == "t" and e["aux"] is not None:
            e["aux"] = b"%Y-%m-%d"
    return es


# ------------------------------------------------------------------ long layouts
def long_gloss(r, big, n):
    cs = []
    for _ in range(n):
        c = Case()
        m = r.choice([300, 500, 512, 800, 1024, 1500, 2048, 3000])
        g = b""
        while len(g) < m:
            g += b"w" * r.choice([1, 2, 3, 5, 8, 12, 51, 52, 53, 70]) + r.choice([b" ", b" ", b" ", b"  ", b"\n"])
        es = [ent("l", b"a", b"alpha", None, g), ent("s", None, b"beta" + b"y" * r.choice([0, 10, 200]), b"<v>", g[:r.randrange(len(g))])]
        t = c.table(es, 2)
        c.gnu(t)
        c.text("glossary", t, r.choice([None, b"%-30s %s\n"]))
        w = r.choice([1, 20, 51, 80, 127, 128, 200, 256, 500])
        lm = r.choice([0, 28, 100])
        c.formatted(lm, lm + w, g)
        c.freeall()
        cs.append(c)
    return cs


# ----------------------------------------------------------------- big strings
def big_dstr(r, big, n):
    cs = []
    S = [255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 10000] + ([16384, 32767, 32768, 40000, 65535, 65536, 70000] if big else [])
    for _ in range(n):
        c = Case()
        c.d("dcreate", 0)
        tot = 0
        for _ in range(r.choice([4, 7, 10])):
            s = b"ab%" + b"." * (r.choice(S) - 4) + b"z"
            x = r.random()
            if tot > (150000 if big else 30000) or x < 0.15:
                c.d("dset", 0, ["v", hx(s)], m="v", s=list(s))
                tot = 0
            elif x < 0.5:
                c.d("dcat", 0, [hx(s)], s=list(s))
            elif x < 0.8:
                c.d("dcatf", 0, ["s", hx(s)], f="s", s=list(s))
            elif x < 0.9:
                w = r.choice([512, 1000, 1024, 4096, -2048])
                c.d("dcatf", 0, ["w", w, hx(b"abc")], f="w", n=w, s=list(b"abc"))
            else:
                c.d("dcatc", 0, [120], c=120)
            tot += len(s)
        if r.random() < 0.5:
            c.d("dcut", 0, [100], n=100)
            c.d("dcat", 0, [hx(b"tail")], s=list(b"tail"))
        c.d("ddestroy", 0)
        cs.append(c)
    return cs


def many_chars(r, big, n):
    """one character at a time"""
    cs = []
    for m in ([210, 420, 820] if not big else [210, 420, 820, 1700, 3500]):
        c = Case()
        c.d("dcreate", 0)
        for i in range(m):
            if i % 50 == 49:
                c.d("dcatf", 0, ["i", i], f="i", n=i)
            else:
                c.d("dcatc", 0, [97 + i % 26], c=97 + i % 26)
        c.d("ddestroy", 0)
        cs.append(c)
    return cs


# --------------------------------------------------------------- many commands
def collide(r, n, ln):
    """n names of length ln with the same hash value: "aC" and "b\"" hash alike, at every place"""
    k = max(1, (ln - 1) // 2)
    pre = b"p" * (ln - 2 * min(k, 4))
    out = []
    for i in range(n):
        out.append(pre + b"".join(b"aC" if i >> j & 1 else b'b"' for j in range(min(k, 4))))
    return out


def colliding_commands(r, big, n):
    cs = []
    for _ in range(n):
        c = Case()
        c.cinit()
        names = collide(r, r.choice([2, 4, 16]), r.choice([9, 20, 32, 40, 63, 64, 65, 70, 99]))
        for i, nm in enumerate(names):
            if r.random() < 0.8:
                c.creg(nm, i % 8, b"d%d" % i, i % 9 - 1)
        for _ in range(12):
            nm = r.choice(names)
            r.choice([lambda: c.c1("cunreg", nm), lambda: c.creg(nm, 3, b"again", 2), lambda: c.c1("cinfo", nm), lambda: c.c1("csearch", nm)])()
        c.ccount()
        c.cscan()
        for nm in names:
            c.c1("cinfo", nm)
        c.cuninit()
        cs.append(c)
    return cs


def many_commands(r, big, n):
    cs = []
    for m in r.sample([90, 130, 140, 256, 260, 300, 520], n) + ([1030] if big else []):
        c = Case()
        c.cinit()
        names = [b"cmd%d" % i for i in range(m)]
        r.shuffle(names)
        for i, nm in enumerate(names):
            c.creg(nm, i % 8, b"d%d" % i, i % 9 - 1)
            if r.random() < 0.04:
                c.ccount()
                c.c1("cinfo", r.choice(names))
        c.ccount()
        c.cscan()
        for nm in r.sample(names, 40):
            r.choice([lambda: c.c1("cunreg", nm), lambda: c.creg(nm, 3, b"again", 2), lambda: c.c1("cinfo", nm), lambda: c.c1("csearch", nm)])()
        c.ccount()
        for nm in r.sample(names, 20):
            c.c1("cinfo", nm)
        c.cscan()
        c.cuninit()
        cs.append(c)
    return cs


def big_sorts(r, big, n):
    cs = []
    for _ in range(n):
        c = Case()
        m = r.choice([32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300] + ([500, 1000] if big else []))
        es = r.choice([1, 2, 4, 8, 16, 24, 31, 32, 33, 48, 63, 64, 65, 100, 128, 129, 200, 256])
        if m * es > 8000 and not big:
            es = r.choice([1, 4, 24])
        if _ % 30 == 7:      # wide elements, few of them
            es, m = r.choice([(1024, 65), (1500, 45), (2000, 34), (4096, 17), (9000, 9)])
        nk = r.choice([2, 5, 255])
        el = [bytes([r.randrange(1, nk + 1)]) + bytes([1 + (i * 7 + j) % 255 for j in range(es - 1)]) for i in range(m)]
        x = r.random()
        if x < 0.15:
            el.sort()
        elif x < 0.3:
            el.sort(reverse=True)
        i = r.choice([0, 0, r.randrange(m)])
        c.sort(es, i, r.choice([m - 1, r.randrange(i, m)]), r.choice([0, 1]), el)
        cs.append(c)
    return cs


def long_patterns(r, big, n):
    """patterns of many parts"""
    cs = []
    for _ in range(n):
        m = r.choice([5, 8, 10, 15, 16, 17, 20, 26, 31, 32, 33, 40])
        x = r.randrange(6)
        if x == 0:
            p = b"|".join(bytes([97 + i % 26]) * (i // 26 + 1) for i in range(m))
            tx = [bytes([97 + i % 26]) * (i // 26 + 1) for i in range(m)]
        elif x == 1:
            p = b"".join(b"(" + bytes([97 + i % 26]) + b")" for i in range(m))
            tx = [bytes(97 + i % 26 for i in range(m)), bytes(97 + i % 26 for i in range(m - 1))]
        elif x == 2:
            d = min(m, 12)
            p = b"(" * d + b"a" + b")" * d
            tx = [b"a", b"aa", b""]
        elif x == 3:
            p = b"[" + bytes(97 + i % 26 for i in range(m)) + b"0-9_]" + r.choice([b"+", b"{%d}" % m, b"{%d,%d}" % (m, m + 2), b"{%d,}" % m, b"*"])
            tx = [b"a" * q for q in (0, 1, m - 1, m, m + 1, m + 2, m + 3, 99)]
        elif x == 4:
            p = b"".join(bytes([97 + i % 26]) + r.choice([b"?", b"", b"+"]) for i in range(m))
            tx = [bytes(97 + i % 26 for i in range(m)), bytes(97 + i % 26 for i in range(0, m, 2))]
        else:
            q = r.choice([100, 127, 128, 200, 255, 256, 257, 300, 1000])
            p = b"a{%d}" % q
            tx = [b"a" * (q - 1), b"a" * q, b"a" * (q + 1)]
        tx += [b"zz", b"0", tx[0][:-1], tx[0] + b"a"]
        fl = r.choice([0, 1])
        c = Case()
        t = c.table([ent("r", b"r", None, b"D", None, 0, len(tx) + 1, aux=p, fl=fl), ent("r", b"s", None, b"D", None, 0, len(tx) + 1, aux=p, fl=1 - fl)], len(tx) + 2)
        c.parse(t, [b"p"] + [w for v in tx for w in (r.choice([b"-r", b"-s"]), v)])
        c.parse(t, [b"p"] + [w for v in tx for w in (b"-r", v.upper())])
        c.freeall()
        cs.append(c)
    return cs


def modules(r, big, n):
    cs = []
    for _ in range(n):
        c = Case(fork=True)
        es = calm_dates(wide_table(r, r.choice([3, 40]), texts=True))
        t = c.table(es, r.choice([3, 60]))
        m = r.choice([150, 198, 199, 200, 201, 250, 300, 399, 400, 500, 1000])
        if r.random() < 0.8:
            c.modname(b"m" * m)
        if r.random() < 0.8:
            c.modver(r.choice([0, 99999, 2147483647]), r.choice([0, 2147483647]), r.choice([5, 1000000000]), b"t" * r.choice([0, 190, 200, 300]))
        c.gethelp()
        c.cinit()
        c.creg(b"n" * 99, 1, b"d" * 255, 1)
        c.parse(t, [b"p"] + [b"--nope%s" % (b"x" * r.choice([1, 100, 180, 300])) for _ in range(r.choice([0, 2, 30]))])
        c.help(t, b"n" * 99)
        c.synerr(t)
        c.synhelp(t, b"n" * 99, 0, 1)
        c.cuninit(False)
        c.freetable(t, False)
        cs.append(c)
    return cs


def scale(pid, r, big):
    k = 6 if big else 1
    g = {
        "C01": lambda: long_values(r, big, "i", 8 * k),
        "C11": lambda: long_values(r, big, "d", 6 * k),
        "C10": lambda: long_values(r, big, "f", 12 * k),
        "C09": lambda: long_values(r, big, "t", 6 * k),
        "C08": lambda: long_values(r, big, "r", 6 * k) + long_patterns(r, big, 60 * k),
        "C22": lambda: long_values(r, big, "s", 14 * k) + many_times(r, big, "lls", 12),
        "C02": lambda: many_times(r, big, "llidsrft", 14) + wide_cases(r, big, 3),
        "C03": lambda: long_lines(r, big, 6 * k) + many_times(r, big, "lsi", 3) + wide_cases(r, big, 3),
        "C04": lambda: wide_cases(r, big, 18) + long_lines(r, big, 5 * k) + long_values(r, big, "s", 6),
        "C05": lambda: many_errors(r, big, 24 * k),
        "C06": lambda: long_history(r, big, 20 * k) + many_times(r, big, "lsifdrt", 8),
        "C07": lambda: long_lines(r, big, 3 * k) + long_values(r, big, "sf", 6 * k, True),
        "C12": lambda: wide_cases(r, big, 20, True),
        "C13": lambda: long_gloss(r, big, 16 * k) + wide_cases(r, big, 4, True),
        "C14": lambda: long_values(r, big, "idrts", 14 * k, True) + many_errors(r, big, 8 * k, True),
        "C15": lambda: big_dstr(r, big, 40 * k) + many_chars(r, big, 3),
        "C16": lambda: many_commands(r, big, 6) + colliding_commands(r, big, 40 * k),
        "C18": lambda: big_sorts(r, big, 120 * k),
        "C19": lambda: big_dstr(r, big, 10) + many_commands(r, big, 1) + many_errors(r, big, 2) + wide_cases(r, big, 2) + wide_cases(r, big, 2, True) + many_times(r, big, "sfr", 2),
        "C21": lambda: modules(r, big, 40 * k),
        "C23": lambda: long_values(r, big, "sfidr", 4, True) + many_times(r, big, "lsi", 3) + wide_cases(r, big, 2) + wide_cases(r, big, 2, True) + big_dstr(r, big, 3) + long_patterns(r, big, 6),
        "C24": lambda: many_times(r, big, "sfidrt", 6) + wide_cases(r, big, 4, pos=8) + long_lines(r, big, 3 * k),
        "C25": lambda: [],
        "C26": lambda: long_values(r, big, "idsrft", 10 * k, True) + wide_cases(r, big, 4) + long_lines(r, big, 2) + many_errors(r, big, 2),
    }.get(pid)
    return g() if g else []
