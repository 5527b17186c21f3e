"""What each property's check feeds to the code. g_Cxx(r, big) -> list of cases; big: the thorough tier."""
import itertools
from core import Case, ent
from gen import *
from scale import scale


def predictable(f):
    """is the example date in this format (which error messages show) defined by the C standard?"""
    i = 0
    while i < len(f):
        if f[i] == 37:
            i += 1
            m = f[i:i + 1]
            if m in (b"E", b"O"):
                i += 1
                if f[i:i + 1] not in ([b"c", b"C", b"x", b"X", b"y", b"Y"] if m == b"E" else [b"d", b"e", b"H", b"I", b"m", b"M", b"S", b"U", b"w", b"W", b"y"]) or not f[i:i + 1]:
                    return False
            elif not m or m[0] not in DATE_ERR_OK:
                return False
        i += 1
    return True


def calm(r, es):
    for e in es:
        if e["k"] == "t" and e["aux"] is not None and not predictable(e["aux"]):
            e["aux"] = r.choice([b"%D", b"%T", b"%Y-%m-%d"])
    return es


def pack(vals, n):
    return [vals[i:i + n] for i in range(0, len(vals), n)]


def values_cases(vals, k, aux=None, fl=0, per=24, perc=6, opt=True):
    """each value offered to an argument of kind k: as -x v, -xv, --xx=v and as a positional"""
    out = []
    es = [ent(k, b"x", b"xx", None, None, 0, per, aux=aux, fl=fl)]
    pos = [ent(k, None, None, None, None, 0, per, aux=aux, fl=fl), ent(k, None, None, None, None, 0, 3, aux=aux, fl=fl)]
    for grp in pack(vals, per * perc):
        c = Case()
        t, u = c.table(es, per + 2), c.table(pos, per + 2)
        for i, g in enumerate(pack(grp, per)):
            f = i % 4
            if f == 0:
                c.parse(t, [b"p"] + [w for v in g for w in (b"-x", v)])
            elif f == 1:
                c.parse(t, [b"p"] + [b"--xx=" + v for v in g])
            elif f == 2:
                c.parse(t, [b"p"] + [b"-x" + v for v in g if v])
            else:
                c.parse(u, [b"p", b"--"] + g)
        c.freeall()
        out.append(c)
    return out


def strings(alpha, lens):
    return [b"".join(t) for n in lens for t in itertools.product(alpha, repeat=n)]


# ---------------------------------------------------------------- C01 integers
def g_C01(r, big):
    alpha = [b"0", b"1", b"9", b"-", b"x", b"b", b"o", b"K", b"B", b" "]
    vals = INT_FIXED * 4 + strings(alpha, range(0, 4))
    more = strings(alpha, [4])
    vals += more if big else r.sample(more, 2500)
    vals += [int_text(r) for _ in range(20000 if big else 4000)]
    # every magnitude boundary, in every base, with every suffix
    for mult, suf in ((1, b""), (1024, b"KB"), (1048576, b"MB"), (1073741824, b"GB")):
        for edge in (2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64, 2 ** 33, 2 ** 31 * 1024):
            for dlt in (-2, -1, 0, 1):
                v = edge // mult + dlt
                for f in ("%d", "0x%x", "0o%o"):
                    for s in (b"", b"-", b"+"):
                        if v >= 0:
                            vals.append(s + (f % v).encode() + suf)
                if v >= 0:
                    vals.append(b"0b" + bin(v)[2:].encode() + suf)
    r.shuffle(vals)
    cs = values_cases(vals, "i")
    cs += [parse_case(r, kinds="ii l".replace(" ", ""), nparse=3) for _ in range(800 if big else 100)]
    return cs


# -------------------------------------------------------------------- C11 doubles
def g_C11(r, big):
    alpha = [b"0", b"1", b".", b"-", b"+", b"e", b"x", b"p", b" "]
    vals = DBL_FIXED * 4 + strings(alpha, range(0, 4))
    more = strings(alpha, [4])
    vals += more if big else r.sample(more, 1500)
    vals += [dbl_text(r) for _ in range(12000 if big else 2500)]
    r.shuffle(vals)
    cs = values_cases(vals, "d", per=16)
    cs += [parse_case(r, kinds="ddl", nparse=3) for _ in range(800 if big else 100)]
    return cs


# -------------------------------------------------------------------- C10 files
def g_C10(r, big):
    vals = strings(FILE_ALPHA, range(0, 9 if big else 8))
    vals += strings([b"a", b".", b"/", b"\\", b" "], [4] if not big else [4, 5, 6])
    vals += [file_text(r) for _ in range(3000 if big else 800)]
    r.shuffle(vals)
    cs = values_cases(vals, "f")
    cs += [parse_case(r, kinds="fffl", nparse=4) for _ in range(800 if big else 150)]
    return cs


# -------------------------------------------------------------------- C09 dates
def g_C09(r, big):
    cs = []
    fmts = DATE_FMTS * (4 if big else 1) + [date_fmt(r) for _ in range(1500 if big else 220)]
    for f in fmts:
        c = Case()
        n = 20
        t = c.table([ent("t", b"d", None, None, None, 0, n, aux=f)], n + 2)
        u = c.table([ent("t", None, None, None, None, 0, 3, aux=f), ent("s", None, None, None, None, 0, 9)], 3)
        if r.random() < 0.5:
            for i in range(4):
                c.preset(t, 0, i, "t", [r.randrange(60), r.randrange(60), r.choice([0, 5, 11]), r.randrange(1, 29), r.randrange(12), r.choice([-300, 99, 120]), r.randrange(7), r.randrange(365), r.choice([-1, 0, 1])])
        for _ in range(3):
            c.parse(t, [b"p"] + [w for _ in range(n) for w in (b"-d", date_text(r, f))])
        c.parse(u, [b"p", b"--"] + [date_text(r, f) for _ in range(5)])
        c.freeall()
        cs.append(c)
    # every two-digit year, month, day, hour; with and without leading zeros
    for f, rng in ((b"%y", range(0, 102)), (b"%C", range(0, 102)), (b"%m", range(0, 15)), (b"%d", range(0, 35)), (b"%H", range(0, 27)), (b"%I", range(0, 15)), (b"%M", range(0, 63)), (b"%S", range(0, 65)),
                   (b"%j", range(0, 370, 3)), (b"%j", range(360, 370)), (b"%w", range(0, 10)), (b"%U", range(0, 57)), (b"%W", range(48, 57)), (b"%Y", list(range(0, 10100, 97)) + [1900, 1899, 9999, 10000]),
                   (b"%k", range(0, 27)), (b"%l", range(0, 15)), (b"%e", range(0, 35))):
        vals = [b"%d" % v for v in rng] + [b"%02d" % v for v in rng]
        cs += values_cases(vals, "t", aux=f, per=20)
    for f in (b"%C%y", b"%y%C", b"%y %C", b"%C %y", b"%EC%Ey"):
        cs += values_cases([(b"%02d%02d" if b" " not in f else b"%02d %02d") % (r.randrange(100), r.randrange(100)) for _ in range(60)] + [b"1999", b"2000", b"0068", b"0069", b"1900", b"1800", b"9999", b"0000"], "t", aux=f, per=20)
    for f in (b"%I:%M %p", b"%I%p", b"%r", b"%l %p"):
        vals = [(b"%d:30 " % h if b":%M" in f else b"%d:30:15 " % h if b"r" in f else b"%d" % h if b" " not in f else b"%d " % h) + p for h in range(0, 14) for p in (b"AM", b"PM", b"am", b"pM")]
        cs += values_cases(vals, "t", aux=f, per=20)
    # every conversion there could be, plain and modified, legal or not
    for g in pack([m + bytes([b]) for m in (b"", b"E", b"O") for b in range(33, 127)] + [m + bytes([b]) for m in (b"EO", b"OE", b"EE", b"OO") for b in b"yCYdHmMSwUxXcep"], 6):
        c = Case()
        for v in g:
            f = r.choice([b"%" + v, b"%" + v, b"%H:%" + v, b"%" + v + b" %Y", b"%I%" + v])
            t = c.table([ent("t", b"d", None, None, None, 0, 12, aux=f)], 14)
            c.parse(t, [b"p"] + [w for _ in range(8) for w in (b"-d", date_text(r, f, False))])
        c.freeall()
        cs.append(c)
    for f, names in ((b"%A", DAYS), (b"%a", DAYS), (b"%B", MONS), (b"%b", MONS), (b"%h", MONS)):
        vals = [x for n in names for x in (n, n.upper(), n.lower(), n[:3], n[:3].upper(), n[:4], n[:-1], n[:2], n + b"x", n[:3] + b" ", n.swapcase())]
        cs += values_cases(vals, "t", aux=f, per=22)
    cs += [parse_case(r, kinds="ttl", nparse=4) for _ in range(600 if big else 100)]
    return cs


# -------------------------------------------------------------------- C08 regex
def rex_case(r, pats, texts=None, n=14):
    c = Case()
    for p in pats:
        fl = r.choice([0, 0, 0, 1])
        txt = texts if texts is not None else rex_texts(r, p, n)
        if fl:      # also what differs by the bit that tells the cases of a letter apart, but is no letter
            txt = [x.swapcase() if r.random() < 0.5 else x for x in txt]
            txt += [bytes(b ^ 32 if r.random() < 0.6 and b not in (32, 0) else b for b in x) for x in txt[:12]]
        t = c.table([ent("r", b"r", None, b"D", None, 0, len(txt) + 1, aux=p, fl=fl)], len(txt) + 2)
        c.parse(t, [b"p"] + [w for x in txt for w in (b"-r", x)])
    c.freeall()
    return c


def g_C08(r, big):
    pats = []
    for alpha, n in (([b"a", b"b", b"*", b"|", b"(", b")", b"?"], 4), ([b"a", b"[", b"]", b"^", b"-", b"b", b"\\"], 4), ([b"a", b"{", b"}", b"1", b",", b"2"], 5 if big else 4), ([b"a", b"^", b"$", b".", b"+", b"\\b"], 4)):
        pats += strings(alpha, range(0, n + 1))
        extra = strings(alpha, [n + 1])
        pats += r.sample(extra, min(len(extra), 6000 if big else 350))
    pats = [p for p in pats if nested_repeats(p) < 2]
    texts = [b"".join(t) for n in range(0, 4) for t in itertools.product([b"a", b"b"], repeat=n)] + [b"-", b"1", b"aaaa", b"[", b"^a", b"a^", b"\\", b"a-"]
    if not big:
        pats = r.sample(pats, 3000)
    cs = [rex_case(r, g, texts) for g in pack(pats, 8)]
    more = REX_GOOD * 8 + REX_BAD * 3 + [rex_pattern(r) for _ in range(8000 if big else 1500)]
    cs += [rex_case(r, g) for g in pack(more, 6)]
    # every byte against every class, and against every letter when case is ignored
    every = [bytes([b]) for b in range(1, 256)]
    for p in [b"\\" + bytes([b]) for b in b"aAwWsSdDxXcCplu"] + [b".", b"[^\\w]", b"[\\s\\d]", b"[^a-f]", b"[A-f]", b"[ -~]", b"[\\x_-]", b"[Y-_]", b"[@-`]"]:
        for fl in (0, 1):
            c = Case()
            t = c.table([ent("r", b"r", None, None, None, 0, 255, aux=p, fl=fl)], 260)
            c.parse(t, [b"p"] + [b"-r" + x for x in every])
            c.freeall()
            cs.append(c)
    for b in r.sample(range(33, 256), 223 if big else 60) + [64, 96, 91, 123, 90, 65, 97]:
        p = bytes([b]) if chr(b).isalnum() and b < 128 else b"[" + bytes([b]) + b"]" if b not in b"\\^]-" else b"\\" + bytes([b])
        c = Case()
        t = c.table([ent("r", b"r", None, None, None, 0, 255, aux=p, fl=1)], 260)
        c.parse(t, [b"p"] + [b"-r" + x for x in every])
        c.freeall()
        cs.append(c)
    for _ in range(200 if big else 40):     # several in one table, positional too
        es = [ent("r", None, None, None, None, 0, 3, aux=r.choice(REX_GOOD), fl=r.choice([0, 1])) for _ in range(3)]
        cs += chunk([[b"p"] + [r.choice(rex_texts(r, r.choice(es)["aux"], 2)) for _ in range(5)] for _ in range(5)], es)
    return cs


# ----------------------------------------------------- C03, C04 option recognition
def opt_tables():
    T = {}
    T["flags"] = ([ent("l", b"a", b"alpha", None, None, 0, 3), ent("s", b"b", b"beta", None, None, 0, 3), ent("s", None, None, None, None, 0, 9)],
                  [b"-a", b"-b", b"-ab", b"-ba", b"-abx", b"x", b"--", b"-", b"--alpha", b"--beta=v", b"--beta", b"-z", b"", b"-bx"])
    T["abbr"] = ([ent("l", b"a", b"alpha", None, None, 0, 9), ent("l", None, b"alphabet", None, None, 0, 9), ent("s", None, b"alto,al", None, None, 0, 9), ent("l", b"B", b"beta,bet", None, None, 0, 9),
                  ent("s", None, None, None, None, 0, 9)],
                 [b"--a", b"--al", b"--alp", b"--alpha", b"--alphab", b"--alt=1", b"--alto", b"--b", b"--be", b"--bet", b"--beta", b"--betax", b"--alpha=1", b"x", b"--al=", b"--"])
    T["optval"] = ([ent("s", b"o", b"opt", None, None, 0, 9, opt=True), ent("l", b"v", b"verbose", None, None, 0, 9), ent("i", b"n", b"num,number", None, None, 0, 9), ent("f", None, None, None, None, 0, 9)],
                   [b"-o", b"-oV", b"--opt", b"--opt=V", b"--opt=", b"-vo", b"-voV", b"-ov", b"-n", b"5", b"-n5", b"-vn", b"--num", b"--num=5", b"-", b"--", b"--n=7", b"-v-"])
    T["min"] = ([ent("l", b"a", None, None, None, 1, 2), ent("i", b"i", b"int", None, None, 1, 1), ent("s", None, None, None, None, 1, 2)],
                [b"-a", b"-i", b"1", b"-i1", b"x", b"--int=2", b"-ai", b"--", b"-aa", b"--int"])
    T["special"] = ([ent("l", b"a-", b"a", None, None, 0, 9), ent("s", b"W;", b"w-opt", None, None, 0, 9), ent("l", b"=,", b"e", None, None, 0, 9), ent("s", None, None, None, None, 0, 9)],
                    [b"-a", b"-a-", b"-W", b"-Wa", b"-Wx", b"-;", b"-=", b"-,", b"a", b"w-opt=1", b"-a-a", b"---", b"--=", b"--a", b"-:", b"-aWe"])
    T["alts"] = ([ent("i", b"ijk", b"one,two,three", None, None, 0, 2), ent("l", b"xyz", b"flag,flag-two", None, None, 0, 2), ent("s", None, None, None, None, 0, 1)],
                 [b"-i1", b"-j", b"-k", b"2", b"--one=1", b"--two", b"--th=3", b"--o", b"-xyz", b"--flag", b"--flag-", b"--f", b"-xj3", b"s", b"--flag=2", b"--t"])
    return T


def enum_cases(r, names, n3, n4=0, env=False):
    cs = []
    for n in names:
        es, al = opt_tables()[n]
        av = list(enum_argvs(al, range(0, 3)))
        x3 = list(enum_argvs(al, [3]))
        av += x3 if n3 is None else r.sample(x3, min(n3, len(x3)))
        for _ in range(n4):
            av.append([b"prog"] + [r.choice(al) for _ in range(r.choice([4, 5, 6, 8]))])
        cs += chunk(av, es)
        if env:
            cs += chunk(r.sample(av, min(len(av), 250)), es, env=True)
    return cs


def g_C04(r, big):
    cs = enum_cases(r, list(opt_tables()), None if big else 450, 4000 if big else 300, env=True)
    cs += [parse_case(r, nparse=4, kinds="lllsi") for _ in range(5000 if big else 700)]
    for _ in range(400 if big else 60):     # many long names with common prefixes
        names = list({b"".join(r.choice([b"a", b"b", b"ab", b"-"]) for _ in range(r.randrange(1, 5))) for _ in range(20)})
        names = [n for n in names if n]
        es = [ent(r.choice("lsl"), None, b",".join(names[i:i + 3]), None, None, 0, 99, opt=False) for i in range(0, len(names), 3)]
        for e in es:
            e["opt"] = e["k"] == "s" and r.random() < 0.3
        av = []
        for _ in range(12):
            a = [b"p"]
            for _ in range(4):
                n = r.choice(names)
                n = n[:r.randrange(1, len(n) + 1)] if r.random() < 0.6 else n + r.choice([b"", b"", b"a", b"-"])
                a.append(b"--" + n + r.choice([b"", b"", b"=v", b"="]))
            av.append(a)
        cs += chunk(av, es)
    cs += block_cases(r, 800 if big else 80)
    return cs


def g_C03(r, big):
    cs = enum_cases(r, ["flags", "optval", "min", "special"], None if big else 600, 4000 if big else 400, env=True)
    cs += [parse_case(r, nparse=4) for _ in range(6000 if big else 900)]
    cs += block_cases(r, 3000 if big else 250)
    return cs


def bare_cases(r, n):
    """tables with nothing or hardly anything in them, command lines with not even a program name, in any order"""
    out = []
    few = [[], [], [ent("m", None, None, b"...", b"more")], [ent("l", b"v", None, None, None, 0, 1)], [ent("s", b"s", b"str", None, None, 1, 1)], [ent("s", None, None, None, None, 0, 1)],
           [ent("i", b"i", None, None, None, 0, 2, opt=True), ent("s", None, None, None, None, 1, 1)]]
    lines = [[], [], [b"p"], [b"p", b"zz"], [b"p", b"-v"], [b""], [b"p", b"-s", b"x"], [b"p", b"--nope", b"-i", b"--", b"y"], [b"p", b"zz", b"-q"]]
    for _ in range(n):
        es = r.choice(few)
        c = Case()
        t = c.table(es, r.choice([0, 1, 2, 20]))
        for _ in range(r.choice([3, 5])):
            c.parse(t, r.choice(lines))
            c.errors(t, b"prog" if es else r.choice([None, b"", b"prog"]))
        if r.random() < 0.5:
            c.text(r.choice(["syntax", "syntaxv", "glossary"]), t, None)
            c.gnu(t)
        c.freeall()
        out.append(c)
    return out


def block_cases(r, n):
    out = []
    wide = [ent("i", b"i", b"int", None, None, 0, 60), ent("l", b"v", b"verb", None, None, 0, 60), ent("s", b"o", b"opt", None, None, 0, 60, opt=True), ent("s", None, None, None, None, 0, 90)]
    for _ in range(n):
        es = wide if r.random() < 0.5 else rand_table(r)
        out.append(chunk([block_argv(r, es) for _ in range(4)], es, env=r.random() < 0.05)[0])
    return out


# ---------------------------------------------------------------- C02 occurrence bounds
def g_C02(r, big):
    cs = []
    ok = {"l": b"", "i": b"1", "d": b"1.5", "s": b"s", "r": b"ab", "f": b"f", "t": b"01:02"}
    for k in "lidsrft":
        for mn, mx, ct in [(a, b, "n") for a in range(0, 4) for b in range(-1, 5)] + [(0, 0, "0"), (0, 0, "1"), (3, 7, "0"), (3, 7, "1")]:
            aux = {"r": b"[a-c]+", "t": b"%H:%M"}.get(k)
            es = [ent(k, b"x", b"xx", None, None, mn, mx, aux=aux, ct=ct)]
            av = []
            for n in range(0, 7):
                v = ok[k]
                av.append([b"p"] + ([b"-x"] * n if k == "l" else [w for _ in range(n) for w in (b"-x", v)]))
                av.append([b"p"] + ([b"--xx"] * n if k == "l" else [b"--xx=" + v] * n))
                if k == "l" and n:
                    av.append([b"p", b"-" + b"x" * n])
            c = chunk(av, es)[0]
            cs.append(c)
            if k != "l":               # with a value that may be left out: bare, attached and mixed
                es = [ent(k, b"x", b"xx", None, None, mn, mx, aux=aux, ct=ct, opt=True)]
                av = []
                for n in range(0, 6):
                    av += [[b"p"] + [b"-x"] * n, [b"p"] + [b"--xx=" + ok[k]] * n, [b"p"] + [r.choice([b"-x", b"--xx", b"-x" + ok[k], b"--x=" + ok[k]]) for _ in range(n)]]
                cs += chunk(av, es)
                es = [ent(k, None, None, None, None, mn, mx, aux=aux, ct=ct)]
                es2 = es + [ent("s", None, None, None, None, 1, 2)]
                cs += chunk([[b"p"] + [ok[k]] * n for n in range(0, 8)], es)
                cs += chunk([[b"p"] + [ok[k]] * n for n in range(0, 8)], es2)
    for _ in range(4000 if big else 500):
        es = rand_table(r, n=r.choice([2, 3, 4, 6]), kinds=r.choice(["llsif", "lidsrft"]))
        cs.append(chunk([satisfying_argv(r, es) for _ in range(5)] + [[b"p"]], es, cap=r.choice([1, 3, 20]))[0])
    return cs


# ------------------------------------------------------------------ C05 error registry
def g_C05(r, big):
    cs = bare_cases(r, 400 if big else 80)
    es = [ent("i", b"i", b"int", b"<n>", None, 1, 2), ent("l", b"l", b"lit", None, None, 1, 1), ent("d", b"d", None, None, None, 0, 1), ent("r", b"r", None, None, None, 0, 1, aux=b"a+"),
          ent("t", b"t", None, None, None, 0, 1, aux=b"%H"), ent("i", None, None, None, None, 0, 2)]
    al = [b"-ix", b"-i1", b"-l", b"-dx", b"-rb", b"-t99", b"--nope", b"-Z", b"x", b"7", b"-i99999999999", b"--int=", b"--lit=1", b"-i", b"--", b"-d", b"--int"]
    for cap in (0, 1, 2, 3, 4, 7):
        av = list(enum_argvs(al, [0, 1]))
        av += [[b"p"] + [r.choice(al) for _ in range(r.choice([2, 3, 4, 5, 6, 9]))] for _ in range(3000 if big else 200)]
        r.shuffle(av)
        cs += chunk(av, es, cap=cap, per=20)
    two = list(enum_argvs(al, [2]))
    cs += chunk(two, es, cap=2)
    if big:
        cs += chunk(list(enum_argvs(al, [3])), es, cap=2)
    # several arguments below their minimum, little room
    for _ in range(1500 if big else 250):
        es = rand_table(r, n=r.choice([3, 4, 5, 6]))
        cs.append(chunk([rand_argv(r, es, special=0.35) for _ in range(5)] + [[b"p"]], es, cap=r.choice([0, 1, 2, 3, 5]))[0])
    return cs


# ---------------------------------------------------------- C06 histories of parses, C07 argv
def g_C06(r, big):
    cs = bare_cases(r, 400 if big else 80)
    T = opt_tables()
    # a sticky one first, then a plain command line
    for n, (es, al) in T.items():
        for _ in range(250 if big else 40):
            c = Case()
            t = c.table(es, r.choice([1, 3, 20]))
            for _ in range(12):
                c.parse(t, [b"p"] + [r.choice(al) for _ in range(r.randrange(0, 5))])
            c.freeall()
            cs.append(c)
    for _ in range(2500 if big else 350):
        c = Case()
        es1 = calm(r, rand_table(r))
        es2 = es1 if r.random() < 0.5 else calm(r, rand_table(r))
        t = [(c.table(es1, r.choice([1, 2, 20])), es1), (c.table(es2, r.choice([1, 2, 20])), es2)]
        for i in range(r.choice([3, 5, 8])):
            k, es = r.choice(t)
            c.parse(k, rand_argv(r, es))
            if r.random() < 0.5:
                c.tables()
            if r.random() < 0.1:
                c.errors(k, b"prog")
            if r.random() < 0.05:
                c.env(r.randrange(2))
            if r.random() < 0.1:       # the program's own use of getopt, perhaps given up half way
                getopt_session(r, c)
        c.env(0)
        c.tables()
        c.freeall()
        cs.append(c)
    cs += block_cases(r, 800 if big else 80)
    return cs


def g_C07(r, big):
    cs = []
    for _ in range(5000 if big else 900):
        es = calm(r, rand_table(r, kinds="ssffrrlti"))
        c = Case()
        t = c.table(es, r.choice([2, 20]))
        u = None
        for _ in range(3):
            c.parse(t, rand_argv(r, es))
            if r.random() < 0.3:
                c.errors(t, b"prog")
            if r.random() < 0.2:
                c.text("syntax", t, b"\n")
            if r.random() < 0.3:
                u = u if u is not None else c.table(es, 5)
                c.parse(u, rand_argv(r, es))
        c.tables()
        c.freeall()
        cs.append(c)
    cs += block_cases(r, 800 if big else 80)
    return cs


# ------------------------------------------------------------- C22 strings and flags
def g_C22(r, big):
    cs = []
    for _ in range(4000 if big else 700):
        es = rand_table(r, kinds="ssll")
        av = []
        for _ in range(4):
            a = rand_argv(r, es, special=0.05)
            if r.random() < 0.5:
                a = a + [b"--"] + [any_str(r, 8) for _ in range(r.randrange(0, 4))]
            av.append(a)
        cs.append(chunk(av, es, cap=r.choice([3, 20]))[0])
    # a flag without a name takes the positionals it is offered
    for _ in range(300 if big else 60):
        es = [ent(r.choice("ls"), None, None, None, None, r.choice([0, 0, 1]), r.choice([0, 1, 2, 4])) for _ in range(r.choice([1, 2, 3]))]
        if r.random() < 0.5:
            es.insert(r.randrange(len(es) + 1), ent("l", b"v", b"verbose", None, None, 0, 3))
        cs.append(chunk([[b"p"] + [r.choice([b"a", b"", b"-", b"b c", b"-v", b"--", b"--verbose", b"1"]) for _ in range(r.randrange(0, 7))] for _ in range(6)], es, cap=r.choice([1, 5]))[0])
    # more values, then fewer: entries beyond the count are empty again
    for _ in range(600 if big else 100):
        es = [ent("s", b"s", b"str", None, None, 0, 8), ent("s", None, None, None, None, 0, 8), ent("l", b"v", b"verbose,loud", None, None, 0, 50)]
        av = []
        for _ in range(8):
            a = [b"p"] + [r.choice([b"-s" + any_str(r, 3).replace(b"\n", b"") , b"--str=" + any_str(r, 4), any_str(r, 4), b"-v", b"-vvv", b"--loud", b"--verb"]) for _ in range(r.randrange(0, 12))]
            av.append(a)
        cs.append(chunk(av, es)[0])
    return cs


# --------------------------------------------------------------- C24 positionals
def g_C24(r, big):
    cs = []
    al = [b"1", b"x", b"2.5", b"-", b"a.b", b"12:30", b"99999999999", b""]
    kinds = [("i", None), ("d", None), ("s", None), ("f", None), ("r", b"[a-c.]+"), ("t", b"%H:%M")]
    for combo in itertools.product(range(len(kinds)), repeat=2):
        for mxs in ((1, 1), (2, 1), (1, 2), (3, 3), (0, 2)):
            es = [ent(kinds[k][0], None, None, None, None, 0 if r.random() < 0.7 else min(1, m), m, aux=kinds[k][1]) for k, m in zip(combo, mxs)]
            if r.random() < 0.3:
                es.insert(r.randrange(3), ent("l", b"v", None, None, None, 0, 2))
            av = [[b"p", b"--"] + list(t) for n in range(0, 3) for t in r.sample(list(itertools.product(al, repeat=n)), min(8 ** n, 64 if big else 9))]
            av += [[b"p"] + [r.choice(al) for _ in range(r.choice([3, 4, 5]))] for _ in range(60 if big else 8)]
            cs += chunk(av, es, cap=r.choice([2, 20]))
    for _ in range(4000 if big else 400):
        es = [rand_entry(r, kinds="idsfrt", tagged=False) for _ in range(r.choice([1, 2, 3, 4]))]
        es += [ent("l", b"v", None, None, None, 0, 3)] * r.randrange(2)
        if r.random() < 0.3:    # a tagged argument among them, one of its names possibly empty rather than missing
            es.insert(r.randrange(len(es) + 1), ent(r.choice("isfd"), *r.choice([(b"k", b""), (b"", b"key"), (b"k", None), (None, b"key"), (b"k", b"key"), (b"", b""), (None, b""), (b"", None)]), None, None, 0, r.choice([1, 2, 5])))
        if r.random() < 0.15:
            es.insert(r.randrange(len(es) + 1), ent("m", None, None, b"...", None))
        av = []
        for _ in range(5):
            av.append([b"p"] + [value_for(r, r.choice([e for e in es if e["k"] not in "lm"])) for _ in range(r.randrange(0, 7))] + [b"-v"] * r.randrange(2))
        cs.append(chunk(av, es, cap=r.choice([1, 2, 20]))[0])
    cs += block_cases(r, 800 if big else 80)
    return cs


# ------------------------------------------------- C25 presets and optional values
def preset_any(r, c, t, i, e, n):
    k = e["k"]
    for j in range(n):
        if r.random() < 0.3:
            continue
        if k == "i":
            c.preset(t, i, j, "i", r.randrange(-5, 100000))
        elif k == "d":
            c.preset(t, i, j, "d", r.choice([1.5, -2.0, 1e300]))
        elif k in "sr":
            c.preset(t, i, j, k, r.choice([b"default", b"dflt", b"x"]))
        elif k == "f":
            c.preset(t, i, j, "f", (b"dir/def.txt", b"def.txt", b".txt"))
        elif k == "t":
            c.preset(t, i, j, "t", [r.randrange(60), r.randrange(60), r.randrange(24), r.randrange(1, 29), r.randrange(12), r.choice([-300, 0, 99, 120]), r.randrange(7), r.randrange(366), r.choice([-1, 0, 1])])


def g_C25(r, big):
    cs = []
    for _ in range(6000 if big else 900):
        used = {"s": set(), "l": set()}
        es = [rand_entry(r, kinds="idsrft", tagged=True, used=used) for _ in range(r.choice([1, 2, 3]))]
        for e in es:
            e["opt"] = r.random() < 0.6
        if r.random() < 0.5:
            es.append(rand_entry(r, kinds="idsrft", tagged=False))
        if r.random() < 0.4:
            es.append(ent("l", b"Z", b"zed", None, None, 0, 3))
        c = Case()
        t = c.table(es, 20)
        for p in range(r.choice([1, 2, 3])):
            for i, e in enumerate(es):
                if e["k"] != "l" and r.random() < 0.7:
                    preset_any(r, c, t, i, e, eff(e)[1])
            a = [b"p"]
            for _ in range(r.randrange(0, 5)):
                e = r.choice(es)
                x = r.random()
                if x < 0.35 and e["sh"]:
                    a.append(b"-" + bytes([r.choice(e["sh"])]))
                elif x < 0.6 and e["lo"]:
                    a.append(b"--" + r.choice(e["lo"].split(b",")))
                else:
                    a += tokens_for(r, es, e)
                if r.random() < 0.2:
                    a.append(value_for(r, e))
            c.parse(t, a)
            if r.random() < 0.2:
                c.tables()
        c.freeall()
        cs.append(c)
    return cs


# --------------------------------------------------------- C12 usage, C13 glossaries
SUFFIX = [None, b"\n", b"", b" [more]\n", b"\n\n", b"%d%s"]


def long_entry(r):
    n = r.choice([20, 60, 98, 99, 100, 150, 190, 195, 196, 197, 198, 199, 200, 201, 205, 250, 400])
    w = r.random()
    e = rand_entry(r, tagged=True)
    if w < 0.4:
        e["lo"] = b"n" * n
    elif w < 0.6:
        e["lo"] = b",".join([b"x%d" % i + b"y" * r.randrange(30) for i in range(12)])
    elif w < 0.8:
        e["dt"] = b"<" + b"t" * n + b">"
    else:
        e["sh"] = bytes(range(65, 91)) + bytes(range(97, 123))
    return e


def table_for_text(r):
    es = rand_table(r, n=r.choice([1, 2, 3, 4, 5, 8, 12]))
    if r.random() < 0.25:
        es.insert(r.randrange(len(es) + 1), long_entry(r))
    if r.random() < 0.2:
        es.insert(r.randrange(len(es) + 1), ent("m", None, None, r.choice([None, b"...", b"<more>", b""]), r.choice([None, b"a remark", b""])))
    return es


def g_C12(r, big):
    cs = []
    combos = list(itertools.product("lsm", [None, b"a", b"abc"], [None, b"xx", b"xx,yy,z"], [None, b"", b"<d>"], [(0, 0), (0, 1), (1, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 2), (2, 5), (1, 4), (3, 3), (6, 6), (7, 9), (12, 13), (0, 7), (5, 6)], [False, True]))
    combos = [x for x in combos if not (x[0] == "l" and x[5])]
    for g in pack(combos, 7):
        c = Case()
        for k, sh, lo, dt, (mn, mx), op in g:
            if k == "m":
                sh = lo = None
            t = c.table([ent(k, sh, lo, dt, None, mn, mx, opt=op)], 2)
            c.text("syntax", t, b"\n")
            c.text("syntaxv", t, None)
        c.freeall()
        cs.append(c)
    for _ in range(6000 if big else 900):
        es = table_for_text(r)
        if r.random() < 0.4:
            es = [ent("l", bytes([x]), r.choice([None, b"l%c" % x]), None, None, r.choice([0, 0, 1]), r.choice([1, 2, 3])) for x in r.sample(list(b"abcdefgh"), r.randrange(1, 6))] + es
        if r.random() < 0.3:
            r.shuffle(es)
        c = Case()
        t = c.table(es, 5)
        c.text("syntax", t, r.choice(SUFFIX))
        c.text("syntaxv", t, r.choice(SUFFIX))
        if r.random() < 0.3:
            e = r.choice(es)
            c.option(e["sh"], e["lo"], e["dt"], r.choice(SUFFIX))
        if r.random() < 0.2:
            c.parse(t, rand_argv(r, es))
            c.text("syntax", t, b"\n")
        c.freeall()
        cs.append(c)
    return cs


GFMT = [None, None, b"%s", b"  %-20s %s\n", b"%s: %s\n", b"%-10s|%s|\n", b"%10s %s\n", b"%%%s%%%s\n", b"  %-25s %s\n", b"%-30.30s %.10s\n", b"\n"]


def g_C13(r, big):
    cs = []
    txt = strings([b"a", b" ", b"\n"], range(0, 8 if big else 6)) + ([] if big else r.sample(strings([b"a", b" ", b"\n"], [6, 7]), 500))
    ops = [(lm, lm + w, s) for s in txt for w in (0, 1, 2, 3) for lm in (r.choice([0, 2]),)]
    for g in pack(ops, 60):
        c = Case()
        for lm, rm, s in g:
            c.formatted(lm, rm, s)
        cs.append(c)
    for _ in range(4000 if big else 500):
        c = Case()
        for _ in range(4):
            lm = r.choice([0, 1, 5, 28])
            w = r.choice([1, 5, 10, 20, 51])
            s = b"".join(r.choice([b"a", b"word", b"longerword", b"x" * w, b"y" * (w + 1), b"z" * (w + 2), b" ", b" ", b" ", b"  ", b"\n", b"\t"]) for _ in range(r.randrange(0, 25)))
            c.formatted(lm, lm + w, s)
        cs.append(c)
    for _ in range(5000 if big else 700):
        es = table_for_text(r)
        for e in es:
            if r.random() < 0.5:
                e["gl"] = b" ".join(b"w" * r.choice([1, 2, 3, 5, 8, 12, 60]) for _ in range(r.randrange(1, 25))) if r.random() < 0.8 else any_str(r, 120)
        c = Case()
        t = c.table(es, 5)
        c.text("glossary", t, r.choice(GFMT))
        c.gnu(t)
        c.freeall()
        cs.append(c)
    combos = [ent(k, sh, lo, dt, gl, opt=o) for k in "ls" for sh in (None, b"a", b"ab") for lo in (None, b"lo", b"lo,ng") for dt in (None, b"", b"<d>") for gl in (None, b"", b"g", b"g\nh")
              for o in ((False, True) if k == "s" else (False,))]
    r.shuffle(combos)
    for g in pack(combos, 6):    # every way to describe an entry
        c = Case()
        t = c.table(g, 2)
        c.gnu(t)
        c.text("glossary", t, None)
        c.text("syntax", t, b"\n")
        c.text("syntaxv", t, b"\n")
        c.freeall()
        cs.append(c)
    for n in range(15, 32):      # around the option field's width
        for k in "ls":
            for sh in (None, b"a"):
                c = Case()
                t = c.table([ent(k, sh, b"n" * n, b"", b"text " * 14), ent(k, b"b", None, None, b"x")], 2)
                c.gnu(t)
                c.text("glossary", t, None)
                c.freeall()
                cs.append(c)
    return cs


# ------------------------------------------------------------------- C14 error messages


def g_C14(r, big):
    cs = []
    date_fine = [f for f in DATE_FMTS if predictable(f)]
    for _ in range(8000 if big else 1300):
        es = rand_table(r)
        calm(r, es)
        if r.random() < 0.1:
            es.append(long_entry(r))
            if es[-1]["k"] == "t":
                es[-1]["aux"] = b"%D"
        c = Case()
        t = c.table(es, r.choice([1, 2, 5, 20]))
        for _ in range(2):
            c.parse(t, rand_argv(r, es, special=0.3))
            c.errors(t, r.choice([b"prog", b"", b"a long program name", b"%s"]))
            if r.random() < 0.15:
                c.errors(t, b"again")
        c.freeall()
        cs.append(c)
    # each kind of argument with each of its errors, each way of naming it
    names = [(b"x", None), (b"xy", None), (None, b"xx"), (None, b"xx,zz"), (b"x", b"xx"), (b"xy", b"xx,zz"), (None, None)]
    bad = {"i": [b"q", b"", b"99999999999", b"99999999999KB"], "d": [b"q", b""], "s": [], "r": [b"b"], "f": [], "t": [b"q", b"99:99"], "l": []}
    good = {"i": b"1", "d": b"1.5", "s": b"s", "r": b"a", "f": b"f", "t": b"01:02"}
    for k in "lidsrft":
        for sh, lo in names:
            for dt in (None, b"<dt>", b""):
                aux = {"r": b"a", "t": b"%H:%M"}.get(k)
                es = [ent(k, sh, lo, dt, None, 1, 1, aux=aux)]
                c = Case()
                t = c.table(es, 3)
                if k == "l" and not sh and not lo:
                    c.parse(t, [b"p"])
                    c.errors(t, b"prog")
                    c.freeall()
                    cs.append(c)
                    continue
                o = [b"-x"] if sh else [b"--xx"] if lo else []
                lines = [[b"p"]]
                if k == "l":
                    lines.append([b"p"] + o * 3)
                else:
                    for v in bad[k]:
                        lines.append([b"p"] + o + [v])
                    lines.append([b"p"] + (o + [good[k]]) * 2)
                    if o:
                        lines.append([b"p"] + o)
                    if lo:
                        lines.append([b"p", b"--xx="])
                for a in lines:
                    c.parse(t, a)
                    c.errors(t, b"prog")
                c.freeall()
                cs.append(c)
    for f in date_fine + [b"%%", b"%Y" * 60, b"%c" * 8, b"%c" * 9, b"y" * 198, b"y" * 199, b"y" * 200, b"y" * 250]:
        c = Case()
        t = c.table([ent("t", b"d", None, None, None, 0, 1, aux=f)], 3)
        c.parse(t, [b"p", b"-d", b"\x01bad"])
        c.errors(t, b"prog")
        c.freeall()
        cs.append(c)
    return cs


# ------------------------------------------------------------------ C15 dynamic strings
SIZES = [0, 1, 5, 50, 99, 100, 101, 150, 198, 199, 200, 201, 202, 250, 398, 399, 400, 401, 450, 500, 799, 800, 801, 1000]


def dtext(r):
    n = r.choice(SIZES) if r.random() < 0.6 else r.randrange(0, 30)
    return bytes(r.choice(b"abcdefgh %\xe9") for _ in range(min(n, 12))) + b"." * max(0, n - 12)


def dstr_history(r, n):
    c = Case()
    nd = r.choice([1, 1, 2])
    live, own, up, ln = [False] * 4, ["none"] * 4, [True] * 4, [0] * 4
    for i in range(nd):
        c.d("dcreate", i)
        live[i] = True
    for _ in range(n):
        d = r.randrange(nd)
        if not live[d]:
            if r.random() < 0.3:
                c.d("ddestroy", d)       # there is none: nothing happens
                continue
            c.d("dcreate", d)
            live[d], own[d], up[d] = True, "none", True
            continue
        x = r.random()
        if not up[d]:
            x = r.choice([0.1, 0.1, 0.65, 0.7])
        if x < 0.30:
            m = r.choice("nNsvvdd12o") if up[d] else r.choice("nNsvd12")
            if m in "nN":
                c.d("dset", d, [m], m=m, s=[])
                own[d] = "none"
            elif m == "o":
                k = r.choice([0, 1, 5, 50, 199, 400])
                c.d("dset", d, [m, k], m=m, s=k)
                own[d] = "v?"
            else:
                s = dtext(r)
                c.d("dset", d, [m, hx(s)], m=m, s=list(s))
                own[d] = {"s": "none", "v": "vlong" if len(s) > 199 else "none", "d": "dyn", "1": "f1", "2": "f2"}[m]
            up[d] = True
        elif x < 0.60:
            y = r.random()
            if y < 0.35:
                s = dtext(r)
                c.d("dcat", d, [hx(s)], s=list(s))
            elif y < 0.55:
                ch = r.choice(b"xyz\n%")
                for _ in range(r.choice([1, 1, 3])):
                    c.d("dcatc", d, [ch], c=ch)
            else:
                f = r.choice("sswwimlqqn")
                if f == "n":             # no format at all: nothing happens
                    c.d("dcatf", d, [f], f=f)
                    continue
                if f == "s":
                    s = dtext(r)
                    c.d("dcatf", d, [f, hx(s)], f=f, s=list(s))
                elif f == "l":
                    s = dtext(r).replace(b"%", b"%%")
                    s = r.choice([s, s + b"%%", b"100%% " + s, b"%%"])
                    c.d("dcatf", d, [f, hx(s)], f=f, s=list(s))
                elif f == "q":
                    s, u = dtext(r)[:r.choice([3, 40, 900])].replace(b"%", b"%%"), dtext(r)[:r.choice([3, 40, 900])]
                    s = r.choice([s + b"%s", b"%s" + s, s + b"%%%s%%", b"%%" + s + b"%s|%%%%", b"%s%%s" + s])
                    c.d("dcatf", d, [f, hx(s), hx(u)], f=f, s=list(s), u=list(u))
                elif f == "i":
                    v = r.randrange(-99999, 99999)
                    c.d("dcatf", d, [f, v], f=f, n=v)
                elif f == "w":
                    s = dtext(r)[:40]
                    w = r.choice([0, 5, 50, 198, 199, 200, 201, 300, 398, 399, 400, 401, -10, -200, -401])
                    c.d("dcatf", d, [f, w, hx(s)], f=f, n=w, s=list(s))
                else:
                    s, u, ch = dtext(r), dtext(r)[:20], 33
                    c.d("dcatf", d, [f, hx(s), ch, hx(u)], f=f, s=list(s), u=list(u), c=ch)
            own[d] = "none"
        elif x < 0.70:
            c.d("dreset", d)
            own[d], up[d] = "none", True
        elif x < 0.74:
            c.d("ddestroy", d)
            live[d], own[d], up[d] = False, "none", True
        elif x < 0.80 and own[d] != "v?":
            dang = 1 if own[d] != "none" else 0
            c.d("dfree", d, [dang], dangling=dang)
            own[d] = "none"
            up[d] = not dang
        elif x < 0.90:
            k = r.choice([0, 1, 3, 10, 100, 199, 200, 350])
            c.d("dcut", d, [k], n=k)
        else:
            k, ch = r.choice([0, 1, 3, 10, 100, 199]), r.choice(b"ABC")
            c.d("dpoke", d, [k, ch], n=k, c=ch)
    for i in range(nd):
        if live[i]:
            c.d("ddestroy", i)
    return c


def g_C15(r, big):
    return [dstr_history(r, r.choice([6, 12, 25])) for _ in range(9000 if big else 1300)]


# --------------------------------------------------------------------- C16 registry
def reg_history(r, n, fork=False):
    c = Case(fork=fork)
    c.cinit()
    pool = r.choice([[b"a", b"b", b"c"], [b"add", b"del", b"list", b"help", b"status"], [b"cmd%d" % i for i in range(80)], [b"", b"x", b"n" * 99, b"n" * 98, b"\xe9t\xe9", b"a b"]])
    reg = set()

    def put(nm):
        desc = r.choice([b"", b"does things", b"d" * 255, b"line\nline", b"%s"]) if r.random() < 0.5 else b"d%d" % r.randrange(1000)
        c.creg(nm, r.randrange(8), desc, r.randrange(-1, 8) if r.random() < 0.6 else -1)
        reg.add(nm)
    if len(pool) > 50 and r.random() < 0.7:
        for nm in pool[:r.choice([30, 34, 35, 60, 80])]:
            put(nm)
    for _ in range(n):
        x = r.random()
        nm = r.choice(pool)
        if x < 0.30:
            put(nm)
        elif x < 0.36:
            c.crereg(nm, r.randrange(8), r.randrange(-1, 8))
        elif x < 0.52:
            c.c1("cunreg", nm)
            reg.discard(nm)
        elif x < 0.68:
            c.c1("cinfo", nm)
        elif x < 0.75:
            c.ccount()
        elif x < 0.85:
            c.cscan()
        elif x < 0.90:
            c.c1("csearch", nm)
        elif x < 0.97 and reg:
            c.cdispatch(r.choice(sorted(reg)), [b"x"] * r.randrange(1, 4))
        elif x > 0.985:
            c.cuninit()
            c.cinit()
            reg = set()
    c.ccount()
    c.cscan()
    for nm in pool[:6]:
        c.c1("cinfo", nm)
    c.cuninit()
    return c


def g_C16(r, big):
    return [reg_history(r, r.choice([8, 20, 40])) for _ in range(6000 if big else 700)]


# ------------------------------------------------------------------- C17 hash tables
def hash_history(r, n):
    c = Case()
    c.h("hcreate", 0, [r.choice([0, 1, 10, 52, 53, 54, 97, 1000]), r.randrange(5)], ms=0)
    pool = r.choice([[b"a", b"b"], [b"k%d" % i for i in range(8)], [b"key%d" % i for i in range(120)], [b"", b"a", b"aa", b"aaa", b"b", b"\xff", b"x" * 50]])
    v = 1
    cnt = 0
    if r.random() < 0.35:
        for k in r.sample(pool, r.randrange(len(pool) + 1)):
            c.h("hinsert", 0, [hx(k), v], k=list(k), v=v)
            v += 1
    for _ in range(n):
        k = r.choice(pool)
        x = r.random()
        if x < 0.38:
            c.h("hinsert", 0, [hx(k), v], k=list(k), v=v)
            v += 1
        elif x < 0.50:
            c.h("hsearch", 0, [hx(k)], k=list(k))
        elif x < 0.64:
            c.h("hremove", 0, [hx(k)], k=list(k))
        elif x < 0.72:
            c.h("hchange", 0, [hx(k), v], k=list(k), v=v)
            v += 1
        elif x < 0.77:
            c.h("hcount", 0)
        elif x < 0.83:
            c.h("hscan", 0)
        else:
            c.h("hscan", 0)
            c.h("hitr", 0)
            for _ in range(r.choice([1, 3, 6, 15])):
                y = r.random()
                k = r.choice(pool)
                if y < 0.45:
                    c.h("hadv", 0)
                elif y < 0.65:
                    c.h("hitrsearch", 0, [hx(k)], k=list(k))
                elif y < 0.9:
                    c.h("hitrremove", 0)
                elif y < 0.95:
                    c.h("hcount", 0)
                else:
                    c.h("hchange", 0, [hx(k), v], k=list(k), v=v)
                    v += 1
            c.h("hitrdestroy", 0)
            if r.random() < 0.5:
                c.h("hscan", 0)
    c.h("hcount", 0)
    c.h("hscan", 0)
    fv = r.choice([0, 1])
    c.h("hdestroy", 0, [fv], fv=fv)
    return c


def hash_several(r, n):
    """two or three tables side by side, one iterator that goes from table to table"""
    c = Case()
    nh = r.choice([2, 2, 3])
    pool = r.choice([[b"a", b"b", b"c"], [b"k%d" % i for i in range(8)], [b"key%d" % i for i in range(60)]])
    v, fn, has = 1, r.randrange(5), [{}, {}, {}]

    def put(i, k):
        nonlocal v
        c.h("hinsert", i, [hx(k), v], k=list(k), v=v)
        has[i][k] = has[i].get(k, 0) + 1
        v += 1
    for i in range(nh):
        c.h("hcreate", i, [r.choice([0, 53, 97]), fn if r.random() < 0.6 else r.randrange(5)], ms=0)
        for k in r.sample(pool, r.randrange(len(pool) + 1)):
            put(i, k)
    for _ in range(n):
        i, k, x = r.randrange(nh), r.choice(pool), r.random()
        if x < 0.25:
            put(i, k)
        elif x < 0.4:
            c.h("hremove", i, [hx(k)], k=list(k))
            has[i][k] = max(0, has[i].get(k, 0) - 1)
        elif x < 0.55:
            c.h("hsearch", i, [hx(k)], k=list(k))
        elif x < 0.65:
            c.h("hscan", i)
        elif x < 0.72:
            c.h("hchange", i, [hx(k), v], k=list(k), v=v)
            v += 1
        else:
            for j in range(nh):
                c.h("hscan", j)
            c.h("hitr", i)
            for _ in range(r.choice([2, 4, 8])):
                j, k = r.randrange(nh), r.choice(pool)
                if r.random() < 0.5:
                    c.h("hadv", i)
                elif j != i:
                    c.h("hitrmove", i, [j, hx(k)], to=j, k=list(k))
                    if has[j].get(k, 0) > 0:
                        i = j
                else:
                    c.h("hitrsearch", i, [hx(k)], k=list(k))
            c.h("hitrdestroy", i)
    for i in r.sample(range(nh), nh):
        c.h("hcount", i)
        c.h("hscan", i)
        c.h("hdestroy", i, [1], fv=1)
    return c


def hash_bulk(r, n, hashidx, small=False):
    """growth: many entries, everything found again, then some removed"""
    c = Case()
    c.h("hcreate", 0, [r.choice([0, 53, 97]), hashidx], ms=0)
    keys = [b"b%d" % i for i in range(n)]
    at = 0
    while at < n:
        m = 1 if small else r.choice([1, 1, 5, 40, 200, 700])
        ks = keys[at:at + m]
        if len(ks) == 1:
            c.h("hinsert", 0, [hx(ks[0]), at + 1], k=list(ks[0]), v=at + 1)
        else:
            c.h("hfill", 0, [at + 1] + [hx(k) for k in ks], ks=[list(k) for k in ks], v=at + 1)
        at += len(ks)
        if r.random() < 0.1:
            k = r.choice(keys)
            c.h("hsearch", 0, [hx(k)], k=list(k))
            c.h("hcount", 0)
    for k in r.sample(keys, min(n, 40)):
        c.h("hsearch", 0, [hx(k)], k=list(k))
    c.h("hscan", 0)
    for k in r.sample(keys, min(n // 2, 150)):
        c.h("hremove", 0, [hx(k)], k=list(k))
    c.h("hscan", 0)
    if r.random() < 0.5:
        c.h("hitr", 0)
        for _ in range(30):
            c.h(r.choice(["hadv", "hitrremove"]), 0)
        c.h("hitrdestroy", 0)
        c.h("hscan", 0)
    c.h("hcount", 0)
    c.h("hdestroy", 0, [1], fv=1)
    return c


def g_C17(r, big):
    cs = [hash_history(r, r.choice([6, 15, 30])) for _ in range(8000 if big else 900)]
    cs += [hash_several(r, r.choice([6, 15])) for _ in range(1500 if big else 200)]
    for n in ([20, 34, 35, 36, 63, 64, 65, 126, 127, 200, 300] if big else [34, 35, 64, 127, 140]):
        cs += [hash_bulk(r, n, i, True) for i in range(5)]
    for n in [260, 510, 1010] + ([2010, 4010] if big else [2010]):      # further growth
        cs += [hash_bulk(r, n, i) for i in range(5) if n < 600 or i % 3 == 0 or big]
    c = Case()
    c.h("hcreate", 0, [2147483647, 0], ms=2147483647)
    cs.append(c)
    return cs


# ------------------------------------------------------------------------- C18 sort
def g_C18(r, big):
    cs, cur = [], Case()

    def add(*a):
        nonlocal cur
        cur.sort(*a)
        if len(cur) >= 30:
            cs.append(cur)
            cur = Case()
    for n in range(1, 6 if not big else 7):
        for perm in itertools.product(range(1, 4), repeat=n):
            el = [bytes([v, i + 1]) for i, v in enumerate(perm)]
            i, k = (0, n - 1) if r.random() < 0.6 else sorted([r.randrange(n), r.randrange(n)])
            add(2, i, k, r.choice([0, 0, 1]), el)
    for _ in range(9000 if big else 1200):
        n = r.choice([1, 2, 3, 5, 8, 16, 17, 31])
        es = r.choice([1, 2, 3, 4, 7, 8, 12, 16, 24])
        el = [bytes([r.choice([1, 2, 3, 100, 200, 255] if r.random() < 0.5 else range(1, 256))]) + bytes(r.randrange(1, 256) for _ in range(es - 1)) for _ in range(n)]
        x = r.random()
        if x < 0.15:
            el.sort()
        elif x < 0.3:
            el.sort(reverse=True)
        i = r.choice([0, 0, r.randrange(n)])
        k = r.choice([n - 1, n - 1, r.randrange(i, n), i])
        if r.random() < 0.03 and i > 0:
            k = i - 1
        add(es, i, k, r.choice([0, 0, 1]), el)
    if len(cur):
        cs.append(cur)
    return cs


# ------------------------------------------------------------------ C19 lifecycle
def g_C19(r, big):
    cs = []
    for _ in range(5000 if big else 700):
        c = Case(fork=r.random() < 0.05)
        es = rand_table(r, kinds="lidsrrft")
        calm(r, es)
        t = c.table(es, r.choice([1, 3, 20]))
        if r.random() < 0.4:
            holes = r.sample(range(len(es) + 1), r.choice([0, 0, 1, 2 if len(es) > 1 else 1]))
            c.nullcheck(t, sorted(holes) if r.random() < 0.9 else [-1])
        for _ in range(r.choice([1, 2, 4])):
            c.parse(t, rand_argv(r, es))
            x = r.random()
            if x < 0.3:
                c.errors(t, b"prog")
            elif x < 0.4:
                c.gnu(t)
            elif x < 0.5:
                c.text("glossary", t, None)
            elif x < 0.6:
                c.text("syntax", t, b"\n")
            elif x < 0.7:
                c.text("syntaxv", t, b"\n")
        if c.fork or r.random() < 0.1:
            c.fork = True
            for _ in range(r.choice([2, 3])):
                c.modname(r.choice([b"prog", b"", b"my tool"]))
                c.modver(1, 2, 3, r.choice([b"abc", b"", b"", b"t" * 40]))
                c.gethelp()
        reg = r.random() < 0.3
        if reg:
            c.cinit()
            for _ in range(r.randrange(1, 6)):
                nm = r.choice([b"a", b"b"])
                r.choice([lambda: c.creg(nm, 1, b"d", 2), lambda: c.c1("cunreg", nm), lambda: c.crereg(nm, 3, 1), lambda: c.creg(nm, 4, b"e", 0)])()
            c.help(t, b"a")
            c.synerr(t)
            c.synhelp(t, b"a", r.choice([0, 1]), r.choice([0, 1]))
            c.cuninit(False)
        if r.random() < 0.15:
            c.argfree(t, not c.fork, sorted(r.sample(range(len(es) + 1), r.choice([0, 0, 1, min(2, len(es))]))))
        elif r.random() < 0.4:
            m = len(es) + 1
            h = r.randrange(m)
            holes = r.choice([[h], r.sample(range(m), r.randrange(m + 1)), [h, min(h + 1, m - 1), min(h + 2, m - 1)], list(range(h + 1)), list(range(h, m))])
            c.freetable(t, not c.fork, sorted(set(holes)), r.choice([None, None, r.randrange(m + 1)]))
        else:
            c.freetable(t, not c.fork)
        cs.append(c)
    cs += [dstr_history(r, 15) for _ in range(1500 if big else 250)]
    cs += [reg_history(r, 15) for _ in range(1000 if big else 120)]
    cs += [hash_history(r, 15) for _ in range(1000 if big else 150)]
    return cs


# ----------------------------------------------------------------- C21 help messages
def g_C21(r, big):
    cs = []
    for _ in range(4000 if big else 550):
        c = Case(fork=True)
        es = table_for_text(r)
        for e in es:
            if e["k"] == "t" and e["aux"] is not None:
                e["aux"] = r.choice([b"%D", b"%T", b"%Y-%m-%d"])
        t = c.table(es, r.choice([1, 3, 20]))
        if r.random() < 0.75:
            c.modname(r.choice([b"prog", b"", b"my tool", b"m" * 60, b"a%sb"]))
        if r.random() < 0.6:
            c.modver(r.choice([0, 1, 2, 10, -1]), r.randrange(-3, 100), r.choice([0, 7, 12345, -4]), r.choice([b"abc", b"", b"rc1-\xe9"]))
        c.gethelp()
        c.cinit()
        for _ in range(r.randrange(0, 4)):
            c.creg(r.choice([b"add", b"del", b"x"]), r.randrange(8), r.choice([b"adds things", b"", b"d" * 200]), 1)
        c.parse(t, rand_argv(r, es, special=0.3))
        for _ in range(r.choice([1, 2, 4])):
            nm = r.choice([b"add", b"del", b"x", b"nope"])
            x = r.random()
            if x < 0.3:
                c.help(t, nm)
            elif x < 0.5:
                c.synerr(t)
            elif x < 0.9:
                c.synhelp(t, nm, r.choice([0, 0, 1, 2, -1]), r.choice([0, 0, 1, 5, -1]))
            elif x < 0.95:
                c.c1("cunreg", nm)
            else:
                c.modname(r.choice([b"other", b"prog2"]))
                c.gethelp()
        c.cuninit(False)
        c.freetable(t, False)      # the module name stays
        cs.append(c)
    return cs


# ------------------------------------------------------------- C26 anything terminates
def wild_bytes(r, n=6):
    return bytes(r.choice([45, 45, 45, 61, 44, 58, 59, 63, 32, r.randrange(1, 256)]) for _ in range(r.randrange(n + 1)))


def g_C26(r, big):
    cs = bare_cases(r, 400 if big else 60)
    for _ in range(8000 if big else 1100):
        es = rand_table(r, kinds="lidsrft")
        for e in es:
            if e["sh"] is not None and r.random() < 0.2:
                e["sh"] = bytes(b for b in wild_bytes(r, 4) if b not in (63, 58, 255)) or b"q"
            if e["lo"] is not None and r.random() < 0.15:
                e["lo"] = wild_bytes(r, 8)
            if e["k"] == "r" and r.random() < 0.5:
                p = bytes(r.choice(b"a*+?|()[]{}^$.\\-1,b") for _ in range(r.randrange(0, 9)))
                e["aux"] = p if nested_repeats(p) < 2 else b"(a*)*b"
        c = Case()
        cap = r.choice([0, 1, 2, 20])
        t = c.table(es, cap)
        for _ in range(3):
            a = rand_argv(r, es, special=0.3) if r.random() < 0.5 else [b"p"] + [wild_bytes(r) for _ in range(r.randrange(0, 6))]
            if r.random() < 0.03:
                a = []
            if r.random() < 0.05:
                a.append(r.choice([b"-", b"--", b""]) + bytes(r.choice(b"ab=-x1") for _ in range(300)))
            c.parse(t, a)
        if r.random() < 0.4:
            c.text(r.choice(["syntax", "syntaxv"]), t, b"\n")
        c.freeall()
        cs.append(c)
    dashy = [b"-", b"--", b"---", b"-a", b"-a-", b"--a", b"-=", b"--=", b"", b"-ab-", b"-b", b"--b-"]
    es = [ent("l", b"a", b"a", None, None, 0, 9), ent("s", b"b", b"b-", None, None, 0, 9), ent("s", None, None, None, None, 0, 2)]
    av = list(enum_argvs(dashy, range(0, 3)))
    x3 = list(enum_argvs(dashy, [3]))
    cs += chunk(av + (x3 if big else r.sample(x3, 500)), es)
    cs += [rex_case(r, g, [b"", b"a", b"ab", b"aab", b"b"]) for g in pack([p for p in strings([b"a", b"*", b"(", b")", b"|", b"\\", b"["], [1, 2, 3, 4]) if nested_repeats(p) < 2][::1 if big else 4], 8)]
    cs += block_cases(r, 800 if big else 80)
    return cs


# ---------------------------------------------------------- C27 the caller's own callbacks
def own_entry(r, used):
    """an entry of a kind of the caller's, or a built-in one with some of its callbacks replaced"""
    sc = r.choice([[0], [0], [0], [0, 0, 7], [7], [0, -3], [0, 1, 0, 2], [2147483647, 0], [3, 4, 5], [0, 0, 0, 0, 10]])
    ck = r.choice([0, 0, 0, 0, 1, 4, 77, -9])
    if r.random() < 0.6:
        e = rand_entry(r, kinds="s", used=used)
        hv = r.random() < 0.65
        cb = bytes(c for c in b"rsce" if r.random() < 0.8)
        mn = r.choice([0, 0, 1, 2])
        e.update(k="u", ct="n", aux=None, opt=hv and e["opt"], mn=mn, mx=r.choice([mn, mn + 1, mn + 3]), dt=e["dt"] if hv else None, cb=cb, hv=hv, ck=ck, sc=sc)
        return e
    e = rand_entry(r, kinds="lidsrft", used=used)
    cb = bytes(c for c in b"sce" if r.random() < 0.6) + r.choice([b"", b"r", b"n"])
    if ck and b"c" in cb and b"e" not in cb:      # the built-in error callback does not know the code
        cb += b"e"
    e.update(cb=cb, hv=e["k"] != "l", ck=ck, sc=[0])
    return e


def own_table(r):
    used = {"s": set(), "l": set()}
    es = [own_entry(r, used) if r.random() < 0.7 else rand_entry(r, used=used) for _ in range(r.choice([1, 2, 3, 3, 4, 5, 6]))]
    if not any("cb" in e for e in es):
        es.append(own_entry(r, used))
    own = [i for i, e in enumerate(es) if e["k"] == "u"]
    for i in own[1:]:
        if r.random() < 0.3:       # its parent is an earlier entry
            es[i]["fl"] = r.choice([j for j in own if j < i]) + 1
    if r.random() < 0.15:
        es.append(ent("m", None, None, b"...", None))
    return calm(r, es)


def g_C27(r, big):
    cs = bare_cases(r, 400 if big else 80)
    for _ in range(8000 if big else 1100):
        es = own_table(r)
        c = Case()
        if r.random() < 0.05:
            c.env(1)
        t = c.table(es, r.choice([20, 20, 5, 3, 2, 1]))
        ts = [(t, es)]
        if r.random() < 0.15:
            e2 = own_table(r)
            ts.append((c.table(e2, 5), e2))
        for _ in range(r.choice([2, 3, 4])):
            t, es = r.choice(ts)
            c.parse(t, rand_argv(r, es) if r.random() < 0.6 else satisfying_argv(r, es))
            if r.random() < 0.6:
                c.errors(t, r.choice([b"prog", b"a%s", b""]))
            if r.random() < 0.06:
                c.synerr(t)
        if r.random() < 0.15:
            c.text(r.choice(["syntax", "syntaxv", "glossary"]), t, None)
            c.gnu(t)
        c.env(0)
        c.freeall()
        cs.append(c)
    # one entry of each sort, every short command line
    al = [b"-u", b"v", b"-w", b"-wu", b"-uv", b"--user=x", b"--user", b"-z", b"--", b"--user="]
    for sc, ck, cb in [([0], 0, b"rsce"), ([0], 9, b"rsce"), ([0, 7], 0, b"rsce"), ([7], 0, b"sce"), ([0], 9, b"rse"), ([0], 9, b"rc"), ([0, 0, 7], 3, b"rsc"), ([0], 0, b"")]:
        es = [ent("u", b"u", b"user", b"<v>", None, 0, 1, cb=cb, sc=sc, ck=ck), ent("u", b"w", None, None, None, 1, 1, cb=cb, hv=False, sc=sc, ck=ck),
              ent("u", None, None, None, None, 0, 2, cb=cb, sc=sc, ck=ck), ent("s", None, None, None, None, 0, 1, cb=(cb if b"e" in cb or not ck or b"c" not in cb else cb + b"e"), sc=[0], ck=ck)]
        av = list(enum_argvs(al, [0, 1, 2]))
        x3 = list(enum_argvs(al, [3]))
        av += x3 if big else r.sample(x3, 40)
        for g in pack(av, 20):
            c = Case()
            t = c.table(es, r.choice([1, 3, 20]))
            for a in g:
                c.parse(t, a)
                c.errors(t, b"prog")
            c.freeall()
            cs.append(c)
    return cs


# ----------------------------------------------- C28 only the output that was asked for
def g_C28(r, big):
    cs = []
    for _ in range(5000 if big else 700):
        c = Case(fork=r.random() < 0.3)
        ts = []
        for _ in range(r.choice([1, 1, 2])):
            es = calm(r, table_for_text(r))
            ts.append((c.table(es, r.choice([1, 3, 20])), es))
        if c.fork:
            c.modname(r.choice([b"prog", b"my tool"]))
            c.modver(1, 2, 3, b"x")
        reg = c.fork or r.random() < 0.3
        if reg:
            c.cinit()
            for i in range(r.randrange(1, 4)):
                c.creg(r.choice([b"add", b"del", b"x"]), i, r.choice([b"adds things", b"", b"d" * 200]), 1)
        for _ in range(r.choice([2, 3])):
            t, es = r.choice(ts)
            c.parse(t, rand_argv(r, es, special=0.3) if r.random() < 0.7 else satisfying_argv(r, es))
            for _ in range(r.choice([1, 2, 3])):      # each print twice, perhaps with others between
                t, es = r.choice(ts)
                sx, gf, pn, lm = r.choice(SUFFIX), r.choice(GFMT), r.choice([b"prog", b"", b"%s"]), r.choice([0, 3])
                nm = r.choice([b"add", b"x", b"nope"])
                ops = [lambda: c.text("syntax", t, sx), lambda: c.text("syntaxv", t, sx), lambda: c.text("glossary", t, gf), lambda: c.gnu(t), lambda: c.errors(t, pn), lambda: c.errors(t, pn),
                       lambda: c.option(es[0]["sh"], es[0]["lo"], es[0]["dt"], sx), lambda: c.formatted(lm, lm + 10, GLOSS[3]), lambda: c.synerr(t)]
                if reg:
                    ops += [lambda: c.help(t, nm), lambda: c.synhelp(t, nm, r.choice([0, 1]), r.choice([0, 1])), lambda: c.cscan(), lambda: c.gethelp(), lambda: c.c1("cinfo", nm)]
                o = r.choice(ops)
                o()
                if r.random() < 0.4:
                    c.tables()
                if r.random() < 0.3:
                    r.choice(ops)()
                o()
            c.tables()
        if reg:
            c.cscan()
            c.ccount()
            c.cuninit(False)
        for i, (t, _) in enumerate(ts):
            c.freetable(t, not c.fork and i == len(ts) - 1)
        cs.append(c)
    # every complaint getopt knows of
    es = [ent("l", b"a", b"alpha", None, None, 0, 9), ent("s", b"b", b"beta", None, None, 0, 9), ent("s", b"o", b"opt", None, None, 0, 9, opt=True), ent("l", None, b"alps", None, None, 0, 1)]
    al = [b"-z", b"-az", b"--nope", b"--al", b"--alpha=1", b"-b", b"--beta", b"--beta=", b"-ab", b"--", b"-", b"x", b"--opt", b"-W", b"--=", b"-\xe9"]
    for env in (False, True):
        cs += chunk(list(enum_argvs(al, [1, 2])), es, cap=3, env=env)
    cs += [dstr_history(r, 12) for _ in range(600 if big else 80)]
    cs += [reg_history(r, 12) for _ in range(600 if big else 80)]
    return cs


# ------------------------------------------------------------------ C29 what constructors make
def g_C29(r, big):
    cs = []
    strs = [None, b"", b"x", b"xy", b"a,b", b"name-with-dash", b"\xe9\xff", b"%s", b"word " * 12]
    combos = []
    for k in "lidsrft":
        for ct in "01n":
            for mn, mx in [(0, 0), (0, 1), (1, 1), (0, 5), (2, 7), (3, 1), (1, 0), (4, 4), (0, 40), (5, -1), (0, -1)]:
                if ct == "n" or (mn, mx) in ((0, 0), (3, 1)):
                    combos.append((k, ct, mn, mx))
    combos *= 6 if big else 2
    r.shuffle(combos)
    def one(k, ct, mn, mx):
        aux = {"r": lambda: r.choice([b"a", b"[a-z]+", b"x|y", b"", b"%d", b"(", b"\\d+"]), "t": lambda: r.choice([None, None, b"%Y", b"%H:%M", b"", b"%", b"literal"])}.get(k, lambda: None)()
        dt = r.choice([None, None, b"<v>", b"", b"N", b"=v"]) if k != "l" else None
        return ent(k, r.choice(strs), r.choice(strs), dt, r.choice(strs), mn, mx, opt=k != "l" and r.random() < 0.2, aux=aux, fl=r.choice([0, 1]) if k == "r" else 0, ct=ct)
    i = 0
    while i < len(combos):
        c = Case()
        for _ in range(r.choice([1, 2, 3])):
            n = r.choice([1, 2, 4, 7])
            es = [one(*x) for x in combos[i:i + n]]
            i += n
            if r.random() < 0.3:
                es.insert(r.randrange(len(es) + 1), ent("m", None, None, r.choice([None, b"...", b""]), r.choice([None, b"a remark"])))
            c.table(es, r.choice([-5, -1, 0, 1, 2, 20, 100]))
        c.tables()
        c.freeall()
        cs.append(c)
    for _ in range(2500 if big else 350):
        es = rand_table(r)
        c = Case()
        t = c.table(es, r.choice([0, 1, 2, 20]))
        c.tables()
        if r.random() < 0.5:      # used as built
            c.parse(t, satisfying_argv(r, es))
            c.text(r.choice(["syntax", "syntaxv", "glossary"]), t, None)
        c.freeall()
        cs.append(c)
    return cs


# ------------------------------------------------------------ C23 single-file distribution
def g_C23(r, big):
    k = 8 if big else 1
    cs = enum_cases(r, ["flags", "abbr", "optval"], 150 * k, 100 * k)
    cs += [parse_case(r, nparse=3) for _ in range(400 * k)]
    for g, n in ((g_C12, 60), (g_C13, 60), (g_C14, 80), (g_C15, 60), (g_C16, 60), (g_C21, 60), (g_C08, 250), (g_C09, 120), (g_C01, 60), (g_C11, 40), (g_C10, 40), (g_C18, 30), (g_C25, 60), (g_C19, 40), (g_C27, 60), (g_C28, 60), (g_C29, 40), (g_C30, 120)):
        x = [c for c in g(r, big) if not any(ln.startswith("hcreate") for ln in c.lines)]      # no hash tables: they are not in the public interface
        cs += r.sample(x, min(len(x), n * k))
    return cs


# --------------------------------------------------------------- C20 out of memory
def with_faults(r, c, p=1.0):
    """the same history, with each call (and constructor) first tried with failing allocations"""
    d = Case(fork=True)
    d.dtab, d.nt = c.dtab, c.nt
    j = 0
    for ln in c.lines:
        w = ln.split(" ", 1)[0]
        if w not in ("T", "tdone", "env", "gopen", "gcall", "dcut", "dpoke", "nullcheck", "tables", "preset", "sort0") and r.random() < p:
            d.faults("c" if r.random() < 0.8 else r.choice("dae"), ln)
        if w in ("T", "E"):
            d.lines.append(ln)
        else:
            d.op(ln, c.ev[j], c.hasobs[j])
            j += 1
    return d


def g_C20(r, big):
    cs = []
    for _ in range(600 if big else 60):
        es = calm(r, rand_table(r, n=r.choice([1, 2, 4])))
        c = Case()
        t = c.table(es, r.choice([1, 5]))
        c.parse(t, rand_argv(r, es, special=0.3))
        c.errors(t, b"prog")
        x = r.random()
        if x < 0.3:
            c.gnu(t)
        elif x < 0.6:
            c.text("glossary", t, None)
            c.text("syntax", t, b"\n")
        else:
            c.text("syntaxv", t, b"\n")
        c.freeall()
        cs.append(with_faults(r, c, 0.7))
    for k in "lidsrft":
        c = Case()
        es = [ent(k, b"x", b"xx,yy", b"T", b"text", 0, 3, aux={"r": b"(a|b)+[x-z]", "t": b"%D"}.get(k)), ent(k, None, None, None, None, 0, 2, aux={"r": b"a*", "t": b"%D"}.get(k))]
        t = c.table(es, 3)
        c.parse(t, [b"p", b"-x", b"1", b"--yy=2", b"b", b"--zz", b"ax"])
        c.errors(t, b"prog")
        c.freeall()
        cs.append(with_faults(r, c))
    for _ in range(400 if big else 25):
        c = reg_history(r, 6)
        cs.append(with_faults(r, c, 0.5))
    for _ in range(400 if big else 30):
        cs.append(with_faults(r, dstr_history(r, 8), 0.7))
    for _ in range(300 if big else 15):
        c = hash_history(r, 6)
        cs.append(with_faults(r, c, 0.4))
    for _ in range(200 if big else 10):
        c = Case()
        es = calm(r, table_for_text(r))[:4]
        t = c.table(es, 5)
        c.modname(b"mod")
        c.modver(1, 2, 3, b"tag")
        c.gethelp()
        c.cinit()
        c.creg(b"add", 1, b"adds", 1)
        c.parse(t, rand_argv(r, es))
        c.help(t, b"add")
        c.synerr(t)
        c.synhelp(t, b"add", r.choice([0, 1]), 1)
        c.cuninit(False)
        c.freetable(t, False)
        cs.append(with_faults(r, c, 0.8))
    for n in (2, 5, 9):
        c = Case()
        c.sort(3, 0, n - 1, 0, [bytes([r.randrange(1, 256), 1, 2]) for _ in range(n)])
        cs.append(with_faults(r, c))
    return cs


# --------------------------------------------------------- C30 getopt called directly
def getopt_session(r, c, fresh=False):
    how = r.choice([0, 1, 1, 1, 2, 2, 3])
    al = r.choice([b"ab", b"abc", b"abW", b"abcdefgh", b"a-;", b"az=.,"])
    ss = r.choice([b"", b"", b"+", b"-", b":", b"+:", b"-:"]) + b"".join(bytes([ch]) + (b";" if ch == 87 and r.random() < 0.7 else r.choice([b"", b"", b":", b":", b"::"]))
                                                                      for ch in r.sample(al, r.randrange(0, len(al) + 1)))
    names = r.choice([[b"add", b"adder", b"ad", b"b"], [b"a", b"ab", b"abc", b"abd", b"b-c"], [b"same", b"sample", b"sam", b"other"], [b"x", b"y"], [b"a", b"a", b"ab", b"ab"], [b"long-option", b"long=", b"", b"W"]])
    ls = [(n, r.choice([0, 0, 1, 1, 2]), r.choice([0, 0, 0, 1, 2, 3]), r.choice([65, 66, 300, 0, -5, 65])) for n in r.sample(names, r.randrange(0, len(names) + 1))]
    if ls and r.random() < 0.3:      # abbreviations that mean the same
        ls = [(n, ls[0][1], ls[0][2], ls[0][3]) if r.random() < 0.8 else (n, ha, f, v) for n, ha, f, v in ls]
    argv = [b"prog"]
    for _ in range(r.randrange(0, 7)):
        x = r.random()
        if x < 0.30:
            argv.append(r.choice([b"x", b"-", b"", b"val", b"a", b"=", b"same=1"]))
        elif x < 0.62:
            argv.append(b"-" + bytes(r.choice(al + b"az") for _ in range(r.choice([1, 1, 2, 3]))) + r.choice([b"", b"", b"v", b"=v"]))
        elif x < 0.94:
            n = r.choice(names)
            n = n[:r.choice([len(n), len(n), 1, 2, 3])] + r.choice([b"", b"", b"", b"z"])
            argv.append(r.choice([b"--", b"--", b"--", b"-", b"-W"]) + n + r.choice([b"", b"", b"=", b"=v", b"==", b"=a=b"]))
        else:
            argv.append(b"--")
    if how in (0, 3):     # a dash at the end of a cluster, without long options: not specified
        argv = [a if len(a) < 3 or not a.endswith(b"-") or a[:1] != b"-" else a + b"z" for a in argv]
    if r.random() < 0.03:
        argv = []
    if r.random() < 0.03:
        ss = None
    oi, reset = r.choice([(1, 1), (1, 1), (0, 0), (0, 1), (2, 1), (3, 1)])
    if fresh:
        c.gopen(how, ss, ls, 1, 1, argv, 2)
    else:
        c.gopen(how, ss, ls, r.choice([1, 1, 0]), oi, argv, reset)
    n = 1 + sum(max(1, len(a) - 1) for a in argv[1:])
    c.gcall(n if r.random() < 0.8 else r.randrange(1, n + 1))


def g_C30(r, big):
    cs = []
    for _ in range(12000 if big else 2200):
        c = Case()
        t = None
        for _ in range(r.choice([1, 2, 4])):
            if r.random() < 0.1:
                c.env(1)
            getopt_session(r, c)
            c.env(0)
            if r.random() < 0.15:      # the library's own use of it in between
                es = rand_table(r)
                t = c.table(es, 5)
                c.parse(t, rand_argv(r, es))
        c.freeall()
        cs.append(c)
    return cs


def g_fresh(r, big):
    """programs that have not used the library before: optind, opterr and optreset as it defines them"""
    cs = []
    for _ in range(1500 if big else 150):
        c = Case(fork=True)
        if r.random() < 0.2:
            c.env(1)
        if r.random() < 0.8:
            getopt_session(r, c, fresh=True)
            c.env(0)
        else:
            es = rand_table(r)
            t = c.table(es, 5)
            c.parse(t, rand_argv(r, es))
            c.env(0)
            c.parse(t, rand_argv(r, es))
        if r.random() < 0.3:
            getopt_session(r, c)
        c.freeall()
        cs.append(c)
    return cs


GENS = {n[2:]: f for n, f in globals().items() if n.startswith("g_C")}


# ------------------------------------------------------------------ what a check runs
ROUNDS = {}
LEVEL = {"C20": "fault_enumeration"}
ASSUMPTIONS = [
    "C locale, UTC, x86-64 Linux, gcc; single-threaded use",
    "the C library's strtod gives the value of a floating-point text (the specification decides only which texts are numbers)",
    "address/undefined-behaviour sanitizers see the memory errors that the specification turns into 'no such step'",
]


def batches(pid, r, big, k):
    """(build variant, long-only?, cases, origin)"""
    cs = GENS[pid](r, big) + scale(pid, r, big)
    yield ("amalg" if pid == "C23" else "std"), False, cs, "generated histories"
    if pid == "C30":
        yield "std", False, g_fresh(r, big), "generated histories, the first use of the library in the program"
    if pid == "C04":
        yield "long", True, g_long(r, big), "generated histories, single-dash long options"


def g_long(r, big):
    """ARG_LONG_ONLY: -name is tried as a long option first"""
    cs = enum_cases(r, ["flags", "abbr", "optval", "alts"], None if big else 150, 800 if big else 100)
    cs += [parse_case(r, nparse=4, kinds="lllsi") for _ in range(1500 if big else 200)]
    for _ in range(300 if big else 40):
        es = rand_table(r, kinds="lls")
        names = [n for e in es if e["lo"] for n in e["lo"].split(b",") if n] or [b"zz"]
        av = []
        for _ in range(6):
            a = [b"p"]
            for _ in range(4):
                n = r.choice(names)
                n = n[:r.randrange(1, len(n) + 1)]
                a.append(r.choice([b"-", b"-", b"--"]) + n + r.choice([b"", b"", b"=v"]))
            av.append(a)
        cs += chunk(av, es)
    return cs


def known_findings(check):
    """run the recorded findings of this property; -> the ones still there"""
    out = []
    if check.pid in KNOWN:
        out = KNOWN[check.pid](check)
    return out


def known_C14(check):
    """an unknown short option that is one of the control characters 1..5 is taken for an error code of the end entry"""
    import core
    wrong = {1: b"too many errors to display", 2: b"insufficient memory", 3: b'unexpected argument ""',
             4: b'invalid option ""', 5: b'option "" requires an argument'}
    bad = []
    for ch in range(1, 6):
        c = Case()
        t = c.table([ent("l", b"a", b"alpha", None, b"flag")], 5)
        c.parse(t, [b"prog", b"-" + bytes([ch])])
        c.errors(t, b"prog")
        ev = core.run_cases(core.build("std"), [c], "known")[0]
        if ev[-1]["o"] == "errors" and bytes(ev[-1]["obs"]["t"][ev[-1]["obs"]["pre"]:]) == b"prog: " + wrong[ch] + b"\n":
            bad.append(ch)
    if bad:
        return ["an unknown short option -\\x%02x..-\\x%02x is reported as: %s" % (bad[0], bad[-1], "; ".join(wrong[b].decode() for b in bad))]
    return []


KNOWN = {"C14": known_C14}
