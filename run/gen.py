"""Inputs: tables, command lines, values and call histories."""
import itertools, random
from core import Case, ent, hx

R = random.Random


# ------------------------------------------------------------------- values
INTMAX = 2147483647


def int_text(r):
    """integer-like text: mostly well formed, around every boundary"""
    x = r.random()
    if x < 0.25:
        mult = r.choice([1, 1, 1024, 1048576, 1073741824])
        v = r.choice([INTMAX // mult, (INTMAX + 1) // mult, 2 ** 32 // mult, 2 ** 16, 0, 1, 2 ** 63 // mult, 2 ** 64 // mult, 2 ** 63, 2 ** 64,
                      2 ** 31, 2 ** 32, 2 ** 53, 10 ** 10, 10 ** 19, 10 ** 20, 2 ** 62, 2 ** 31 * 1024, 2 ** 54, 2 ** 44, 2 ** 34]) + r.choice([-2, -1, 0, 0, 1, 2])
        v = abs(v)
        suf = {1: b"", 1024: b"KB", 1048576: b"MB", 1073741824: b"GB"}[mult]
    else:
        v = r.choice([0, 1, 7, 8, 9, 10, 15, 16, r.randrange(100), r.randrange(10 ** 6), r.randrange(2 ** 31), r.randrange(2 ** 33), r.randrange(2 ** 65)])
        suf = r.choice([b"", b"", b"", b"", b"KB", b"MB", b"GB", b"kb", b"mB", b"Gb", b"gb", b"K", b"B", b"KBx", b"TB", b" KB", b"KB ", b"KB KB", b"kB\t"])
    f = r.choice(["%d", "%d", "%d", "0x%x", "0X%X", "0o%o", "0O%o", "0%o", "00%d", "%x", "0x0%x", "0o0%o"])
    t = (f % v) if r.random() < 0.85 else r.choice(["0b", "0B", "0b0"]) + bin(v)[2:]
    t = t.encode()
    sign = r.choice([b"", b"", b"", b"-", b"-", b"+", b"--", b"+-", b"- ", b"-+"]) if r.random() < 0.6 else b""
    lead = r.choice([b"", b"", b"", b" ", b"\t ", b"\n", b"\v\f\r"]) if r.random() < 0.2 else b""
    trail = r.choice([b"", b"", b" ", b"  ", b"\t\n", b" x", b".", b"0", b"-", b"\x0b", b"\r\n ", b"_", b"\xa0"]) if r.random() < 0.3 else b""
    t = lead + sign + t + suf + trail
    if r.random() < 0.12:
        t = mutate(r, t)
    return t


INT_FIXED = [b"", b" ", b"-", b"+", b"0", b"-0", b"+0", b"0x", b"0o", b"0b", b"0X", b"-0x", b"0x-1", b"0x 1", b"0x+1", b"0x0x1", b"0b0b1", b"0o0o7", b"0b2", b"0o8", b"0o78",
             b"0xg", b"0xfg", b"0b102", b"08", b"010", b"1e3", b"1.5", b"0x7fffffff", b"0x80000000", b"-0x80000000", b"-0x80000001", b"0o17777777777", b"0o20000000000",
             b"-0o20000000000", b"-0o20000000001", b"0b" + b"1" * 31, b"0b1" + b"0" * 31, b"-0b1" + b"0" * 31, b"0xffffffff", b"4294967296", b"4294967295", b"2147483647",
             b"2147483648", b"-2147483648", b"-2147483649", b"9223372036854775807", b"9223372036854775808", b"-9223372036854775808", b"-9223372036854775809",
             b"18446744073709551616", b"2097151KB", b"2097152KB", b"-2097152KB", b"-2097153KB", b"2047MB", b"2048MB", b"-2048MB", b"-2049MB", b"1GB", b"2GB", b"-2GB",
             b"-3GB", b"-1GB", b"0GB", b"4GB", b"8GB", b"4194304KB", b"4096MB", b"4194305KB", b"9007199254740992KB", b"9007199254740993KB", b"18014398509481984KB",
             b"17179869184GB", b"8589934592GB", b"8796093022208MB", b"17592186044416MB", b"1kb", b"1Kb", b"1kB", b"1 KB", b"1KB ", b"1KBB", b"1KB1", b"KB", b"0xKB", b"0x1KB", b"0b1KB",
             b"0o1MB", b"0xBKB", b"0xB", b"0b", b"0B1", b"0x1b", b"0b1b", b"0xabGB", b"1gb", b"1mB", b"1Mb", b"1K", b"1M", b"1G", b"1k b", b"99999999999999999999999KB", b"-99999999999999999999",
             b"0x99999999999999999999", b"0b" + b"1" * 70, b"0o" + b"7" * 30, b"00000000000000000000000000005", b"0x00000000000000000000000000005", b"2147483647 ",
             b"\t12", b" \n-3", b"1\n", b"1\x0b", b"1\x85", b"-0KB", b"+1KB", b"- 1", b"--1", b"+-1", b"0-1", b"1-", b"1+", b"\xff", b"1\xff", b"0x\xff"]


def dbl_text(r):
    x = r.random()
    if x < 0.1:
        t = r.choice([b"inf", b"INF", b"Infinity", b"nan", b"NaN", b"nan(1)", b"nan()", b"NAN(abc_1)", b"nan(1", b"infinit", b"in", b"na", b"nan(-)", b"infinityx", b"1inf"])
    elif x < 0.25:
        t = b"0x" + r.choice([b"", b"1", b"f.8", b".8", b"1.", b".", b"A.bC"]) + r.choice([b"", b"p1", b"p-3", b"P+10", b"p", b"p+", b"e1", b"p1024", b"p-1080", b"px"])
    else:
        t = r.choice([b"", b"0", b"1", b"00", b"12", b"%d" % r.randrange(10 ** 6), b"%d" % r.randrange(10 ** 20), b"9007199254740993", b"179769313486231580793"])
        t += r.choice([b"", b"", b".", b".5", b".25", b".0", b".1", b".%d" % r.randrange(10 ** 17), b"..", b",5"])
        t += r.choice([b"", b"", b"", b"e5", b"E-3", b"e+10", b"e308", b"e309", b"e-324", b"e-330", b"e", b"e+", b"e-", b"ex", b"e5e5", b"E5.0", b"f", b"L"])
    t = r.choice([b"", b"", b"", b"-", b"+", b"--", b"+-", b" ", b"\t-", b"- "]) + t
    if r.random() < 0.15:
        t += r.choice([b" ", b"x", b"\n", b"0", b"%", b"\x00"[:0], b"KB", b"e"])
    return mutate(r, t) if r.random() < 0.08 else t


DBL_FIXED = [b"", b" ", b".", b"-", b"+", b"e", b"e5", b".e5", b"0.", b".0", b"1e", b"1e5", b"0x", b"0x.", b"0x.8", b"0xp1", b"0x1p", b"0x1p4", b"0x1.8p1 ", b"inf", b"-inf", b"infi", b"infinity",
             b"nan", b"-nan", b"nan(", b"nan()", b"nan(1)", b"nan(1)x", b"1.7976931348623157e308", b"1.7976931348623159e308", b"1e309", b"-1e400", b"4.9e-324", b"2e-324", b"1e-400",
             b"0.1", b"0.30000000000000004", b"1.0000000000000002", b"9007199254740993", b"-0", b"-0.0", b"1 ", b" 1", b"1x", b"1.5.5", b"1,5", b"\t2", b"2\t", b"1e5.0", b"1e+5", b"1e-5", b"1e +5",
             b"0b1", b"0o7", b"1KB", b"1e99999", b"1e-99999", b"0e99999", b"1d5", b"1f", b"\xff", b"1\xff", b"3.14159", b"00012.50", b"123456789012345678901234567890"]

FILE_ALPHA = [b"a", b".", b"/"]


def file_text(r):
    n = r.randrange(0, 12)
    return b"".join(r.choice([b"a", b"b", b".", b".", b"/", b"/", b"..", b"./", b"tar.gz", b"\\", b" ", b"-", b"\xe9", b"C:", b"readme"]) for _ in range(r.randrange(0, 6)))


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2])):
        k = r.randrange(4)
        i = r.randrange(len(b) + 1)
        c = r.choice(b"0123456789abcdefxXoOkKmMgGbB+- .eEpPnNiI,:/%=\t\n\x01\x7f\x80\xff")
        if k == 0:
            b.insert(i, c)
        elif k == 1 and b:
            del b[min(i, len(b) - 1)]
        elif k == 2 and b:
            b[min(i, len(b) - 1)] = c
        elif b:
            j = min(i, len(b) - 1)
            b.insert(i, b[j])
    return bytes(b)


# -------------------------------------------------------------------- dates
DATE_FMTS = [b"%Y-%m-%d", b"%H:%M", b"%D", b"%T", b"%R", b"%r", b"%x", b"%X", b"%c", b"%d/%m/%y", b"%y%m%d", b"%Y%m%d%H%M%S", b"%b %d %Y", b"%A, %B %d, %Y", b"%a %h %e",
             b"%I:%M %p", b"%l%p", b"%k.%M", b"%j %Y", b"%U %w", b"%W", b"%C%y", b"%y %C", b"%C", b"%Ey/%Om/%Od", b"%OH:%OM:%OS", b"%EY", b"%Ec", b"%Ex", b"%EX", b"%n%t%d", b"%%%d%%",
             b"x%dy", b"%d %d", b"%m %d %H", b"%EC", b"%OI %p", b"%Ow", b"%OU%OW", b"%S", b"%s", b"%E", b"%", b"%d%", b"%Ed", b"%Oy", b"%OC", b"%EEy", b"%D %T", b"%H %p", b"%I%n%p",
             b"", b" ", b"%j", b"%w", b"%e", b"%Y", b"%y", b"%m", b"%B", b"%A", b"%M:%S",
             b"%I:%M %p %Y", b"%r %D", b"%I%p,%M", b"%D %r", b"%p %I", b"%p", b"%I %p%p", b"%l:%M%p %A", b"%r%T"]
DATE_ERR_OK = set(b"aAbBhCcDxdeHkIljMSmnprRtTXUWwYy%")


def date_fmt(r):
    if r.random() < 0.6:
        return r.choice(DATE_FMTS)
    out, hour = b"", False
    for _ in range(r.randrange(1, 5)):
        c = r.choice("aAbBhCDdeHkIlmMSjUWwRTxXyYnt%rE")
        if c == "E":
            out += r.choice([b"%Ey", b"%EY", b"%EC", b"%Od", b"%OH", b"%Om", b"%OM", b"%OS", b"%Ow", b"%Oy", b"%Ex", b"%EX"]) if r.random() < 0.6 \
                else b"%" + r.choice([b"E", b"O"]) + bytes([r.choice(b"aAbBhcCDdeHkIljmMSpnrRtTUWwxXyYEO%")])
        else:
            out += b"%" + c.encode()
        if c in "Il" and r.random() < 0.5:
            out += r.choice([b"", b" ", b":%M "]) + b"%p"
        out += r.choice([b"", b" ", b"/", b"-", b":", b",", b"  ", b"T"])
        if r.random() < 0.12 and out:      # the same field again, or one that overlaps it
            out += r.choice([out, b"%y", b"%C", b"%Y", b"%D", b"%y %y", b"%C %C", b"%T", b"%H"]) + r.choice([b"", b" "])
    return out


DAYS = [b"Sunday", b"Monday", b"Tuesday", b"Wednesday", b"Thursday", b"Friday", b"Saturday"]
MONS = [b"January", b"February", b"March", b"April", b"May", b"June", b"July", b"August", b"September", b"October", b"November", b"December"]


def case_of(r, b):
    return r.choice([b, b, b.upper(), b.lower(), b.swapcase()])


def date_field(r, c):
    rng = {"d": (1, 31), "e": (1, 31), "H": (0, 23), "k": (0, 23), "I": (1, 12), "l": (1, 12), "m": (1, 12), "M": (0, 59), "S": (0, 61), "j": (1, 366), "U": (0, 53),
           "W": (0, 53), "w": (0, 6), "C": (0, 99), "y": (0, 99), "Y": (0, 9999)}
    sub = {"D": "%m/%d/%y", "x": "%m/%d/%y", "R": "%H:%M", "T": "%H:%M:%S", "X": "%H:%M:%S", "r": "%I:%M:%S %p", "c": "%x %X"}
    if c in rng:
        lo, hi = rng[c]
        v = r.choice([lo, hi, lo - 1, hi + 1, r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, hi), 68, 69, 0]) if r.random() < 0.5 else r.randint(lo, hi)
        v = max(v, 0)
        w = r.choice([0, len(str(hi)), len(str(hi)), len(str(hi)), len(str(hi)) + 1, 1])
        return str(v).zfill(w).encode()
    if c in sub:
        return date_text(r, sub[c].encode(), False)
    if c in "aA":
        n = r.choice(DAYS)
        return case_of(r, r.choice([n, n[:3], n[:3], n[:4], n[:2]]) if r.random() < 0.9 else b"Noday")
    if c in "bBh":
        n = r.choice(MONS)
        return case_of(r, r.choice([n, n[:3], n[:3], n[:4], n[:2]]))
    if c == "p":
        return r.choice([b"AM", b"PM", b"am", b"pm", b"Pm", b"aM"]) if r.random() < 0.9 else r.choice([b"A", b"P.M.", b"XM", b"", b"AMx", b"PMPM", b"P M"])
    if c in "nt":
        return r.choice([b"", b" ", b"\t\n"])
    if c == "%":
        return b"%"
    return b"5"


def date_text(r, f, mut=True):
    out, i = b"", 0
    f = f.decode("latin1")
    while i < len(f):
        if f[i] == "%" and i + 1 < len(f):
            i += 1
            while f[i] in "EO" and i + 1 < len(f):
                i += 1
            out += date_field(r, f[i])
        elif f[i] == " ":
            out += r.choice([b"", b" ", b" ", b"  ", b"\t"])
        else:
            out += f[i].encode("latin1")
        i += 1
    if mut and r.random() < 0.25:
        out = r.choice([mutate(r, out), out + b" ", out + b"0", out[:-1], b" " + out, out + b"x"])
    return out


# -------------------------------------------------------------------- regex
def rex_atom(r, depth, alpha):
    x = r.random()
    if x < 0.45:
        return r.choice(alpha)
    if x < 0.53:
        return b"."
    if x < 0.68:
        items = b""
        for _ in range(r.randrange(1, 4)):
            y = r.random()
            if y < 0.4:
                items += r.choice(alpha)
            elif y < 0.7:
                a, b = sorted([r.choice(b"abcdXYZ059"), r.choice(b"abcdXYZ059")])
                items += bytes([a]) + b"-" + bytes([b])
            elif y < 0.9:
                items += b"\\" + r.choice([b"d", b"w", b"s", b"D", b"W", b"S", b"a", b"l", b"u", b"x", b"p", b"c", b"A", b"P", b"C", b"X"])
            else:
                items += r.choice([b"\\n", b"\\-", b"\\]", b"\\\\", b".", b"*", b"^", b"$"])
        return b"[" + r.choice([b"", b"", b"^"]) + items + b"]"
    if x < 0.78:
        return b"\\" + r.choice([b"d", b"w", b"s", b"D", b"W", b"S", b"a", b"A", b"x", b"X", b"l", b"u", b"p", b"P", b"c", b"C", b"n", b"t", b".", b"*", b"\\", b"(", b"b", b"B", b"v", b"f", b"r", b"q", b"/"])
    if depth > 0:
        return b"(" + r.choice([b"", b"", b"?:"]) + rex_alt(r, depth - 1, alpha) + b")"
    return r.choice(alpha)


def rex_seq(r, depth, alpha):
    out = b""
    for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
        out += rex_atom(r, depth, alpha)
        x = r.random()
        if x < 0.35:
            out += r.choice([b"*", b"+", b"?", b"{2}", b"{1,2}", b"{0,1}", b"{2,}", b"{0}", b"{1,1}", b"{3}", b"{2,1}", b"{0,}"])
    return out


def rex_alt(r, depth, alpha):
    n = r.choice([1, 1, 1, 2, 2, 3])
    return b"|".join(rex_seq(r, depth, alpha) for _ in range(n))


REX_BAD = [b"(", b")", b"a)", b"(a", b"[", b"[]", b"[a", b"[^]", b"[b-a]", b"[a-", b"*", b"+a", b"?", b"a**", b"a{", b"a{x}", b"a{1", b"a{1,", b"a{1,x}", b"a{70000}", b"a{65534}", b"a{65535}", b"a{99999999999}",
           b"a|", b"|a", b"|", b"()", b"(|a)", b"(?a)", b"(?:", b"(?", b"\\", b"a\\", b"[\\", b"[a\\", b"[a-\\", b"[\\d-z]", b"", b"^", b"$", b"^$", b"a^", b"$a", b"a$b", b"(a|b", b"a||b", b"[a-b-c]", b"[-a]", b"[a-]",
           b"]", b"}", b"{", b"{1}", b"a{}", b"a{,2}", b"\x01", b"a\x80", b"[\x01]", b"\xff", b"(((", b")))", b"((a)", b"a\n", b"[]a]", b"[^^]", b"[^a", b"\\(", b"(a)(b)(c)(d)", b"((((a))))", b"(()a)", b"a{2}{3}", b"a+*"]
REX_GOOD = [b"a", b"abc", b"a*", b"a+b", b"(ab)+", b"a|b", b"hello|world", b"[a-c]+", b"[^a-c]*", b"\\d+", b"\\w+@\\w+", b"^abc$", b".*", b"a.c", b"(foo|bar)baz", b"x{2,3}", b"\\d{4}-\\d{2}", b"\\bfoo\\b",
            b"a?b?c?", b"(a|b)*c", b"[0-9A-F]+", b"\\s*\\w+\\s*", b"a*(b*)", b"(a|ab)c", b"(a|ab)(c|bcd)", b"(a*)b", b"a*a", b".*b", b"^(a|b)$", b"(?:ab)*", b"[\\d_]+", b"[^\\s]+", b"a$", b"(a$)", b"b*|a",
            b"(a?)*b", b"(a|b|)c", b"\\x\\X", b"\\l\\u", b"\\p", b"(^a)b", b"\\Boo", b"\\b", b"foo\\b", b"a{0}b", b"(ab){2}", b"[a-z]{2,}", b"((a|b)c)+", b"(-|\\+)?\\d+(\\.\\d+)?"]


def rex_texts(r, pat, n):
    """texts near the pattern's language: sampled from a naive reading of it, and random ones"""
    out = [b""]
    letters = [bytes([c]) for c in pat if c not in b"()[]{}*+?|^$\\"] or [b"a"]
    pool = letters + [b"a", b"b", b"0", b" ", b"A", b"z"]
    for _ in range(n):
        x = r.random()
        if x < 0.45:
            out.append(sample(r, pat))
        elif x < 0.6:
            out.append(mutate_small(r, sample(r, pat), pool))
        elif x < 0.9:
            out.append(b"".join(r.choice(pool) for _ in range(r.randrange(0, 7))))
        else:
            out.append(bytes(r.choice(b"ab0 _-.\n\x80\xff\x01AZ") for _ in range(r.randrange(0, 5))))
    return out


def mutate_small(r, b, pool):
    i = r.randrange(len(b) + 1)
    return b[:i] + r.choice(pool + [b""]) + b[i + r.randrange(2):]


CL = {100: b"0123456789", 119: b"abzAZ_09", 115: b" \t\n", 68: b"ab_ ", 87: b" -.!", 83: b"ab0", 97: b"abzAZ", 65: b"01 -", 120: b"09afAF", 88: b"gz -", 108: b"abz", 117: b"ABZ",
      112: b".,!-", 80: b"ab0 ", 99: b"\x01\x7f\n", 67: b"ab "}


def sample(r, pat):
    """a rough member of the language (good enough as an input: the oracle is the specification)"""
    pos = 0

    def alt(stop):
        nonlocal pos
        opts = [[]]
        while pos < len(pat) and not (stop and pat[pos] == 41):
            c = pat[pos]
            if c == 124:
                pos += 1
                opts.append([])
                continue
            g = atom()
            lo, hi = 1, 1
            if pos < len(pat):
                q = pat[pos]
                if q == 42:
                    lo, hi, pos = 0, 3, pos + 1
                elif q == 43:
                    lo, hi, pos = 1, 3, pos + 1
                elif q == 63:
                    lo, hi, pos = 0, 1, pos + 1
                elif q == 123:
                    e = pat.find(b"}", pos)
                    if e > 0:
                        try:
                            a = pat[pos + 1:e].split(b",")
                            lo = min(int(a[0]), 5)
                            hi = lo if len(a) == 1 else min(int(a[1]), 6) if a[1] else lo + 2
                        except ValueError:
                            pass
                        pos = e + 1
                    else:
                        pos += 1
            opts[-1].append((g, lo, max(lo, hi)))
        seq = r.choice(opts)

        def gen():
            return b"".join(b"".join(g() for _ in range(r.randint(lo, hi))) for g, lo, hi in seq)
        return gen

    def atom():
        nonlocal pos
        c = pat[pos]
        pos += 1
        if c == 40:
            if pat[pos:pos + 2] == b"?:":
                pos += 2
            g = alt(True)
            pos += 1
            return g
        if c == 91:
            neg = pat[pos:pos + 1] == b"^"
            e = pos
            s = b""
            while e < len(pat) and pat[e] != 93:
                if pat[e] == 92 and e + 1 < len(pat):
                    e += 1
                    s += CL.get(pat[e], bytes([pat[e]]))
                elif pat[e] == 45 and e + 1 < len(pat) and s:
                    s += bytes(range(min(s[-1], pat[e + 1]), max(s[-1], pat[e + 1]) + 1))[:40]
                else:
                    s += bytes([pat[e]])
                e += 1
            pos = e + 1
            cand = bytes(x for x in b"abcdzABZ059 _-.!" if x not in s) if neg else s
            cand = cand or b"a"
            return lambda: bytes([r.choice(cand)])
        if c == 46:
            return lambda: bytes([r.choice(b"ab0 .")])
        if c in b"^$":
            return lambda: b""
        if c == 92 and pos < len(pat):
            d = pat[pos]
            pos += 1
            if d in (98, 66):
                return lambda: b""
            if d in CL:
                return lambda: bytes([r.choice(CL[d])])
            m = {110: b"\n", 116: b"\t", 114: b"\r", 102: b"\f", 118: b"\v"}.get(d, bytes([d]))
            return lambda: m
        return lambda: bytes([c])
    try:
        return alt(False)()[:40].replace(b"\0", b"")
    except (IndexError, RecursionError):
        return b"ab"


def nested_repeats(pat):
    """is a repetition applied to a group that itself repeats? (exponential for this matcher)"""
    depth, stack, bad = 0, [], 0
    i = 0
    inner = [False]
    while i < len(pat):
        c = pat[i]
        if c == 92:
            i += 2
            continue
        if c == 91:
            j = pat.find(b"]", i + 1)
            i = j if j > 0 else i
        elif c == 40:
            inner.append(False)
        elif c == 41 and len(inner) > 1:
            had = inner.pop()
            if i + 1 < len(pat) and pat[i + 1] in b"*+{":
                if had:
                    bad += 1
                had = True
            inner[-1] = inner[-1] or had
        elif c in b"*+{":
            inner[-1] = True
        i += 1
    return bad


def rex_pattern(r, depth=2):
    while True:
        x = r.random()
        if x < 0.12:
            return r.choice(REX_BAD)
        if x < 0.35:
            return r.choice(REX_GOOD)
        alpha = r.choice([[b"a", b"b"], [b"a", b"b", b"c"], [b"a", b"A", b"0", b" ", b"_"], [b"x", b"y", b"-", b"1"], [b"@", b"_", b"Z", b"~"], [b"`", b"@", b"z", b"\xe9", b"\xc9"]])
        p = rex_alt(r, depth, alpha)
        p = r.choice([b"", b"", b"", b"^"]) + p + r.choice([b"", b"", b"", b"$"])
        if r.random() < 0.06:
            p = mutate_small(r, p, [b"(", b")", b"[", b"]", b"{", b"}", b"*", b"|", b"\\", b"^", b"$", b"?"])
        if nested_repeats(p) > 1:
            continue
        return p


# ------------------------------------------------------------------- tables
SHORTS = b"abcdefnopvxyzABCVXZ0123459@#+=.,/%_~"
LONGS = [b"alpha", b"alphabet", b"al", b"a", b"alp", b"beta", b"be", b"bet", b"verbose", b"version", b"file", b"fil", b"filename", b"n", b"num", b"number", b"x-ray", b"out", b"output",
         b"opt", b"option1", b"option2", b"B", b"ALPHA", b"very-long-option-name-indeed"]
DTS = [b"<n>", b"NUM", b"<file>", b"<a|b>", b"", b"=x", b"<a very long data type name>"]
GLOSS = [b"a short text", b"verbose output", b"", b"the number of things to be done before the program stops doing anything at all, which may be quite a lot of them",
         b"line one\nline two", b"word " * 30, b"x" * 90, b"  leading blanks and trailing  ", b"tab\tseparated text", b"a%sb", b"one\n\nthree\n"]


def any_str(r, n, alpha=b"abcxyz -=,.%[]<>|\n\t\"'\\\x80\xe9\xff"):
    return bytes(r.choice(alpha) for _ in range(r.randrange(n + 1)))


def rand_entry(r, kinds="lidsrft", tagged=None, used=None, simple=False, gl=None, dupes=0.03):
    k = r.choice(kinds)
    used = used if used is not None else {"s": set(), "l": set()}
    tag = r.random() < 0.72 if tagged is None else tagged
    if k == "l":
        tag = True if tagged is None else tag
    sh = lo = None
    if tag:
        w = r.random()
        if w < 0.75:
            n = r.choice([1, 1, 1, 2, 3])
            cs = [c for c in SHORTS if c not in used["s"] or r.random() < dupes]
            r.shuffle(cs)
            sh = bytes(cs[:n]) or None
            used["s"] |= set(sh or b"")
        if w > 0.35 or sh is None:
            n = r.choice([1, 1, 1, 2, 3])
            ls = [l for l in LONGS if l not in used["l"] or r.random() < dupes]
            r.shuffle(ls)
            ls = ls[:n]
            if ls:
                lo = b",".join(ls)
                used["l"] |= set(ls)
                if r.random() < 0.03:
                    lo = r.choice([lo + b",", b"," + lo, lo + b",,zz", b""])
        if r.random() < 0.02:
            sh = b""
        if sh is None and lo is None:
            sh = b"q"
    ct = r.choice("nnn01")
    mn = r.choice([0, 0, 0, 1, 1, 2, 3])
    mx = r.choice([mn, mn, mn + 1, mn + 1, mn + 2, mn + 3, mn + 5])
    if r.random() < 0.06:
        mx = r.choice([0, mn - 1, -1, mn])
    aux, fl = None, 0
    if k == "r":
        aux = rex_pattern(r, 1)
        fl = r.choice([0, 0, 1])
    if k == "t":
        aux = date_fmt(r) if r.random() < 0.85 else None
    return ent(k, sh, lo, r.choice([None, None] + DTS), (gl or (lambda q: q.choice([None] + GLOSS)))(r), mn, mx,
               k != "l" and tag and r.random() < 0.12, aux, fl, ct)


def rand_table(r, n=None, **kw):
    used = {"s": set(), "l": set()}
    n = n or r.choice([1, 2, 2, 3, 3, 4, 5, 6])
    es = [rand_entry(r, used=used, **kw) for _ in range(n)]
    if r.random() < 0.05:
        es.insert(r.randrange(len(es) + 1), ent("m", None, None, r.choice([None, b"...", b"<more>"]), r.choice([None, b"remark"])))
    return es


def eff(e):
    mn = 0 if e["ct"] == "0" else 1 if e["ct"] == "1" else e["mn"]
    mx = 1 if e["ct"] in "01" else max(e["mx"], e["mn"])
    if e["k"] == "m":
        return 1, 1
    if e["k"] == "u":
        return min(e["mn"], e["mx"]), e["mx"]
    return mn, mx


def value_for(r, e):
    k = e["k"]
    if k == "i":
        return int_text(r) if r.random() < 0.4 else b"%d" % r.randrange(-99, 1000)
    if k == "d":
        return dbl_text(r) if r.random() < 0.4 else r.choice([b"1.5", b"2", b"-3e2", b".5"])
    if k == "r":
        return r.choice(rex_texts(r, e["aux"], 2)) if r.random() < 0.8 else b"zzz"
    if k == "t":
        return date_text(r, e["aux"] if e["aux"] is not None else b"%x")
    if k == "f":
        return file_text(r)
    return r.choice([b"foo", b"bar", b"", b"a b", b"-x", b"--", b"x=y", b"-", b"\xff\x80", b"--foo", b"long " * 20])


SPECIAL = [b"-", b"--", b"", b"---", b"--=", b"--=x", b"-=", b"-Q", b"--nope", b"--nope=1", b"-a-", b"-:", b"-?", b"--a", b"--al", b"--b", b"-W", b"-;", b"- ", b"--alpha=", b"--no-such", b"-\xe9", b"x", b"stray"]


def flag(e):
    return e["k"] == "l" or (e["k"] == "u" and not e["hv"])


def tokens_for(r, es, e):
    """one occurrence of entry e, as one or two words"""
    sh, lo = e["sh"], e["lo"]
    val = value_for(r, e)
    forms = []
    if not sh and not lo:
        return [val]
    if sh:
        c = bytes([r.choice(sh)])
        if flag(e):
            forms += [[b"-" + c], [b"-" + c], [b"-" + c * r.choice([2, 3])]]
            flags = [bytes([x]) for q in es if flag(q) and q["sh"] for x in q["sh"]]
            forms.append([b"-" + b"".join(r.choice(flags) for _ in range(r.randrange(1, 4)))])
            vals = [bytes([x]) for q in es if not flag(q) and q["k"] != "m" and q["sh"] for x in q["sh"]]
            if vals:
                q = r.choice(vals)
                forms.append([b"-" + c + q + val])
                forms.append([b"-" + c + q, r.choice([b"5", b"val"])])
        else:
            forms += [[b"-" + c, val], [b"-" + c + val], [b"-" + c, val]]
            if r.random() < 0.25:
                forms.append([b"-" + c])
    if lo:
        ns = [x for x in lo.split(b",")]
        n = r.choice(ns)
        if r.random() < 0.35 and len(n) > 1:
            n = n[:r.randrange(1, len(n) + 1)]
        if flag(e):
            forms += [[b"--" + n], [b"--" + n]]
            if r.random() < 0.15:
                forms.append([b"--" + n + b"=" + val])
        else:
            forms += [[b"--" + n + b"=" + val], [b"--" + n, val], [b"--" + n + b"=" + val]]
            if r.random() < 0.25:
                forms += [[b"--" + n], [b"--" + n + b"="]]
    return r.choice(forms)


def rand_argv(r, es, n=None, special=0.18):
    if n is None and r.random() < 0.02:
        return []                      # argc 0
    n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7]) if n is None else n
    out = []
    pos = [e for e in es if not e["sh"] and not e["lo"] and e["k"] != "m"]
    for _ in range(n):
        x = r.random()
        if x < special or not es:
            t = [r.choice(SPECIAL + [b"-a", b"b"])]
        elif x < special + 0.2 and pos:
            t = [value_for(r, r.choice(pos))]
        else:
            e = r.choice(es)
            t = tokens_for(r, es, e) if e["k"] != "m" else [b"rem"]
        if r.random() < 0.04:
            t = [mutate(r, w) for w in t]
        out += t
    return [r.choice([b"prog", b"prog", b"./a.out", b""])] + [w.replace(b"\0", b"") for w in out]


def block_argv(r, es):
    """long command lines: blocks of positionals between blocks of options, of any sizes"""
    pos = [e for e in es if not e["sh"] and not e["lo"] and e["k"] != "m"]
    tag = [e for e in es if (e["sh"] or e["lo"]) and e["k"] != "m"]
    out = [b"prog"]
    for _ in range(r.choice([1, 1, 2, 3])):
        for _ in range(r.choice([1, 2, 3, 4, 6, 8, 9, 12, 15, 16])):
            out.append((b"%c%d" % (r.randrange(97, 123), len(out))) if not pos or r.random() < 0.6 else value_for(r, r.choice(pos)).replace(b"\0", b"") or b"e")
        n = len(out) + r.choice([1, 2, 3, 4, 6, 8, 9, 12])
        while tag and len(out) < n:
            out += [w.replace(b"\0", b"") for w in tokens_for(r, es, r.choice(tag))]
    if r.random() < 0.2:
        out.insert(r.randrange(1, len(out) + 1), b"--")
    return out


def satisfying_argv(r, es):
    """a command line that gives every entry an allowed number of occurrences (if its values are valid)"""
    out = []
    for e in es:
        if e["k"] == "m":
            continue
        mn, mx = eff(e)
        if mx < mn:
            continue
        for _ in range(r.choice([mn, mx, r.randint(mn, mx)]) + (r.choice([0, 0, 0, 1, -1]))):
            out.append(tokens_for(r, es, e))
    r.shuffle(out)
    return [b"prog"] + [w for t in out for w in t]


def parse_case(r, es=None, nparse=3, cap=None, free=True, **kw):
    es = es if es is not None else rand_table(r, **kw)
    c = Case()
    if r.random() < 0.06:
        c.env(1)
    t = c.table(es, r.choice([20, 20, 5, 3, 2, 1]) if cap is None else cap)
    for _ in range(nparse):
        c.parse(t, rand_argv(r, es) if r.random() < 0.7 else satisfying_argv(r, es))
    c.env(0)
    if free:
        c.freeall()
    return c


def chunk(argvs, es, per=40, cap=20, env=None, free=True):
    """the given command lines, parsed with the same kind of table, several per case"""
    out = []
    for i in range(0, len(argvs), per):
        c = Case()
        if env:
            c.env(1)
        t = c.table(es, cap)
        for a in argvs[i:i + per]:
            c.parse(t, a)
        if env:
            c.env(0)
        if free:
            c.freeall()
        out.append(c)
    return out


def enum_argvs(alpha, lengths):
    for n in lengths:
        for t in itertools.product(alpha, repeat=n):
            yield [b"prog"] + list(t)
