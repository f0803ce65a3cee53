"""What each check runs: harness functions, cases, bounds."""
import os, re

HERE = os.path.dirname(os.path.abspath(__file__))

ASSUMPTIONS = [
    "rustc's MIR-to-LLVM lowering and LLVM's optimiser preserve the source's semantics (the IR executed is the -O2 fat-LTO module of /repo plus harness; sampled paths are replayed on an unoptimised native build)",
    "nsx executes LLVM IR faithfully and Z3 answers correctly (sampled path witnesses are replayed natively, cheap decisions are audited with Z3)",
    "allocation succeeds; x86-64, 64-bit usize, little-endian",
]


class Job:
    def __init__(self, fn, case=0, weight=1, time=400, steps=20_000_000, samples=6, qt=60000, split=None, covers=(1,), variant="dev"):
        self.fn, self.case, self.weight, self.time, self.steps = fn, case, weight, time, steps
        self.samples, self.qt, self.split, self.covers, self.variant = samples, qt, split, tuple(covers), variant

    def name(self):
        return f"{self.fn}/{self.case}" + (f"[{self.split}]" if self.split else "") + ("" if self.variant == "dev" else "@" + self.variant)


class Known:
    def __init__(self, fn, case, kind, where, rx, what):
        self.fn, self.case, self.kind, self.where, self.rx, self.what = fn, case, kind, where, rx, what

    def matches(self, j, v):
        return j.fn == self.fn and (self.case == "*" or str(j.case) == self.case) and v["kind"] == self.kind and self.where in v["msg"] + " " + v["loc"] and re.fullmatch(self.rx, v["bytes"])


def known(prop):
    """finding: property=P fn=F case=C kind=K where=W bytes=REGEX :: what"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) fn=(\S+) case=(\S+) kind=(\S+) where=(\S*) bytes=(\S*) :: (.*)", l)
            if m and m.group(1) == prop:
                out.append(Known(*m.groups()[1:]))
    return out


PROPS = {}


def prop(pid, module, bounds, quick, thorough=None, outside="", assumptions=()):
    PROPS[pid] = {"module": module, "bounds": bounds, "quick": quick, "thorough": thorough or quick, "outside": outside, "assumptions": list(assumptions)}


def jobs(pid, tier):
    p = PROPS[pid]
    js = p["thorough"]() if tier == "thorough" else p["quick"]()
    return js


def splits(n, fn, case, **kw):
    return [Job(fn, case, split=f"{i}/{n}", **kw) for i in range(n)]


def both(js):
    """The same jobs under release semantics as well."""
    out = list(js)
    for j in js:
        out.append(Job(j.fn, j.case, j.weight, j.time, j.steps, j.samples, j.qt, j.split, j.covers, "rel"))
    return out


def J(fn, cases, **kw):
    return [Job(fn, c, **kw) for c in cases]


# ------------------------------------------------------------------ binary
BQ = {1: range(0, 5), 2: range(0, 4), 3: range(0, 4), 4: range(0, 4), 8: range(0, 3)}
BT = {1: range(0, 9), 2: range(0, 9), 3: range(0, 6), 4: range(0, 9), 8: range(0, 4)}


def b_groups(fn, lens, ladder, chain, top=9):
    """visit(): groups without a length run once, the others for each length."""
    js = J(fn, [g * 100 for g in (0, 5, 6, 7, 9)])
    for g in (1, 2, 3, 4, 8):
        js += [Job(fn, g * 100 + n, weight=n) for n in lens[g]]
    for g in (10, 11, 12, 13):
        js += [Job(fn, g * 100 + k, weight=k, steps=400_000_000) for k in ladder if not (g >= 12 and k >= 18)]
    js += [Job(fn, 1400 + n, weight=n) for n in chain]
    return js + J(fn, range(1500, 1505), weight=9)


BQL = (0, 3, 6, 9, 12, 15, 17, 18, 20)
BTL = range(0, 21)
BB = lambda t: ("every value of all primitive types, (), Duration, SystemTime >= epoch, tuples, arrays, options, boxes, derived structs, enums and generics; "
      "strings of %d bytes, sequences/maps of %d elements, derived nesting to depth %d, all element values symbolic; lengths at the powers of two up to 65537 for strings and byte vectors, 1000 for other collections, and chains of %d nested boxed variants, with up to three symbolic elements") % ((4, 3, 2, 40) if t == "quick" else (8, 8, 3, 99))
BO = "longer strings and collections, other than at the listed lengths; HashMap/HashSet keys are concrete (values symbolic)"


def b_both(fn):
    prop(fn.upper(), fn, BB, lambda: b_groups(fn, BQ, BQL, (40,)), lambda: both(b_groups(fn, BT, BTL, (10, 40, 80, 99))), outside=BO)


for f in ("b01", "b02", "b04", ):
    b_both(f)
prop("B05", "b05", lambda t: BB(t) + "; values at offsets 0-3 between arbitrary bytes; arbitrary inputs of up to %d bytes at offsets 0-2" % (12 if t == "quick" else 20),
     lambda: b_groups("b05", BQ, BQL, (40,)) + b03("b05s", 0), lambda: both(b_groups("b05", BT, BTL, (10, 40, 80, 99)) + b03("b05s", 1)), outside=BO)
T3Q = {0: (0, 1, 3, 8, 16, 17), 1: (0, 7, 8, 9, 11, 13), 2: (0, 7, 8, 10, 12), 3: (8, 10, 11), 4: (8, 9, 10), 5: (0, 1, 5, 9, 14), 6: (0, 1, 4, 7, 8), 7: (0, 2, 3, 4, 8), 8: (2, 8, 12), 9: (0, 8, 11, 12, 13), 10: (0, 3, 8)}
T3T = {0: range(0, 18), 1: range(0, 19), 2: range(0, 19), 3: range(0, 14), 4: range(0, 13), 5: range(0, 21), 6: range(0, 15), 7: range(0, 13), 8: range(0, 15), 9: range(0, 14), 10: range(0, 12)}


def b03(fn, deep):
    return [Job(fn, g * 100 + n, weight=n + g, steps=2_000_000, covers=()) for g, ns in (T3T if deep else T3Q).items() for n in ns]


prop("B03", "b03", lambda t: "all byte strings of the listed lengths as input to every supported type: " + "; ".join(f"group {g}: {list(n)}" for g, n in (T3Q if t == "quick" else T3T).items()) + "; groups: 0 primitives, 1 String, 2 Vec/LinkedList, 3 BTree, 4 hash, 5 arrays/tuples/Option/Box, 6 derived structs, 7 enums, 8 recursive types, 9 times",
     lambda: b03("b03", 0), lambda: both(b03("b03", 1)), outside="longer inputs; for hash collections length fields 5..2^40 and element bytes over 1; allocation failure")
B6S = lambda ns: J("b06_short", ns, covers=()) + J("b06_first", [n for n in ns if n < 9], covers=()) + J("b06_enum", (0, 1)) + J("b06_duration", (0,), covers=(1, 2)) + J("b06_time", (0,), covers=(1, 2))
prop("B06", "b06", lambda t: "primitives: all inputs of 0..%d bytes at every offset; strings: every 64-bit length field with %d..%d arbitrary bytes; every u16 discriminant; every Duration and SystemTime encoding" % ((17, 0, 5) if t == "quick" else (20, 0, 8)),
     lambda: B6S(range(0, 18)) + J("b06_string", range(0, 6)), lambda: both(B6S(range(0, 21)) + J("b06_string", range(0, 9))), outside="longer strings")

# -------------------------------------------------------------------- JSON
JQ = {1: range(0, 5), 2: range(0, 4), 3: range(0, 3), 4: range(0, 4), 5: (0, 2), 8: range(0, 3)}
JT = {1: range(0, 8), 2: range(0, 6), 3: range(0, 4), 4: range(0, 7), 5: (0, 1, 2, 3), 8: range(0, 4)}


def j_groups(fn, lens, ladder, chain, nine):
    js = splits(11, fn, 0, weight=90) + splits(15, fn, 600, weight=80) + J(fn, (700,), weight=20) + [Job(fn, 900 + n, weight=85, time=800) for n in nine]
    for g, ns in lens.items():
        js += [Job(fn, g * 100 + n, weight=n) for n in ns]
    for g in (10, 11, 12):
        js += [Job(fn, g * 100 + k, weight=k, steps=2_000_000_000) for k in ladder if not (g >= 11 and k >= 18)]
    js += [Job(fn, 1300 + n, weight=n) for n in chain]
    js += [Job(fn, 1600 + k, weight=k, steps=2_000_000_000) for k in ladder if k < 18]
    return js + J(fn, list(range(1500, 1504)) + [1700, 1800, 1900] + [1504] * (fn[0] == "r"), weight=40)


JB = lambda t: ("every value of the integer types, bool, (), Duration and SystemTime >= epoch (one wide field at a time%s), tuples, arrays, options, boxes, derived structs with every field attribute, enums, generics; strings of %d bytes, "
                "sequences/maps of %d elements, nesting to depth %d; strings and collections at lengths around the powers of two; chains of %d nested variants") % (("", 4, 3, 2, 40) if t == "quick" else ("; thorough: both fields", 7, 6, 3, 80))
JO = "longer strings and collections; floats (see J04); HashMap/HashSet keys are concrete"
for f in ("j01", "j02"):
    prop(f.upper(), f, JB, (lambda f: lambda: j_groups(f, JQ, (0, 3, 6, 9, 12, 15, 17), (40,), (0,)))(f), (lambda f: lambda: both(j_groups(f, JT, range(0, 21), (10, 40, 80), (0,))))(f), outside=JO)
prop("J03", "j03", lambda t: "for each of the nine integer types, every decimal literal of the listed numbers of digits with and without a minus sign, with what follows it symbolic: " + str({k: list(v) for k, v in (IQ if t == "quick" else IT).items()}),
     lambda: ints(IQ), lambda: both(ints(IT)), outside="longer literals (a spot check at 21 and 22 digits)")
IQ = {0: (1, 2, 3, 4, 20, 21), 1: (1, 2, 3, 4, 19, 20), 2: (4, 5, 6, 20, 21), 3: (4, 5, 6, 19, 20), 4: (9, 10, 11, 19, 20, 21), 5: (9, 10, 11, 18, 19, 20, 21), 6: (1, 12, 18, 19, 20, 21), 7: (1, 12, 18, 19, 20, 21), 8: (19, 20, 21), 9: (1, 2, 3, 4)}
IT = {0: range(1, 23), 1: range(1, 23), 2: range(1, 23), 3: range(1, 23), 4: range(1, 23), 5: range(1, 23), 6: range(1, 24), 7: range(1, 24), 8: range(1, 23), 9: range(1, 9)}


def ints(sel):
    top = [3, 3, 5, 5, 10, 10, 20, 19, 20, 3]
    return [Job("j03", t * 100 + n, weight=n, time=800, covers=(1,) if n <= top[t] else (2,)) for t, ns in sel.items() for n in ns]


def far(fn, kinds, deep, top=21):
    """Documents with one part at the lengths of the ladder."""
    ls = range(top) if deep else [l for l in (0, 3, 6, 9, 12, 13, 16, 17, 20) if l < top]
    return [Job(fn, k * 100 + l, weight=l, steps=4_000_000_000) for k in kinds for l in ls]


def floats(deep):
    c = [(i, f, e) for i in (1, 2) for f in (0, 1, 2) for e in (0, 1, 2)] + [(3, 0, 0), (4, 3, 0), (8, 1, 2), (6, 0, 0)]
    if deep:
        c = [(i, f, e) for i in range(1, 10) for f in range(0, 5) for e in range(0, 4)]
    b = (3017, 3018, 3019, 3020, 3021, 3025)
    return [Job("j04", i * 100 + f * 10 + e, weight=i) for i, f, e in c] + J("j04", (1000, 2000)) + J("j04", range(4000, 4012), weight=9) + J("j04", b if not deep else tuple(b) + (3010, 3014, 3030, 3040), weight=50, time=800) + J("j04", [5000 + n for n in (range(12, 401) if deep else (14, 20, 28, 31, 40, 60, 63, 64, 100, 127, 128, 200, 255, 256, 310, 400))], weight=3)


prop("J04", "j04", lambda t: "every literal with %s integer digits, %s fraction digits and %s exponent digits (either case, any sign); integer literals of up to 40 digits (19 and 20: the last five around the limits of the integer types); 12 literals around rounding, overflow and underflow limits with two arbitrary digits; literals of seven forms with runs of %s fixed digits around two arbitrary ones, among them exact halves but for the last digit; 24 listed float values written and read back" % (("1-8", "0-3", "0-2", "14 to 400 (16 lengths)") if t == "quick" else ("1-9", "0-4", "0-3", "12 to 400")),
     lambda: floats(0), lambda: both(floats(1)), outside="the shortest-representation printing of arbitrary floats (only listed values); literals of more than 48 arbitrary bytes",
     assumptions=["the standard library's float parser is correctly rounding: it is an uninterpreted function whose value the solver learns per model, evaluated by the real parser"])


def j05(deep):
    js = splits(5, "j05", 0, weight=50) + J("j05", (1, 2, 7, 8), weight=3) + J("j05b", (0, 1), weight=40)
    if deep:
        js += splits(4, "j05", 3) + J("j05", (9,)) + splits(4, "j05b", 2)
    return js


prop("J05", "j05", lambda t: "one character in any spelling (raw UTF-8, short escape, \\u in any case, surrogate pair; all code points), up to %d characters of mixed raw and escaped spelling, as a value, element, map key, member value and member name; every malformed escape after %d characters" % ((3, 1) if t == "quick" else (4, 2)),
     lambda: j05(0), lambda: both(j05(1)), outside="longer literals")


def texts(fn, n, m, split=()):
    js = []
    for k in list(range(0, 35)):
        js.append(Job(fn, k * 100 + n, weight=n, covers=() if fn == "j06" else ()))
    for k in list(range(100, 115)) + list(range(120, 129)) + list(range(130, 136)) + list(range(140, 144)) + list(range(150, 196)):
        js.append(Job(fn, k * 100 + m, weight=40 if k in (103, 106) else m, covers=()))
    return js


def short(fn, n, m):
    return [j for i in range(0, n + 1) for j in texts(fn, i, min(i, m))]


def j06f(n):
    return J("j06f", [t * 100 + i for t in range(4) for i in n], covers=())


TX = lambda a, b: (lambda t: "every valid UTF-8 text of %d bytes for 35 types, and every UTF-8 text of %d bytes at one place of 80 document templates (members, unknown members, nested payloads, escapes, comments, number limits)" % (a if t == "quick" else b))
prop("J06", "j06", lambda t: TX((4, 4), (6, 5))(t) + "; long documents (4000 comments, nested or repeated elements) around three arbitrary bytes", lambda: texts("j06", 4, 4) + j06f((3, 4)) + J("j06l", range(8), steps=80_000_000, covers=()),
     lambda: both(short("j06", 6, 5) + j06f(range(0, 7)) + J("j06l", range(8), steps=80_000_000, covers=())), outside="longer texts; recursion depth of nested typed values (see DESIGN.md)")
def mx(fn, sizes):
    return [Job(fn, t * 100 + k, weight=2, covers=(1, 2)) for t, n in enumerate(sizes) for k in range(n)]


MXJ, MXR = (20, 8, 11, 5, 8, 3, 2), (11, 5, 8)
MX = "; %s with every combination of rename, default (bare, value, function), skip%s and option: one member absent, given, none, under another name, twice or of a wrong kind, the others all there or only those required"
prop("J07", "j07", lambda t: "two-member structs: all orders and subsets of the members and an unknown member with an arbitrary value; unknown values nested to depth %d with arbitrary scalars and strings at every position; every subset of attributed, optional and defaulted members with arbitrary one- or two-digit numbers and one-character strings; unknown strings, lists, names, nests and numbers of members up to 1000 in length" % (2 if t == "quick" else 3) + MX % ("seven structs and variants", ", proxy, null for none"),
     lambda: mx("j07m", MXJ) + J("j07", (0, 11, 20, 30, 40, 50)) + far("j07l", range(6), 0, 18) + splits(11, "j07", 12), lambda: both(mx("j07m", MXJ) + far("j07l", range(6), 1, 18) + J("j07", (0, 10, 11, 20, 30, 40, 50)) + splits(11, "j07", 12) + splits(11, "j07", 13)), outside="larger structs")


def trivia(fn, docs, ns):
    return [Job(fn, d * 100 + n, weight=n) for d in range(docs) for n in ns]


prop("J08", "j08", lambda t: "18 documents; white space of %d arbitrary characters, a line comment or a block comment with %d arbitrary bytes of UTF-8, or two such in a row, at any token boundary; comments and runs of blanks or comments up to 65537 long at five places" % ((4, 4) if t == "quick" else (6, 6)),
     lambda: far("j08l", range(5), 0) + trivia("j08", 18, (0, 2, 4, 12)), lambda: both(far("j08l", range(5), 1) + trivia("j08", 18, (0, 1, 2, 3, 4, 5, 6, 10, 11, 12, 13))), outside="longer comments")
ED = lambda k: "; %d documents with one edit at any token (dropped, doubled, replaced or inserted out of 14, exchanged, cut off), with arbitrary digits" % k
prop("J09", "j09", lambda t: TX((4, 4), (6, 5))(t) + ED(41), lambda: texts("j09", 4, 4) + J("j09m", range(41), weight=30, covers=(1, 2)), lambda: both(short("j09", 6, 5) + J("j09m", range(41), weight=30, covers=(1, 2))), outside="longer texts",
     assumptions=["the harness's own reader states what RFC 8259 makes of a text"])
def j10():
    return [j for c in range(9) for j in (splits(3, "j10", c, weight=40) if c in (0, 1, 7) else [Job("j10", c)])] + splits(5, "j10", 9, weight=50)


prop("J10", "j10", lambda t: "six enum types (unit, tuple, struct, many variants, renamed, recursive), bare and as elements, members and optional values: every variant name, near miss and one-character name against 23 payload shapes with arbitrary digits, also two such members" + ED(16),
     lambda: j10() + J("j10m", range(16), covers=(1, 2)), lambda: both(j10() + J("j10m", range(16), covers=(1, 2))), outside="other names and payloads (see J09 for arbitrary bytes)")

# --------------------------------------------------------------------- RON
def r_groups(fn, lens, ladder, chain, nine):
    js = splits(15, fn, 600, weight=40) if fn == "r09" else [Job(fn, 600, weight=80)]
    js += J(fn, (0,), weight=90) + J(fn, (700,), weight=20) + [Job(fn, 900 + n, weight=85, time=800) for n in nine]
    for g, ns in lens.items():
        js += [Job(fn, g * 100 + n, weight=n) for n in ns]
    for g in (10, 11, 12):
        js += [Job(fn, g * 100 + k, weight=k, steps=2_000_000_000) for k in ladder if not (g >= 11 and k >= 18)]
    js += [Job(fn, 1300 + n, weight=n) for n in chain]
    js += [Job(fn, 1600 + k, weight=k, steps=2_000_000_000) for k in ladder if k < 18]
    return js + J(fn, list(range(1500, 1504)) + [1700, 1800, 1900] + [1504] * (fn[0] == "r"), weight=40)


RB = lambda t: JB(t).replace("every field attribute", "every field attribute the format supports") + "; maps with string, integer and negative keys"
for f in ("r01", "r09"):
    prop(f.upper(), f, RB, (lambda f: lambda: r_groups(f, JQ, (0, 3, 6, 9, 12, 15, 17), (40,), (0,)))(f), (lambda f: lambda: both(r_groups(f, JT, range(0, 21), (10, 40, 80), (0,))))(f), outside=JO.replace("J04", "R02"))


def r02(deep):
    js = [Job("r02", j.case, j.weight, j.time, covers=j.covers) for j in ints(IT if deep else IQ)]
    return js + [Job("r02f", j.case, j.weight, j.time) for j in floats(deep)]


prop("R02", "r02", lambda t: PROPS["J03"]["bounds"](t) + "; floats: " + PROPS["J04"]["bounds"](t), lambda: r02(0), lambda: both(r02(1)), outside=PROPS["J04"]["outside"], assumptions=PROPS["J04"]["assumptions"])


def r03(deep):
    js = splits(5, "r03", 0, weight=50) + J("r03", (1, 2, 7, 8), weight=3) + J("r03r", (0, 1, 2, 3, 4), weight=5) + J("r03b", (0, 1), weight=40)
    if deep:
        js += splits(5, "r03", 3) + J("r03", (9,)) + J("r03r", (5, 6, 7)) + J("r03b", (2,))
    return js


prop("R03", "r03", lambda t: PROPS["J05"]["bounds"](t).replace(", member value and member name", " and member value") + "; every raw text of %d bytes without quotes, backslashes and NUL" % (4 if t == "quick" else 7),
     lambda: r03(0), lambda: both(r03(1)), outside="longer literals; a raw NUL (the crate takes it for the end of the input)")


def rtexts(fn, n, m):
    js = [Job(fn, k * 100 + n, weight=n, covers=()) for k in range(0, 35)]
    for k in list(range(100, 118)) + list(range(120, 136)) + list(range(140, 144)) + list(range(150, 199)):
        js.append(Job(fn, k * 100 + m, weight=30 if k in (103, 126, 133) else m, covers=()))
    return js


def rshort(fn, n, m):
    return [j for i in range(0, n + 1) for j in rtexts(fn, i, min(i, m))]


R4X = lambda ns: J("r04f", [t * 100 + i for t in range(4) for i in ns], covers=()) + J("r04l", range(8), steps=80_000_000, covers=())
RX = lambda a, b: (lambda t: "every valid UTF-8 text of %d bytes for 35 types, and every UTF-8 text of %d bytes at one place of 87 document templates" % (a if t == "quick" else b))
prop("R04", "r04", lambda t: RX((4, 4), (6, 5))(t) + "; long documents (4000 comments, members, elements, quotes or escapes) around three arbitrary bytes", lambda: rtexts("r04", 4, 4) + R4X((3, 4)),
     lambda: both(rshort("r04", 6, 5) + R4X(range(0, 7))), outside="longer texts; recursion depth of nested typed values (see DESIGN.md)")
prop("T07", "t07", lambda t: "documents with one value of each of ten kinds (texts of up to %d bytes, numbers and dates with two free digits, infinity, empty and nested lists) under a free name, read by each of seven accessors; arrays of up to %d tables read by every index" % ((3, 4) if t == "quick" else (5, 8)),
     lambda: J("t07", range(1, 4)) + J("t07a", range(1, 5)), lambda: both(J("t07", range(0, 6)) + J("t07a", range(1, 9))), outside="longer texts and tables")
prop("R05", "r05", lambda t: "seven named types: members in all orders and subsets with one further member of any listed name (known, unknown, skipped, renamed) and any of 12 kinds of value; every subset of attributed members; up to three optional or defaulted members with repetition; numbers and characters arbitrary" + MX % ("three structs and variants", ""),
     lambda: mx("r05m", MXR) + J("r05", range(11), weight=9), lambda: both(mx("r05m", MXR) + J("r05", range(11), weight=9)), outside="larger structs")
prop("R06", "r06", lambda t: "20 documents; white space of %d arbitrary characters, a line comment or a block comment with %d arbitrary bytes of UTF-8, or two such in a row, at any token boundary; comments and runs of blanks or comments up to 65537 long at five places" % ((4, 4) if t == "quick" else (6, 6)),
     lambda: far("r06l", range(5), 0) + trivia("r06", 20, (0, 2, 4, 12)), lambda: both(far("r06l", range(5), 1) + trivia("r06", 20, (0, 1, 2, 3, 4, 5, 6, 10, 11, 12, 13))), outside="longer comments")
prop("R07", "r07", lambda t: RX((4, 4), (6, 5))(t) + ED(44), lambda: rtexts("r07", 4, 4) + J("r07m", range(44), weight=30, covers=(1, 2)), lambda: both(rshort("r07", 6, 5) + J("r07m", range(44), weight=30, covers=(1, 2))), outside="longer texts",
     assumptions=["the harness's own reader states what the notation means"])
prop("R08", "r08", lambda t: "six enum types (unit, tuple, struct, many variants, attributed fields, recursive), bare and as elements, members, map values and optional values: every variant name, near miss and one-letter name against 23 payload shapes with arbitrary digits" + ED(14),
     lambda: J("r08", range(12)) + J("r08m", range(14), covers=(1, 2)), lambda: both(J("r08", range(12)) + J("r08m", range(14), covers=(1, 2))), outside="other names and payloads (see R07 for arbitrary bytes)")

# -------------------------------------------------------------------- TOML
TPL = lambda fn, n, **kw: [Job(fn, k * 100 + i, weight=i * i + k // 40, covers=(), **kw) for k in range(60) for i in n]
TW = "at one of 60 places in documents (keys, headers, values, arrays, strings, comments, between statements)"
prop("T01", "t01", lambda t: "every UTF-8 text of up to %d bytes %s; long documents (hundreds or thousands of comments, parts of a key, elements, escapes, tables, quotes) followed by three arbitrary bytes" % (4 if t == "quick" else 5, TW),
     lambda: TPL("t01", (3, 4)) + J("t01l", range(12), weight=40, steps=2_400_000_000, covers=()), lambda: both(TPL("t01", (0, 1, 2, 3, 4, 5)) + J("t01l", range(12), weight=40, steps=2_400_000_000, covers=())), outside="longer texts; recursion on nested arrays (see DESIGN.md)")


def t02(deep):
    js = J("t02", (range(1, 11) if deep else range(1, 7)), weight=9) + J("t02", (101, 102, 103), weight=9)
    js += J("t02", [200 + i * 10 + f for i in range(1, 7 if deep else 4) for f in range(1, 7 if deep else 4)], weight=9)
    return js + J("t02", (300, 410, 419, 500, 600), weight=3)


prop("T02", "t02", lambda t: "in 11 places of a document: integers of up to %d digits with any sign and single underscores, and those of 18 to 23 digits around the limits of 64 bits; floats of up to %d+%d digits; the words true, false, inf, nan with signs and every one-letter change of them; every date and date with time" % ((6, 3, 3) if t == "quick" else (10, 6, 6)),
     lambda: t02(0), lambda: both(t02(1)), outside="longer literals; forms of TOML the crate does not support (exponents, hexadecimal, times with offset or fraction)", assumptions=["decimal to float conversion is the standard library's"])
prop("T03", "t03", lambda t: "every document of %d lines from 7 headers and keys and of %d lines from 15, with arbitrary digits and one-letter names; every character as part of a key or header; all accessors" % ((4, 3) if t == "quick" else (5, 4)),
     lambda: J("t03", (3, 103), weight=20) + splits(7, "t03", 104, weight=20) + J("t03", (0, 1, 2, 100, 101, 102, 200, 300), covers=()), lambda: both(splits(15, "t03", 4, weight=90) + splits(7, "t03", 105, weight=90) + J("t03", (3, 104)) + J("t03", (0, 1, 2, 101, 102, 103, 200, 300), covers=())),
     outside="arrays of tables inside arrays of tables (the crate has no representation for them); longer documents", assumptions=["the harness's own reader states where a key belongs"])
prop("T04", "t04", lambda t: "ten documents; at any place %d arbitrary blanks, a comment of %d arbitrary bytes of UTF-8 or %d arbitrary characters of empty lines, with either kind of line end" % ((4, 4, 4) if t == "quick" else (6, 6, 6)),
     lambda: J("t04", [d * 100 + w * 10 + n for d in range(10) for w in (0, 1) for n in ((1, 4) if w == 0 else (3,))]), lambda: both(J("t04", [d * 100 + w * 10 + n for d in range(10) for w in (0, 1) for n in range(7)])), outside="longer comments")


def t05(deep):
    js = J("t05", (0, 1, 2, 6, 7, 8), weight=9) + splits(3, "t05m", 0, weight=9) + splits(3, "t05m", 1, weight=9) + J("t05r", range(0, 8 if deep else 6), weight=9) + splits(8, "t05b", 0, weight=3) + splits(8, "t05b", 1, weight=3)
    if deep:
        js += splits(6, "t05", 3, weight=90) + J("t05", (9,), weight=90) + splits(3, "t05m", 2, weight=90) + splits(8, "t05b", 2, weight=9)
    return js


prop("T05", "t05", lambda t: "every spelling of every character alone, and %s of raw characters and short escapes around listed ones, as basic string in a value, element, key and header and as multi-line string with line ends, joined lines and quotes; every raw text of %d bytes; eight kinds of broken literals" % (("up to 3", 5) if t == "quick" else ("up to 4", 7)),
     lambda: t05(0), lambda: both(t05(1)), outside="longer literals; a raw NUL; literal (single-quoted) strings, which the crate does not support")
prop("T06", "t06", lambda t: "every UTF-8 text of %s bytes %s; nine documents with one token dropped, doubled, replaced, inserted or swapped, or cut short; documents with a name, string, comment, list or number of keys or tables up to 1000 long around one arbitrary character" % ("3 and 4" if t == "quick" else "up to 5", TW),
     lambda: TPL("t06", (3, 4)) + J("t06m", range(9), weight=30, covers=(1, 2)) + far("t06l", range(12), 0, 18), lambda: both(far("t06l", range(12), 1, 18) + TPL("t06", (0, 1, 2, 3, 4, 5)) + J("t06m", range(9), weight=30, covers=(1, 2))), outside="longer texts; values that begin like a number and are none, and keys that begin with a plus, are left open",
     assumptions=["the harness's own reader states what the notation means"])

# ------------------------------------------------- across the formats
def x01(deep):
    js = J("x01b", [t * 100 + n for t in range(14) for n in (range(0, 14) if deep else (3, 6, 9))] + [t * 100 + n for t in range(14, 20) for n in (range(7, 18) if deep else (8, 10, 12, 14))], covers=())
    js += J("x01j", range(19), weight=9, covers=(1, 2)) + J("x01r", range(19), weight=9, covers=(1, 2))
    return js + J("x01t", [t * 100 + n for t in range(12) for n in (range(0, 7) if deep else (1, 3, 4))], covers=())


prop("X01", "x01", lambda t: "20 binary types on every input of %s bytes, 19 documents of JSON and RON each with one edit at any token, and %s arbitrary bytes of text inside 12 documents; all element types own heap memory and record being dropped" % (("listed lengths up to 14", "up to 4") if t == "quick" else ("up to 17", "up to 6")),
     lambda: x01(0), lambda: both(x01(1)), outside="longer inputs; element types whose drop panics")


def x02(deep):
    js = []
    jk = list(range(0, 35)) + list(range(100, 115)) + list(range(120, 129)) + list(range(130, 136)) + list(range(140, 144)) + list(range(150, 160)) + list(range(170, 196))
    rk = list(range(0, 35)) + list(range(100, 118)) + list(range(120, 136)) + list(range(140, 144)) + list(range(150, 199))
    for fn, ks in (("x02j", jk), ("x02r", rk), ("x02t", range(60))):
        js += [Job(fn, k * 100 + n, weight=n + k // 100, covers=()) for k in ks for n in ((0, 1, 2, 3, 4) if deep else (3,))]
    for fn, ds in (("x02pj", 10), ("x02pr", 10), ("x02pt", 6)):
        for d in range(ds):
            ns = range(0, 3 if d in (4, 5) and fn != "x02pt" else 4) if deep else {4: (1,), 5: (0,)}.get(d, (2,)) if fn != "x02pt" else (2,)
            for n in ns:
                js += splits(4, fn, d * 10 + n, weight=60, time=800) if n > 2 else [Job(fn, d * 10 + n, weight=30)]
    for f in range(3):
        js += far("x02l", range(f * 10, f * 10 + 7), deep)
    return js


prop("X02", "x02", lambda t: "every UTF-8 text of %s bytes for 35 types and inside the templates of J06, R04 and T01, with everything behind the error position replaced by up to two arbitrary characters; 26 documents with a stray character, a cut or a token of the wrong kind at any place and arbitrary trivia of %d characters at any earlier one; a stray character behind blanks, lines, comments, strings, lists or a name of up to 65537 characters" % (("3", 2) if t == "quick" else ("up to 4", 3)),
     lambda: x02(0), lambda: both(x02(1)), outside="longer texts; which of several possible complaints the message makes")


def x03(deep):
    js = J("x03", [f * 10000 + t * 1000 + k * 10 + l for f in (0, 1) for t in (0, 1) for k in (1, 19) for l in (1, 9, 0)], weight=20, covers=(1, 2))
    js += J("x03", [f * 10000 + t * 1000 + 210 + l for f in (0, 1) for t in (0, 1) for l in (1, 9, 0)], weight=5, covers=(2,))
    js += J("x03t", range(11), weight=5)
    if deep:
        js += J("x03", [f * 10000 + t * 1000 + k * 10 + l for f in (0, 1) for t in (0, 1) for k in (20, 18, 2) for l in (1, 9, 0, 2)], weight=90, covers=(2,), time=900)
    return js


prop("X03", "x03", lambda t: "JSON and RON documents of up to three members named secs, nanos or anything of 4 or 5 characters, in any order, with every number of 1 or 19 digits%s for the seconds and 1, 9 or 10 for the nanoseconds, of either sign, read as Duration and as SystemTime; every time with symbolic seconds or nanoseconds before and after the epoch through all three formats" % (" and those of 20 digits around 2^64" if t == "quick" else ", 2, 18 and 20 digits"),
     lambda: x03(0), lambda: both(x03(1)), outside="times whose seconds and nanoseconds are both free (see B01, J01, R01); a negative zero")


def x04(deep):
    js = J("x04b", [k * 100 + n for k in range(6) for n in (range(0, 11) if deep else (0, 1, 3, 4, 6, 7))], covers=())
    js += J("x04j", range(21), weight=20, covers=(1, 2)) + J("x04r", range(5), weight=20, covers=(1, 2))
    js += J("x04t", [k * 100 + n for k in range(18) for n in (range(0, 6) if deep else (3, 4))], weight=9, covers=())
    return js + J("x04w", range(22), weight=5)


prop("X04", "x04", lambda t: "26 edited documents and %s arbitrary bytes in 18 places of JSON and RON documents, and every input of up to %d bytes for six binary types, for proxied structs, proxied fields (optional, renamed, defaulted, in variants and tuple structs), containers of proxied types and transparent structs around nine types; 21 kinds of symbolic values written" % (("3 and 4", 7) if t == "quick" else ("up to 5", 10)),
     lambda: x04(0), lambda: both(x04(1)), outside="proxies whose conversion panics; longer texts")


def x06(deep):
    ns = lambda q, d: d if deep else q
    js = []
    for f in ("x06aj", "x06ar"):
        js += J(f, [0, 500, 600, 700, 900, 1500, 1503], weight=30) + J(f, [g * 100 + n for g in (1, 2, 3, 4) for n in ns((2,), (0, 1, 2, 3))], weight=9) + J(f, [800] + ns([], [801, 1003, 1103, 1302]) + ns([1002, 1102, 1310], [1310, 1340]), weight=9)
    for f in ("x06j", "x06r"):
        js += J(f, [0, 500, 700, 900], weight=9) + J(f, [600, 800, 1002], weight=40) + J(f, [g * 100 + n for g in (1, 2, 3, 4) for n in ns((1,), (0, 1, 2))] + [1102, 1310], weight=15)
        if deep:
            js += J(f, (801, 1003), weight=90)
    return js + J("x06k", range(0, 5 if deep else 4), covers=())


prop("X06", "x06", lambda t: "every value of the types of J01 and R01 (strings and collections of up to %d) written twice behind two arbitrary bytes of text; values of small structs, enums, collections and durations read twice in a row between two numbers, with one arbitrary blank, line comment or block comment; strings of up to %d bytes between values of other kinds" % ((2, 3) if t == "quick" else (3, 4)),
     lambda: x06(0), lambda: both(x06(1)), outside="longer streams; separators other than blanks and comments")

def x07(deep):
    js = J("x07m", range(10), weight=3) + J("x07t", list(range(15)) + list(range(100, 115))) + J("x07p", range(3)) + J("x07b", (0,))
    js += J("x07e", [10 * k + n for k in range(9) for n in (range(1, 10) if deep else (1, 2, 3, 5, 9))], weight=2)
    js += J("x07w", range(1, 10) if deep else (1, 3, 4, 5, 9), weight=2)
    least = {0: 3, 1: 3, 2: 5, 3: 5, 4: 10, 5: 10}
    return js + J("x07r", [1000 * t + 100 * s + n for t in least for s in (0, 1) for n in range(least[t], 20) if deep or n in (3, 4, 5, 10, 19)], weight=3)


prop("X07", "x07", lambda t: "one required member missing from one of 10 documents (one with underscores, digits, capitals, umlauts and 80 letters in names), in every rotation and direction, with further members; a variant or RON member name of up to %d letters and digits, or 201 long, at nine places; integers of up to 19 digits beyond one of six types; each of 13 (JSON) or 14 (RON) kinds of token where another is needed, at 15 places; bare words of up to %d letters; all lines and columns below 65536 in the text of an error of each kind" % ((5, 5) if t == "quick" else (8, 8)),
     lambda: x07(0), lambda: both(x07(1)), outside="the wording of messages; which of several faults is reported")
