"""What each property's check compiles and runs. See DESIGN.md for the reasons."""
import functools, itertools, random
import corpus, xprgen
from corpus import BASE, FLAG, quant_family, randoms, uniq
from runner import Unit, lit

STD_ASSUME = [
    "the reference meaning (harness/ref.hpp) states the documented syntax and semantics; it is written independently of the library and both are executed on the same symbolic input",
    "the code executed is clang's -O1 LLVM IR of the templates in /repo/include instantiated for each listed pattern; another compiler's code generation is not covered",
    "exceptions are not modelled (-fno-exceptions); allocation does not fail",
]
STD_OUTSIDE = ("patterns that are not in the generated corpus; inputs longer than the reported bound per harness; "
               "character types other than char")


class Plan:
    def __init__(self, units, bounds, preludes=("common.hpp",), outside=STD_OUTSIDE, assumptions=STD_ASSUME, cost=150000,
                 time_per_run=20.0, steps=None, tu_weight=10.0, extra=None, needs=("matched", "not matched")):
        self.units, self.bounds, self.preludes, self.outside = units, bounds, list(preludes), outside
        self.assumptions, self.cost, self.time_per_run, self.steps = assumptions, cost, time_per_run, steps
        self.tu_weight, self.extra, self.needs = tu_weight, extra, needs


def fl(flags):
    return "".join(", meta::regex_flag::" + FLAG[c] for c in flags)


def show(p, f="", more=""):
    return "/%s/%s%s" % (p.encode("unicode_escape").decode(), f, " " + more if more else "")


OPS = ("match", "prefix", "search", "tokens", "finds")
ALL = "hx::ALL"
_count = [0]


def unit(type_text, ops, label, runs, weight=None):
    """A unit whose functions are static members `ops` of one type."""
    _count[0] += 1
    name = "h%d" % _count[0]
    decl = "using T_%s = %s;\n" % (name, type_text)
    jobs = []
    for op in ops:
        fn = "%s_%s" % (name, op)
        decl += 'extern "C" void %s(unsigned long n) { T_%s::%s(n); }\n' % (fn, name, op)
        for r in runs if isinstance(runs, (list, tuple)) else [runs]:
            jobs.append((fn, [r]))
    return Unit(decl, jobs, label, weight=weight or 0.4 + 0.6 * len(ops))


def ops_units(pats, ops, what=ALL, top=9):
    return [unit("hx::Std<%s, %s%s>" % (lit(p), what, fl(f)), ops, show(p, f), "0..%d" % top) for p, f in uniq(pats)]


def sized_units(ks, kinds, ops, what=ALL, flags="", source=None):
    """Structures of growing size; each on the input lengths at which its parts matter."""
    out = []
    for kind, p, f, lens in corpus.sized(ks, kinds):
        f = "".join(sorted(set(f + flags)))
        t = ("hx::It<%s, %s, hx::%s%s>" % (lit(p), what, source, fl(f))) if source else "hx::Std<%s, %s%s>" % (lit(p), what, fl(f))
        out.append(unit(t, ops, show(p, f, "sized" + (" " + source if source else "")), list(lens), weight=0.6 + 0.8 * len(ops)))
    return out


KS_QUICK, KS = (3, 4, 5, 6, 7, 9, 12), (3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 17, 20)


def ks(tier, top=99):
    return [k for k in T(tier, KS_QUICK, KS) if k <= top]


# more parts than the size of any usual chunk, and groups up to what the reference holds
BIG = (17, 20, 34)
BIG_FREE = ("seq", "seqsets", "altset", "set", "setneg", "setmix", "setmixneg", "hex", "altpri", "icase")
BIG_CAPS = ("seqcap", "altcap", "nest", "names", "namesalt", "namesmix", "backref", "ahead", "atomic")


def big_units(kinds, ops, what=ALL, flags="", source=None, tops=BIG):
    return [u for k in tops for u in sized_units((k,), [x for x in kinds if x in BIG_FREE or x.startswith("behind") or k <= 20], ops, what, flags, source)]


STRAIGHT = ("seq", "seqcap", "alt", "altcap", "altset", "altloop", "set", "setneg", "nest", "names", "namesalt", "namesmix", "backref", "backrefs", "behind", "behindcap", "behindneg", "behindmix", "behindalt", "ahead", "aheadneg", "atomic",
            "rep", "repcap", "reprange", "repseq", "anch", "looks", "seqsets", "loops", "icase", "hex", "altpre", "altprerev", "altpri", "altov", "altovcap", "altovloop", "altovc", "altcapsets", "altpossov", "behindov", "setmix", "setmixneg")


def it_units(pats, source, ops, what=ALL, runs="0..7", label=None):
    return [unit("hx::It<%s, %s, hx::%s%s>" % (lit(p), what, source, fl(f)), ops, show(p, f, label or source), runs, weight=0.6 + 0.8 * len(ops))
            for p, f in uniq(pats)]


def whole_units(pats, container, ops, runs="0..6"):
    return [unit("hx::Whole<%s, %s%s>" % (lit(p), container, fl(f)), ops, show(p, f, "as " + container), runs, weight=0.6 + 1.0 * len(ops))
            for p, f in uniq(pats)]


def long_units(pats, ops, lengths, what=ALL):
    """pats: (pattern, flags, filler)"""
    return [unit("hx::It<%s, %s, hx::Long<%s>%s>" % (lit(p), what, lit(t), fl(f)), ops, show(p, f, "on long text of " + repr(t)), list(lengths), weight=2)
            for p, f, t in pats]


def long_as_units(pats, source, ops, lengths, what=ALL):
    """pats: (pattern, flags, filler); source: format with the filler as %s"""
    return [unit("hx::It<%s, %s, hx::%s%s>" % (lit(p), what, source % lit(t), fl(f)), ops, show(p, f, "on long text of " + repr(t) + " as " + source.split(",")[0]), list(lengths), weight=2)
            for p, f, t in pats]


def hole_units(skeletons, flags, op, what, runs, alphabet="", k=1):
    out = []
    for s in skeletons:
        for f in flags:
            out.append(unit("hx::Holes<%s, %s, %d, %s, hx::%s%s>" % (lit(s), lit(alphabet), k, what, op, fl(f)), ("run",),
                            show(s.translate({1: "\u25a1", 2: "\u25b3", 3: "\u25cb", 4: "\u25c6", 5: "\u25c7", 6: "\u25c6", 7: "\u25c7"}), f, "with every filling"), runs, weight=12))
    return out


def syntax_units(skeletons, alphabet="", k=1, weight=6):
    return [unit("hx::Syntax<%s, %s, %d>" % (lit(s), lit(alphabet), k), ("run",),
                 "syntax of /%s/ for every filling" % s.translate({1: "\u25a1", 2: "\u25b3", 3: "\u25cb"}), 0, weight=weight) for s in skeletons]


def poss_ok(p):
    return True


def forward_ok(p):
    return not any(x in p for x in ("\\b", "\\B", "(?<=", "(?<!"))


ALLF = ("classes", "names", "atomic", "look", "anchor", "ref", "poss")
FLAGSETS = ("", "", "", "", "i", "s", "m", "U", "u", "im", "is", "Uu", "mu", "iU", "ismU")
POSS_BODIES = ["a", "[ab]", ".", "(a)", "(?:ab)", "(a|b)", "(a|ab)", "(?:ab|a)", "(?:a|bc)"]
LONG = [("a*b", "", "a"), ("(a|b)*c", "", "ab"), ("(?:ab)*", "", "ab"), ("a*?b", "", "a"), ("(?:a|b)*?c", "", "ab"), ("a*+b?", "", "a"), ("(?:ab)*+.", "", "ab"),
        ("a+", "u", "a"), ("[^c]*c", "", "abd"), ("(a*)(b*)", "", "a"), ("(a+)b?$", "", "a"), (".*", "", "xy"), ("a{200,}", "", "a"), ("a{130}", "", "a"), ("(?:a|b){130}", "", "ab"),
        ("a*a{20}", "", "a"), ("a*a{70}b?", "", "a"), ("[ab]*[ab]{70}", "", "ab"), ("(?:ab)*(?:ab){40}", "", "ab"), ("(?:a|b)*(?:ab){36}", "", "ab"), ("(.*)a{90}$", "", "a"), (".*b.{70}", "", "a"), ("(a*)(a{120})", "", "a"), ("a{5,}a{69}", "u", "a"),
        ("a{2,140}b?", "", "a"), ("(?:ab){2,70}", "", "ab"), ("a{256}", "", "a"), ("a{257,}b?", "", "a"), ("(?:ab){256}", "", "ab"), ("a{0,300}b", "", "a"), ("a{0,300}?b", "", "a"), ("(?:a|b){256,300}?c", "", "ab"), ("(a){300}+a?", "", "a"), ("a{300}", "u", "a")]

# long fixed repetitions, references to long groups and giving back on other iterators
LONG_ITER = [("a{140}", "", "a"), ("a{256}", "", "a"), ("(a){130}", "", "a"), ("[ab]{129}", "", "ab"), ("(?:ab){65}", "", "ab"), ("(?:a|b){130}", "", "ab"), ("a*b", "", "a"), ("a*a{70}b?", "", "a"), ("(a*)b\\1", "", "a"), ("(a{64})\\1", "", "a"), ("a*?b", "", "a"), ("a*+.", "", "a"), ("a{2,140}b?", "", "a"), ("(?:ab)*(?:ab){40}", "", "ab"), ("a{140}", "u", "a"), ("(?>a{70}|b)a{60}", "", "a"), ("(?=a{100}).", "", "a")]


# ---- texts of more than 65536 characters: n times 'a', then two symbolic characters x and y. The outcome has a closed form. ----
XA, XYA = "(x == 'a')", "(x == 'a' && y == 'a')"
RUN = "(n + %s + %s)" % (XA, XYA)                    # length of the leading run of a's
B_AT = "(x == 'b' ? n : x == 'a' && y == 'b' ? n + 1 : -1)"   # position of a b that ends the run, or -1
ANYB = "(x == 'b' ? n : y == 'b' ? n + 1 : -1)"      # position of the first b
END_A = "(x == 'a' && y == 'a')"
# (operation, pattern, flags, first, last): -1 for no match
HUGE = ([("prefix", p, f, "0", RUN) for p in ("a*", "a+", "a*+", "a{2,}", "a{2,}+", "[ac-d]*" if False else "a{0,}") for f in ("", "u")] +
        [("prefix", p, f, "0", "(%s < 0 ? -1 : %s + 1)" % (B_AT, B_AT)) for p in ("a*b", "a*+b", "a*?b", "a+?b", "a{3,}?b", "[a]*b") for f in ("",)] +
        [("prefix", "a+?b", "U", "0", "(%s < 0 ? -1 : %s + 1)" % (B_AT, B_AT)), ("prefix", "[^b]*", "s", "0", "(%s < 0 ? n + 2 : %s)" % (ANYB, ANYB)), ("prefix", "[^b]*+b", "", "0", "(%s < 0 ? -1 : %s + 1)" % (ANYB, ANYB)),
         ("prefix", "[^]*b", "", "0", "(y == 'b' ? n + 2 : x == 'b' ? n + 1 : -1)"), ("prefix", "[^]*?b", "", "0", "(%s < 0 ? -1 : %s + 1)" % (ANYB, ANYB)),
         ("match", "a*", "", "0", "(%s ? n + 2 : -1)" % END_A), ("match", "a*+", "", "0", "(%s ? n + 2 : -1)" % END_A), ("match", "a*?", "", "0", "(%s ? n + 2 : -1)" % END_A), ("match", "a*[^]", "", "0", "(%s ? n + 2 : -1)" % XA), ("match", "a*?b[^]", "", "0", "(x == 'b' ? n + 2 : -1)"),
         ("match", "(a*)[^][^]", "", "0", "n + 2"), ("search", "b", "", ANYB, "(%s < 0 ? -1 : %s + 1)" % (ANYB, ANYB)), ("search", "ab", "", "(%s < 0 ? -1 : %s - 1)" % (B_AT, B_AT), "(%s < 0 ? -1 : %s + 1)" % (B_AT, B_AT)),
         ("search", "[^a]", "", "(x != 'a' ? n : y != 'a' ? n + 1 : -1)", "(x != 'a' ? n + 1 : y != 'a' ? n + 2 : -1)"), ("search", "(?<=a)b", "", B_AT, "(%s < 0 ? -1 : %s + 1)" % (B_AT, B_AT)), ("search", "$", "", "n + 2", "n + 2"), ("search", "b?\\Z", "", "(y == 'b' ? n + 1 : n + 2)", "n + 2"),
         ("prefix", "a{66000}", "", "0", "66000"), ("prefix", "a{66003}", "", "0", "(n == 66001 && %s ? 66003 : -1)" % END_A), ("prefix", "a{0,66000}", "", "0", "66000"), ("prefix", "a{0,66002}+", "", "0", "(%s < 66002 ? %s : 66002)" % (RUN, RUN)),
         ("prefix", "a{0,66002}?b", "", "0", "(%s < 0 ? -1 : %s + 1)" % (B_AT, B_AT))])


def huge_units(ops, n=66001):
    out = []
    for op, p, f, first, last in HUGE:
        if op not in ops:
            continue
        _count[0] += 1
        fn = "h%d_%s" % (_count[0], op)
        decl = ('extern "C" void %s(unsigned long k) { hx::HugeText t(k); int n = (int)k; auto x = t.data[n]; auto y = t.data[n + 1]; (void)x; (void)y;\n'
                '  auto r = meta::regex<%s%s>::%s(t.begin(), t.end()); hx::huge_is(r, t, %s, %s); }\n') % (fn, lit(p), fl(f), {"prefix": "match_prefix"}.get(op, op), first, last)
        out.append(Unit(decl, [(fn, [n])], show(p, f, op + " on %d characters" % (n + 2)), weight=1.5))
    return out


def T(tier, quick, thorough):
    return quick if tier == "quick" else thorough


def general(tier, seed, n, stride=1):
    """Corpus for the properties about whole operations."""
    quick = tier == "quick"
    pats = list(BASE)
    pats += quant_family(rests=("", "a", "b")) if not quick else quant_family(rests=("a",))[::stride]
    pats += quant_family(modes=("+",), rests=("", "b") if not quick else ("b",), bodies=POSS_BODIES[::1 if not quick else 2])
    pats += [(p, f) for p, _ in BASE[::1 if not quick else 3] for f in ("i", "U", "u", "m")]
    pats += randoms(seed * 7919 + 1, n, ALLF, FLAGSETS)
    pats += nested_pats(seed, T(tier, 500, 6000), flags=("", "", "", "u", "U"))
    return uniq(pats)


NEST_W = ["%s", "%sb", "%sa", "a?%sb", "(%s)c?", "(?:%s|b)c", "(?:b|%s)$", "(?=%s).*", "(?!%s).", ".?(?<=%s)b?", "(?>%s)a?", "(?:%sb?){2}", "(?:%s){1,2}?c", "^%s$"]
CAP_BODIES = [x for x in corpus.Q_BODIES if "(a" in x[0] or "(b" in x[0] or "((" in x[0]]


def nested_pats(seed, n, wrappers=NEST_W, inner=None, flags=("",)):
    q = [t for t, _ in (inner if inner is not None else corpus.quantified())]
    return [(p, flags[i % len(flags)]) for i, (p, _) in enumerate(corpus.nested(seed, n, wrappers, q))]


# contents that depend on the text before them, in every construct that passes the range on
BEHIND_LOOK = ["(?<=a).", "(?<!a).", "(?<=a)b|a", "(?<=(a|b)).", "(?<=^a)b|a"]
BEHIND_ANCH = ["\\B.", "\\b.", "\\Bb|a", "^a|\\n|(?:^)b", "\\Aa|b"]


def window_pats(bodies, flags=("",), modes=("", "?", "+"), groups=True):
    wraps = ["(?:%s)", "(%s)", "(?:%s|x)", "(?:x|%s)", "(?>%s)", "(?=%s).", "(?!%s).", "(?<n>%s)", "(?=(?:%s)+)."] if groups else []
    wraps += ["(?:%%s)%s%s" % (q, m) for q in ("*", "+", "?", "{2}", "{3}", "{1,2}", "{2,}", "{0,2}", "{2,4}", "{1}") for m in modes if not (q == "{1}" and m != "+")]
    wraps += ["(%%s)%s%s" % (q, m) for q in ("*", "{2}", "{1,3}") for m in modes]
    out = []
    for i, w in enumerate(wraps):
        for j, b in enumerate(bodies):
            f = flags[(i + j) % len(flags)]
            out.append((("a%s", "a?%s", ".%sc?", "b?%s$")[(i + j) % 4] % (w % b), f))
    return out


def loops_of(inner):
    """Unbounded loops around quantified parts."""
    out = []
    for t, nul in inner:
        for w in ("(?:%s)*b", "(?:%s)+", "(?:%s)*?b", "(?:%s)+?b", "(?:%s){2,}", "(%s)*", "(?:a|%s)*b", "(?:%s|b)+c", "(?:%sb?)*c", "(?:b?%s)*", "(?:%s(a?))*", "(?:(?:%s)+)*b"):
            out.append((w % t, True))
    return out


def text_bounds(pats, more=""):
    return "%d patterns%s; every input of every length up to the per-harness bound in bound_histogram" % (len(pats), more)


def cost(tier, q=600000, t=8000000):
    return T(tier, q, t)


def c01(tier, seed):
    pats = general(tier, seed, T(tier, 420, 5000))
    us = ops_units(pats, ("match",), "hx::VERDICT | hx::EXTENT")
    us += long_units(LONG, ("match",), T(tier, (131, 260, 700), (131, 260, 300, 520, 1030)), "hx::VERDICT | hx::EXTENT")
    us += sized_units(ks(tier), STRAIGHT, ("match",), "hx::VERDICT | hx::EXTENT")
    us += sized_units(ks(tier, 6), ("seqopt", "opts", "nestq"), ("match",), "hx::VERDICT | hx::EXTENT")
    us += big_units(BIG_FREE + BIG_CAPS, ("match",), "hx::VERDICT | hx::EXTENT")
    us += huge_units(("match",))
    return Plan(us, text_bounds(pats, "; 17 patterns on texts of up to 260 characters with 3 symbolic characters"), preludes=("iters.hpp",), cost=cost(tier))


def c02(tier, seed):
    pats = general(tier, seed + 100, T(tier, 420, 5000))
    us = ops_units(pats, ("prefix",), "hx::VERDICT | hx::EXTENT")
    us += long_units(LONG, ("prefix",), T(tier, (131, 260, 700), (131, 260, 300, 520, 1030)), "hx::VERDICT | hx::EXTENT")
    us += sized_units(ks(tier), STRAIGHT, ("prefix",), "hx::VERDICT | hx::EXTENT")
    us += sized_units(ks(tier, 6), ("seqopt", "opts", "nestq"), ("prefix",), "hx::VERDICT | hx::EXTENT")
    us += big_units(BIG_FREE + BIG_CAPS, ("prefix",), "hx::VERDICT | hx::EXTENT")
    us += huge_units(("prefix",))
    return Plan(us, text_bounds(pats, "; 17 patterns on texts of up to 260 characters with 3 symbolic characters"), preludes=("iters.hpp",), cost=cost(tier))


def c03(tier, seed):
    pats = general(tier, seed + 200, T(tier, 380, 5000))
    us = ops_units(pats, ("search",), ALL)
    us += long_units(LONG[:6], ("search",), T(tier, (60,), (60, 131)), ALL)
    us += long_units([("b", "", "a"), ("bb?", "", "a"), ("(b)|(c)", "", "a"), ("\\bb", "", "a"), ("$", "", "a"), ("b*$", "", "a"), ("(?<=b).", "", "a")], ("search",), (131, 260), ALL)
    us += sized_units(ks(tier, 7), [x for x in STRAIGHT if x not in ("reprange", "repseq")], ("search",))
    us += sized_units(ks(tier, 4), ("reprange", "repseq"), ("search",))
    us += sized_units(ks(tier), ("alt", "altcap", "altset", "set", "setneg", "nest", "namesalt", "behindalt", "anch", "looks", "altpri", "altov", "altovcap", "altovc", "altcapsets"), ("search",))
    us += huge_units(("search",))
    return Plan(us, text_bounds(pats), preludes=("iters.hpp",), cost=cost(tier))


# ---- single characters -------------------------------------------------------------------------------
CHAR_SKELETONS = ["\1", "\\\1", "[\1]", "[^\1]", "[a\1]", "[\1-\xff]", "[\0-\1]", "[\1-z]", "[a-\1]", "[\\\1]", "[^\\\1]", "[^a-\1]", "[\1\\d]", "[^\\s\1]",
                  "\\x\4\5", "\\x\6\7", "[\\x\4\5]", "[^\\x\4\5]", "[\\x\4\5-\\x\6\7]", "[\\x00-\\x\4\5]", "[\\x\4\5-\\xff]", "[A-\\x\4\5]", "[\\x\4\5-\\x5a]", "[\1-\1]", "[\\\1-~]", "[ -\\\1]"]
CLASSES = ["\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\R", "\\N", ".", "[]", "[^]", "\\0", "\\n", "\\r", "\\t", "\\f", "\\v", "\\a", "\\e", "[\\b]", "[\\d]", "[^\\d]", "[\\D]", "[^\\D]",
           "[\\w]", "[^\\w]", "[\\W]", "[^\\W]", "[\\s]", "[^\\s]", "[\\S]", "[^\\S]", "[\\R]", "[^\\R]", "[\\N]", "[^\\N]", "[\\d\\s]", "[\\D\\S]", "[^\\d\\s]", "[\\w-]", "[-\\w]", "[\\d-z]", "[a-c\\d_]",
           "[a-cx-z]", "[a-c-e]", "[^a-cx-z]", "[\\0-\\n]", "[\\t-\\r]", "[\\x41-\\x5a]", "[\\x7f-\\x80]", "[^\\x7f-\\x80]", "[.]", "[*+?]", "[(|)]", "[{}]", "[$^]", "[\\^a]", "[\\]]", "[\\\\]", "[^\\]\\\\]", "[\\-a]",
           "[a\\-z]", "[+--]", "[--/]", "[!-~]", "[ -/:-@]", "[^\\x00]", "[\\n\\r]", "[^\\n\\r]", "(?:a|b|\\d)", "(?:\\s|[x-z])", "[a-z0-9]", "[A-Za-z_]", "[^A-Za-z0-9_]"]


def c04(tier, seed):
    us = hole_units(CHAR_SKELETONS, ("",), "PREFIX", "hx::VERDICT | hx::EXTENT", "0..2")
    us += hole_units([s for s in ("\1", "[\1]", "[^\1]", "[\1-z]", "[!-\1]", "\\\1", "[\\\1]")], T(tier, ("smUu",), ("s", "m", "U", "u", "smUu")), "PREFIX", "hx::VERDICT | hx::EXTENT", "0..2")
    us += ops_units([(c, f) for c in CLASSES for f in ("", "s", "u", "m")], ("prefix",), "hx::VERDICT | hx::EXTENT", 3)
    us += ops_units([(w % c, f) for c in CLASSES[:13] + CLASSES[20:40:2] for w in ("%s{2}", "x%sy", "%s*b", "(%s)+", "%s+?.", "(?=%s).", "(?<=%s).", "%s%s" if False else "(?:%s)%%s".replace("%%s", "")) for f in ("",)],
                    ("match", "search"), "hx::VERDICT | hx::EXTENT", 3)
    rng = random.Random(seed * 31 + 4)
    chars = "abcxyzAZ09_ -^]\\.\n\r\t\x00\x80\xff\x7f@[`{/:"

    def esc(c):
        return "\\" + c if c in "]\\^-" else c
    sets = []
    for _ in range(T(tier, 150, 3000)):
        parts = []
        for _ in range(rng.randint(1, 4)):
            k = rng.random()
            if k < 0.45:
                parts.append(esc(rng.choice(chars)))
            elif k < 0.7:
                a, b = sorted(rng.sample(chars, 2))
                parts.append(esc(a) + "-" + esc(b))
            elif k < 0.85:
                parts.append("\\" + rng.choice("dDwWsSRN"))
            else:
                a, b = sorted((rng.randrange(256), rng.randrange(256)))
                parts.append("\\x%02x-\\x%02X" % (a, b))
        sets.append((("[^" if rng.random() < 0.4 else "[") + "".join(parts) + "]", rng.choice(["", "u", "s", "m", "U", "sm", "smUu"])))
    us += ops_units(sets, ("prefix",), "hx::VERDICT | hx::EXTENT", 2)
    us += sized_units(ks(tier), ("set", "setneg", "altset", "seqsets", "hex", "seq", "setmix", "setmixneg"), ("prefix",), "hx::VERDICT | hx::EXTENT")
    us += big_units(("set", "setneg", "altset", "seqsets", "hex", "seq", "setmix", "setmixneg"), ("prefix",), "hx::VERDICT | hx::EXTENT")
    return Plan(us, "%d pattern families over all 256 byte values in a hole, %d classes and sets; every input of up to 3 characters" % (len(CHAR_SKELETONS), len(CLASSES) + len(sets)),
                preludes=("holes.hpp",), cost=10**9)


ICASE_PATS = ["(.)\\1", "(?<x>.)\\k<x>", "(..)\\1", "([a-z])\\1", "([A-Z])\\1", "(\\w)x\\1", "([^a])\\1", "(a)\\1", "(@)\\1", "(\\[)\\1", "(.)(?=\\1)", "(.)(?<=\\1)", "(.).*(?<=\\1.)", "(?:(.)|\\1)*", "(.)\\1+", "(.)\\1{2}",
              "hello", "HeLLo", "a[b-d]E", "[a-c]+[X-Z]*", "[^a-c]+", "[^A-C]x", "a{2}", "[aB]{2,3}", "(?:ab|CD)+", "a*B", "x+?Y", "(?=A)a", "(?<=A)b", "(?!A).", "(?<!A).", "(?>A|b)c", "[\\w]", "\\w", "\\d", "[^\\W]", "\\x41", "\\x61", "[\\x41-\\x5a]", "[\\x61-\\x7a]",
              "[!-a]", "[Z-a]", "[@-\\[]", "[`-{]", "[A-z]", "[y-~]", "[ -B]", "[^Z-a]", "[k-m]", "[K-M]", "[a-a]", "[Z-\\[]", "[`-a]", "[@-A]", "[z-{]", "_", "\\xe9", "[\\xe0-\\xfe]", "\\xc9", "[\\xc0-\\xde]", "\\x00", "\\x20", "\\x5b", "\\x7b", "\\x40", "\\x60", "k", "s"]


def c05(tier, seed):
    skel = ["\1", "[\1]", "[^\1]", "[\1-z]", "[\1-\xff]", "[a-\1]", "[\0-\1]", "[A-\1]", "[^a-\1]", "[^\1-\xff]", "[\1-Z]", "[\1x]", "\\\1", "[\\\1]", "\\x\4\5", "[\\x\4\5-\\xff]", "[\1\\d]"]
    if tier == "quick":
        skel = ["\1", "[^\1]", "[\1-z]", "[\1-\xff]", "[a-\1]", "[\0-\1]", "[A-\1]", "[^a-\1]", "\\\1", "[\\\1]", "\\x\4\5"]
    us = hole_units(skel, ("i",), "PREFIX", "hx::VERDICT | hx::EXTENT", "0..2")
    us += hole_units(["\1", "[\1-z]"], ("",), "PREFIX", "hx::VERDICT | hx::EXTENT", "1..1")
    us += hole_units(["\1", "[^\1]", "[\1-z]", "[A-\1]"], T(tier, ("ismUu",), ("is", "im", "iU", "iu", "ismUu")), "PREFIX", "hx::VERDICT | hx::EXTENT", "0..2")
    us += ops_units([(p, f) for p in ICASE_PATS for f in ("i", "")], ("match", "search"), ALL, 4)
    us += ops_units([(p, f) for p in ICASE_PATS for f in ("iu", "im", "is", "iU")], ("prefix",), ALL, 4)
    us += ops_units([(p, "i") for p in ICASE_PATS[::2]], ("finds",), ALL, 4)
    us += ops_units([(c, "i") for c in CLASSES], ("prefix",), "hx::VERDICT | hx::EXTENT", 2)
    us += ops_units(randoms(seed * 13 + 5, T(tier, 120, 3000), ALLF, ("i", "i", "iu", "im", "")), ("prefix",), ALL, 6)
    us += ops_units(randoms(seed * 13 + 6, T(tier, 60, 2000), ("ref", "names", "classes"), ("i",), alphabet="aBz@[`{", need=lambda p: "\\1" in p or "\\k" in p), ("match",), ALL, 5)
    us += it_units([(p, "i") for p in ICASE_PATS[:16]], "Checked<hx::bidi_it>", ("prefix",), runs="0..4")
    us += sized_units(ks(tier), ("icase", "alt", "altset", "set", "setmix", "setmixneg", "altcapsets", "setneg", "seqsets", "backref", "backrefs", "behind"), ("prefix",), flags="i")
    us += big_units(("icase", "altset", "set", "setmix", "setmixneg", "seqsets", "backref", "behind"), ("prefix",), flags="i")
    return Plan(us, "%d pattern families over all 256 byte values in a hole, %d patterns; every input of up to 6 characters" % (len(skel) + 2, len(ICASE_PATS)),
                preludes=("holes.hpp", "iters.hpp"), cost=T(tier, 10**6, 10**8))


ANCHORS = ["^", "$", "\\A", "\\Z", "\\b", "\\B", "^a", "a$", "^a$", "^.", ".$", ".^", "$.", "^.*$", "^.+$", "^$", "(?:^|b)a", "a(?:$|b)", "\\n^", "^\\n", "\\r^", "^\\r", "$\\n", "$\\r", "\\R^", "$\\R", "\\A.", ".\\Z", "\\A\\Z", ".\\A", "\\Z.",
           "\\A^", "^\\A", "$\\Z", "\\Z$", "^\\w", "\\w$", "\\b.", ".\\b", ".\\b.", ".\\B.", "\\B.", ".\\B", "\\b\\w+\\b", "\\B\\w+\\B", "\\w\\B", "\\W\\B", "\\W\\b", "\\b\\B", "\\b\\b.", "\\B\\B.", "(?:^)*a", "(^)?a", "(?:a|^)b", "(a|$)+", "(?:$|.)+",
           "(?<=^)a", "(?<=^.)b", "(?<!^)a", "(?<=\\b)a", "(?<=$).", "(?<=\\A.).", "(?<=\\A)a", "(?<!\\A)a", "(?<=\\Z)", "(?<=^a)", "(?<=a$)", "(?<!$)", "(?<=\\b.)", "(?<=\\B.)", "(?<=.\\b)", "(?<=(?:^|b)a)", "(?=$)", "(?=^)", "a(?=$)", "(?!^)", "(?!$).", "(?=\\b)", "(?!\\b)", "(?!\\B).",
           "(?=\\Z)", "a(?!\\Z)", "(?<=(?=^).)", "(?<=(?=a$).)", "(?=.(?<=^.))", "(?<=(?<=^)a)b", "(?>^)a", "(?>a|$)", "^*" if False else "(?:^){2}a", "(?:\\b){2}", "(?:$)+", "(?:^|a)*b", ".", ".*", ".+.", "[^]*$", "\\N*$", "(.)$", "^(.)", "(^.)+", "(.$)+", "(^)(a?)($)", "(\\b)a", "()\\B", "^\\s*$", "^a|b$|^$",
           "(?:\\Aa|b\\Z)", "\\Aa*\\Z", "^a*$", "a\\b|b\\B", "\\w\\b\\W", "\\W\\b\\w", "_\\b", "\\b_", "\\x80\\b", "\\b\\xff", "[\\x80-\\xff]\\B"]


def c06(tier, seed):
    us = []
    for f in ("", "m", "s", "ms", "mi", "mu"):
        us += ops_units([(p, f) for p in ANCHORS], ("search",) if f in ("mi", "mu", "s") else ("prefix", "search"), ALL, 5)
    us += ops_units([(p, f) for p in ANCHORS for f in ("", "m")], ("match", "finds"), ALL, 4)
    fw = [p for p in ANCHORS if forward_ok(p)]
    us += it_units([(p, "m") for p in fw], "Checked<hx::fwd_it>", ("search",), runs="0..4")
    us += it_units([(p, f) for p in ANCHORS for f in ("m",)], "Inside<hx::bidi_it>", ("search",), runs="0..4")
    us += ops_units(randoms(seed * 17 + 6, T(tier, 160, 4000), ("anchor", "look", "classes"), ("", "m", "m", "ms"), need=lambda p: any(a in p for a in ("^", "$", "\\b", "\\B", "\\A", "\\Z"))), ("search",), ALL, 6)
    us += sized_units(ks(tier), ("anch",), ("search", "match", "finds"))
    us += sized_units(ks(tier), ("anch",), ("search", "prefix"), flags="m")
    us += ops_units(window_pats(BEHIND_ANCH, ("", "m", "u", "mu", "U", "m")), ("prefix",), ALL, 5)
    return Plan(us, "%d patterns under 6 flag sets; every input of up to 5 characters" % len(ANCHORS), preludes=("iters.hpp",), cost=T(tier, 300000, 10**7))


# ---- repetition ---------------------------------------------------------------------------------------
def c07(tier, seed):
    quick = tier == "quick"
    us = []
    fam = quant_family(rests=("", "b") if quick else ("", "a", "b", "ab"))
    us += ops_units(fam, ("prefix",), ALL, 8)
    fam2 = quant_family(bodies=["a", "[ab]", "(a)", "(?:ab)", "(a|b)", "(a|ab)"], rests=("a",), quants=["*", "+", "?", "{2}", "{3}", "{0,2}", "{1,3}", "{2,}", "{2,4}", "{0,1}", "{0}", "{1}"])
    us += ops_units([(p, f) for p, _ in fam2 for f in (("U", "u") if quick else ("U", "u", "Uu", "i"))], ("prefix",), ALL, 8)
    us += ops_units([(p, "") for p, _ in fam2], ("match",), ALL, 8)
    poss = quant_family(modes=("+",), bodies=["a", "(a)", "(a|b)"], rests=("", "a"), quants=["*", "+", "?", "{2}", "{0,2}", "{1,3}", "{2,}"])
    us += ops_units([(p, f) for p, _ in poss for f in ("", "U")], ("prefix",), ALL, 7)
    nested = ["(?:%s%s)%s" % (b, q1, q2) for b in ("a", "(a)", "(a|b)", "ab") for q1 in ("{2}", "{1,2}", "+?", "+", "??", "?") for q2 in ("{2}", "{1,2}", "+", "+?", "{2,}?", "*?", "?")]
    us += ops_units([(p + r, "") for p in nested for r in (("",) if quick else ("", "b"))], ("prefix",), ALL, 7)
    diff = ["(?:%s)%s" % (b, q) for b in ("a|bb|ccc", "[ab]c?", "a.?|b", "(a)|(b)|(c)", "a*b", "a??b", "(?:a|b)c|a") for q in ("*", "+", "{2}", "{2,3}", "{1,2}?", "*?", "{3,}?", "{0,3}")]
    us += ops_units(diff, ("prefix",), ALL, 8)
    big = ["a{10}", "a{12}b", "a{9,11}", "a{10,}", "a{3,10}?b", "(?:ab){10}", "(a|b){10}", "(a){11}", "[ab]{10,12}", "a{16}", "(?:a){17}", "a{010}", "a{5}{2}" if False else "(?:a{5}){2}", ".{13}", "a{0,11}b", "(?:a|b){8,10}?c", "a{10}+a", "a{0,10}+", "(?:ab){2,10}+"]
    us += [u for p in big for u in long_units([(p, "", "a"), (p, "", "ab"), (p, "u", "a")], ("prefix",), (8, 9, 10, 11, 12, 13, 16, 17, 20, 21, 22, 24))]
    us += long_units(LONG, ("prefix", "match"), T(tier, (131, 256, 257, 300, 301), (131, 140, 141, 256, 257, 300, 301, 302, 700)), ALL)
    us += long_units([(b + q + m + r, f, t) for b, t in (("a", "a"), ("(a)", "a"), ("(?:ab)", "ab"), ("(a|b)", "ab"), ("[ab]", "ab")) for q in ("{0,130}", "{0,257}", "{1,300}", "{129}", "{257}", "{130,}", "{258,}", "{5,260}") for m in ("", "?") for r, f in ((("", ""), ("c", "u"), ("c", "U")) if not quick else (("c" if m else "", "u" if "," not in q else ""),))], ("prefix",), (131, 261, 303, 530) if not quick else (261, 303))
    us += ops_units(randoms(seed * 19 + 7, T(tier, 200, 5000), ("classes", "poss"), ("", "U", "u"), need=lambda p: any(c in p for c in "*+?{")), ("prefix",), ALL, 8)
    us += sized_units(ks(tier), ("rep", "repcap", "reprange", "repseq", "altloop", "loops"), ("prefix",))
    us += ops_units(window_pats(BEHIND_LOOK[:3] + BEHIND_ANCH[:3], ("", "u", "", "U"), groups=False), ("prefix",), ALL, 5)
    us += sized_units(ks(tier, 7), ("rep", "repcap", "reprange", "repseq", "altloop", "loops"), ("prefix",), flags="U")
    us += huge_units(("prefix", "match"))
    two = ["(?:%%s)%s%s%s" % (q, m, r) for q in corpus.Q_ALL for m in ("", "?") for r in ("", "b")] + ["(?:%%sb?)%s%s" % (q, m) for q in corpus.Q_ALL for m in ("", "?")] + ["(%%s|b)%s%s" % (q, m) for q in corpus.Q_ALL for m in ("", "?")]
    us += ops_units(nested_pats(seed, T(tier, 700, 9000), two, corpus.quantified(corpus.Q_BODIES[:12]), ("", "", "", "u", "U")), ("prefix",), ALL, 7)
    us += ops_units(nested_pats(seed + 1, T(tier, 500, 6000), NEST_W, None, ("", "", "u", "U")), ("prefix", "match") if not quick else ("match",), ALL, 7)
    return Plan(us, "quantifier families: 10 bodies x 17 quantifiers x greedy/lazy x rests, flags ungreedy and unroll, nested repetitions, bounds of up to 200; every input up to the bounds in bound_histogram",
                preludes=("iters.hpp",), cost=cost(tier, 500000))


def c08(tier, seed):
    quick = tier == "quick"
    us = []
    us += ops_units(quant_family(modes=("+",), bodies=POSS_BODIES + ["(a?b)", "(?>a|ab)", "(a|(b))", "\\w", "[^b]"], rests=("", "a", "b", "c") if not quick else ("", "a", "b")), ("prefix",), ALL, 8)
    us += ops_units([(p, f) for p, _ in quant_family(modes=("+",), bodies=["a", "(a)", "(a|ab)", "(?:ab|a)"], quants=["*", "+", "?", "{2}", "{1,3}", "{2,}", "{1}", "{0}", "{0,1}"], rests=("a", "b")) for f in ("u", "U")], ("match",), ALL, 7)
    inner = ["a*", "a+", "a?", "a|ab", "ab|a", "a|b", "a*?", "a+?b?", "(a)|(ab)", "(a|ab)(b?)", "a*a", "a*b|a", "(?>a*)b?", "a{1,2}", "a{2,3}?", "(a*)b?", "()", "^a|ab", "(?=a)a*", "a(?!b)|ab", "(a)\\1|a", "[ab]+", ".*", ".*?a", "x|(?:a|ab)b?"]
    ctx = ["(?>%s)", "(?>%s)a", "(?>%s)b", "(?>%s)c?b", "(?:(?>%s)|a)b", "(?>(%s))b", "((?>%s))a", "(?:(?>%s)b?){2}", "a?(?>%s)b", "(?:(?>%s)x)*a*", "(?=(?>%s)b)a", "(?<=(?>%s))b", "(?>%s)+b" if False else "(?:(?>%s)b)+"]
    us += ops_units([(c % i, "") for i in inner for c in (ctx if not quick else ctx)], ("prefix",), ALL, 6)
    us += ops_units([(c % i, f) for i in inner[::2] for c in ctx[1:4] for f in ("U", "u", "i")], ("search",), ALL, 5)
    us += ops_units([("(?>%s)b" % i, "") for i in inner], ("match", "finds"), ALL, 5)
    us += ops_units(randoms(seed * 23 + 8, T(tier, 260, 5000), ("atomic", "poss", "look", "ref"), ("", "", "U", "u"), need=lambda p: "(?>" in p or "++" in p or "*+" in p or "?+" in p or "}+" in p), ("prefix",), ALL, 7)
    us += it_units([("(?>%s)b" % i, "") for i in inner if forward_ok(i)] + [(p, "") for p, _ in quant_family(modes=("+",), bodies=["a", "(a|ab)"], rests=("b",))], "Checked<hx::fwd_it>", ("prefix",), runs="0..5")
    us += it_units([(p, f) for p, _ in quant_family(modes=("+",), bodies=["a", "(a|ab)"], rests=("b",)) for f in ("u",)], "Checked<hx::bidi_it>", ("prefix",), runs="0..5")
    us += long_units([("a*+b?", "", "a"), ("(?:ab)*+.", "", "ab"), ("(?>(?:a|b)*)c?", "", "ab"), ("(?>a*)a?", "", "a"), ("a{2,140}+a", "", "a"), ("(?:a|b){130}+.", "", "ab")], ("prefix",), (131, 142, 257))
    us += long_units([(b + q + "+" + r, f, t) for b, t in (("a", "a"), ("(a)", "a"), ("(?:ab)", "ab"), ("(a|b)", "ab"), ("[ab]", "ab"), ("(?>a|b)", "ab")) for q in ("{0,130}", "{0,257}", "{1,300}", "{129}", "{257}", "{130,}", "{258,}", "{5,260}") for r, f in ((("", ""), (".", "u")) if not quick else (("", "u" if q[-2].isdigit() and "," not in q else ""),))], ("prefix",), (131, 261, 303, 530) if not quick else (261, 530))
    us += sized_units(ks(tier), ("atomic", "altpossov"), ("prefix",))
    us += ops_units(nested_pats(seed, T(tier, 350, 5000), [w for w in ("(?>%s)", "(?>%s)a", "(?>%s)b", "(?>%sb?)c?b", "(?:(?>%s)|a)b", "(?>a|%s)b", "((?>%s))?b", "(?<=(?>%s))b", "(?:(?>%s)b)+", "(?>(%s)b|a)b?", "(?=(?>%s)b)..", "(?>%s|%%s)".replace("|%%s", "|b") + "a")]), ("prefix",), ALL, 6)
    # number of iterations x flags x bodies that can match in several ways
    ways = ["(?:ab?)", "(a|ab)", "(?:ab|a)", "(ab??)", "(?:a|b|ab)", "(?>ab?|b)", "(a)", "a", "(?:a(b)?)"]
    us += ops_units([("%s{%s}+%s" % (b, n, r), f) for i, b in enumerate(ways) for j, n in enumerate(("2", "3", "4", "5", "6", "8", "2,4", "3,5", "4,", "0,5", "1,6")) for f in (("", "u", "Uu") if not quick else ("u", ("", "U", "Uu", "iu")[(i + j) % 4]) if n.isdigit() else (("", "u", "U")[(i + j) % 3],)) for r in (("b", "c", "ab") if not quick else (("b", "c")[(i + j) % 2],))], ("prefix",), ALL, 9)
    us += ops_units([("(?>%s)%s" % (b * n, r), f) for i, b in enumerate(("(?:ab?)", "(a|ab)", "a*", "(?:a|b)?")) for n in (2, 3, 4, 5) for r in ("b", "c") for f in (("", "u") if not quick else (("", "u")[(i + n) % 2],))], ("match",), ALL, 7)
    us += ops_units(window_pats(BEHIND_LOOK[:3] + BEHIND_ANCH[:3], ("", "u", "", "U"), modes=("+",), groups=False), ("prefix",), ALL, 5)
    poss = corpus.quantified(modes=("+",))
    us += ops_units(nested_pats(seed + 1, T(tier, 450, 4000), NEST_W, poss, ("", "", "u", "U", "i")), ("prefix",), ALL, 6)
    us += ops_units(nested_pats(seed + 2, T(tier, 150, 4000), NEST_W, poss, ("",)), ("search", "match"), ALL, 5)
    us += ops_units(nested_pats(seed + 3, T(tier, 250, 3000), ["(?:%%s)%s+%s" % (q, r) for q in ("?", "{2}", "{0,2}", "{1,3}", "{2,3}") for r in ("", "b", "a")] + ["(?:%%sb)%s+%s" % (q, r) for q in ("*", "+", "{2,}") for r in ("", "b", "a")]), ("prefix",), ALL, 6)
    return Plan(us, "possessive quantifier families and atomic groups in %d contexts x %d contents" % (len(ctx), len(inner)), preludes=("iters.hpp",), cost=cost(tier, 500000))


CAPS = ["(a)|b", "(a)|(b)", "(a)?b", "(a)*b", "(a|b)*", "((a)|b)*", "((a)|(b))*", "(a(b)?)*", "(a(b)?)+", "(?:(a)|(b)|(c))*", "(?:(a)|b)*", "(?:(a)b|a(b))c?", "(?:(a)x|ab)", "(?:(a)(b)x|ab(c))", "((a)b|(a)c)*", "(a*)(a*)", "(a+)(a+)?", "(a*?)(a*)", "(a?)(ab)?(abc)?",
        "(?:(a)|(ab))(?:(c)|(bcd))(d*)", "(a|ab)(c|bcd)(d*)", "(?=(a))(?:ax|a)", "(?=(a)b)|a", "(?!(a)b)a", "(?!(a))b|(a)", "(?:(?=(a))b)?a", "(?<=(a))b", "(?<=(ab|b))c", "(?<=(a)(b))c", "(?<=(a*))b", "(?<!(a))b", "(?<=(?=(a)).)b", "(?=(?<=(a))b).", "(?>(a)|(ab))c", "(?>(a*))b|(a)", "(?:(?>(a)b)c|ab)",
        "(a)*+b", "(a|b)*+", "((a)|b)++", "(a|(b))?+c", "((a)(b)?)*+", "(?:(a)|(b)){2}", "(?:(a)|(b)){2,}", "(?:(a)|(b)){1,2}?c", "(a){2}", "(a|b){2,3}", "(a|b){2}?", "(a){0}b", "(a){0,1}", "(a)??b", "(a)*?b", "(a|ab)*?c", "((a*)b)*", "((a|b)*?c)*", "(())", "()*", "(a|())*b", "(|a)" if False else "((?:)|a)", "(a)(?:b|(c))*", "(?:(a)c|(a)b)", "(?:(a)(?:c)|a)(b)",
        "^(a)?$", "(^a|b)*", "(a)\\1", "(a|b)*\\1", "(?:(a)|b\\1)*", "(?:(a)|(b))*\\1\\2", "(a(?=(b)))*b", "(?:a(?!(b))|(a)b)*", "(a)(?<=(a))", "(?:(a)|(?<=(a))b)*", "(((a)b)c)?a", "(((a)))*", "(?<x>a)|(?<y>b)", "(?:(?<x>a)|(?<y>b))*", "(?<x>(?<y>a)b)*", "(.)(.)(.)", "(.)*", "(..)*(.)?", "(.)*?(.)$", "([ab])*([bc])*", "(\\w)(\\d)*",
        "(?:(a)|(b)|(c)|(d)){2,3}", "(?:(a)(b)?)*c", "(?:(a)?(b)?)*c" , "(?:(a)?b)*", "(a?b)*", "(?:(a)??b)*?c", "x*(?:(a)|(b))*y", "((a)?b)*?$", "(?:(?:(a)|b)c)*", "(?:a(?:(b)|(c))d?)*"]


def c09(tier, seed):
    us = ops_units(CAPS, OPS, ALL, 7)
    us += ops_units([(p, f) for p in CAPS for f in ("u", "U")], ("prefix", "search"), ALL, 6)
    us += it_units([(p, "") for p in CAPS if forward_ok(p)][::2], "Checked<hx::fwd_it>", ("search",), runs="0..5")
    us += it_units([(p, "") for p in CAPS][::2], "Checked<hx::bidi_it>", ("finds",), runs="0..5")
    us += ops_units(randoms(seed * 29 + 9, T(tier, 330, 6000), ("atomic", "poss", "look", "names", "ref"), ("", "", "u", "U"), need=lambda p: p.count("(") - p.count("(?") >= 1), ("prefix",), ALL, 7)
    us += ops_units(randoms(seed * 29 + 10, T(tier, 120, 3000), ("atomic", "look"), ("",), need=lambda p: p.count("(") - p.count("(?") >= 2), ("search", "match"), ALL, 6)
    us += long_units([("(a|b)*", "", "ab"), ("((a)|(b))*c?", "", "ab"), ("(?:(a)|b)*", "", "bb"), ("(a*)(b)", "", "a"), ("(.)*(.)", "", "xy")], ("prefix",), (131, 260, 700))
    us += sized_units(ks(tier), ("seqcap", "altcap", "nest", "names", "namesmix", "behindcap", "ahead", "atomic", "repcap", "altovcap", "altcapsets"), ("prefix", "match"))
    us += big_units(BIG_CAPS + ("behindcap",), ("prefix",), tops=(17, 20))
    us += ops_units(window_pats(["(?<=(a|b))(.)", "\\B(.)", "(?:(?<=a)(b)|(a))"], ("", "u")), ("prefix",), ALL, 5)
    us += ops_units(nested_pats(seed, T(tier, 600, 6000), NEST_W + ["(?:(%s)|(b))*c", "((%s)b)*", "(?:(%s)x|(a)(b))c?", "(%s)(a)?(b)?"], corpus.quantified(CAP_BODIES), ("", "", "", "u", "U")), ("prefix",) if tier == "quick" else ("prefix", "search"), ALL, 6)
    return Plan(us, text_bounds(CAPS, " with capturing groups in every construct, plus random ones"), preludes=("iters.hpp",), cost=cost(tier, 500000))


REFS = ["(a)\\1", "(a|b)\\1", "(a*)\\1", "(a*)b\\1", "(.)\\1", "(..)\\1", "(.*)\\1", "(.+)\\1", "(.+?)\\1", "(.)(.)\\2\\1", "(.)(.)\\1\\2", "((.).)\\1", "((.).)\\2", "(a)?\\1b", "(a)?b\\1", "(a)|\\1b", "(?:(a)|b)\\1", "\\1(a)", "\\1(a)\\1", "(?:\\1b|(a))*", "(?:(a)|b\\1)+", "(?:(a|b)\\1)*", "(a\\1)", "(a\\1)*" , "(a|b\\1)+", "(?:(.)\\1)*", "(?:(.)\\1)+x",
        "(a|b)*\\1", "(a|b)*c\\1", "(?:(a)|(b))*\\1\\2", "(a)\\1{2}", "(a|b)\\1*", "(ab?)\\1+", "(a*)\\1*b", "(.)\\1?", "(.)\\1??b", "(.)\\1*+", "(a+)\\1+$", "^(a+)\\1+$", "(?<x>a|b)\\k<x>", "(?<x>.)(?<y>.)\\k<y>\\k<x>", "(?<x>a)?\\k<x>b", "(?<ab>a)(?<a>b)\\k<a>\\k<ab>", "(?<x>a)(b)\\k<x>\\2", "(?:\\k<x>b|(?<x>a))*",
        "(?=(a+))\\1b", "(?=(.)).\\1", "(?!(a)\\1)a", "(a)(?=\\1)", "(a|b)(?!\\1)", "(a|b).(?<=\\1)", "(a|b).*(?<=\\1)c", "(ab?).*(?<=\\1)", "(.)(?<=\\1)", "(.)(?<=\\1\\1)", "(.)(.)(?<=\\1\\2)", "(.)(.)(?<=\\2\\1)", "(?<=(.))\\1", "(?<=(.)(.))\\1\\2", "(?<=(ab))\\1", "(?<=\\1(a))" , "(?<=(a)\\1)b", "(?<!(a)\\1)b", "(a)(?<!\\1b)", "(a?)(?<=\\1)b", "(.)(?<=(?=\\1).)", "(.).(?<!\\1)", "(?>(a|b)\\1?)\\1", "(?>(a*))\\1b",
        "(a)(b)\\1\\2", "(a)(b)(c)\\3\\2\\1", "(()a)\\2\\1", "()\\1a", "(a|())\\1b", "(?:)(a)\\1", "[ab](.)\\1", "\\w(\\w)\\1", "(^a)\\1", "(a$)\\1", "(\\ba)\\1", "(a){2}\\1", "(a|b){2}\\1", "(a|b)+?\\1c", "(?:(a)|(b)){2}\\1\\2", "(\\w+) \\1", "(.)x\\1|(.)y\\2", "(.)\\1|(.).\\2"]
REF12 = "(a)(b)(c)(d)(e)(f)(g)(h)(i)(j|x)(k|y)(l|z)"


def named_twin(p):
    """the same pattern with its first two groups named and the references to them by name"""
    if "(?<" in p.replace("(?<=", "").replace("(?<!", "") or "\\1" not in p or any("\\1%d" % d in p for d in range(10)):
        return None
    out, g, i = "", 0, 0
    while i < len(p):
        if p[i] == "\\":
            two = p[i:i + 2]
            out += {"\\1": "\\k<first>", "\\2": "\\k<second>"}.get(two, two); i += 2
        elif p[i] == "[":
            j = p.index("]", i + (2 if p[i + 1:i + 2] == "]" else 1)); out += p[i:j + 1]; i = j + 1
        elif p[i] == "(" and p[i + 1:i + 2] != "?":
            g += 1; out += {1: "(?<first>", 2: "(?<second>"}.get(g, "("); i += 1
        else:
            out += p[i]; i += 1
    return out if g >= 1 and ("\\2" not in p or g >= 2) else None


def twins(pats):
    return uniq([(named_twin(x if isinstance(x, str) else x[0]), "" if isinstance(x, str) else x[1]) for x in pats if named_twin(x if isinstance(x, str) else x[0])])


REF_BEHIND = ["(ab)c?(?<=\\1)c?", "(ab)ab(?<=\\1)c", "(a|ab)b?(?<=\\1)", "(a)(b)(?<=\\1\\2)", "(ab?)c(?<=\\1c)", "(.b).*(?<=\\1.)", "(ab|b)+(?<=\\1)$", "(a.)(?<!\\1)b", "(.)(.)(?<=\\2)", "(ab)(?:(?<=\\1)c)?", "(ab).(?<=(?=\\1)..).", "(ab)(?=\\1(?<=\\1))", "(a.)+(?<=\\1\\1)", "(..)(?<=\\1)(?<!\\1a)", "(ab)(?<=^\\1)c?", "(?<=(ab)\\1)", "(?<=\\1(ab))", "(?<=\\1(.b))c", "(.)b(?<=\\1{2}b)", "(.b)(?<=(?>\\1|b))"]


def c10(tier, seed):
    tw = twins(REFS + REF_BEHIND)
    us = ops_units(tw, ("match", "search"), ALL, 6) + ops_units([(p, "i") for p, _ in tw], ("prefix",), ALL, 5)
    us += ops_units(REF_BEHIND, ("prefix", "search"), ALL, 6) + ops_units([(p, f) for p in REF_BEHIND for f in ("i", "u")], ("search",), ALL, 5)
    us += it_units(tw[::2], "Checked<hx::bidi_it>", ("search",), runs="0..5") + it_units([x for x in tw[1::2] if forward_ok(x[0])], "Checked<hx::fwd_it>", ("search",), runs="0..5")
    us += ops_units(REFS, ("match", "search"), ALL, 6)
    us += ops_units([(p, f) for p in REFS for f in ("i", "u", "s")], ("prefix",), ALL, 6)
    us += ops_units([(p, "") for p in REFS], ("finds", "tokens"), ALL, 5)
    fw = [p for p in REFS if forward_ok(p)]
    us += it_units([(p, f) for p in fw for f in ("", "i")], "Checked<hx::fwd_it>", ("search",), runs="0..5")
    us += it_units([(p, "") for p in REFS], "Inside<hx::bidi_it>", ("search",), runs="0..5")
    us += it_units([(p, "") for p in REFS], "Reverse", ("prefix",), runs="0..5")
    us += [unit("hx::Std<%s, %s>" % (lit(p), ALL), ("prefix",), show(p), "11..15", 2) for p in (REF12 + "\\10", REF12 + "\\11", REF12 + "\\12", REF12 + "\\1", REF12 + "\\2\\12")]
    us += ops_units([("((((((((((a|b))))))))))\\10", ""), ("(((((((((((a|b)))))))))))\\11c", ""), ("(a)()()()()()()()()(b|c)\\10\\1", ""), ("(a)()()()()()()()()(b|c)\\10{2}", ""), ("(a)()()()()()()()()()\\1(?:0)", "")], ("match", "search"), ALL, 6)
    us += ops_units(randoms(seed * 31 + 10, T(tier, 300, 6000), ("ref", "names", "look", "atomic"), ("", "", "i", "u"), need=lambda p: "\\1" in p or "\\2" in p or "\\k" in p), ("prefix",), ALL, 6)
    us += long_units([("(a*)b\\1", "", "a"), ("(a+)\\1", "", "a"), ("(.*)\\1", "", "ab"), ("(ab)\\1*", "", "ab")], ("prefix",), (60, 131, 301, 701))
    us += sized_units(ks(tier), ("backref", "backrefs"), ("prefix", "match"))
    refw = ["(%s)\\1", "(%s)b\\1", "(%s).*(?<=\\1)c?", "(%s)(?=\\1).", "(%s)\\1*b", "(%s)(?:\\1|b)c?", "(?:(%s)|b)\\1", "(?<n>%s)\\k<n>", "(%s)(?!\\1)", "(?<=(%s))\\1", "(?:(%s)\\1?){2}", "(%s)(b)?\\2\\1", "(?=(%s))\\1b", "(?>(%s))\\1"]
    us += ops_units(nested_pats(seed, T(tier, 450, 5000), refw, corpus.quantified([b for b in corpus.Q_BODIES if b not in CAP_BODIES]), ("", "", "i", "u")), ("prefix",), ALL, 6)
    refq = ["(a|ab)\\1%s%s%s" % (q, m, r) for q in corpus.Q_ALL for m in ("", "?") for r in ("", "b")] + ["(a)\\1%s+%s" % (q, r) for q in corpus.Q_ALL for r in ("", "b")] + ["(?:(a|b)\\1%s)*c" % q for q in corpus.Q_ALL]
    us += ops_units(refq, ("prefix",), ALL, 6)
    us += ops_units(twins(refq)[::T(tier, 2, 1)], ("prefix",), ALL, 5)
    us += sized_units(ks(tier, 6), ("backref", "backrefs"), ("search",))
    return Plan(us, text_bounds(REFS, " with backreferences, plus random ones"), preludes=("iters.hpp",), cost=cost(tier, 500000))


LOOK_BODY = ["a", "[ab]", ".", "ab", "a|b", "a|ab", "ab|b", "a*", "a+b", "a+?b?", "(a)", "(a|b)c?", "a{2}", "a{1,2}", "[^a]b", "\\w\\d?", "^a", "a$", "^", "$", "\\ba", "a\\b", "\\A.", ".\\Z", "(a)\\1", "(?=a)", "(?!a).", "(?<=a)", "(?<!a)b", "(?=ab)a", "(?<=a.)b", "(?:(?=a)a|b)b", "(?=(a)).", "(?<=(a))b", "(?>a|ab)", "a*+b", "a??b", "(?:ab)*", "(?:a|bb)+", "a.b", "(?<=^)a", "(?=a$)a", "(?=b(?<=ab))b", "()", ".*", ".*?b", "(?!^)b", "(?<=(?<!a)b)a", "\\R", "[]", "[^]"]
LOOK_CTX = ["%s", "%s.", ".%s", "a%s", "%sb", "(?:%sa)*", ".%s.", "(?:a|%s)b", "(?:%s|a)b", "(%s)?b"]


def c11(tier, seed):
    quick = tier == "quick"
    us = []
    k = 0
    for b in LOOK_BODY:
        for kind in ("(?=", "(?!", "(?<=", "(?<!"):
            g = kind + b + ")"
            for c in LOOK_CTX if not quick else (LOOK_CTX[:3] + [LOOK_CTX[3 + k % 7]]):
                us += ops_units([(c % g, "")], ("search",), ALL, 6)
            k += 1
    us += ops_units([(kind + b + ")" + t, f) for i, b in enumerate(LOOK_BODY) for kind in ("(?=", "(?!", "(?<=", "(?<!") for t, f in ((".", ("m", "i", "s", "u", "U")[i % 5]),)], ("search",), ALL, 6)
    us += ops_units([(".%s" % (kind + b + ")"), "") for b in LOOK_BODY[::2] for kind in ("(?=", "(?!", "(?<=", "(?<!")], ("finds", "tokens"), ALL, 5)
    # contents that are affected by flags, under pairs of flags
    both = ["(ab)\\1", "(.)\\1", "(..)\\1", "^a", "a$", "^.", "(?:^|b).", ".$", "a.b?", "a*?b", "(a|ab)b??", "[a-c]B", "(?<x>a|b)\\k<x>", "(a+?)B\\1", "\\ba", "(?:ab){2}", "(?=^a).", "(?<=a$)."]
    us += ops_units([(c % (kind + b + ")"), f) for i, b in enumerate(both) for j, (kind, c) in enumerate((("(?<=", "%s"), ("(?<!", "%s."), ("(?=", "%s."), ("(?<=", "%s."), ("(?!", ".%s"))) for f in (("im", "is", "ms", "iU", "mu", "sU", "ims", "imsUu", "iu") if not quick else (("im", "is", "ms", "iU", "mu", "sU", "ims", "imsUu", "iu")[(i + 2 * j + e) % 9] for e in (0, 4)))], ("search",), ALL, 5)
    us += ops_units([(p, f) for p in ("(ab)..(?<=\\1)", "(a|b).*(?<=\\1a?)$", "(?<x>..).*(?<=\\k<x>)", "(..)(?=\\1)", "(.)(?<!\\1\\1)", "(.).(?<=^\\1.)", "(a)(?<=(b)?\\1)\\2c?") for f in ("", "i", "im", "is", "ims", "mu", "U", "iUu")], ("search",), ALL, 5)
    us += it_units([("%s." % (kind + b + ")"), "") for b in LOOK_BODY[::2] for kind in ("(?=", "(?<=", "(?<!")], "Inside<hx::bidi_it>", ("search",), runs="0..4")
    us += it_units([("%s." % (kind + b + ")"), "") for b in LOOK_BODY if forward_ok(b) for kind in ("(?=", "(?!")], "Checked<hx::fwd_it>", ("search",), runs="0..4")
    us += ops_units(randoms(seed * 37 + 11, T(tier, 300, 6000), ("look", "anchor", "ref", "atomic", "poss"), ("", "", "m", "i", "u"), need=lambda p: "(?=" in p or "(?!" in p or "(?<=" in p or "(?<!" in p), ("search",), ALL, 6)
    us += ops_units(window_pats(BEHIND_LOOK, ("", "u", "", "U", "uU", "")), ("prefix",), ALL, 5)
    us += long_units([("(?<=(?:ab)*)c", "", "ab"), ("(?=.*c)", "", "ab"), ("(?<=a.*)c", "", "ab"), ("(?<!a.*)c", "", "ab"), ("(?!.*c)", "", "ab")], ("search",), (60,))
    us += sized_units(ks(tier), ("behind", "behindcap", "behindneg", "behindmix", "behindalt", "ahead", "aheadneg", "looks", "behindov"), ("prefix",))
    us += big_units(("behind", "behindneg", "ahead", "looks"), ("prefix",))
    lookw = ["(?<=%s).", "(?<=%s)", "(?<!%s).", "(?<=b%s)c?", "(?<=%sb).", "(?<!%sb)a", "(?<=(%s)).", "(?<=a|%s)b", "(?<=%s|ab)c", "(?<=(?=%s).)b", "(?<=(?>%s)).", "(?<=^%s).", "(?=%s).", "(?!%s).", "(?=%sb)a", "a(?!%sb)", "(?=(%s)).", "(?=(?<=%s)b).", "(?<=(?:%sb?){2})c", "(?<=(?:%s){1,2}?a)"]
    us += ops_units(nested_pats(seed, T(tier, 900, 9000), lookw, None, ("", "", "", "", "u", "i", "U")), ("search",), ALL, 6)
    us += sized_units(ks(tier, 5), ("behind", "behindcap", "behindneg", "behindmix", "behindalt", "ahead", "aheadneg", "looks"), ("search",))
    # a lookaround inside a lookaround, with contents of several elements and with groups
    kinds = ("(?=", "(?!", "(?<=", "(?<!")
    deep = ["ab", "(ab)", "(a)b", "(.)(b)", "(?:ab|b)", "(a|b)c?", "a(b)?", "(a.)", "^(.a)", "(a*b)", "(a){2}", "(?>ab|b)(c)?"]
    inside = [(o + c % (i + d + ")") + ")" + r, "") for a, o in enumerate(kinds) for b, i in enumerate(kinds) for j, d in enumerate(deep) for k, (c, r) in enumerate((("%s.", ""), (".%s", "."), ("%s", ""), ("%sc", ""), ("a%s", "b"), ("(?:%s|b)c?", ".")))
              if not quick or (a >= 2 and k in (0, 1, 2 + (b + j) % 4)) or (a < 2 and k == (b + j) % 6)]
    us += ops_units(inside, ("search",), ALL, 5)
    us += ops_units([(o + m + i + d + ").).)", "") for o in kinds[2:] for m in kinds for i in kinds for d in (deep if not quick else ("ab", "(a)b"))], ("search",), ALL, 4 if quick else 5)
    return Plan(us, "%d lookaround contents x 4 kinds in several contexts, plus random ones" % len(LOOK_BODY), preludes=("iters.hpp",), cost=cost(tier, 500000))


NULLABLE = ["a?", "a*", "a??", "a*?", "(a?)", "(a*)", "a?b?", "a*b*", "(a?)(b?)", "a|(?:)", "(?:)|a", "(?:)", "()", "^", "$", "\\b", "\\B", "(?=a)", "(?!a)", "(?<=a)", "(?=(a))", "a|^", "$|a", "(?=a)|b", "a|\\b", "(a|b?)", "(?:a|b*)", "(a*)*", "(a*)+", "(a?){2}", "(?:a?){2,3}", "(?:a*){2,}", "(a?)*?", "a{0,2}", "a{0}", "(?:a{0,2}){2}", "(?>a*)", "(?>a?)", "a?+", "a*+", "(?>a|(?:))", "(a|())", "(?:a?|b)", "(?:^|a)", "(?:a|$)", "(?:\\b|a)", "a*?b?", "(?:a|b|(?:))", "(?:(?:a?)*)*", "(?:(?:a|(?:))*b?)*", "()()", "(()a?)", "\\1(a?)" if False else "(a?)\\1", "(?:(a)|\\1)" if False else "(a?)(?:\\1|b)", "(?<=a?)", "(?!^)a?", "(?:(?=a)a)?"]
NULL_Q = ["*", "+", "*?", "+?", "{2,}", "{2,}?", "{0,}", "{1,}?", "{3,}"]


def c12(tier, seed):
    quick = tier == "quick"
    us = []
    k = 0
    for b in NULLABLE:
        for q in NULL_Q if not quick else NULL_Q[:6]:
            for r in (("", "b", "ab", "$") if not quick else (("", "b")[k % 2],)):
                us += ops_units([("(?:%s)%s%s" % (b, q, r), "")], ("prefix",) if quick else ("prefix", "match", "finds"), ALL, 6)
            k += 1
        us += ops_units([("(%s)*b" % b, ""), ("(%s)+" % b, "u"), ("(?:%s)*?c" % b, "U")], ("match",), ALL, 5)
        us += ops_units([(b, ""), ("(?:%s)*" % b, "")], ("tokens", "finds"), ALL, 5)
    # unbounded possessive loops over bodies that can be empty: termination only (the last, empty iteration is not specified)
    us += ops_units([("(?:%s)%s%s" % (b, q, r), "") for b in NULLABLE for q in ("*+", "++", "{2,}+") for r in ("b",)], ("ends",), ALL, 6)
    us += ops_units([(p, "") for p in ("(?:a*)*+", "(?:a?)++b", "(?:(?:)|a)*+", "(?:^)*+a", "(?:(?=a))*+a", "(?:\\b)++", "(?:(a?)\\1)*+b", "(?:(?>a?))*+b")], ("ends",), ALL, 6)
    us += ops_units(["(?:(a)|b|\\1)*c", "(?:\\1|(a?))*b", "(?:(a*)\\1)*b", "(?:(?:a*)*)*b", "((a*)*)*b", "((a?)+)*?b", "(?:(?:a|b*)*c?)*d", "(?:(?:a+)?)*b", "(?:(?:a+)?){2,}b", "(?:a*?)*?b", "(?:(?:a??)*?)*b", "(?:(?:^|a)*b?)*c", "(?:(?=(a?))\\1)*b", "(?:(?!b)a?)*b", "(?:(?<=a)|a)*b", "(?:(?:)*)*a", "(?:()*)*a", "(?:(?:a{0,1}){2,})*b", "(?:x{0}|a)*b", "(?:(?:x{0})*a?)*b"],
                    OPS, ALL, 6)
    us += it_units([("(?:%s)%sb" % (b, q), "") for b in NULLABLE if forward_ok(b) for q in ("*", "+?")][::T(tier, 2, 1)], "Checked<hx::fwd_it>", ("search",), runs="0..4")
    us += ops_units(randoms(seed * 41 + 12, T(tier, 250, 5000), ALLF, FLAGSETS, need=lambda p: ")*" in p or ")+" in p or ",}" in p), ("prefix", "finds"), ALL, 5)
    us += long_units([("(?:a?)*b", "", "a"), ("(?:a*?)*?b", "", "a"), ("(a|b?)*c", "", "ab"), ("(?:a|(?:))*c", "", "a")], ("prefix",), (12,))
    us += sized_units((2, 3, 4), ("loopopt",), ("prefix", "match"))
    nul = [x for x in corpus.quantified() if x[1]]
    us += ops_units([(p, ("", "", "", "u", "U")[i % 5]) for i, (p, _) in enumerate(corpus.mix(seed, loops_of(nul), T(tier, 700, 9000)))], ("prefix",) if quick else ("prefix", "finds"), ALL, 6)
    us += ops_units([(p, "") for p, _ in corpus.mix(seed + 1, loops_of(nul), T(tier, 150, 3000))], ("finds", "tokens"), ALL, 5)
    us += ops_units([(w % t, "") for w, (t, _) in corpus.mix(seed, [(w, x) for w in ("(?:%s)*+b", "(?:%s)++b", "(?:%s){2,}+b") for x in nul], T(tier, 120, 2000))], ("ends",), ALL, 5)
    us += sized_units(ks(tier), ("loops",), ("prefix",))
    return Plan(us, "%d nullable bodies x %d unbounded quantifiers; every input of up to 6 characters; at most 20,000,000 instructions on a path" % (len(NULLABLE), len(NULL_Q)),
                preludes=("iters.hpp",), cost=cost(tier, 500000), steps=20000000,
                assumptions=STD_ASSUME + ["termination is decided up to the stated number of executed instructions per path, far above what any of these bounded inputs needs (max_path_steps in the samples)"])


# ---- iterators ------------------------------------------------------------------------------------------
ITER = ["", "a", "ab", "abc", "[ab]c", "a*", "a+", "a?b", "a*b", "a*?b", "a*+b", "a+?", "a{2}", "a{3}", "a{2,3}", "a{2,}", "a{2}?", "a{2}+", "[ab]{3}", "(a)", "(a|b)*", "(a|ab)(c|bcd)", "(?:ab)*", "(?:ab){2}", "(?:ab)*?c", "(?:ab)*+.", "(?:ab){2,3}a", "(?:a|bc){2}", "(a)|(b)|(c)", "(a*)(a*)", ".*b", ".+?c", "^a", "a$", "^a*$", "\\Aa\\Z", "a|b|cd", "(.)\\1", "(..)\\1", "(a*)b\\1", "(?<x>a|b)\\k<x>", "(?=ab)a", "(?!ab).", "a(?=b)", "(?>a*)b", "(?>a|ab)c", "(a?)*b", "(a|b?)+c", "[^a]*a", "\\w+\\d", "\\s*x", "[]", "[^]", "a{0}b", "(a){2}b", "(a(b)?)*", "(?:a|b)+?b"]
BIDI = ["\\b", "\\B", "\\ba", "a\\b", "\\b\\w+\\b", "(?<=a)b", "(?<!a)b", "(?<=ab)c", "(?<=a*)b", "(?<=(a|b))c", "(?<=(a)(b))", "(?<=^a)b", "(?<=\\ba)b", "(?<=a{2})", "(?<=a{2,3})b", "(?<=(?:ab)*)c", "(?<!ab|c)d", "(?<=(?=ab)a)b", "(a|b).*(?<=\\1)c", "(?<=a.?)b", "(?<=a*?b)c", "(?<=a*+b)c", "(?<!^)a", "(?<=[^a]{2})", "(?<=a$)", "(?=.(?<=ab))", "(?<=(?<=a)b)c", "(?<=(a)\\1)b"]


def c13(tier, seed):
    quick = tier == "quick"
    us = []
    both = [(p, "") for p in ITER + BIDI]
    us += it_units(both, "Checked<hx::rand_it>", ("search", "finds") if quick else OPS, runs="0..6")
    us += it_units(both, "Checked<hx::bidi_it>", ("prefix", "search") if quick else OPS, runs="0..6")
    us += it_units(both[::2], "Checked<hx::bidi_it>", ("match", "tokens"), runs="0..5")
    us += it_units([(p, "") for p in ITER], "Checked<hx::fwd_it>", ("match", "search", "finds") if not quick else ("match", "search"), runs="0..6")
    us += it_units(both[1::2] if quick else both, "Inside<const char *>", ("match", "search") if quick else OPS, runs="0..6")
    us += it_units(both[::2] if quick else both, "Inside<hx::bidi_it>", ("prefix", "finds") if quick else OPS, runs="0..6")
    us += it_units([(p, f) for p in ITER for f in ("u",)], "Checked<hx::fwd_it>", ("prefix",), runs="0..6")
    us += it_units([(p, f) for p in ITER + BIDI for f in ("u", "m")][::T(tier, 2, 1)], "Checked<hx::rand_it>", ("search",), runs="0..5")
    us += it_units([(p, "m") for p in ("^", "$", "^a", "a$", "^.*$", "(?:^|b)a", "(?<=^)a", "(?<=^.)b", "(?<=$)", "\\n^", "^\\n")], "Inside<hx::bidi_it>", ("search", "finds"), runs="0..5")
    us += it_units([(p, "m") for p in ("^", "$", "^a", "a$", "^.*$", "(?:^|b)a", "\\n^", "^\\n")], "Checked<hx::fwd_it>", ("search", "finds"), runs="0..5")
    us += ops_units(both, ("match", "search", "tokens") if not quick else ("match", "tokens"), ALL, 6)      # string views of objects of exactly that size
    us += ops_units(randoms(seed * 43 + 13, T(tier, 100, 4000), ALLF, FLAGSETS), ("finds",) if quick else ("search", "finds"), ALL, 6)
    us += it_units(randoms(seed * 43 + 14, T(tier, 120, 4000), ALLF, FLAGSETS), "Inside<hx::rand_it>", ("search",), runs="0..6")
    us += it_units([x for x in randoms(seed * 43 + 15, T(tier, 100, 4000), ALLF, FLAGSETS) if forward_ok(x[0])], "Inside<hx::fwd_it>", ("search",), runs="0..6")
    us += sized_units(ks(tier), ("seq", "seqcap", "alt", "altcap", "rep", "repcap", "reprange", "repseq", "seqsets", "backref", "backrefs", "ahead", "aheadneg", "atomic"), ("prefix",), source="Checked<hx::fwd_it>")
    us += sized_units(ks(tier), ("seq", "seqcap", "alt", "altcap", "rep", "repcap", "reprange", "repseq", "seqsets", "backref", "backrefs", "ahead", "aheadneg", "atomic") + ("behind", "behindcap", "behindneg", "behindmix"), ("prefix",), source="Inside<hx::bidi_it>")
    us += big_units(("seq", "seqsets", "seqcap", "rep", "repcap", "backref", "behind"), ("prefix",), source="Checked<hx::bidi_it>", tops=(17, 34))
    nest = nested_pats(seed + 5, T(tier, 400, 4000), NEST_W, None, ("", "", "u", "U"))
    us += it_units(nest[::2], "Inside<hx::bidi_it>", ("search",), runs="0..6")
    us += it_units([x for x in nest[1::2] if forward_ok(x[0])], "Checked<hx::fwd_it>", ("search",), runs="0..6")
    us += long_as_units(LONG_ITER[::T(tier, 2, 1)], "LongAs<hx::fwd_it, %s>", ("search",), (131, 300))
    us += long_as_units(LONG_ITER[1::T(tier, 2, 1)] + [("(?<=a{70})b", "", "a")], "LongAs<hx::rand_it, %s>", ("prefix",), (131, 300))
    return Plan(us, "%d patterns x random-access, bidirectional and forward iterators that check every use, and raw pointers into larger buffers" % len(both), preludes=("iters.hpp",), cost=cost(tier, 500000))


def c14(tier, seed):
    quick = tier == "quick"
    both = [(p, "") for p in ITER + BIDI]
    fwd = [(p, "") for p in ITER]
    us = []
    us += it_units(both, "Checked<hx::bidi_it>", ("match", "search") if not quick else ("match",), runs="0..6")
    us += it_units(fwd, "Checked<hx::fwd_it>", ("match", "search", "finds") if not quick else ("search", "finds"), runs="0..6")
    us += it_units(both[::2], "Checked<hx::rand_it>", ("prefix", "tokens"), runs="0..6")
    us += it_units([(p, f) for p, _ in fwd for f in ("u",)], "Checked<hx::fwd_it>", ("match",), runs="0..6")
    us += it_units([(p, f) for p, _ in both for f in ("u",)], "Checked<hx::bidi_it>", ("prefix",), runs="0..6")
    us += it_units([(p, f) for p, _ in fwd for f in ("m", "U", "i", "s")][::T(tier, 2, 1)], "Checked<hx::fwd_it>", ("search",), runs="0..5")
    us += it_units([(p, "m") for p in ("^", "$", "^a", "a$", "^.*$", "(?:^|b)a", "\\n^", "^\\n", "(^a|b)*")], "Checked<hx::fwd_it>", ("search", "finds"), runs="0..5")
    us += it_units(both[1::T(tier, 4, 1)], "Container<std::string>", ("match", "search", "finds"), runs="0..6")
    us += it_units(both[::T(tier, 4, 1)], "Container<std::vector<char>>", ("match", "search", "tokens"), runs="0..6")
    us += it_units(both[::2], "Container<std::deque<char>>", ("search",), runs="0..5")
    us += it_units(fwd[::2], "Container<std::forward_list<char>>", ("match", "search"), runs="0..5")
    us += it_units(both[1::3], "Mutable", ("search", "finds"), runs="0..6")
    us += it_units(both, "Reverse", ("match", "search") if not quick else ("search",), runs="0..6")
    us += it_units(both[::3], "Reverse", ("tokens", "finds"), runs="0..6")
    us += whole_units(both[::T(tier, 4, 1)], "std::string", OPS)
    us += whole_units(both[1::4], "std::vector<char>", ("match", "search", "tokens"))
    us += whole_units(fwd[::5], "std::forward_list<char>", ("match", "search", "finds"))
    us += whole_units(both[2::7], "std::list<char>", ("match", "prefix", "search", "tokens"))
    us += whole_units(both[3::7], "std::deque<char>", ("prefix", "search"))
    # every operation on every container, with patterns that accept any character
    wide = [(p, "") for p in (".", "(.)|\\n", "[^a]a?", "(?:.|\\r)\\x00?", "[^]*", "a|(?=b)", "(a)?b")]
    for k, c in enumerate(("std::string", "std::vector<char>", "std::list<char>", "std::deque<char>", "std::forward_list<char>", "std::span<unsigned char const>", "std::vector<unsigned char>", "std::u8string", "std::u32string", "std::list<char16_t>")):
        us += whole_units(wide if not quick else (wide[k % 2:4:2] + wide[4 + k % 3:5 + k % 3]), c, OPS, runs="0..4")
    us += whole_units(wide + both[::T(tier, 8, 1)], "std::string", ("terminated",), runs="0..4")
    # characters of other types: codes 0..255
    high = [(p, "") for p in ("\\xe9b", "\\xe9\\xea?", "b\\xe9", "\\xe9+b?", "\\xe9{2}", "(\\xe9)\\1", "\\xe9", "(?:\\xe9|\\xffa)b?", "[\\xe9\\xff]a", "(?=\\xe9).", "\\x80*\\xff", "(?<=\\xe9)a", "(?<=\\xe9\\xea)")]
    high += [("\xe9b", ""), ("\xe9|\x80b", ""), ("\\xe9b", "i"), ("\\xe9[a-z]", "i"), ("\\xe9{2}", "u")]
    for k, c in enumerate(("std::vector<unsigned char>", "std::vector<signed char>", "std::u8string", "std::u16string", "std::u32string", "std::wstring", "std::list<char32_t>", "std::vector<int>")):
        us += it_units(high if not quick or k in (0, 4) else high[k % 2::2], "Elements<%s>" % c, ("search", "match", "finds") if not quick else (("search",), ("search", "match"))[k % 2], runs="0..3")
    us += it_units([x for x in high if forward_ok(x[0])], "Elements<std::forward_list<unsigned char>>", ("search",), runs="0..3")
    elem = [(p, "") for p in ("a", "[^a]b", "(a|b)*c?", "(.)\\1", "\\w+", "[\\x80-\\xff]", "\\xe9|[^\\x80-\\xff]", "\\D\\S", "a{2}", "(?=a).", ".*b", "(?:ab)+", "[]|b", "\\W")] + [("[a-c](\\w)\\1", "i"), ("^.$", "m")]
    eb = elem + [(p, "") for p in ("\\b", "(?<=a)b", "(?<=[\\x80-\\xff])\\w", "(a|b).(?<=\\1)")]
    for k, c in enumerate(("std::vector<unsigned char>", "std::vector<signed char>", "std::u8string", "std::u16string", "std::u32string", "std::wstring", "std::deque<unsigned char>", "std::list<char32_t>", "std::vector<int>")):
        us += it_units(eb if not quick else eb[k % 3::3], "Elements<%s>" % c, ("match", "search", "finds") if not quick else (("search", "match")[k % 2],), runs="0..4")
        us += whole_units(eb if not quick else eb[(k + 1) % 3::3], c, ("match", "prefix", "search", "tokens", "finds") if not quick else (("match", "prefix", "search")[k % 3],), runs="0..4")
    us += it_units(elem[::T(tier, 4, 1)], "Elements<std::forward_list<unsigned char>>", ("search",), runs="0..4")
    r = randoms(seed * 47 + 14, T(tier, 120, 4000), ALLF, FLAGSETS)
    us += it_units([x for x in r if forward_ok(x[0])], "Checked<hx::fwd_it>", ("search",), runs="0..6")
    us += it_units(r, "Checked<hx::bidi_it>", ("search",), runs="0..6")
    us += it_units(r[::3], "Reverse", ("search",), runs="0..6")
    us += sized_units(ks(tier), ("seq", "seqcap", "alt", "altcap", "rep", "repcap", "reprange", "repseq", "seqsets", "backref", "backrefs", "ahead", "aheadneg", "atomic"), ("match",), source="Checked<hx::fwd_it>")
    us += sized_units(ks(tier), ("seq", "seqcap", "alt", "altcap", "rep", "repcap", "reprange", "repseq", "seqsets", "backref", "backrefs", "ahead", "aheadneg", "atomic") + ("behind", "behindcap", "behindneg", "behindmix"), ("prefix",), source="Checked<hx::bidi_it>")
    us += sized_units(ks(tier), ("seq", "seqcap", "alt", "altcap", "rep", "repcap", "reprange", "repseq", "seqsets", "backref", "backrefs", "ahead", "aheadneg", "atomic") + ("behind", "behindcap", "behindneg", "behindmix"), ("prefix",), source="Reverse")
    us += big_units(("seq", "seqsets", "seqcap", "rep", "backref", "ahead"), ("match",), source="Checked<hx::fwd_it>", tops=(17, 34))
    nest = nested_pats(seed + 6, T(tier, 500, 4000), NEST_W, None, ("", "", "u", "U"))
    us += it_units(nest[::2], "Checked<hx::bidi_it>", ("prefix",), runs="0..6")
    us += it_units([x for x in nest[1::2] if forward_ok(x[0])], "Checked<hx::fwd_it>", ("prefix",), runs="0..6")
    behind = [("(?<=a{70})b", "", "a"), ("(?<!a{90}).$", "", "a"), ("(a*)b(?<=\\1b)", "", "a")]
    us += long_as_units(LONG_ITER, "LongAs<hx::fwd_it, %s>", ("prefix",), (131, 300))
    us += long_as_units(LONG_ITER + behind, "LongAs<hx::bidi_it, %s>", ("prefix",), (131, 300))
    us += long_as_units(LONG_ITER[::3] + behind, "LongIn<std::deque<char>, %s>", ("prefix",), (131, 300))
    us += long_as_units(LONG_ITER[1::3], "LongIn<std::list<char>, %s>", ("match",), (131, 256))
    us += long_as_units(LONG_ITER[2::3], "LongIn<std::forward_list<char>, %s>", ("match",), (131, 256))
    return Plan(us, "%d patterns through 14 ways of supplying the text and 7 types of characters" % len(both), preludes=("iters.hpp",), cost=cost(tier, 500000))


# ---- results --------------------------------------------------------------------------------------------
def c15(tier, seed):
    pats = [(p, "") for p in CAPS] + [(p, "") for p in BASE and [b for b, _ in BASE][::4]] + [("(a)(b)(c)x", ""), ("(a*)(b*)x", ""), ("((a)|(b))*x", ""), ("(?=(a))b", ""), ("(?:(a)|(b))+$x", "m")]
    us = []
    for i, (p, f) in enumerate(uniq(pats)):
        t = "hx::Outcome<%s%s>" % (lit(p), fl(f))
        ops = ("match", "prefix", "search", ("owned", "tokens", "finds", "forward")[i % 4])
        us.append(unit(t, ops if tier == "quick" else ("match", "prefix", "search", "owned", "tokens", "finds", "forward", "blank"), show(p, f), "0..6", weight=3))
    for p, f in randoms(seed * 53 + 15, T(tier, 150, 4000), ALLF, FLAGSETS):
        us.append(unit("hx::Outcome<%s%s>" % (lit(p), fl(f)), ("match", "search"), show(p, f), "0..6", weight=2))
    us.append(unit("hx::Outcome<\"(a)|(?<x>b)\">", ("blank",), "default-constructed result", 0))
    us.append(unit("hx::Outcome<\"\">", ("match", "prefix", "search", "owned", "tokens", "finds", "forward", "blank"), "empty pattern", "0..4", 4))
    return Plan(us, text_bounds(pats), preludes=("results.hpp",), cost=cost(tier, 400000), tu_weight=14)


def c16(tier, seed):
    pats = general(tier, seed + 300, T(tier, 400, 5000), 2) + [("(?<=a)b|a", ""), ("^a|b", ""), ("^a|b", "m"), ("\\ba|b", ""), ("\\Ba|\\bb", ""), ("a|(?<!a)b", ""), ("\\Aa|b", ""), ("(?<=\\Aa)b|.", ""), ("(?<=(a))b|a", ""), ("a?", ""), ("(a)|(b)", ""), ("(a)?b?", ""), ("a*|b", ""), ("(?=b)|a", ""), ("a$|b", ""), ("(.)(?<=^.|ab)", ""), ("a|b(?=$)", "")]
    us = ops_units(pats, ("tokens",), ALL, 8)
    it = [("(?<=a)b|a", ""), ("^a|b", "m"), ("\\ba|.", ""), ("a?", ""), ("(a)|(b)", ""), ("a+b?", ""), ("", "")]
    us += it_units(it, "Checked<hx::bidi_it>", ("tokens",), runs="0..6") + it_units([x for x in it if forward_ok(x[0])], "Checked<hx::fwd_it>", ("tokens",), runs="0..6")
    us += long_units([("a|b", "", "ab"), ("(a)|(b)", "", "ab"), ("ab?", "", "ab"), ("a*", "", "ab"), ("(?<=b)a|^a|b", "", "ab")], ("tokens",), (60, 131, 300))
    return Plan(us, text_bounds(pats), preludes=("iters.hpp",), cost=cost(tier))


def c17(tier, seed):
    pats = general(tier, seed + 400, T(tier, 330, 5000), 3) + [("(?<=a)b|a", ""), ("^a|b", ""), ("^a", "m"), ("\\ba", ""), ("\\Ba|\\bb", ""), ("(?<!a)b", ""), ("\\Aa", ""), ("(?<=(a))b|a", ""), ("(a)|(b)", ""), ("a(?=a)", ""), ("aa", ""), ("aba", ""), ("(?<=a)a", ""), ("b?", ""), ("b*", ""), ("$", ""), ("a|$", ""), ("(a)|(?=b)", ""), ("(a)b?|c", ""), ("a$", ""), ("(?<=a.)b", ""), ("(?:(a)|(b))c?", "")]
    us = ops_units(pats, ("finds",), ALL, 7)
    it = [("(?<=a)b|a", ""), ("^a|b", "m"), ("\\ba", ""), ("b?", ""), ("(a)|(b)", ""), ("a+b?", ""), ("", ""), ("aa", "")]
    us += it_units(it, "Checked<hx::bidi_it>", ("finds",), runs="0..6") + it_units([x for x in it if forward_ok(x[0])], "Checked<hx::fwd_it>", ("finds",), runs="0..6")
    us += long_units([("b", "", "ab"), ("(a)|(c)", "", "ab"), ("aa", "", "a"), ("c", "", "ab"), ("ba", "", "ab")], ("finds",), (40, 131, 300))
    return Plan(us, text_bounds(pats), preludes=("iters.hpp",), cost=cost(tier))


def c18(tier, seed):
    quick = tier == "quick"
    pats = [(p, "") for p in ["a", "", "a*", "a?", "a+b?", "(a)|(b)", "(a)|(b+)c", "(?<x>a|b)c?", "aa", "(?<=a)b|a", "\\ba", "^a|b", "$", "a|$", "(a)?b", "[^a]+", "(.)\\1", "(?=a)", "a(?=b)", "(a|b)*c", "(?>a*)b", "a{2}", ".", "..", "(?!a).", "a*?", "(a*)b", "\\w+", "\\d+|\\s+", "()", "a|()", "x", "(?:(a)|(b))+"]]
    pats += [("a", "i"), ("^.", "m"), (".+", "s"), ("a+", "U"), ("a{2}", "u")]
    us = []
    ops = ("range_for", "pre_increment", "post_increment", "algorithms", "laziness")
    for p, f in pats:
        for s in ("true", "false"):
            us.append(unit("hx::Lazy<%s, %s%s>" % (lit(p), s, fl(f)), ops, show(p, f, "find_all" if s == "true" else "tokenize"), "0..6", weight=5))
    for p, f in randoms(seed * 59 + 18, T(tier, 60, 2500), ALLF, FLAGSETS):
        for s in ("true", "false"):
            us.append(unit("hx::Lazy<%s, %s%s>" % (lit(p), s, fl(f)), ("range_for", "post_increment") if quick else ops, show(p, f, "find_all" if s == "true" else "tokenize"), "0..6", weight=3))
    for p, t in (("a|b", "ab"), ("(a)|(b)", "ab"), ("aa?", "a"), ("(?<=b)a|b|^a", "ab"), (".", "xy")):
        for s in ("true", "false"):
            us.append(unit("hx::LongLazy<%s, %s, %s>" % (lit(p), s, lit(t)), ("run",), show(p, "", ("find_all" if s == "true" else "tokenize") + " on long text of " + repr(t)), [20, 70, 290], weight=3))
    return Plan(us, text_bounds(pats, " with find_all and tokenize"), preludes=("results.hpp",), cost=cost(tier, 400000), tu_weight=14)


def groups_of(p):
    """[(number, name or None)] of the capturing groups, by opening parenthesis."""
    out, i, n = [], 0, 0
    while i < len(p):
        c = p[i]
        if c == "\\":
            i += 2
            continue
        if c == "[":
            i += 1
            while p[i] != "]":
                i += 2 if p[i] == "\\" else 1
        elif c == "(":
            if p[i + 1:i + 2] != "?":
                n += 1
                out.append((n, None))
            elif p[i + 1:i + 3] == "?<" and p[i + 3] not in "=!":
                n += 1
                out.append((n, p[i + 3:p.index(">", i)]))
        i += 1
    return out


def names_struct(name, p):
    g = groups_of(p)
    body = []
    for k, nm in g:
        if nm:
            body.append('vs_check(&r.template group<"%s">() == &r.template group<%d>(), "a name shows another group");' % (nm, k))
            body.append('vs_check(&meta::get_group_named<"%s">(r) == &r.template group<%d>(), "a name shows another group");' % (nm, k))
            body.append('vs_check(r.template group<%d>().name() == "%s", "a group reports another name");' % (k, nm))
        body.append('vs_check(r.template group<%d>().has_name() == %s, "has_name is wrong");' % (k, "true" if nm else "false"))
        if not nm:
            body.append('vs_check(r.template group<%d>().name().empty(), "an unnamed group has a name");' % k)
    body.append('vs_check(!r.template group<0>().has_name(), "has_name is wrong");')
    bind = ", ".join("g%d" % k for k in range(len(g) + 1))
    body.append("auto const &[%s] = r;" % bind)
    body += ['vs_check(&g%d == &r.template group<%d>(), "structured binding differs");' % (k, k) for k in range(len(g) + 1)]
    body.append('static_assert(R::group_count == %d);' % (len(g) + 1))
    return "struct %s { template<class R> static void check(R const &r) { %s } };\n" % (name, " ".join(body))


ACCESS = ["", "a", "a*", "(a)", "(a)|b", "(a)(b)?", "(?<x>a)|(?<y>b)", "(?<x>a)(b)(?<y>c)?", "((?<in>a)b)*", "(?<first>a*)(?<second>b*)", "(?<x>.)(.)(?<z>.)", "(a)(b)(c)(d)?", "((a)|(b))*", "(?=(?<l>a)).", "(?<=(?<l>a))b", "(?<w>\\w+) (?<v>\\w+)", "(?<x>)(a)", "(a*)(?<n>b*)(c*)", "(?<a>x)|(?<aa>y)|(?<A>z)", "(?<_1>a)(?<_2>b)", "(..)(?<t>.)*", "(?<x>a|b)\\k<x>", "(?<a_long_group_name>a)(?<a_long_group_name2>b)?", "(?<xxxxxxxxxxxxxxxxxxxxxxxxx>a)", "(?:(?<p>a)|(?<q>b)){2}"]


def access_unit(p, f, ops, tag, runs="0..5"):
    _count[0] += 1
    nm = "N_%d" % _count[0]
    u = unit("hx::AccessOps<meta::regex<%s%s>, %s, hx::flag_bits<%s>(), %s>" % (lit(p), fl(f), lit(p), fl(f)[2:], nm), ops, show(p, f, "accessors"), runs, weight=6)
    u.decl = names_struct(nm, p) + u.decl
    return u


def c19(tier, seed):
    quick = tier == "quick"
    us = [access_unit(p, "", ("match", "prefix", "search", "finds", "temporary"), "") for p in ACCESS]
    for p, f in randoms(seed * 61 + 19, T(tier, 70, 2000), ("names", "look", "atomic", "poss"), ("", "i", "u"), need=lambda p: 1 <= len(groups_of(p)) <= 6):
        us.append(access_unit(p, f, ("search", "temporary"), "", "0..5"))
    us += [unit("hx::LongOwned<%s, %s>" % (lit(p), lit(t)), ("run",), show(p, "", "long owned results of %r" % t), [15, 16, 33, 130, 300], 3) for p, t in (("(a*)(.)", "a"), ("(?<x>a|b)*(.*)", "ab"), ("(.*?)(b)?$", "a"), ("(a+)|(b)", "a"))]
    us += [unit("hx::LongOwned<%s, %s>" % (lit("(a*)(.)"), lit("a")), ("run",), show("(a*)(.)", "", "long owned results"), [255, 256, 257, 511, 512, 513] if quick else list(range(120, 140)) + list(range(250, 262)) + [511, 512, 513, 700, 1000], 5)]
    # many groups
    for k in (8, 9, 10, 11, 12, 13, 16, 17, 18, 20) if not quick else (9, 11, 12, 17):
        t = "abcdefghijklmnopqrstuvwxyz"[:k]
        us.append(access_unit("".join("(%s)" % c for c in t), "", ("match",), "", "%d..%d" % (k, k)))
        us.append(access_unit("".join("(%s)" % c if i % 3 else "(?<n%d>%s)" % (i, c) for i, c in enumerate(t)), "", ("prefix",), "", "%d..%d" % (k - 1, k)))
        us.append(access_unit("|".join("(%s)" % c for c in t), "", ("search", "temporary"), "", "1..1"))
    us += [unit("hx::StreamOps<meta::regex<%s%s>, %s, hx::flag_bits<%s>()>" % (lit(p), fl(f), lit(p), fl(f)[2:]), ("view", "owned", "bidi", "pattern"), show(p, f, "inserted into a stream"), "0..4", weight=4)
           for p, f in [(p, "") for p in ACCESS[::T(tier, 2, 1)]] + [("a\0b|(.)", "s"), ("[\x80-\xff]+(\\n)?", ""), ("(.*)(\\r)?", "")]]
    us += [u for c in ("std::string", "std::vector<char>", "std::list<char>", "std::deque<char>") for u in whole_units([(p, "") for p in ACCESS[2::5]], c, ("match", "prefix", "search"), "0..4")]
    us += whole_units([(p, "") for p in ACCESS[3::6] if forward_ok(p)], "std::forward_list<char>", ("match", "prefix", "search"), "0..4")
    return Plan(us, text_bounds(ACCESS, " with named and unnamed groups"), preludes=("stream.hpp",), cost=cost(tier, 400000), tu_weight=14, needs=("matched", "not matched"))


# ---- flags -----------------------------------------------------------------------------------------------
def rx_units(triples, ops, runs="0..7"):
    """(regex type, pattern giving the meaning, flag letters of the meaning, label)"""
    return [unit("hx::Ops<%s, %s, hx::flag_bits<%s>(), %s>" % (t, lit(p), fl(f)[2:], ALL), ops, l, runs) for t, p, f, l in triples]


def c20(tier, seed):
    quick = tier == "quick"
    us = []
    unroll = quant_family(rests=("b",), quants=["*", "+", "?", "{2}", "{3}", "{0,2}", "{1,3}", "{2,}", "{2,4}", "{1}", "{0}"]) + quant_family(modes=("+",), bodies=POSS_BODIES, rests=("b",), quants=["*", "+", "?", "{2}", "{0,2}", "{1,3}", "{2,}", "{5}"])
    unroll += uniq(["a{4}", "a{5}b", "(?:ab){3}", "(a|b){4}", "(a|ab){3}", "(?:a{2}){2}", "(?:(a)|b){3}", "[ab]{4}c", ".{5}", "(?:a|b){2}{2}" if False else "(?:(?:a|b){2}){2}", "(?<=a{2})b", "(?<=a{3}).", "(?<=(?:ab){2})c", "(?=a{2}).", "(a){3}\\1", "(?:a?){3}", "(?:a*){2}b", "(?>a{2}|a)b", "(a{2})*", "(?:a{2}){3}", "abc", "[ab][bc]c", "a.c{2}"])
    us += ops_units([(p, "u") for p, _ in unroll], ("prefix",), ALL, 7)
    # numbers of iterations on both sides of the powers of two
    counts = (31, 32, 33, 34, 40, 47, 48, 49, 50, 60, 63, 64, 65, 66, 100, 126, 127, 128, 129, 130, 140, 200, 254, 255, 256, 257, 258, 300)
    for i, n in enumerate(counts):
        bodies = [("a{%d}", "a"), ("[ab]{%d}", "ab"), (".{%d}b?", "ab")] + ([("(a){%d}", "a"), ("(?:ab){%d}", "ab"), ("(a|b){%d}", "ab"), ("(?:a|bb?){%d}+", "ab"), ("(a){%d,}?b?", "a")] if n < 70 else [])
        for b, t in bodies if not quick else [bodies[0], bodies[1 + i % 2]] + ([bodies[3 + i % 5], bodies[3 + (i + 2) % 5]] if n < 70 else []):
            w = 2 if b.startswith("(?:ab)") else 1
            us += long_units([(b % n, "u", t)], ("prefix",), (n * w - 1, n * w, n * w + 3))
    us += ops_units([(p, "Uu") for p, _ in unroll[::3]] + [(p, "iu") for p, _ in unroll[1::5]], ("match",), ALL, 7)
    us += it_units([(p, "u") for p, _ in unroll[::2] if forward_ok(p)], "Checked<hx::fwd_it>", ("prefix",), runs="0..6")
    us += it_units([(p, "u") for p, _ in unroll[1::2]], "Checked<hx::bidi_it>", ("prefix",), runs="0..6")
    us += ops_units([(p, "u") for p, _ in BASE[::2]], ("search",), ALL, 7)
    us += ops_units(randoms(seed * 67 + 20, T(tier, 150, 4000), ALLF, ("u", "u", "iu", "mu", "Uu", "isu")), ("search", "finds") if not quick else ("search",), ALL, 7)
    us += ops_units(nested_pats(seed, T(tier, 500, 6000), NEST_W, None, ("u", "u", "u", "Uu", "iu")), ("prefix",), ALL, 6)
    us += ops_units(nested_pats(seed + 1, T(tier, 300, 6000), ["(?:%%s)%s%s" % (q, r) for q in ("{2}", "{3}", "{4}", "{0}", "{1}", "{2,3}", "{2,}", "{0,2}") for r in ("", "b")] + ["(?<=(?:%s){2})b", "(?<=(?:%s){3}).", "(?:%sb?){3}"], corpus.quantified(modes=("", "?")), ("u",)), ("prefix",), ALL, 6)
    us += ops_units([(p, f) for p, f in nested_pats(seed + 2, T(tier, 250, 4000), NEST_W, corpus.quantified(modes=("", "?")), ("U", "Ui", "Us"))], ("prefix",), ALL, 6)
    ways = ["(?:ab?)", "(a|ab)", "(?:ab|a)", "(ab??)", "(?:(a)|(b))", "(?:a(b)?)", "(?:a|bc)", "a", "[ab]", "(?>ab?|b)", "(?=(a))."]
    us += ops_units([("%s{%s}%s%s" % (b, n, m, r), f) for i, b in enumerate(ways) for j, n in enumerate(("2", "4", "5", "6", "7", "9", "3,6", "5,", "4,5")) for f in (("u", "Uu") if not quick else (("u", "u", "Uu", "iu", "mu")[(i + 2 * j) % 5],)) for m in (("", "?", "+") if not quick else (("", "?", "", "+")[(i + j) % 4],)) for r in (("", "b", "c") if not quick else (("b", "c")[(i + j) % 2],))], ("prefix",), ALL, 9)
    us += ops_units([("(?<=%s{%s})%s" % (b, n, r), "u") for b in ways for n in ("2", "4", "5", "6") for r in ("b",)], ("search",), ALL, 7)
    demo = ["a.b", "^a.*?$", "(a)\\1", "[a-c]+\\n?", "a+?b", "^.", "(?:a|\\n).$", "x*(?<=^.)a*", "(?<n>.)\\k<n>", "a{2}.?"]
    R = "meta::regex<%s%s>"
    trip = []
    for p in demo:
        L = lit(p)
        for f in ("im", "mi", "ii", "sms", "Umi", "imU", "ssUU", "uimsU", "Usmiu", "mm", "iuiu"):
            trip.append((R % (L, fl(f)), p, f, show(p, f)))
        for f, g in (("", "i"), ("i", "m"), ("m", "s"), ("U", "i"), ("ims", "U"), ("u", "im"), ("i", "i"), ("s", "u"), ("im", "")):
            trip.append((R % (L, fl(f)) + "::add_flags<%s>" % fl(g)[2:], p, f + g, show(p, f, "add_flags " + g)))
        for f in ("i", "imsU", "u", "s", ""):
            trip.append((R % (L, fl(f)) + "::clear_flags", p, "", show(p, f, "clear_flags")))
        trip.append((R % (L, fl("ims")) + "::clear_flags::add_flags<%s>" % fl("U")[2:], p, "U", show(p, "", "clear then add")))
        trip.append((R % (L, fl("i")) + "::add_flags<%s>::add_flags<%s>" % (fl("m")[2:], fl("s")[2:]), p, "ims", show(p, "", "add twice")))
    us += rx_units(trip, ("search",), "0..4")
    # flags without anything to act on
    none = []
    for p in ("[0-9]+;", "\\d\\D", "(?:1|2)*3", "(\\d)\\1" if False else "(1)\\1", "\\s*_", "[^!]{2}", "\\x80[\\x81-\\x8f]?", "[ -@]"):
        none += [(R % (lit(p), fl(f)), p, "", show(p, f, "= no flag")) for f in ("i", "iu")]
    for p in ("a*b", "[^a]+", "\\N", "\\R", "^a$", "[^]", "\\W", "(?<=a)\\n"):
        none += [(R % (lit(p), fl("s")), p, "", show(p, "s", "= no flag"))]
    for p in ("a*.", "\\Aa", "a\\Z", "\\ba", ".*", "\\B", "\\A.*\\Z", "\\R", "(?<=\\A.)", "(?!\\Z).", "(?<!\\A)a", "[^^$]", "\\^\\$"):
        none += [(R % (lit(p), fl("m")), p, "", show(p, "m", "= no flag"))]
    for p in ("abc", "a*+b", "(?:a|ab)++c", "(?>a|ab)c", "a{2}", "a?+a", "(a|ab){2}", "a{1,2}+b", "(?=a)b", "[*+?]", "a\\*", "(a|b){3}c", "a{0}b"):
        none += [(R % (lit(p), fl(f)), p, "", show(p, f, "= no flag")) for f in ("U", "Uu")]
    us += rx_units(none, ("prefix", "search"), "0..5")
    us += sized_units(ks(tier), STRAIGHT, ("prefix",), flags="u")
    us += big_units(BIG_FREE, ("prefix",), flags="u")
    us += ops_units(window_pats(BEHIND_LOOK[:3] + BEHIND_ANCH[:3], ("u", "Uu"), groups=False), ("prefix",), ALL, 5)
    us += sized_units(ks(tier), ("rep", "repcap", "reprange", "repseq", "seq", "seqsets", "altloop"), ("match",), flags="u", source="Checked<hx::fwd_it>")
    return Plan(us, "unroll over quantifier families and %d random patterns, 3 iterator kinds; %d flag compositions" % (T(tier, 150, 4000), len(trip) + len(none)), preludes=("iters.hpp",), cost=cost(tier, 500000))


# ---- expressions ---------------------------------------------------------------------------------------
def c21(tier, seed):
    quick = tier == "quick"
    us = []
    items = list(xprgen.FIXED) + xprgen.MODES + xprgen.flat(seed * 73 + 21, T(tier, 80, 1500)) + xprgen.randoms(seed * 71 + 21, T(tier, 420, 6000))
    several = set(x[0] for x in xprgen.MODES)
    for i, (e, p, f) in enumerate(items):
        ops = ("prefix", "match") if e in several else ("prefix",) if i % 3 else ("search", "match")
        us += [unit("hx::Ops<std::remove_cvref_t<decltype(%s)>, %s, hx::flag_bits<%s>(), %s>" % (e, lit(p), fl(f)[2:], ALL), ops, "%s ~ %s" % (e, show(p, f)), "0..7")]
    # strings and lists of expressions of every length up to 20, and some longer ones
    abc = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
    for k in list(range(1, 21)) + [31, 32, 33, 34]:
        t = abc[:k]
        chars = ", ".join("x::chr<'%s'>" % c for c in t)
        big = [("x::str<%s>" % lit(t), t), ("(x::str<%s> | x::str<%s>)" % (lit(t), lit(t[:-1] + "z")), "%s|%s" % (t, t[:-1] + "z")), ("x::capture<1>(x::str<%s>, x::wildcard)" % lit(t), "(%s.)" % t), ("(x::str<%s> >> x::maybe(x::str<%s>))" % (lit(t), lit(t[::-1])), "%s(?:%s)?" % (t, t[::-1]))]
        big += [("x::concat(%s)" % chars, t), ("x::either(%s)" % ", ".join("x::str<%s>" % lit(t[i:i + 4] + "0") for i in range(min(k, 12))), "|".join(t[i:i + 4] + "0" for i in range(min(k, 12)))), ("x::atomic(%s)" % chars, "(?>%s)" % t), ("(%s)" % " >> ".join("x::chr<'%s'>" % c for c in t), t), ("x::ahead(%s)" % chars, "(?=%s)" % t), ("(x::str<%s> >> x::behind(%s))" % (lit(t), chars), "%s(?<=%s)" % (t, t))]
        for e, p in big if not quick or k in (1, 2, 3, 8, 9, 16, 17, 20, 33) else (big[0], big[4 + k % 6]):
            us += [unit("hx::Ops<std::remove_cvref_t<decltype(%s)>, %s, 0, %s>" % (e, lit(p), ALL), ("prefix",), "%s ~ %s" % (e, show(p)), "%d..%d" % (max(k - 1, 0), k + 1))]
    return Plan(us, "%d expressions (%d fixed, others random trees) against the pattern string with the same meaning" % (len(items), len(xprgen.FIXED)), preludes=("xpr.hpp",), cost=cost(tier, 500000))


# ---- syntax ----------------------------------------------------------------------------------------------
SYN1 = ["\1", "a\1", "\1a", "a\1b", "(\1", "(\1)", "(a\1)", "(\1a)", "(?\1", "(?\1a)", "(?\1)", "(?<\1", "(?<\1>a)", "(?<a\1>b)", "(?<a\1", "(?<\1a)", "(?<\1=a)", "(?:a\1", "(?:\1)", "(?=\1)", "(?>\1)", "(?<=\1)", "(?!\1", "[\1", "[\1]", "[a\1]", "[^\1]", "[^\1", "[a-\1]", "[a-\1", "[\1-a]", "[\\\1]", "[\\\1", "[a-\\\1]", "[\\\1-z]", "[\\d-\1]", "[a-c\1]", "[a-c\1x]", "[a-c-\1]",
        "\\\1", "\\\1a", "\\x\1", "\\x\1f", "\\xa\1", "[\\x\1f]", "[\\xa\1]", "[a-\\x7\1]", "\\k\1", "(?<a>x)\\k\1a>", "(?<a>x)\\k<\1>", "(?<a>x)\\k<a\1", "(?<ab>x)\\k<a\1>", "\\k<\1", "a{\1", "a{\1}", "a{1\1", "a{1\1}", "a{1,\1", "a{1,\1}", "a{1,2\1}", "a{1,2\1", "a{1,2}\1", "a{1}\1", "a{1}\1b", "a{\1,2}", "a{12\1}", "a*\1", "a+\1", "a?\1", "a*?\1", "a*+\1", "a+?\1", "a??\1", "a{1}?\1", "a{2,}+\1",
        "^\1", "$\1", "\\b\1", "\\B\1", "\\A\1", "\\Z\1", "\\d\1", "(?:a)\1", "(a)\1", "(?=a)\1", "(?<!a)\1", "(?>a)\1", "|\1", "a|\1", "a|\1b", "(a|\1)", "(\1|a)", "(a|\1", "()\1", "(?:)\1", "[]\1", "[^]\1", "[a]\1", ".\1", ")\1", "a)\1", "(a)\\1\1", "\1{2}", "\1*", "(\1", "a\1)", "x{\1y", "a{\1{2}", "(?:\1", "a||\1" if False else "a|b|\1", "((\1))", "(?<n>\1)", "\\x41\1", "\\0\1", "[[\1]", "[.\1]"]
SYN2_ALPHA = "a1,{}()[]^$\\.*+?|-<>=!:xkb"
SYN2 = ["\1\2", "(\1\2", "[\1\2", "a{\1\2", "\\\1\2", "(?\1\2", "a\1\2b", "(?<\1\2", "\1\2)", "[a\1\2]", "(\1\2)", "a\1b\2", "(a\1\2)", "[\1]\2", "a{1\1\2", "a|\1\2", "(?:\1\2)", "[^\1\2]", "a{1,\1\2", "(\1)\2"]
SYN3_ALPHA = "a1{}()[]\\*?|-<"
SYN3 = ["\1\2\3", "(\1\2\3", "a\1\2\3"]


# ---- uses that must not compile -------------------------------------------------------------------------------
def fill(skeleton, h):
    return "".join(h[ord(c) - 1] if 1 <= ord(c) <= len(h) else c for c in skeleton)


def rejected_unit(s, q, alphabet, k, use="std::string_view"):
    fills = list(itertools.product(alphabet, repeat=k))
    _count[0] += 1
    nm = "V_%d" % _count[0]
    u = unit("hx::Rejected<%s, %s, %s, %d, %s, %s>" % (lit(s), lit(q), lit(alphabet), k, "false" if use == "std::string_view" else "true", nm), ("run",),
             "use of /%s/%s on %s for every filling" % (s.translate({1: "\u25a1", 2: "\u25b3"}), " group " + q.translate({1: "\u25a1", 2: "\u25b3"}) if q else "", use), 0, weight=6)
    u.decl = "constexpr signed char %s[] = {@TABLE@};\n" % nm + u.decl
    u.probes = []
    for h in fills:
        text = fill(q, h)
        get = " && r.template group<%s>().is_empty()" % (text if text.isdigit() else lit(text)) if q else ""
        u.probes.append("template<class T> bool f(T const &s) { using R = meta::regex<%s>; auto r = R::match(s); auto t = R::search(s); for (auto &&x : R::tokenize(s)) return (bool)x; return (bool)r && (bool)t%s; }\ntemplate bool f(%s const &);\n" % (lit(fill(s, h)), get, use))
    u.probe_of = lambda data: functools.reduce(lambda a, b: a * len(alphabet) + alphabet.index(chr(b)), data[:k], 0)
    return u


REJ_SYNTAX = [("a\1", "()[]{}*+?|^$\\a", 1), ("\1", "()[]{}*+?|^$\\a.", 1), ("(?\1a)", "=!:><Pa)", 1), ("[a\1", "]-\\^[", 1), ("\\x\1\2", "0aFg", 2), ("a{\1\2", "1,}x", 2), ("(?<\1>a)", "a1-_>A", 1), ("a\1\2", "*+?{", 2), ("\\k\1a>(?<a>b)", "<a>", 1), ("(a\1(b\2", "()|", 2), ("[\1\2]", "]^-\\", 2)]


def c22(tier, seed):
    quick = tier == "quick"
    us = syntax_units(SYN1)
    us += syntax_units(SYN2, SYN2_ALPHA if not quick else SYN2_ALPHA, 2, weight=10)
    us += syntax_units(SYN3[:1] if quick else SYN3, SYN3_ALPHA, 3, weight=30)
    # a hole at a random place of a valid pattern
    rng = random.Random(seed * 73 + 22)
    src = [p for p, _ in BASE if 3 <= len(p) <= 14] + [p for p, _ in randoms(seed * 73 + 23, 80, ALLF, maxlen=16)]
    skel = []
    for _ in range(T(tier, 40, 1500)):
        p = rng.choice(src)
        i = rng.randrange(len(p) + 1)
        cut = rng.random() < 0.3
        skel.append(p[:i] + "\1" + ("" if cut else p[i + (rng.random() < 0.6):]))
    us += syntax_units(uniq([(s, "") for s in skel]) and [s for s, _ in uniq(skel)])
    # long patterns: the position of the error beyond the first ones
    for n in (40, 70, 128, 150) if not quick else (66, 130, 148):
        us += syntax_units(["ab" * (n // 2) + "\1", "(a" * (n // 10) + "b" * (n // 2) + ")" * (n // 10) + "\1)?", "[" + "ab" * (n // 2) + "\1", "a{2}" * (n // 4) + "\1?"], "a()*{]\\+", 1, weight=8)
        us += syntax_units(["(?<" + "n" * min(n, 36) + "\1" + "a" * (n - 36 if n > 36 else 1) + ")"], "n>a()-", 1, weight=8)
    for u in us:
        u.solo = u.weight > 20
    us += [rejected_unit(t, "", al, k) for t, al, k in REJ_SYNTAX]
    return Plan(us, "%d pattern families with one hole over all 256 byte values, %d with two holes over %d characters, %d with three over %d" %
                (len(SYN1) + len(skel), len(SYN2), len(SYN2_ALPHA), 1 if quick else len(SYN3), len(SYN3_ALPHA)),
                preludes=("reject.hpp",), cost=10**9, time_per_run=120.0, tu_weight=18, needs=("accepted", "rejected"),
                outside="patterns outside of the families; patterns that are ill-formed in ways documented as other compile-time errors (crossed bounds, references to missing groups)",
                assumptions=["the parser runs inside the compiler: its verdicts for every filling of a family are a compile-time table; the reference parser runs symbolically on the hole and the solver compares it with the table",
                             "that a rejected pattern cannot be used at all is checked for a few families by compiling each use (as in C27)",
                             "the reference parser (harness/ref.hpp) states the documented syntax"])


MEAN1 = ["a\1b", "\1\1", "a\1", "a|\1b", "(a\1)", "a\1*", "\1{2}", "\\\1b", "a{\1", "a{\1}", "a{1\1b", "x{\1y", "(?:a\1)b", "[a\1]b", "a[^\1]", "(a|\1)b", "\1|a", "a\1|b", "[\1-\\x7f]a", "(\1)\\1", "a+\1", "a{2}\1", "[a-c\1]"]
MEAN1_QUICK = ["a\1b", "a|\1b", "(a\1)", "a\1*", "\\\1b", "a{\1", "a{1\1b", "x{\1y", "[a\1]b", "a[^\1]", "(a|\1)b", "\1|a", "[\1-\\x7f]a", "a{2}\1"]
MEAN2_ALPHA = "ab1,{}[]^$\\*+?|-"
MEAN2 = ["\1\2", "a\1\2", "a\1\2b", "(\1\2)", "[a\1\2]", "a{\1\2", "a|\1\2", "(a\1)\2", "\\\1\2", "[\1\2b]", "x{\1\2}"]
PREC = ["ab|cd", "a|bc", "ab*", "(ab)*", "a|b*", "ab+c", "a|b|c*", "ab?c|d", "a|b(c|d)e|f", "^a|b$", "a*|b", "(?:a|b)c", "a{2}b", "ab{2}", "(?:ab){2}", "a|b{2}", "x{y", "x{y|z", "xa{b|c", "a{b}", "a{,}", "a{,2}", "a{ 1}", "{" if False else "a{{2}", "a{b{2}", "a{{", "a}", "a}}{2}", "a{}b", "]a", "a]", "a-b", "a,b", "a:b<c>=!", "\\{2}", "a\\{2}", "\\(a\\)", "\\[a\\]", "\\|", "a\\|b", "\\*\\+\\?", "\\.", "\\^\\$", "\\-", "\\q\\y\\z" if False else "\\q\\y\\j", "\\u\\i\\o\\p\\h\\l\\m\\c\\g", "\\C\\E\\F\\G\\H\\I\\J\\K\\L\\M\\O\\P\\Q\\T\\U\\V\\X\\Y", "\\_", "\\ ", "\\/", "\\\"", "\\'", "\\<\\>", "[a-]", "[-a]", "[a\\-c]", "[a-c-]", "[a-c-e]", "[.*+?]", "[(|)]", "[$^]", "[\\^]", "[a^]", "[^^]", "[[]", "[\\]]", "[{}]", "[\\b]", "[\\B]", "[\\A\\Z]", "[\\k]", "[\\1]", "[\\-\\]]", "[\\x41-\\x43]", "[\\n-\\r]", "[\\0-\\x1f]", "[a-\\x63]", "[\\\\-a]", "[!-\\/]", "[\\!-/]", "[\\(-\\)]", "[ab-d]", "[a-bd-e]", "[^a-bd-e]", "[\\d-a]", "[\\w-]", "[\\s-\\]]" if False else "[\\s\\-]", "[]a", "[^]a", "(a)(b)\\2", "(?:a)(b)\\1", "\\x4a4", "\\x414", "\\04", "\\0a", "(a)\\1(?:0)", "a{1}", "a{01}", "a{0,01}", "a{1,}b", "(a){b", "[a]{b", "\\d{b", "a*{" if False else "a*?b", "a+?+" if False else "a+b+", "()", "()*", "(?:)", "(?:)|a", "a|(?:)", "(?:a|(?:))b", "((a)(b))", "(?<n>a){2}", "(?=a){2}a", "(?!a)*b", "(?<=a)+b", "(?>a)+", "[ab]{2}?", "a{1,2}?b", "a{2}+", "a?+a", "a??a", "a?a?", "$a", "a^", "a$b", "a^b", "^^a", "a$$", "^$", "\\b\\b"]


SET_ITEMS = ["a", "z", "0", ".", "\\.", "\\-", "\\]", "\\\\", "\\^", "\\n", "\\t", "\\0", "\\x41", "\\x7f", "\\xff", "\\a", "\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\R", "\\N", "\\b", "\\q", "!", "^", "$", "("]
SET_CODE = {"\\.": ".", "\\-": "-", "\\]": "]", "\\\\": "\\", "\\^": "^", "\\n": "\n", "\\t": "\t", "\\0": "\0", "\\x41": "A", "\\x7f": "\x7f", "\\xff": "\xff", "\\a": "\a", "\\b": "\b", "\\q": "q"}


def set_items(quick):
    """Sets made of two items with and without a dash between, before or after them (crossed ranges, which do not compile, left out)."""
    out = []
    k = 0
    for x in SET_ITEMS:
        for y in SET_ITEMS:
            cx, cy = SET_CODE.get(x, x), SET_CODE.get(y, y)
            k += 1
            if len(cy) == 1 and (len(cx) > 1 or ord(cx) <= ord(cy)):   # a class cannot be an upper bound
                first = x if x != "^" else "\\^"
                out.append("[%s-%s]" % (first, y))
                if not quick or k % 4 == 0:
                    out.append("[^_%s-%s;]" % (x, y))
            if not quick or k % 7 == 0:
                out.append("[-%s%s]" % (x, y))
                out.append("[_%s%s-]" % (x, y))
    return uniq(out)


def refs_to(quick):
    """References of two digits to groups with distinct contents."""
    L = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ"
    out = []
    for n in (10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22):
        caps = "".join("(%s)" % c for c in L[:n])
        for r in sorted(set([n, n - 1, n - n % 10] + ([10, 12, 17, 18] if n > 18 else []))):
            if 0 < r <= n:
                out.append((caps + "\\%d" % r, n + 1))
                if r > 9 and n in (15, 21):
                    out.append((caps + "\\%d{2}?\\%d" % (r, r // 10), n + 3))
    return out if not quick else out[::1]


def c23(tier, seed):
    quick = tier == "quick"
    us = hole_units(MEAN1 if not quick else MEAN1_QUICK, ("",), "MATCH", ALL, [0, 1, 2, 3] if not quick else [1, 2, 3])
    us += hole_units(MEAN2 if not quick else MEAN2, ("",), "MATCH", ALL, [1, 2, 3] if not quick else [2, 3], MEAN2_ALPHA, 2)
    us += ops_units(PREC, ("match", "prefix"), ALL, 5)
    us += ops_units(set_items(quick), ("match",), ALL, 2)
    us += [unit("hx::Std<%s, %s>" % (lit(p), ALL), ("prefix",), show(p), [n], 2) for p, n in refs_to(quick)]
    big = ["a{10}", "a{12}", "a{19}b", "a{20}", "a{100}", "a{101,}", "a{99,110}", "a{0012}", "a{9,10}", "a{2,13}b", "(?:ab){11}", "(a){21}", "a{1,100}b", "a{110}?", "a{90,120}?b", "a{100}+", "a{255}", "a{256}", "a{257,}", "a{256,300}", "a{299}b?", "a{1000}", "a{1024,}", "a{2,999}b", "(?:ab){129}"]
    us += long_units([(p, "", t) for p in big for t in ("a", "ab")], ("prefix", "match"), (9, 10, 11, 12, 13, 19, 20, 21, 22, 99, 100, 101, 110, 111, 120, 121, 255, 256, 257, 258, 299, 300, 301, 999, 1000, 1001, 1024, 1025))
    us += [unit("hx::Std<%s, %s>" % (lit(p), ALL), ("prefix",), show(p), "11..15", 2) for p in (REF12 + "\\10", REF12 + "\\11", REF12 + "\\12", REF12 + "\\1\\2")]
    us += ops_units([p for p, _ in BASE], ("match",) if quick else ("match", "search"), ALL, 6)
    us += ops_units(randoms(seed * 79 + 23, T(tier, 100, 5000), ALLF, ("",)), ("prefix",), ALL, 6)
    us += sized_units(ks(tier), STRAIGHT, ("match",))
    us += big_units(BIG_FREE + BIG_CAPS, ("match",))
    return Plan(us, "%d pattern families with one hole over all byte values, %d with two holes over %d characters, %d patterns" % (len(MEAN1), len(MEAN2), len(MEAN2_ALPHA), len(PREC) + len(BASE)),
                preludes=("holes.hpp", "iters.hpp"), cost=T(tier, 150000, 10**7))


NUMB = ["(a)(b)(c)", "((a)(b))(c)", "(a(b(c)))", "(a)|(b)|(c)", "(a)|(b)(c)|(d)", "((a)|(b))(c)", "(a)(?:(b)|(c))(d)", "(?:(a)|(b))+(c)", "(a)*(b)?(c)", "(?=(a))(.)(b)?", "(?<=(a))(b)", "(?!(a))(b)", "(?<!(a))(b)", "(?>(a))(b)", "(?:(?:(a)))(b)", "(a)(?:b)(c)", "(a)(?=b(c)).(d)?", "(?<x>a)(b)(?<y>c)", "(a)(?<x>b)(c)", "(?<x>a)|(b)|(?<y>c)", "(?<x>(?<y>a)b)", "((?<x>a)|(?<y>b))*", "(?<x>a)(?:(?<y>b)|(?<z>c))", "(a)(?<x>b)\\1\\2", "(?<x>a)(b)\\k<x>\\2\\1", "((a)|(b)|(c))(d)", "(()())(a)", "()()()", "(a)((b)|((c)(d)))(e)?", "(?:(a)(b)|(c)(d)){2}", "(a)|((b)|(c))|(d)", "[(](a)", "\\((a)\\)", "(\\()(a)", "[^(](a)", "(a){2}(b)", "(?:(a){2}|(b))(c)", "(a)+?(b)*+(c)", "((((a))))(b)", "(?<=(a)(b))(c)", "(?<=(?<x>a)(?<y>b))(?<z>c)", "(?<=(?=(a)).)(b)", "(?:(?<a1>x)|(?<a2>y)|(?<a3>z))*", "(?<long_name_1>a)(?<long_name_2>b)", "(?<a>x)(?<ab>y)(?<abc>z)", "(?<A>x)(?<a>y)", "(a(?<x>b(c)(?<y>d)))"]


def number_unit(p, f, ops, runs):
    _count[0] += 1
    nm = "N_%d" % _count[0]
    g = groups_of(p)
    u = unit("hx::NumberOps<meta::regex<%s%s>, %s, hx::flag_bits<%s>(), %s, %d>" % (lit(p), fl(f), lit(p), fl(f)[2:], nm, len(g)), ops, show(p, f, "numbering"), runs, weight=2.5)
    u.decl = names_struct(nm, p) + u.decl
    return u


def c24(tier, seed):
    us = [number_unit(p, "", ("count", "match", "prefix", "search", "finds"), "0..6") for p in NUMB]
    us += [number_unit(p, f, ("search",), "0..5") for p in NUMB for f in ("u", "U")]
    us += [number_unit(p, "", ("count", "prefix"), "0..6") for p in CAPS]
    us += [number_unit(p, f, ("count", "prefix"), "0..6") for p, f in randoms(seed * 83 + 24, T(tier, 220, 5000), ("names", "look", "atomic", "ref", "poss"), ("", "", "u"), need=lambda p: 2 <= len(groups_of(p)), maxlen=34, depth=4)]
    us += [number_unit(p, "", ("count", "prefix"), "12..14") for p in (REF12, REF12 + "\\10", REF12 + "\\12\\3")]
    us += [number_unit("".join("(?:(?<n%d>a)|(?<m%d>b))" % (k, k) for k in range(6)), "", ("count", "prefix"), "5..7")]
    for kind, p, f, lens in corpus.sized(ks(tier) + [17, 20], ("seqcap", "altcap", "nest", "names", "namesalt", "namesmix", "behindcap", "ahead", "atomic", "backrefs")):
        small = max(lens) <= 10             # the count is taken from a search, which forks at every position
        us.append(number_unit(p, f, ("prefix",) if kind == "backrefs" or not small else ("count", "prefix"), list(lens)))
        if not small and kind != "backrefs":
            us.append(number_unit(p, f, ("count",), "1..2"))
    names = ["a_long_group_name", "x" * 30, "n" * 17 + "1", "Aa", "__", "a1b2c3d4e5f6g7h8", "_" * 12 + "z", "group", "Z9"]
    us += [number_unit(p, "", ("count", "prefix", "search"), "0..3") for p in ["(?<%s>a)(?<%sx>b)" % (n, n) for n in names] + ["(?<%sa>a)|(?<%sb>b)" % (n, n) for n in names] + ["((?<%s>a)|(?<y>b))\\k<%s>" % (n, n) for n in names[:4]]]
    us += [number_unit("(?<%s>a)|(?<%s>b)" % ("q" * k, "q" * (k - 1) + "r"), "", ("count", "prefix"), "0..2") for k in range(1, 25)]
    return Plan(us, text_bounds(NUMB + CAPS), preludes=("results.hpp", "number.hpp"), cost=cost(tier, 500000), tu_weight=14)


# ---- constant evaluation, independence ----------------------------------------------------------------------
CONST = ["", "a", "ab", "[ab]c", "[^a]", ".", "a*", "a+b", "a*?b", "a*+b?", "a{2}", "a{1,2}b", "a{2,}", "(a)", "(a)|(b)", "(a|b)*c", "(?:(a)|b)*", "(a|ab)(c|bcd)?", "(?<x>a)\\k<x>", "(.)\\1", "(a*)b\\1", "^a", "a$", "\\ba", "a\\B", "\\A.\\Z", "(?=a).", "(?!a).", "(?<=a)b", "(?<!a)b", "(?<=(a|b))c", "(?<=^a)b", "(?<=a{2})b", "(?>a|ab)c?", "(?>a*)b", "\\w\\W?", "\\s|\\d|a", "[]", "[^]*", "(a?)*b", "((a)|(b))+c?", "(?:a|b){2}?c", "(?:ab?){2}", "\\n|\\R", "\\x61+", "(a(b)?)+", "(?:a(?=b)|b)+", "(?<=(?=a).)b"]


def const_units(pats, hows, n, alphabet):
    return [unit("hx::ConstOps<meta::regex<%s%s>, %s, %d, hx::%s>" % (lit(p), fl(f), lit(alphabet), n, h), ("run",), show(p, f, "in constant expressions, " + h), "0..%d" % n, weight=2.5) for p, f in uniq(pats) for h in hows]


BYTES = "".join(chr(i) for i in range(256))
CONST1 = ["\\w", "\\W", "\\d", "\\s", "\\S", "\\R", "\\N", ".", "[^]", "[a-z]", "[^a-z]", "[A-Z_]", "[\\x80-\\xff]", "[\\x00-\\x1f]", "[\\x7f-\\x80]", "[^\\x80-\\x90]", "a", "\\[", "\\{", "\\x00", "\\xe9", "@", "[@\\[]", "[@-Z]", "[Y-b]", "[k\\d\\s]", "[^\\W]", "(?=\\w).", "(?!a).", ".(?<=\\w)", "\\b.", ".\\b", "^.$", "(.)", "x|y|[^a]", "\\n", "\\x40", "`"]
CONST2 = ["(.)\\1", "(\\w)\\1", ".\\b.", "^\\w+$", "[a-z]{2}", "(?:a|A)[^a]", "\\W\\w?", "a*[^a]", "(?<=a).|\\x00", ".(?=[\\x80-\\xff]).", "[@-Z]+", "[^]\\s", "$.|^", "(?<x>[^a])\\k<x>"]
ODD = "aA[{@`\x00\n\r_1\xe9\xff"
CLONG = [("a", "b"), ("ab", "b"), ("(a)|b", "c"), ("a*b", "a"), ("a*?b", "a"), ("b*ab*", "b"), ("(?:ab)*", "ab"), ("[^a]", "a"), ("(a*)b\\1", "a"), ("a{9,}", "a"), ("a{8}", "a"), ("(?:a|b){17}", "b"), ("(a|b)*c", "ab"), ("^a+$", "a"), ("\\ba", "b "), ("(?<=b{8})a", "b"), ("abababab", "ab"), ("(?<=babab)a", "b"), (".*a", "b"), (".+?a", "b"), ("(?>b*)a", "b"), ("b*+a", "b"), ("(?!b)..", "b"), ("(?=b*a).", "b"), ("\\w{10}", "b"), ("b{3,20}a", "b"), ("b{3,20}?a", "b"), ("(b{2}){6}", "b"), ("abcdefgh|b+a", "b")]


def c25(tier, seed):
    quick = tier == "quick"
    small = lambda p: len(groups_of(p)) <= 4
    pats = [(p, "") for p in CONST]
    us = const_units(pats, ("C_MATCH", "C_SEARCH", "C_FINDS") if quick else ("C_MATCH", "C_PREFIX", "C_SEARCH", "C_TOKENS", "C_FINDS", "C_RANGE"), T(tier, 3, 4), "abc\n")
    us += const_units(pats[::3], ("C_PREFIX", "C_TOKENS", "C_RANGE"), 3, "abc\n")
    us += const_units([(p, f) for i, (p, _) in enumerate(pats) for f in (("u", "i", "U", "m", "s", "mu")[i % 6],)], ("C_SEARCH",), 3, "abA\n")
    us += const_units([(p, f) for i, (p, _) in enumerate(pats) for f in (("", "u")[i % 2],)], ("C_BIDI",), 3, "abc\n")
    us += const_units([(p, f) for i, (p, _) in enumerate(pats) if forward_ok(p) for f in (("u", "")[i % 2],)], ("C_FWD",), 3, "abc\n")
    us += const_units(randoms(seed * 89 + 25, T(tier, 60, 1500), ALLF, FLAGSETS, need=small), ("C_PREFIX",) if quick else ("C_SEARCH", "C_FINDS"), 3, "abc\n")
    us += const_units([x for x in nested_pats(seed + 7, T(tier, 60, 1500), NEST_W, None, ("", "u", "U")) if small(x[0])], ("C_SEARCH",), 3, "abc\n")
    us += const_units([(p, f) for p in CONST1 for f in ("", "i")] + [(p, "ms") for p in CONST1[::5]], ("C_PREFIX",), 1, BYTES)
    us += const_units([(p, f) for p in CONST2 for f in ("", "i", "ms")], ("C_SEARCH",), 2, ODD)
    us += const_units(pats[1::4], ("C_SEARCH", "C_FINDS"), 6, "ab")
    for p, t in CLONG:
        for n in (17, 36) if quick else (9, 16, 17, 33, 70, 100):
            for f in ("", "u"):
                for h in ("C_MATCH", "C_FINDS") if quick else ("C_MATCH", "C_PREFIX", "C_SEARCH", "C_FINDS"):
                    us.append(unit("hx::ConstLong<meta::regex<%s%s>, %s, %s, %d, hx::%s>" % (lit(p), fl(f), lit(t), lit("abc"), n, h), ("run",), show(p, f, "in constant expressions, long text, " + h), 0, weight=2.5))
    return Plan(us, "%d patterns x operations: every text of up to %d characters over 4 characters, of 6 over 2, of 2 over %d, single characters of all values; texts of 17 and 36 characters with one character varied at every place" % (len(us), T(tier, 3, 4), len(ODD)), preludes=("history.hpp",), cost=10**7, tu_weight=12,
                outside="patterns outside of the list; texts over other characters or longer; owning results (not usable in constant expressions); constant evaluation by other compilers than clang (a harness that clang rejects counts only if gcc rejects it too)",
                assumptions=STD_ASSUME[1:] + ["constant evaluation happens inside the compiler: its results for every text of the family are a compile-time table; the library's run-time code runs symbolically on the text and the solver compares it with the table"])


HIST = ["a", "", "a*", "a?b?", "(a)|(b)", "(a)?b", "(a|b)c?", "(?<x>a|b)\\k<x>", "(.)\\1", "(?<=a)b|a", "^a|b", "(a)|(?=b)", "a{2}", "a+?", "(?>a|ab)", "((a)|b)+", "[^a]+", "$", "(?=(a)).", "x"]


def c26(tier, seed):
    quick = tier == "quick"
    us = []
    for i, p in enumerate(HIST):
        for s in ("true", "false"):
            us.append(unit("hx::History<%s, %s>" % (lit(p), s), ("generators", "ranges", "calls") if s == "true" else ("generators", "ranges"), show(p, "", "searching" if s == "true" else "tokenizing"), "0..4", weight=5))
    REUSE = ("reuse_match", "reuse_prefix", "reuse_search", "reuse_generator")
    for p in HIST[:14]:
        us.append(unit("hx::History<%s, true>" % lit(p), REUSE, show(p, "", "one buffer for several texts"), "0..3", weight=6))
    for p, f in randoms(seed * 97 + 27, T(tier, 16, 600), ALLF, FLAGSETS):
        us.append(unit("hx::History<%s, true%s>" % (lit(p), fl(f)), REUSE, show(p, f, "one buffer for several texts"), "0..3", weight=6))
    for p in HIST:
        us.append(unit("hx::History<%s, true>" % lit(p), ("many",), show(p, "", "after hundreds of operations"), "1..2", weight=4))
        us.append(unit("hx::History<%s, false>" % lit(p), ("many",), show(p, "", "after hundreds of operations (tokenizing)"), "1..1", weight=4))
    for p, f in randoms(seed * 97 + 26, T(tier, 45, 1500), ALLF, FLAGSETS):
        us.append(unit("hx::History<%s, true%s>" % (lit(p), fl(f)), ("generators", "calls"), show(p, f, "searching"), "0..4", weight=4))
        us.append(unit("hx::History<%s, false%s>" % (lit(p), fl(f)), ("ranges",), show(p, f, "tokenizing"), "0..4", weight=3))
    return Plan(us, "%d patterns; every schedule of 4 steps over two generators or ranges (advance either, copy, unrelated operations), every input up to the bound in bound_histogram" % len(us),
                preludes=("history.hpp",), cost=cost(tier, 4000000, 40000000), tu_weight=14)


REJ = [("a{\1,\2}", "", "0123", 2), ("(?:ab){1\1,\2}", "", "019", 2), ("a{\1\2,12}?", "", "0129", 2), ("[ab]{2,\1\2}+", "", "0129", 2), ("(?:a{\1,\2}|b)*", "", "023", 2), ("(?<=a{\1,\2})", "", "013", 2), ("()\1{3,\2}" if False else "(a){3,\1}", "", "0123456789", 1),
       ("a{\1,2}{0,\2}" if False else "(?:a{\1,2}){\2,2}", "", "123", 2), ("a{\1}", "", "0123,", 1), ("a{10\1,105}", "", "0456", 1),
       ("[\1-\2]", "", "AZaz09 ~\x01\x7f\x80\xff"[:8] + "\x7f\x80\xff", 2), ("[^x\1-m]", "", "aklmno\xff", 1), ("[\\x\1\1-\\x7\2]" if False else "[\\x\1f-\\x7f]", "", "067" + "89f", 1), ("[\\n-\1]", "", "a\x09\x0b\x7f", 1), ("[a-c\1-\2e]", "", "cde-", 2),
       ("\\\1", "", "0123", 1), ("(a)\\\1", "", "012349", 1), ("(a)(b)\\\1", "", "0123459", 1), ("(a)(b)\\1\1" if False else "(a)(?:b)\\\1", "", "0123", 1), ("((a)|b)\\\1*", "", "01234", 1), ("\\\1(a)", "", "0123", 1), ("(?=(a))\\\1", "", "0123", 1), ("(?!\\\1)(a)", "", "0123", 1), ("(?<=\\\1)(a)", "", "0123", 1),
       ("(a)(b)(c)(d)(e)(f)(g)(h)(i)(j)\\1\1", "", "0123", 1), ("(?<x>a)\\\1", "", "0123", 1), ("(?>(a))(?:\\\1|b)", "", "0123", 1),
       ("(?<\1>a)\\k<\2>", "", "xyX_b", 2), ("(?<a\1>a)\\k<a\2>", "", "xyA", 2), ("(?<ab>a)\\k<a\1>", "", "abc0_", 1), ("\\k<\1>(?<n>a)", "", "nmN", 1), ("(?:(?<p>a)|(?<q>b))\\k<\1>", "", "pqr", 1), ("(?<x>(?<y>a))(?=\\k<\1>)", "", "xyz", 1), ("(a)(?<x>a)\\k<\1>", "", "xay", 1),
       ("a", "\1", "0123", 1), ("(a)", "\1", "0123", 1), ("(a)|(b)", "\1", "01234", 1), ("((a)(b))*", "\1", "012345", 1), ("(?:a)(?=b)", "\1", "012", 1), ("(?<x>a)(b)", "\1", "0123", 1), ("(a)(b)(c)(d)(e)(f)(g)(h)(i)(j)", "1\1", "0123", 1),
       ("(?<\1>a)", "\2", "xyX_", 2), ("(?<a\1>a)", "a\2", "xyA", 2), ("(?<x>a)|(?<y>b)", "\1", "xyz", 1), ("(a)(?<x>(?<z>b))", "\1", "xyz", 1), ("\\k<x>(?<x>a)", "\1", "xy", 1)]
# bounds and codes on both sides of the powers of two; which number follows which is decided by the digits
REJ += [("a{100,\1\2\2}", "", "019", 2), ("a{1\0010,1\0020}", "", "02345", 2), ("(a){\00150,\00200}", "", "123", 2), ("a{12\1,12\2}", "", "05789", 2), ("a{25\1,25\2}?", "", "05679", 2), ("[ab]{\00155,2\00256}", "", "0129", 2), ("a{\00100,\00200}+", "", "1259", 2), ("(?:ab){\00130,300}", "", "1234", 1), ("a{6553\1,6553\2}", "", "4567", 2), ("a{\00100000,70000}", "", "0167", 1), ("a{99,10\1}", "", "0123456789", 1), ("a{9\1,\00200}", "", "0129", 2), ("a{32\00167,32\00268}", "", "678", 2)]
REJ_FWD = [("(?\1a)b", "", "=!:>", 1), ("(?<\1a)b", "", "=!", 1), ("a(?:b|(?<\1a))*", "", "=!", 1), ("(?=(?<\1a))b", "", "=!", 1), ("(?<n\1a)b", "", ">", 1)]


def c27(tier, seed):
    quick = tier == "quick"
    us = [rejected_unit(*r) for r in REJ]
    us += [rejected_unit(*r, use="std::forward_list<char>") for r in REJ_FWD]
    n = sum(len(u.probes) for u in us)
    return Plan(us, "%d families of uses with holes, %d uses" % (len(us), n), preludes=("reject.hpp",), cost=10**9, time_per_run=120.0, tu_weight=30, needs=("accepted", "rejected"),
                outside="uses outside of the families; groups of the same name; constructs of the expression interface; which message the compiler prints",
                assumptions=["whether a use compiles is decided inside the compiler: clang's verdicts for every filling of a family are a table built on every run; the reference parser runs symbolically on the holes and the solver compares it with the table; a difference counts only if gcc treats the use in the same way",
                             "the reference parser (harness/ref.hpp) states which bounds, ranges and references have a meaning"],
                extra=lambda res: {"uses_compiled": res.probes})


PROPS = {"C27": c27, "C25": c25, "C26": c26, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12,
         "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24}
