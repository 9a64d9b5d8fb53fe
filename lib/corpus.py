"""Patterns whose compiled matchers are checked. A pattern is (text, flags); flags are letters:
i icase, s dotall, m multiline, U ungreedy, u unroll."""
import random

FLAG = {"i": "icase", "s": "dotall", "m": "multiline", "U": "ungreedy", "u": "unroll"}


def uniq(items):
    seen, out = set(), []
    for x in items:
        if isinstance(x, str):
            x = (x, "")
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


# ---- hand-written structural patterns: sequences, alternations, repetitions, nesting -----------
BASE = uniq([
    "", "a", "ab", "abc", "a|b", "a|ab", "ab|a", "a|ab|abc", "abc|ab|a", "(a|ab)(c|bcd)", "(ab|a)(bc|c)?", "a*", "a+", "a?", "a*b",
    "a+b", "a?b", "a*a", "a+a", "a?a", "a*ab", "a*?b", "a+?b", "a??b", "a*?a", "(a*)(a*)", "(a*?)(a*)", "(a+)(a+)", "(a|b)*",
    "(a|b)*a", "(a|b)*ab", "(?:a|b)+b", "(ab)*", "(ab)*a", "(ab|a)*b", "(a|ab)*c", "(a*b)*", "(a*b*)*c", "((a)|b)*", "((a)|(b))*",
    "(a(b)?)*", "(a(b)?)+c", "a{2}", "a{2,}", "a{2,3}", "a{0,2}", "a{1,2}a", "a{2,3}a", "(ab){2}", "(a|b){2}", "(a|b){2,3}",
    "(a|ab){2}", "(a|ab){2,3}c", "(?:a|b|c)*cb", ".", ".*", ".*a", ".+b", "a.b", "a.*b", "a.*?b", "a.*b.*c", "(.*)(.*)", "(.*?)(.*)",
    "[ab]", "[ab]*", "[ab]+c", "[^a]", "[^a]*a", "[^ab]+b", "[a-c]+b", "\\w+", "\\w+\\d", "\\w*\\s", "\\d+\\w", "\\s*a\\s*",
    "a\\b", "\\ba", "^a", "a$", "^a$", "^$", "^", "$", "^a|b$", "(^a|b)*", "a(?=b)", "a(?!b)", "(?<=a)b", "(?<!a)b", "(?=a).", "(?!a).",
    "(?=ab)a", "(?=(a+))a*b\\1", "(a)\\1", "(a|b)\\1", "(a*)\\1", "(a*)b\\1", "(.)\\1", "(.)(.)\\2\\1", "(?<x>a|b)\\k<x>",
    "(?>a*)a", "(?>a|ab)c", "(?>ab|a)b", "a*+a", "a++b", "a?+a", "(?:a|ab)++c", "(a?)*b", "(a*)*", "(a*)+b", "(a?b?)*c", "(a|b?)*",
    "(?:a?)*?b", "(a*?)*?b", "(?:a*)*b", "(?:(?:a*)*)*b", "x*y*z*", "(x+x+)+y", "(a|a)*b", "(a|a|b)*c", "a|b|c|d", "ab|cd|ef",
    "a(b|c)d", "a(?:b|c)*d", "(a)(b)(c)", "(a)|(b)|(c)", "(a)(b)?(c)?", "((a)(b))c", "(((a)))", "()", "()a", "(a|())b", "(?:)", "a(?:)b",
    "a|(?:)", "(?:)|a", "(?:)*a", "(a|(?:))*b", "(?:a|(?:))b", "a{0}", "a{0}b", "(a){0}b", "a{1}", "(a|b){1}c", "(?:ab){0,1}a", "(?:a{2}){2}",
    "(?:a{1,2}){2}", "(?:a{1,2}){2}a", "(?:a+){2}", "(?:a*){2}b", "(?:a?){3}a{3}", "a?a?a?aaa", "(a|b)(c|d)", "[ab][cd]|ac?e",
    "aa*|ab*", "a(a|b)*|b", "a.?b.?c", "(a.)*b", "(..)*", "(...)*|.", "a..|.a.|..a", "(?:a.|.b)+", "[a-b]{2}c|a{3}", "a+b+|a+c+", "(a+b+)+",
    "(a+|b+)*c", "(a+|b)*?c", "(?:a|b)*?c", "(?:ab?)+?b", "a+?b+?", "a{2,}?a", "a{1,3}?b", "a{1,3}?", "(ab){1,2}?a", "(?:a|b){1,2}?b",
    "\\Aa", "a\\Z", "\\A\\Z", "\\B", "\\b", "a\\Bb", "\\w\\b.", "\\R", "\\N", "\\R*", "\\N+", "\\D\\S\\W", "\\x61+", "a\\.b", "\\\\", "\\[a\\]",
    "[\\]a]", "[a\\-c]", "[-a]", "[a-]", "[^-a]", "[]", "[^]", "[^]b", "a[]|b", "[\\d\\s]", "[^\\d\\s]", "[\\w-]", "a{", "a{b", "a{,2}", "a}", "a]", "x{y{z",
])


# ---- systematic families ------------------------------------------------------------------------
def product(*parts):
    out = [""]
    for p in parts:
        out = [a + b for a in out for b in p]
    return out


BODIES_TRIVIAL = ["a", "[ab]", ".", "\\w"]
BODIES = ["a", "[ab]", ".", "(a)", "(?:ab)", "(a|b)", "(a|ab)", "(?:ab|a)", "(a?b)", "(?:a|bc)"]
QUANTS = ["*", "+", "?", "{2}", "{3}", "{0,2}", "{1,3}", "{2,}", "{2,3}", "{0}", "{1}", "{0,1}", "{1,2}", "{3,}", "{0,}", "{1,}", "{2,4}"]


def quant_family(modes=("", "?"), bodies=None, quants=None, rests=("", "a", "b")):
    out = []
    for b in bodies or BODIES:
        for q in quants or QUANTS:
            for m in modes:
                for r in rests:
                    out.append((b + q + m + r, ""))
    return uniq(out)


# ---- random patterns -----------------------------------------------------------------------------
class Gen:
    """Random pattern text. Leaves out the one construct whose meaning is not pinned down: an unbounded
    possessive loop over a body that can match nothing (its last, empty iteration)."""

    def __init__(self, rng, features, alphabet="abc"):
        self.r, self.f, self.alpha = rng, features, alphabet
        self.groups = 0
        self.names = []
        self.wide = False       # long sequences and alternations with many parts, few quantifiers

    def w(self, *pairs):
        tot = sum(p for _, p in pairs)
        x = self.r.random() * tot
        for v, p in pairs:
            x -= p
            if x < 0:
                return v
        return pairs[-1][0]

    def chars(self):
        a = self.alpha
        c = self.r.choice(a)
        return self.w(("\\" + c if c in "[{(|)*+?.^$\\" else c, 10), (".", 1.5), ("[%s%s]" % (self.r.choice(a), self.r.choice(a)), 1.5), ("[^%s]" % self.r.choice(a), 1),
                      ("\\w", 0.5 if "classes" in self.f else 0), ("\\d", 0.3 if "classes" in self.f else 0), ("\\s", 0.3 if "classes" in self.f else 0),
                      ("[a-c]", 0.7), ("[^]", 0.2))

    def anchor(self):
        return self.r.choice(["^", "$", "\\b", "\\B", "\\A", "\\Z"])

    # every generator returns (text, nullable, quantifiable)
    def atom(self, d):
        f = self.f
        k = self.w(("char", 10), ("cap", 4 if d > 0 else 0), ("grp", 3 if d > 0 else 0), ("named", 0.7 if d > 0 and "names" in f else 0),
                   ("atomic", 1.2 if d > 0 and "atomic" in f else 0), ("look", 1.6 if d > 0 and "look" in f else 0),
                   ("anchor", 1.2 if "anchor" in f else 0), ("ref", 1.6 if "ref" in f else 0))
        if k == "char":
            return self.chars(), False, True
        if k == "anchor":
            return self.anchor(), True, False
        if k == "ref":
            return "\\%R", True, True          # resolved at the end
        if k == "cap" or k == "named":
            if k == "named":
                n = "n%d" % len(self.names)
                self.names.append(n)
                head = "(?<%s>" % n
            else:
                head = "("
            self.groups += 1
            t, nul = self.alt(d - 1)
            return head + t + ")", nul, True
        if k == "grp":
            t, nul = self.alt(d - 1)
            return "(?:" + t + ")", nul, True
        if k == "atomic":
            t, nul = self.alt(d - 1)
            return "(?>" + t + ")", nul, True
        t, nul = self.alt(d - 1)
        return self.r.choice(["(?=", "(?!", "(?<=", "(?<!"]) + t + ")", True, self.r.random() < 0.15

    def term(self, d):
        t, nul, q = self.atom(d)
        if not q or self.r.random() > (0.12 if self.wide else 0.4):
            return t, nul
        qs = self.w(("*", 4), ("+", 3), ("?", 3), ("{2}", 1), ("{0,2}", 1), ("{1,2}", 1), ("{2,}", 0.7), ("{2,3}", 0.7), ("{3}", 0.4), ("{1}", 0.2), ("{0}", 0.1), ("{1,3}", 0.3))
        mode = self.w(("", 6), ("?", 2.5), ("+", 1.2 if "poss" in self.f else 0))
        unbounded = qs in ("*", "+", "{2,}")
        if mode == "+" and unbounded and nul:
            mode = ""
        lo0 = qs in ("*", "?", "{0,2}", "{0}")
        return t + qs + mode, nul or lo0

    def seq(self, d):
        n = self.w((1, 3), (2, 4), (3, 2)) if not self.wide else self.w((1, 4), (2, 4), (3, 2), (4, 1.5), (5, 1), (6, 1), (8, 0.7))
        ts, nul = [], True
        for _ in range(n):
            t, x = self.term(d)
            ts.append(t)
            nul = nul and x
        return "".join(ts), nul

    def alt(self, d):
        n = self.w((1, 6), (2, 3), (3, 1)) if not self.wide else self.w((1, 5), (2, 2), (3, 2), (4, 1.5), (5, 1.5), (6, 1), (7, 0.7), (9, 0.7))
        ts, nul = [], False
        for _ in range(n):
            t, x = self.seq(d)
            ts.append(t)
            nul = nul or x
        return "|".join(ts), nul

    def pattern(self, depth=3):
        self.groups = 0
        self.names = []
        t, _ = self.alt(depth)
        out = []
        parts = t.split("\\%R")
        out.append(parts[0])
        for p in parts[1:]:
            if self.groups == 0:
                out.append(self.r.choice([c for c in self.alpha if c.isalnum()]))
            elif self.names and self.r.random() < 0.3:
                out.append("\\k<%s>" % self.r.choice(self.names))
            else:
                k = self.r.randint(1, self.groups)
                out.append("\\%d" % k if not p[:1].isdigit() else "(?:\\%d)" % k)
            out.append(p)
        return "".join(out)


def randoms(seed, count, features, flags=(), maxlen=26, need=None, depth=3, alphabet="abc", maxgroups=9, wide=0.3):
    r = random.Random(seed)
    out, tries = [], 0
    while len(out) < count and tries < count * 60:
        tries += 1
        g = Gen(r, features, alphabet)
        g.wide = r.random() < wide
        p = g.pattern(depth if not g.wide else 2)
        if not ((2 if not g.wide else 14) <= len(p) <= (maxlen if not g.wide else max(maxlen, 46))) or g.groups > maxgroups:
            continue
        if p.count("*") + p.count("+") + p.count(",}") > 4:
            continue
        if need and not need(p):
            continue
        fl = r.choice(flags) if flags else ""
        out.append((p, fl))
    return uniq(out)


# ---- products of constructs: every quantifier on every body inside every wrapper -------------------
Q_ALL = ["?", "*", "+", "{0}", "{1}", "{2}", "{3}", "{4}", "{0,1}", "{0,2}", "{0,3}", "{1,2}", "{1,3}", "{2,3}", "{2,4}", "{3,5}", "{0,}", "{1,}", "{2,}", "{3,}"]
# (body that a quantifier can follow, can match nothing)
Q_BODIES = [("a", 0), ("(?:ab)", 0), ("(a)", 0), ("(ab)", 0), ("(?:a|b)", 0), ("(?:a|bc)", 0), ("(a|ab)", 0), ("((a)|(b))", 0), ("[ab]", 0), (".", 0), ("(?:(a)(b))", 0), ("(?>a|ab)", 0), ("(?:a(?=b)|b)", 0), ("(?:(?<=a)b|a)", 0),
            ("(?:ab?)", 0), ("(?:a+b)", 0), ("(?:a{2}b?)", 0), ("(a?)", 1), ("(?:a*)", 1), ("(?:a?b?)", 1), ("(?:)", 1), ("(?:a|(?:))", 1), ("(?:(a)|b?)", 1), ("(?=a)", 1), ("(?:\\b)", 1), ("(?:a??)", 1), ("(?:(?:a?){2})", 1), ("(?:(?:a?){3})", 1), ("(?:(?:a{0,2}){4})", 1)]


def quantified(bodies=None, quants=None, modes=("", "?", "+")):
    """(text, nullable). Leaves out unbounded possessive loops over bodies that can be empty."""
    out = []
    for b, nul in bodies or Q_BODIES:
        for q in quants or Q_ALL:
            for m in modes:
                if m == "+" and nul and (q in "*+" or q.endswith(",}")):
                    continue
                out.append((b + q + m, nul or q[0] in "?*" or q.startswith("{0")))
    return out


def mix(seed, items, n):
    """n of the items, spread evenly, in a fixed order."""
    items = list(items)
    if len(items) <= n:
        return items
    return random.Random(seed * 911 + len(items)).sample(items, n)


def nested(seed, n, wrappers, inner):
    """wrappers: format strings with one %s; inner: texts."""
    return [(w % x, "") for w, x in mix(seed, [(w, x) for w in wrappers for x in inner], n)]


# ---- structures of growing size -------------------------------------------------------------------
def sized(ks, kinds=None):
    """(kind, pattern, flags, input lengths): sequences, alternations, sets, groups, names, nesting and lookbehinds with k parts."""
    L = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
    out = []
    for k in ks:
        s = L[:k]
        caps = "".join("(%s)" % c for c in s)
        opts = "".join("%s?" % c for c in s)
        out += [("seq", s, "", (k, k + 1)), ("seqcap", caps, "", (k, k + 1)), ("seqopt", "".join(c + ("?" if i % 3 == 1 else "") for i, c in enumerate(s)), "", (k,)),
                ("alt", "|".join(L[i % 26] + L[(i + 7) % 26] for i in range(k)), "", (2,)), ("altcap", "|".join("(%s)" % c for c in s), "", (1, 2)),
                ("altset", "|".join(s), "", (1,)), ("altloop", "(?:" + "|".join("%s%s" % (c, c) for c in s) + "){2}", "", (4,)),
                ("set", "[" + "".join(L[2 * i % 26] for i in range(k)) + "]+", "", (1, 2)), ("setneg", "[^" + "".join("%s\\x%02x-\\x%02x" % (L[i], 128 + 8 * i, 130 + 8 * i) for i in range(min(k, 15))) + "]", "", (1,)),
                ("nest", "(" * k + "a|b" + ")" * k + "c?", "", (1, 2)), ("nestq", "(?:" * k + "a" + "b?)" * k, "", (min(k, 4),)),
                ("names", "".join("(?<n%d>%s)" % (i, c) for i, c in enumerate(s)), "", (k,)), ("namesalt", "|".join("(?<n%d>%s)" % (i, c) for i, c in enumerate(s)), "", (1,)),
                ("namesmix", "".join(("(?<n%d>%s)" % (i, c)) if i % 3 == 0 else ("(%s)" % c) if i % 3 == 1 else c for i, c in enumerate(s)), "", (k,)),
                ("backref", caps + "\\%d" % k, "", (k + 1,)), ("backrefs", caps + "".join("\\%d" % (k - i) for i in range(min(k, 3))), "", (k + 3,)),
                ("behind", "[^]{%d}(?<=%s)" % (k, s), "", (k,)), ("behindcap", "[^]{%d}(?<=%s)" % (k, caps), "", (k,)), ("behindneg", "[^]{%d}(?<!%s)." % (k, s), "", (k + 1,)),
                ("behindmix", "[^]{%d}(?<=%s)" % (k, "".join(("(?:%s|%s%s)" % (c, c, c)) if i % 2 else c for i, c in enumerate(s))), "", (k,)),
                ("behindalt", "[^]{2}(?<=%s)" % "|".join(L[i % 26] + L[(i + 7) % 26] for i in range(k)), "", (2,)),
                ("ahead", "(?=%s)." % caps, "", (k,)), ("aheadneg", "(?!%s)[^]*" % s, "", (k,)), ("atomic", "(?>%s)." % caps, "", (k + 1,)),
                ("rep", "%s{%d}b" % ("a", k), "", (k + 1, k + 2)), ("repcap", "(?:(a)|(b)){%d}" % k if k < 6 else "(a){%d}" % k, "", (k,)), ("reprange", "(?:ab){%d,%d}c" % (k - 1, k + 1), "", (2 * k + 1,)),
                ("repseq", "(?:%s){2}" % s, "", (2 * k,)), ("anch", "^" * k + "a" + "$" * k, "", (1,)), ("looks", "(?=a)" * k + "a" + "(?<=a)" * k, "", (1,)),
                ("seqsets", "".join("[%s%s]" % (c, c.upper()) for c in s), "", (k, k + 1)), ("opts", opts, "", (min(k, 4),)), ("loops", "".join("%s*" % c for c in s), "", (3,)),
                ("loopopt", "(?:" + "".join("%s?" % c for c in s) + ")*", "", (2,)), ("icase", s, "i", (k,)), ("hex", "".join("\\x%02x" % (0x7c + i) for i in range(k)), "", (k,))]
        pre = [L[:i + 1] for i in range(k)]
        ov = ["a" + "ab"[i % 2] * (i % 3) + L[i % 4] for i in range(k)]
        out += [("altpre", "|".join(pre), "", (1, k, k + 1)), ("altprerev", "|".join(pre[::-1]), "", (1, k, k + 1)), ("altpri", "|".join([L[2 * i % 26] + L[(2 * i + 1) % 26] for i in range(k - 1)] + ["a"]), "", (1, 2)),
                ("altov", "|".join(ov), "", (3, 4)), ("altovcap", "|".join("(%s)" % x if i % 2 else x[0] + "(%s)" % x[1:] for i, x in enumerate(ov)), "", (3, 4)), ("altovloop", "(?:" + "|".join(ov) + ")*c", "", (4,)), ("altovc", "(?:" + "|".join(ov) + ")c", "", (4,)),
                ("altcapsets", "|".join("([%s%s])%s" % (L[i], L[i + 1], L[i % 3]) for i in range(k)), "", (2,)), ("altpossov", "(?>" + "|".join(ov) + ")c?", "", (4,)), ("behindov", "[^]*(?<=" + "|".join(ov) + ")$", "", (4,)),
                ("seqalt", "".join("(?:%s|b)" % c for c in ("a" * k)), "", (min(k, 5),)), ("setmix", "[" + "".join((L[i], "\\d", "%s-%s" % (L[i % 24].upper(), L[i % 24 + 1].upper()), "\\s")[i % 4] for i in range(k)) + "]", "", (1,)),
                ("setmixneg", "[^" + "".join((L[i], "%s-%s" % (L[i % 24].upper(), L[i % 24 + 1].upper()), "\\x%02x" % (i * 11 % 256), "\\s")[i % 4] for i in range(k)) + "]", "", (1,))]
    if kinds:
        out = [x for x in out if x[0] in kinds]
    return out
