"""Expressions of the expression API together with the pattern string that has the same meaning."""
import random

MODE = {"": "match_mode::greedy", "?": "match_mode::lazy", "+": "match_mode::possessive"}


def cchar(c):
    return "'\\%03o'" % ord(c)


def cstr(s):
    return '"' + "".join(c if c.isalnum() and ord(c) < 128 else "\\%03o" % ord(c) for c in s) + '"'


def pesc(c):
    return "\\" + c if c in "\\^$.|?*+()[]{}" else c


def sesc(c):
    return "\\" + c if c in "\\]^-" else c


class E:
    """x: expression, p: pattern, prec: 0 alternation, 1 sequence, 2 item, 3 quantifiable; nul: can match nothing;
    cs: content of a set equal to it (single characters only)."""

    def __init__(self, x, p, prec, nul, cs=None, neg=None):
        self.x, self.p, self.prec, self.nul, self.cs, self.neg = x, p, prec, nul, cs, neg

    def at(self, prec):
        return self.p if self.prec >= prec else "(?:" + self.p + ")"


def chr_(c):
    return E("x::chr<%s>" % cchar(c), pesc(c), 3, False, sesc(c))


LEAVES = [E("x::digit", "\\d", 3, False, "\\d"), E("x::word", "\\w", 3, False, "\\w"), E("x::whitespace", "\\s", 3, False, "\\s"), E("x::linebreak", "\\R", 3, False, "\\R"),
          E("x::lower", "[a-z]", 3, False, "a-z"), E("x::upper", "[A-Z]", 3, False, "A-Z"), E("x::wildcard", ".", 3, False), E("x::nothing", "[]", 3, False, "")]
ZERO = [E("x::begin_line", "^", 2, True, neg="(?!^)"), E("x::end_line", "$", 2, True, neg="(?!$)"), E("x::begin_input", "\\A", 2, True, neg="(?!\\A)"), E("x::end_input", "\\Z", 2, True, neg="(?!\\Z)"),
        E("x::word_boundary", "\\b", 2, True, neg="\\B"), E("x::empty", "(?:)", 3, True)]
EMBED = [("ab?c", 1, False), ("a|b", 0, False), ("a|bc", 0, False), ("[a-c]+?", 2, False), ("a{2,3}", 2, False), ("(?=a).", 1, False), ("^a", 1, False), ("b*+a", 1, False), ("(?>a|ab)", 3, False), ("", 1, True),
         ("a*", 2, True), ("a*?b?", 1, True), ("[^b]", 3, False), ("\\w\\d?", 1, False), (".", 3, False), ("a|(?:)", 0, True), ("(?<=a)b", 1, False), ("(?:ab|a){2}", 2, False), ("a{2}", 2, False)]


def str_(s):
    return E("x::str<%s>" % cstr(s), "".join(pesc(c) for c in s) or "(?:)", 3 if len(s) == 1 or not s else 1, not s)


def range_(a, b):
    return E("x::range<%s, %s>" % (cchar(a), cchar(b)), "[%s-%s]" % (sesc(a), sesc(b)), 3, False, "%s-%s" % (sesc(a), sesc(b)))


def embed(p, prec, nul):
    return E("x::regex<%s>" % cstr(p), p if p else "(?:)", prec if p else 3, nul)


def negset(e):
    return E(None, "[^%s]" % e.cs, 3, False)


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.groups, self.names, self.loops = 0, [], 0

    def pick(self, *pairs):
        tot = sum(w for _, w in pairs)
        v = self.r.random() * tot
        for k, w in pairs:
            v -= w
            if v < 0:
                return k
        return pairs[-1][0]

    def single(self):
        r = self.r
        k = self.pick(("chr", 6), ("leaf", 1.6), ("range", 1), ("neg", 1.2), ("embed", 0.3))
        if k == "chr":
            return chr_(r.choice("aaabbbccx.*") if r.random() < 0.9 else r.choice("\n\\^$]-\x80\xff0 _Z"))
        if k == "leaf":
            return r.choice(LEAVES)
        if k == "range":
            a, b = sorted(r.sample("acz09AZ\x80\xff", 2))
            return range_(a, b)
        if k == "embed":
            return embed("[^b]", 3, False)
        # negation of a single character construct or of an alternation of them
        if r.random() < 0.6:
            e = self.single_cs()
            p, x = "[^%s]" % e.cs, e.x
        else:
            es = [self.single_cs() for _ in range(2)]
            p = "[^%s]" % "".join(e.cs for e in es)
            x = self.either_x([e.x for e in es])
        if r.random() < 0.15:
            return E("!!(%s)" % x if r.random() < 0.5 else "x::negate(x::negate(%s))" % x, "[" + p[2:], 3, False)
        return E(r.choice(["!(%s)", "x::negate(%s)"]) % x, p, 3, False)

    def single_cs(self):
        while True:
            e = self.r.choice([chr_(self.r.choice("abcx-]")), range_("a", "c"), range_("b", "z"), self.r.choice(LEAVES)])
            if e.cs is not None and e.x != "x::nothing":
                return e

    def either_x(self, xs):
        if self.r.random() < 0.5:
            return "(" + " | ".join("(%s)" % x for x in xs) + ")"
        return "x::either(%s)" % ", ".join(xs)

    def concat_x(self, xs):
        if self.r.random() < 0.5:
            return "(" + " >> ".join("(%s)" % x for x in xs) + ")"
        return "x::concat(%s)" % ", ".join(xs)

    def args(self, d):
        """One or several expressions as the arguments of a wrapper: (texts, pattern expression)."""
        if self.r.random() < 0.7:
            e = self.alt(d)
            return e.x, e
        es = [self.term(d) for _ in range(self.r.randint(2, 3))]
        return ", ".join(e.x for e in es), E(None, "".join(e.at(1) for e in es), 1, all(e.nul for e in es))

    def atom(self, d):
        r = self.r
        k = self.pick(("single", 8), ("str", 1.2), ("zero", 1), ("embed", 1), ("cap", 3 if d > 0 else 0), ("atomic", 1 if d > 0 else 0), ("look", 1.4 if d > 0 else 0), ("sub", 2 if d > 0 else 0),
                      ("ref", 1 if self.groups else 0))
        if k == "single":
            return self.single()
        if k == "str":
            return str_("".join(r.choice("abc.") for _ in range(r.randint(1, 3))))
        if k == "zero":
            e = r.choice(ZERO)
            if e.neg and r.random() < 0.35:
                return E("!" + e.x if r.random() < 0.5 else "x::negate(%s)" % e.x, e.neg, 2, True)
            return e
        if k == "embed":
            return embed(*r.choice(EMBED))
        if k == "ref":
            if self.names and r.random() < 0.4:
                n = r.choice(self.names)
                return E("x::group_named<%s>" % cstr(n), "\\k<%s>" % n, 3, True)
            n = r.randint(1, self.groups)
            return E("x::group<%d>" % n, "(?:\\%d)" % n, 3, True)
        if k == "cap":
            self.groups += 1
            n = self.groups
            name = None
            if r.random() < 0.4:
                name = "n%d" % n
                self.names.append(name)
            a, e = self.args(d - 1)
            if name:
                return E("x::capture<%d, %s>(%s)" % (n, cstr(name), a), "(?<%s>%s)" % (name, e.p), 3, e.nul)
            return E("x::capture<%d>(%s)" % (n, a), "(%s)" % e.p, 3, e.nul)
        a, e = self.args(d - 1)
        if k == "atomic":
            return E("x::atomic(%s)" % a, "(?>%s)" % e.p, 3, e.nul)
        if k == "look":
            ahead, neg = r.random() < 0.5, r.random() < 0.4
            x = "x::%s(%s)" % ("ahead" if ahead else "behind", a)
            if neg:
                x = r.choice(["!%s", "x::negate(%s)"]) % x
            return E(x, "(?" + ("" if ahead else "<") + ("!" if neg else "=") + e.p + ")", 2, True)
        return E("x::concat(%s)" % a if ", " in a else "(%s)" % a, e.p, e.prec, e.nul)

    def term(self, d):
        r = self.r
        if r.random() > 0.42:
            return self.atom(d)
        several = r.random() < 0.25 and d > 0
        if several:
            a, e = self.args(d - 1)
        else:
            e = self.atom(d)
            a = e.x
        k = self.pick(("star", 3), ("plus", 2.5), ("maybe", 2), ("least", 1), ("between", 1.5), ("exactly", 1))
        mode = self.pick(("", 6), ("?", 2.5), ("+", 1.3))
        inf = k in ("star", "plus", "least")
        if mode == "+" and inf and e.nul:
            mode = ""
        if inf:
            self.loops += 1
        explicit = mode != "" or r.random() < 0.2
        m = MODE[mode]
        body = e.at(3)
        if k in ("star", "plus"):
            name, op, q = ("zero_or_more", "*", "*") if k == "star" else ("one_or_more", "+", "+")
            if not explicit and not several and r.random() < 0.6:
                return E("%s(%s)" % (op, a), body + q, 2, e.nul or k == "star")
            return E("x::%s%s(%s)" % (name, "<%s>" % m if explicit else "", a), body + q + mode, 2, e.nul or k == "star")
        if k == "maybe":
            return E("x::maybe%s(%s)" % ("<%s>" % m if explicit else "", a), body + "?" + mode, 2, True)
        if k == "least":
            n = r.randint(0, 3)
            return E("x::at_least<%d%s>(%s)" % (n, ", " + m if explicit else "", a), body + "{%d,}" % n + mode, 2, e.nul or n == 0)
        if k == "between":
            lo = r.randint(0, 2)
            hi = lo + r.randint(0, 2)
            return E("x::between<%d, %d%s>(%s)" % (lo, hi, ", " + m if explicit else "", a), body + "{%d,%d}" % (lo, hi) + mode, 2, e.nul or lo == 0)
        n = r.randint(0, 3)
        return E("x::exactly<%d%s>(%s)" % (n, ", " + m if explicit else "", a), body + "{%d}" % n + mode, 2, e.nul or n == 0)

    def seq(self, d):
        n = self.pick((1, 3), (2, 4), (3, 2))
        es = [self.term(d) for _ in range(n)]
        if n == 1:
            return es[0]
        return E(self.concat_x([e.x for e in es]), "".join(e.at(1) for e in es), 1, all(e.nul for e in es))

    def alt(self, d):
        n = self.pick((1, 6), (2, 3), (3, 1))
        es = [self.seq(d) for _ in range(n)]
        if n == 1:
            return es[0]
        return E(self.either_x([e.x for e in es]), "|".join(e.p for e in es), 0, any(e.nul for e in es))


FLAGNAMES = {"i": "icase", "s": "dotall", "m": "multiline", "U": "ungreedy", "u": "unroll"}


def randoms(seed, count, depth=3, maxlen=30):
    r = random.Random(seed)
    out, seen, tries = [], set(), 0
    while len(out) < count and tries < 80 * count:
        tries += 1
        g = Gen(r)
        e = g.alt(depth)
        if not 2 <= len(e.p) <= maxlen or g.loops > 4 or g.groups > 6 or e.x in seen:
            continue
        seen.add(e.x)
        fl = r.choice(["", "", "", "", "i", "s", "m", "U", "u", "im", "Uu"])
        x = e.x
        if fl:
            how = r.random()
            flags = ", ".join("regex_flag::" + FLAGNAMES[c] for c in fl)
            if how < 0.6:
                x = "x::add_flags<%s>(%s)" % (flags, x)
            elif how < 0.8:
                x = "x::add_flags<%s>(x::clear_flags(x::add_flags<regex_flag::icase>(%s)))" % (flags, x)
            else:
                for c in fl:
                    x = "x::add_flags<regex_flag::%s>(%s)" % (FLAGNAMES[c], x)
        elif r.random() < 0.05:
            x = "x::clear_flags(x::add_flags<regex_flag::icase, regex_flag::dotall>(%s))" % x
        out.append((x, e.p, fl))
    return out


FIXED = [
    ("x::empty", "(?:)", ""), ("x::nothing", "[]", ""), ("!x::nothing", "[^]", ""), ("x::chr<'a'>", "a", ""), ("!x::chr<'a'>", "[^a]", ""), ("x::chr<'*'>", "\\*", ""), ("x::chr<'\\377'>", "\\xff", ""), ("x::chr<'\\0'>", "\\0", ""),
    ("x::str<\"abc\">", "abc", ""), ("x::str<\"a.c\">", "a\\.c", ""), ("x::str<\"(a|b)*\">", "\\(a\\|b\\)\\*", ""), ("x::str<\"a\">", "a", ""), ("+x::str<\"ab\">", "(?:ab)+", ""), ("x::maybe(x::str<\"abc\">)", "(?:abc)?", ""),
    ("x::range<'a', 'c'>", "[a-c]", ""), ("!x::range<'a', 'c'>", "[^a-c]", ""), ("x::range<'a', 'a'>", "a", ""), ("x::range<'\\0', '\\377'>", "[^]", ""), ("x::range<'\\200', '\\377'>", "[\\x80-\\xff]", ""), ("!x::range<'A', 'z'>", "[^A-z]", "") ,
    ("x::digit", "\\d", ""), ("!x::digit", "\\D", ""), ("x::word", "\\w", ""), ("!x::word", "\\W", ""), ("x::whitespace", "\\s", ""), ("!x::whitespace", "\\S", ""), ("x::linebreak", "\\R", ""), ("!x::linebreak", "\\N", ""), ("x::wildcard", ".", ""), ("!x::wildcard", "\\R", ""), ("!!x::wildcard", ".", ""),
    ("x::lower", "[a-z]", ""), ("x::upper", "[A-Z]", ""), ("!x::lower", "[^a-z]", ""), ("!x::upper", "[^A-Z]", ""),
    ("x::begin_line", "^", ""), ("x::end_line", "$", ""), ("x::begin_input", "\\A", ""), ("x::end_input", "\\Z", ""), ("x::word_boundary", "\\b", ""), ("!x::word_boundary", "\\B", ""), ("!x::begin_line", "(?!^)", ""), ("!x::end_line", "(?!$)", ""), ("!x::begin_input", "(?!\\A)", ""), ("!x::end_input", "(?!\\Z)", ""), ("!!x::word_boundary", "\\b", ""),
    ("x::add_flags<regex_flag::multiline>(x::begin_line >> x::wildcard)", "^.", "m"), ("x::add_flags<regex_flag::multiline>(x::wildcard >> x::end_line)", ".$", "m"), ("x::add_flags<regex_flag::multiline>(!x::begin_line >> x::wildcard)", "(?!^).", "m"),
    ("x::add_flags<regex_flag::multiline>(x::begin_input >> +x::wildcard >> x::end_input)", "\\A.+\\Z", "m"), ("x::add_flags<regex_flag::dotall>(+x::wildcard)", ".+", "s"), ("x::add_flags<regex_flag::dotall>(!x::wildcard)", "[]", "s"),
    ("x::add_flags<regex_flag::icase>(x::lower)", "[a-z]", "i"), ("x::add_flags<regex_flag::icase>(x::str<\"aB\">)", "aB", "i"), ("x::add_flags<regex_flag::icase>(!x::chr<'a'>)", "[^a]", "i"), ("x::add_flags<regex_flag::icase>(x::range<'b', 'y'>)", "[b-y]", "i"), ("x::add_flags<regex_flag::icase>(x::capture<1>(x::word) >> x::group<1>)", "(\\w)\\1", "i"),
    ("x::chr<'a'> >> x::chr<'b'>", "ab", ""), ("x::chr<'a'> >> (x::chr<'b'> >> x::chr<'c'>)", "abc", ""), ("(x::chr<'a'> >> x::chr<'b'>) >> (x::chr<'c'> >> x::chr<'d'>)", "abcd", ""), ("x::concat(x::chr<'a'>, x::chr<'b'>, x::chr<'c'>)", "abc", ""), ("x::concat(x::chr<'a'>)", "a", ""),
    ("x::chr<'a'> | x::chr<'b'>", "a|b", ""), ("x::chr<'a'> | (x::chr<'b'> | x::str<\"ca\">)", "a|b|ca", ""), ("(x::str<\"ab\"> | x::chr<'a'>) | (x::str<\"cd\"> | x::chr<'c'>)", "ab|a|cd|c", ""), ("x::either(x::str<\"a\">, x::str<\"ab\">, x::str<\"abc\">)", "a|ab|abc", ""), ("x::either(x::chr<'a'>)", "a", ""),
    ("x::chr<'a'> >> (x::chr<'b'> | x::str<\"cd\">)", "a(?:b|cd)", ""), ("(x::chr<'a'> | x::str<\"ab\">) >> x::chr<'c'>", "(?:a|ab)c", ""), ("x::chr<'a'> >> x::chr<'b'> | x::chr<'c'>", "ab|c", ""), ("x::regex<\"a|b\"> >> x::regex<\"c|d\">", "(?:a|b)(?:c|d)", ""), ("x::regex<\"a|b\"> | x::regex<\"c|d\">", "a|b|c|d", ""), ("+x::regex<\"a|bc\">", "(?:a|bc)+", ""), ("x::regex<\"ab\"> | x::regex<\"a\">", "ab|a", ""), ("*x::regex<\"ab*\">", "(?:ab*)*", ""),
    ("*x::chr<'a'> >> x::chr<'b'>", "a*b", ""), ("+x::chr<'a'> >> x::chr<'a'>", "a+a", ""), ("x::maybe(x::chr<'a'>) >> x::chr<'a'>", "a?a", ""), ("*(x::chr<'a'> | x::str<\"ab\">) >> x::chr<'c'>", "(?:a|ab)*c", ""), ("*(x::chr<'a'> >> x::chr<'b'>)", "(?:ab)*", ""), ("*+x::chr<'a'>", "(?:a+)*", ""), ("+*x::chr<'a'> >> x::chr<'b'>", "(?:a*)+b", ""), ("!x::digit >> *!x::digit", "\\D\\D*", ""),
    ("x::schema_placeholder", "", "") if False else ("x::maybe(x::chr<'a'>, x::chr<'b'>) >> x::chr<'a'>", "(?:ab)?a", ""),
] + [("x::%s<%s>(x::%s) >> x::chr<'%s'>" % (f, m, b, t), "%s%s%s%s" % (pb, q, ms, t), "")
     for f, q in (("zero_or_more", "*"), ("one_or_more", "+"), ("maybe", "?")) for ms, m in MODE.items() for b, pb in (("chr<'a'>", "a"), ("str<\"ab\">", "(?:ab)"), ("regex<\"a|ab\">", "(?:a|ab)")) for t in "ab"
] + [("x::between<%d, %d, %s>(x::%s) >> x::chr<'%s'>" % (lo, hi, m, b, t), "%s{%d,%d}%s%s" % (pb, lo, hi, ms, t), "")
     for lo, hi in ((0, 1), (0, 2), (1, 2), (1, 3), (2, 4), (0, 0), (2, 2)) for ms, m in MODE.items() for b, pb in (("chr<'a'>", "a"), ("regex<\"a|ab\">", "(?:a|ab)")) for t in "a"
] + [("x::at_least<%d, %s>(x::%s) >> x::chr<'%s'>" % (n, m, b, t), "%s{%d,}%s%s" % (pb, n, ms, t), "")
     for n in (0, 1, 2, 3) for ms, m in MODE.items() for b, pb in (("chr<'a'>", "a"), ("regex<\"a|ab\">", "(?:a|ab)")) for t in "a"
] + [("x::exactly<%d%s>(x::%s) >> x::chr<'%s'>" % (n, ", " + m if ms else "", b, t), "%s{%d}%s%s" % (pb, n, ms, t), "")
     for n in (0, 1, 2, 3) for ms, m in MODE.items() for b, pb in (("chr<'a'>", "a"), ("regex<\"a|ab\">", "(?:a|ab)")) for t in "b"
] + [
    ("x::between<1, 3>(x::chr<'a'>, x::chr<'b'>)", "(?:ab){1,3}", ""), ("x::at_least<2>(x::chr<'a'>, x::chr<'b'>)", "(?:ab){2,}", ""), ("x::exactly<2>(x::chr<'a'>, x::chr<'b'>)", "(?:ab){2}", ""), ("x::one_or_more(x::chr<'a'>, x::chr<'b'>)", "(?:ab)+", ""), ("x::zero_or_more(x::chr<'a'>, x::chr<'b'>)", "(?:ab)*", ""), ("x::at_least<12>(x::wildcard)", ".{12,}", ""),
    ("x::capture<1>(x::chr<'a'>)", "(a)", ""), ("x::capture<1>(x::chr<'a'>, x::chr<'b'>)", "(ab)", ""), ("x::capture<1, \"n\">(x::chr<'a'> | x::chr<'b'>) >> x::group_named<\"n\">", "(?<n>a|b)\\k<n>", ""), ("x::capture<1>(x::word) >> x::group<1>", "(\\w)\\1", ""), ("x::capture<1>(x::capture<2>(x::chr<'a'>) >> x::chr<'b'>) >> x::capture<3>(x::wildcard)", "((a)b)(.)", ""),
    ("*(x::capture<1>(x::chr<'a'>) | x::capture<2>(x::chr<'b'>))", "(?:(a)|(b))*", ""), ("x::capture<1, \"a\">(x::chr<'a'>) | x::capture<2, \"b\">(x::chr<'b'>)", "(?<a>a)|(?<b>b)", ""), ("x::capture<1>(x::chr<'a'>, x::capture<2, \"m\">(x::chr<'b'>, x::wildcard), x::chr<'c'>)", "(a(?<m>b.)c)", ""), ("x::exactly<2>(x::capture<1>(x::wildcard))", "(.){2}", ""), ("x::capture<1>(*x::capture<2>(x::chr<'a'>)) >> x::group<2>", "((a)*)\\2", ""),
    ("x::ahead(x::chr<'a'>) >> x::wildcard", "(?=a).", ""), ("!x::ahead(x::chr<'a'>) >> x::wildcard", "(?!a).", ""), ("x::behind(x::chr<'a'>) >> x::chr<'b'>", "(?<=a)b", ""), ("!x::behind(x::chr<'a'>) >> x::chr<'b'>", "(?<!a)b", ""), ("!!x::ahead(x::chr<'a'>) >> x::wildcard", "(?=a).", ""), ("x::negate(x::negate(x::behind(x::chr<'a'>)))", "(?<=a)", ""), ("x::ahead(x::chr<'a'>, x::chr<'b'>) >> x::wildcard", "(?=ab).", ""), ("x::behind(x::chr<'a'>, x::chr<'b'>) >> x::wildcard", "(?<=ab).", ""),
    ("!x::behind(x::regex<\"ab{2}c\">) >> x::wildcard", "(?<!ab{2}c).", ""), ("x::behind(x::capture<1>(x::chr<'a'>) >> x::capture<2>(x::wildcard)) >> x::group<1>", "(?<=(a)(.))\\1", ""), ("x::behind(x::begin_line >> x::wildcard)", "(?<=^.)", ""), ("x::behind(*x::str<\"ab\">) >> x::chr<'c'>", "(?<=(?:ab)*)c", ""), ("x::behind(x::str<\"abc\">)", "(?<=abc)", ""), ("x::behind(x::str<\"a\"> | x::str<\"bc\">) >> x::wildcard", "(?<=a|bc).", ""), ("!x::behind(!x::chr<'a'>)", "(?<![^a])", ""), ("x::behind(x::atomic(x::chr<'a'>, x::maybe(x::chr<'b'>)))", "(?<=(?>ab?))", ""),
    ("x::behind(!x::behind(x::chr<'a'>) >> x::chr<'b'>)", "(?<=(?<!a)b)", ""), ("x::behind(x::ahead(x::str<\"ab\">) >> x::wildcard)", "(?<=(?=ab).)", ""), ("x::ahead(!x::ahead(x::str<\"ab\">) >> x::chr<'a'>) >> x::wildcard", "(?=(?!ab)a).", ""),
    ("x::atomic(*x::chr<'a'>) >> x::chr<'a'>", "(?>a*)a", ""), ("x::atomic(x::chr<'a'> | x::str<\"ab\">) >> x::chr<'c'>", "(?>a|ab)c", ""), ("x::atomic(x::maybe(x::chr<'a'>), x::chr<'a'>) >> x::chr<'b'>", "(?>a?a)b", ""), ("x::atomic(x::capture<1>(x::chr<'a'>) | x::str<\"ab\">) >> x::chr<'b'>", "(?>(a)|ab)b", ""),
    ("+x::word >> not x::ahead(x::word)", "\\w+(?!\\w)", ""), ("x::clear_flags(x::add_flags<regex_flag::icase>(x::chr<'a'>))", "a", ""), ("x::clear_flags(meta::regex<\"a.\", regex_flag::icase, regex_flag::dotall>{}) >> x::chr<'b'>", "a.b", ""), ("x::add_flags<regex_flag::ungreedy>(*x::chr<'a'> >> x::maybe<match_mode::lazy>(x::chr<'a'>))", "a*a??", "U"), ("x::add_flags<regex_flag::unroll>(x::exactly<3>(x::chr<'a'> | x::str<\"ab\">))", "(?:a|ab){3}", "u"),
    ("(x::str<\"fa\"> | x::str<\"sa\"> | x::regex<\"ha?s\">) >> x::str<\":\"> >> x::capture<1, \"d\">(+x::regex<\"[-.a-c]\"> >> x::chr<'m'>) >> x::maybe(x::chr<'/'> >> *!x::whitespace)", "(?:fa|sa|ha?s):(?<d>[-.a-c]+m)(?:/\\S*)?", ""),
    ("!(x::chr<'a'> | x::chr<'b'>)", "[^ab]", ""), ("!(x::chr<'a'> | x::digit | x::range<'x', 'z'>)", "[^a\\dx-z]", ""), ("!x::either(x::word, x::whitespace)", "[^\\w\\s]", ""), ("x::either(!x::word, x::chr<'a'>)", "[\\Wa]", ""), ("!x::regex<\"[^a-c]\">", "[a-c]", ""), ("!x::regex<\".\">", "\\R", ""), ("!x::regex<\"\\\\b\">", "\\B", ""), ("!x::regex<\"(?=a)\"> >> x::wildcard", "(?!a).", ""), ("!x::regex<\"(?<!a)\"> >> x::wildcard", "(?<=a).", ""), ("!x::regex<\"a|b\">", "[^ab]", ""),
]

# every repetition component x mode (or none) x arguments that can match in several ways x rest that tells the modes apart
_ARGS = [("x::str<\"ab\">", "(?:ab)", "ab"), ("x::chr<'a'>, x::chr<'b'>", "(?:ab)", "ab"), ("x::chr<'a'> | x::str<\"ab\">", "(?:a|ab)", "c"), ("x::str<\"ab\"> | x::chr<'a'>", "(?:ab|a)", "b"), ("x::chr<'a'>, x::maybe(x::chr<'b'>)", "(?:ab?)", "b"),
         ("x::capture<1>(x::chr<'a'>, x::maybe<match_mode::lazy>(x::chr<'b'>))", "(ab??)", "c"), ("x::capture<1, \"n\">(x::str<\"ab\"> | x::chr<'a'>), x::maybe(x::chr<'c'>)", "(?:(?<n>ab|a)c?)", "b"), ("x::wildcard", ".", "b"), ("x::regex<\"a|ab\">, x::maybe(x::chr<'b'>)", "(?:(?:a|ab)b?)", "bc")]
_FUNCS = [("zero_or_more", "", "*"), ("one_or_more", "", "+"), ("maybe", "", "?"), ("at_least", "0", "{0,}"), ("at_least", "1", "{1,}"), ("at_least", "2", "{2,}"), ("between", "0, 1", "{0,1}"), ("between", "0, 3", "{0,3}"), ("between", "1, 2", "{1,2}"), ("between", "2, 4", "{2,4}"), ("between", "2, 2", "{2,2}"), ("between", "1, 1", "{1,1}"),
          ("exactly", "1", "{1}"), ("exactly", "2", "{2}"), ("exactly", "3", "{3}"), ("exactly", "5", "{5}")]
MODES = []
for _f, _n, _q in _FUNCS:
    for _ms, _m in list(MODE.items()) + [(None, "")]:
        for _a, _p, _t in _ARGS:
            _tp = ", ".join(x for x in (_n, _m) if x)
            MODES.append(("x::%s%s(%s) >> x::str<\"%s\">" % (_f, "<%s>" % _tp if _tp else "", _a, _t), _p + _q + (_ms or "") + _t, ""))


# wrappers over several arguments and nested sequences or alternations: flattening must keep order and grouping
def flat(seed, count):
    r = random.Random(seed)
    out = []

    def tree(op, d):
        """a tree of one operator over distinct leaves"""
        if d == 0 or r.random() < 0.25:
            k = r.random()
            c = r.choice("abcd")
            if k < 0.55:
                return "x::chr<'%s'>" % c, c
            w = "".join(r.choice("abcd") for _ in range(r.randint(2, 3)))
            if k < 0.8:
                return "x::str<\"%s\">" % w, w
            other = "|" if op == ">>" else ">>"
            e = tree(other, d - 1 if d else 0)
            return "(%s)" % e[0], e[1] if op == "|" else "(?:%s)" % e[1]
        n = r.randint(2, 4)
        es = [tree(op, d - 1) for _ in range(n)]
        if r.random() < 0.5:
            x = "x::%s(%s)" % ("concat" if op == ">>" else "either", ", ".join(e[0] for e in es))
        else:
            x = "(%s)" % (" %s " % op).join(e[0] for e in es)
        return x, ("" if op == ">>" else "|").join(e[1] for e in es)
    while len(out) < count:
        op = r.choice((">>", "|"))
        x, p = tree(op, 2)
        if 3 <= len(p) <= 26:
            w = r.random()
            if w < 0.5:
                out.append((x, p, ""))
            elif w < 0.6:
                out.append(("x::capture<1>(%s)" % x, "(%s)" % p, ""))
            elif w < 0.7:
                out.append(("x::atomic(%s) >> x::chr<'a'>" % x, "(?>%s)a" % p, ""))
            elif w < 0.8:
                out.append(("x::ahead(%s) >> x::wildcard" % x, "(?=%s)." % p, ""))
            elif w < 0.9:
                out.append(("x::wildcard >> x::behind(%s)" % x, ".(?<=%s)" % p, ""))
            else:
                out.append(("x::between<1, 2>(%s) >> x::chr<'a'>" % x, "(?:%s){1,2}a" % p, ""))
    return out
