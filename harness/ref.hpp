// Reference semantics of the documented pattern syntax: a run-time parser and an ordered-choice
// backtracking matcher, written independently of the library under test (no header of it is used).
// It is executed symbolically side by side with the library.
//
// Written so that a symbolic executor does not fork needlessly: character tests are branch-free.
#pragma once
namespace ref
{
    using u8 = unsigned char;
    constexpr int MAX_NODES = 320, MAX_ITEMS = 160, MAX_GROUPS = 24, MAX_NAME = 40;

    enum Flag { ICASE = 1, DOTALL = 2, MULTILINE = 4, UNGREEDY = 8 };
    enum Kind : int { EMPTY, CHARSET, ANY, BOL, EOL, BOI, EOI, WORDB, NWORDB, SEQ, ALT, GROUP, REPEAT,
                ATOMIC, LOOK, BACKREF };
    enum Mode : int { GREEDY, LAZY, POSSESSIVE };

    struct Item { int lo, hi; int cls; };  // cls: 0 = range lo..hi, 'd' 'w' 's' 'r' classes, upper case = negated
    struct Node
    {
        Kind kind; int a, b;      // children (SEQ/ALT: left a, right b)
        int lo, hi;               // REPEAT bounds (hi == -1: unbounded)
        Mode mode;
        int first, count; bool negated;       // CHARSET items, LOOK negated
        int dir;                  // LOOK direction
        int id;                   // GROUP / BACKREF number, BACKREF by name: -(name index) - 1
    };

    struct Name { u8 s[MAX_NAME]; int len; int group; };

    constexpr bool is_digit(u8 c) { return (u8)(c - '0') <= 9; }
    constexpr bool is_alpha(u8 c) { return (u8)((c | 0x20) - 'a') <= 25; }
    constexpr bool is_wordc(u8 c) { return is_alpha(c) | is_digit(c) | (c == '_'); }
    constexpr bool is_hex(u8 c) { return is_digit(c) | ((u8)((c | 0x20) - 'a') <= 5); }
    constexpr bool is_space(u8 c) { return (c == ' ') | ((u8)(c - 9) <= 4); }
    constexpr bool is_lbreak(u8 c) { return (c == '\n') | (c == '\r'); }
    constexpr u8 fold(u8 c) { return (u8)(c + (((u8)(c - 'A') <= 25) ? 32 : 0)); }
    constexpr int hexval(u8 c) { return is_digit(c) ? c - '0' : (c | 0x20) - 'a' + 10; }

    struct Prog
    {
        Node nodes[MAX_NODES]{}; int nnodes = 0;
        Item items[MAX_ITEMS]{}; int nitems = 0;
        Name names[MAX_GROUPS]{}; int nnames = 0;      // group names and names of backreferences
        int groups = 0;
        int root = -1;
        int error = -1;           // index of the offending character, or -1
        const u8 *p = nullptr; int len = 0; int i = 0;
        bool impossible = false;  // empty range, crossed bounds or missing group: documented to be rejected, but not as a syntax error

        // ---- parser -------------------------------------------------------------------------
        constexpr int add(Kind k, int a = -1, int b = -1)
        {
            Node &n = nodes[nnodes];
            n.kind = k; n.a = a; n.b = b; n.lo = n.hi = 0; n.mode = GREEDY; n.first = n.count = 0;
            n.negated = false; n.dir = 1; n.id = 0;
            return nnodes++;
        }
        constexpr int fail(int at) { if (error < 0) error = at; return -1; }
        constexpr bool bad() const { return error >= 0; }
        constexpr bool end() const { return i >= len; }

        constexpr int item(int lo, int hi, int cls) { items[nitems].lo = lo; items[nitems].hi = hi; items[nitems].cls = cls; return nitems++; }
        constexpr int single(int lo, int cls)
        {
            int n = add(CHARSET);
            nodes[n].first = item(lo, lo, cls); nodes[n].count = 1;
            return n;
        }

        // class letter of an escape, 0 if none
        static constexpr int class_of(u8 c)
        {
            switch (c)
            {
                case 'd': case 'D': case 'w': case 'W': case 's': case 'S': return c;
                case 'R': return 'r';
                case 'N': return 'R';
            }
            return 0;
        }
        static constexpr int control_of(u8 c)
        {
            switch (c)
            {
                case '0': return 0;
                case 'n': return '\n'; case 'r': return '\r'; case 't': return '\t'; case 'f': return '\f';
                case 'v': return '\v'; case 'a': return 7; case 'e': return 27;
            }
            return -1;
        }
        // after "\x": two hexadecimal digits
        constexpr int hex()
        {
            int v = 0;
            for (int k = 0; k < 2; ++k)
            {
                if (end() || !is_hex(p[i])) return fail(i);
                v = v * 16 + hexval(p[i++]);
            }
            return v;
        }
        // name up to '>' (exclusive begin position at i); returns index in names
        constexpr int name()
        {
            Name &nm = names[nnames];
            nm.len = 0; nm.group = 0;
            if (end() || !is_wordc(p[i]) || is_digit(p[i])) return fail(i);
            nm.s[nm.len++] = p[i++];
            for (;;)
            {
                if (end()) return fail(i);
                if (p[i] == '>') break;
                if (!is_wordc(p[i])) return fail(i);
                nm.s[nm.len++] = p[i++];
            }
            ++i;
            return nnames++;
        }

        // term following a backslash; sets *quantifiable
        constexpr int escape(bool &quantifiable)
        {
            if (end()) return fail(i);
            u8 c = p[i];
            if (c == 'b' || c == 'B' || c == 'A' || c == 'Z')
            {
                ++i; quantifiable = false;
                return add(c == 'b' ? WORDB : c == 'B' ? NWORDB : c == 'A' ? BOI : EOI);
            }
            if (c == 'x')
            {
                ++i;
                int v = hex();
                return v < 0 ? -1 : single(v, 0);
            }
            if (c == 'k')
            {
                ++i;
                if (end() || p[i] != '<') return fail(i);
                ++i;
                int nm = name();
                if (nm < 0) return -1;
                int n = add(BACKREF); nodes[n].id = -nm - 1;
                return n;
            }
            if (is_digit(c) && c != '0')
            {
                int id = 0;
                while (!end() && is_digit(p[i])) id = id * 10 + (p[i++] - '0');
                int n = add(BACKREF); nodes[n].id = id;
                return n;
            }
            ++i;
            if (int cls = class_of(c)) return single(0, cls);
            int ctl = control_of(c);
            return single(ctl >= 0 ? ctl : c, 0);
        }

        // element after a backslash inside of a set: *cls or value
        constexpr int set_escape(int &cls, bool range_bound)
        {
            cls = 0;
            if (end()) return fail(i);
            u8 c = p[i];
            if (c == 'x') { ++i; return hex(); }
            if (int k = class_of(c))
            {
                if (range_bound) return fail(i);
                ++i; cls = k; return 0;
            }
            ++i;
            if (c == 'b') return 8;
            int ctl = control_of(c);
            return ctl >= 0 ? ctl : c;
        }

        constexpr int set()
        {
            // '[' has been consumed
            bool neg = false;
            int first = nitems;
            if (!end() && p[i] == '^') { neg = true; ++i; }
            bool may_range = false;   // a preceding element exists and '-' may start a range
            bool prev_literal = false; int prev = 0;
            for (;;)
            {
                if (end()) return fail(i);
                u8 c = p[i];
                if (c == ']') { ++i; break; }
                if (c == '\\')
                {
                    ++i;
                    int cls, v = set_escape(cls, false);
                    if (bad()) return -1;
                    item(v, v, cls);
                    may_range = true; prev_literal = cls == 0; prev = v;
                    continue;
                }
                if (c == '-' && may_range)
                {
                    ++i;
                    if (end()) return fail(i);
                    int hi;
                    if (p[i] == ']') { item('-', '-', 0); continue; }
                    if (p[i] == '\\')
                    {
                        ++i;
                        int cls; hi = set_escape(cls, true);
                        if (bad()) return -1;
                    }
                    else hi = p[i++];
                    if (prev_literal && prev > hi) impossible = true;
                    if (prev_literal) item(prev, hi, 0);      // the single element stays, it is part of the range
                    else { item('-', '-', 0); item(hi, hi, 0); }
                    may_range = false;                        // a range cannot start with a range
                    continue;
                }
                ++i;
                item(c, c, 0);
                may_range = true; prev_literal = true; prev = c;
            }
            int n = add(CHARSET);
            nodes[n].first = first; nodes[n].count = nitems - first; nodes[n].negated = neg;
            return n;
        }

        constexpr int group()
        {
            // '(' has been consumed
            enum { CAPTURE, PLAIN, ATOM, AHEAD, NAHEAD, BEHIND, NBEHIND } kind = CAPTURE;
            int id = 0;
            if (end()) return fail(i);
            if (p[i] == '?')
            {
                ++i;
                if (end()) return fail(i);
                u8 c = p[i];
                if (c == ':') { kind = PLAIN; ++i; }
                else if (c == '>') { kind = ATOM; ++i; }
                else if (c == '=') { kind = AHEAD; ++i; }
                else if (c == '!') { kind = NAHEAD; ++i; }
                else if (c == '<')
                {
                    ++i;
                    if (end()) return fail(i);
                    if (p[i] == '=') { kind = BEHIND; ++i; }
                    else if (p[i] == '!') { kind = NBEHIND; ++i; }
                    else
                    {
                        int nm = name();
                        if (nm < 0) return -1;
                        id = ++groups;
                        names[nm].group = id;
                    }
                }
                else return fail(i);
            }
            if (kind == CAPTURE && id == 0) id = ++groups;
            int body;
            if (end()) return fail(i);
            if (p[i] == ')') body = add(EMPTY);
            else body = alternatives();
            if (bad()) return -1;
            if (end()) return fail(i);
            ++i; // ')'
            int n;
            switch (kind)
            {
                case CAPTURE: n = add(GROUP, body); nodes[n].id = id; return n;
                case PLAIN: return body;
                case ATOM: return add(ATOMIC, body);
                default: break;
            }
            n = add(LOOK, body);
            nodes[n].dir = (kind == AHEAD || kind == NAHEAD) ? 1 : -1;
            nodes[n].negated = kind == NAHEAD || kind == NBEHIND;
            return n;
        }

        constexpr int repeat(int body, int lo, int hi)
        {
            int n = add(REPEAT, body);
            nodes[n].lo = lo; nodes[n].hi = hi;
            if (hi >= 0 && lo > hi) impossible = true;
            if (!end())
            {
                if (p[i] == '?') { nodes[n].mode = LAZY; ++i; }
                else if (p[i] == '+') { nodes[n].mode = POSSESSIVE; ++i; }
            }
            return n;
        }

        // an atom with its quantifier, if any
        constexpr int quantified(int atom)
        {
            if (end()) return atom;
            u8 c = p[i];
            if (c == '*') { ++i; return repeat(atom, 0, -1); }
            if (c == '+') { ++i; return repeat(atom, 1, -1); }
            if (c == '?') { ++i; return repeat(atom, 0, 1); }
            if (c != '{') return atom;
            ++i;
            if (end() || !is_digit(p[i]))
            {
                int brace = single('{', 0);          // not a quantifier: a literal brace
                return add(SEQ, atom, quantified(brace));
            }
            int lo = 0, hi;
            while (!end() && is_digit(p[i])) lo = lo * 10 + (p[i++] - '0');
            if (end()) return fail(i);
            hi = lo;
            if (p[i] == ',')
            {
                ++i;
                hi = -1;
                if (!end() && is_digit(p[i]))
                {
                    hi = 0;
                    while (!end() && is_digit(p[i])) hi = hi * 10 + (p[i++] - '0');
                }
                if (end()) return fail(i);
            }
            if (p[i] != '}') return fail(i);
            ++i;
            return repeat(atom, lo, hi);
        }

        constexpr int term()
        {
            if (end()) return fail(i);
            u8 c = p[i];
            switch (c)
            {
                case ')': case '*': case '+': case '?': case '{': case '|': return fail(i);
                case '^': ++i; return add(BOL);
                case '$': ++i; return add(EOL);
                default: break;
            }
            int atom; bool quantifiable = true;
            ++i;
            switch (c)
            {
                case '\\': atom = escape(quantifiable); break;
                case '[': atom = set(); break;
                case '(': atom = group(); break;
                case '.': atom = add(ANY); break;
                default: atom = single(c, 0); break;
            }
            if (bad()) return -1;
            return quantifiable ? quantified(atom) : atom;
        }

        constexpr int sequence()
        {
            int left = term();
            while (!bad() && !end() && p[i] != '|' && p[i] != ')')
            {
                int right = term();
                left = add(SEQ, left, right);
            }
            return left;
        }

        constexpr int alternatives()
        {
            int left = sequence();
            while (!bad() && !end() && p[i] == '|')
            {
                ++i;
                int right = sequence();
                left = add(ALT, left, right);
            }
            return left;
        }

        constexpr bool parse(const u8 *pattern, int length)
        {
            p = pattern; len = length;
            if (len == 0) root = add(EMPTY);
            else
            {
                root = alternatives();
                if (!bad() && !end()) fail(i);     // unbalanced ')'
            }
            for (int k = 0; k < nnodes; ++k)
                if (nodes[k].kind == BACKREF)
                {
                    int id = nodes[k].id;
                    if (id < 0) { const Name &nm = names[-id - 1]; id = group_named(nm.s, nm.len); if (!id) impossible = true; }
                    else if (id > groups) impossible = true;
                }
            return !bad();
        }

        constexpr int group_named(const u8 *s, int n) const
        {
            for (int k = 0; k < nnames; ++k)
            {
                if (!names[k].group || names[k].len != n) continue;
                bool same = true;
                for (int j = 0; j < n; ++j) same = same && names[k].s[j] == s[j];
                if (same) return names[k].group;
            }
            return 0;
        }
    };

    // ---- matcher ----------------------------------------------------------------------------
    struct Caps { short s[MAX_GROUPS], e[MAX_GROUPS]; };   // s < 0: took no part

    struct Matcher;
    struct K { bool (*fn)(Matcher &, const K *, int pos, const Caps &); };

    struct Matcher
    {
        const Prog &P; const u8 *in; int n; int flags;
        int result_end = 0; Caps result;

        Matcher(const Prog &prog, const u8 *input, int length, int f) : P(prog), in(input), n(length), flags(f) {}

        bool item_has(const Item &it, u8 c) const
        {
            switch (it.cls)
            {
                case 'd': return is_digit(c);
                case 'D': return !is_digit(c);
                case 'w': return is_wordc(c);
                case 'W': return !is_wordc(c);
                case 's': return is_space(c);
                case 'S': return !is_space(c);
                case 'r': return is_lbreak(c);
                case 'R': return !is_lbreak(c);
                default: break;
            }
            bool in0 = (c >= it.lo) & (c <= it.hi);
            if (flags & ICASE)
            {
                u8 other = (u8)(c ^ (is_alpha(c) ? 0x20 : 0));
                in0 |= (other >= it.lo) & (other <= it.hi);
            }
            return in0;
        }
        bool accepts(const Node &nd, u8 c) const
        {
            if (nd.kind == ANY) return (flags & DOTALL) ? true : !is_lbreak(c);
            bool in0 = false;
            for (int k = 0; k < nd.count; ++k) in0 |= item_has(P.items[nd.first + k], c);
            return in0 ^ nd.negated;
        }
        bool same(u8 a, u8 b) const { return (flags & ICASE) ? fold(a) == fold(b) : a == b; }
        bool word_at(int pos) const { return pos >= 0 && pos < n && is_wordc(in[pos]); }
        bool at_bol(int pos) const { return pos == 0 || ((flags & MULTILINE) && is_lbreak(in[pos - 1])); }
        bool at_eol(int pos) const { return pos == n || ((flags & MULTILINE) && is_lbreak(in[pos])); }

        // continuation kinds
        struct KNode : K { int node, dir; const K *next; };
        struct KLoop : K { int node, dir, count, start; const K *next; };
        struct KGroup : K { int id, dir, start; const K *next; };
        struct KDone : K { mutable int pos; mutable Caps caps; };
        struct KFinal : K { int must_end; };

        static bool fnode(Matcher &m, const K *k, int pos, const Caps &c)
        { auto x = static_cast<const KNode *>(k); return m.run(x->node, pos, x->dir, c, x->next); }
        static bool floop(Matcher &m, const K *k, int pos, const Caps &c)
        {
            auto x = static_cast<const KLoop *>(k);
            const Node &nd = m.P.nodes[x->node];
            if (nd.hi < 0 && x->count >= nd.lo && pos == x->start) return false;   // empty optional iteration
            return m.loop(x->node, x->count + 1, pos, x->dir, c, x->next);
        }
        static bool fgroup(Matcher &m, const K *k, int pos, const Caps &c)
        {
            auto x = static_cast<const KGroup *>(k);
            Caps c2 = c;
            c2.s[x->id] = (short)(x->dir > 0 ? x->start : pos);
            c2.e[x->id] = (short)(x->dir > 0 ? pos : x->start);
            return x->next->fn(m, x->next, pos, c2);
        }
        static bool fdone(Matcher &, const K *k, int pos, const Caps &c)
        { auto x = static_cast<const KDone *>(k); x->pos = pos; x->caps = c; return true; }
        static bool ffinal(Matcher &m, const K *k, int pos, const Caps &c)
        {
            if (static_cast<const KFinal *>(k)->must_end && pos != m.n) return false;
            m.result_end = pos; m.result = c;
            return true;
        }

        bool call(const K *k, int pos, const Caps &c) { return k->fn(*this, k, pos, c); }

        bool loop(int node, int count, int pos, int dir, const Caps &c, const K *k)
        {
            const Node &nd = P.nodes[node];
            bool more = nd.hi < 0 || count < nd.hi;
            bool stop = count >= nd.lo;
            bool lazy = (nd.mode == LAZY) != ((flags & UNGREEDY) != 0);
            KLoop kl; kl.fn = floop; kl.node = node; kl.dir = dir; kl.count = count; kl.start = pos; kl.next = k;
            if (lazy)
            {
                if (stop && call(k, pos, c)) return true;
                return more && run(nd.a, pos, dir, c, &kl);
            }
            if (more && run(nd.a, pos, dir, c, &kl)) return true;
            return stop && call(k, pos, c);
        }

        // possessive: the mandatory iterations commit as a whole, every further one on its own
        bool possessive(int node, int pos, int dir, const Caps &c, const K *k)
        {
            const Node &nd = P.nodes[node];
            KDone d; d.fn = fdone; d.pos = pos; d.caps = c;
            if (nd.lo > 0 && !mandatory(nd.a, nd.lo, pos, dir, c, &d)) return false;
            for (int count = nd.lo; nd.hi < 0 || count < nd.hi; ++count)
            {
                KDone d2; d2.fn = fdone;
                if (!run(nd.a, d.pos, dir, d.caps, &d2)) break;
                if (nd.hi < 0 && d2.pos == d.pos) break;
                d.pos = d2.pos; d.caps = d2.caps;
            }
            return call(k, d.pos, d.caps);
        }
        struct KMand : K { int body, left, dir; const K *next; };
        static bool fmand(Matcher &m, const K *k, int pos, const Caps &c)
        {
            auto x = static_cast<const KMand *>(k);
            if (x->left == 0) return m.call(x->next, pos, c);
            return m.mandatory(x->body, x->left, pos, x->dir, c, x->next);
        }
        bool mandatory(int body, int left, int pos, int dir, const Caps &c, const K *k)
        {
            KMand km; km.fn = fmand; km.body = body; km.left = left - 1; km.dir = dir; km.next = k;
            return run(body, pos, dir, c, &km);
        }

        bool run(int node, int pos, int dir, const Caps &c, const K *k)
        {
            const Node &nd = P.nodes[node];
            switch (nd.kind)
            {
                case EMPTY: return call(k, pos, c);
                case CHARSET: case ANY:
                {
                    int at = dir > 0 ? pos : pos - 1;
                    if (at < 0 || at >= n) return false;
                    if (!accepts(nd, in[at])) return false;
                    return call(k, pos + dir, c);
                }
                case BOL: return at_bol(pos) && call(k, pos, c);
                case EOL: return at_eol(pos) && call(k, pos, c);
                case BOI: return pos == 0 && call(k, pos, c);
                case EOI: return pos == n && call(k, pos, c);
                case WORDB: return word_at(pos - 1) != word_at(pos) && call(k, pos, c);
                case NWORDB: return word_at(pos - 1) == word_at(pos) && call(k, pos, c);
                case SEQ:
                {
                    KNode kn; kn.fn = fnode; kn.node = dir > 0 ? nd.b : nd.a; kn.dir = dir; kn.next = k;
                    return run(dir > 0 ? nd.a : nd.b, pos, dir, c, &kn);
                }
                case ALT: return run(nd.a, pos, dir, c, k) || run(nd.b, pos, dir, c, k);
                case GROUP:
                {
                    KGroup kg; kg.fn = fgroup; kg.id = nd.id; kg.dir = dir; kg.start = pos; kg.next = k;
                    return run(nd.a, pos, dir, c, &kg);
                }
                case REPEAT:
                    if (nd.mode == POSSESSIVE) return possessive(node, pos, dir, c, k);
                    return loop(node, 0, pos, dir, c, k);
                case ATOMIC:
                {
                    KDone d; d.fn = fdone;
                    return run(nd.a, pos, dir, c, &d) && call(k, d.pos, d.caps);
                }
                case LOOK:
                {
                    KDone d; d.fn = fdone;
                    bool found = run(nd.a, pos, nd.dir, c, &d);
                    if (nd.negated) return !found && call(k, pos, c);
                    return found && call(k, pos, d.caps);
                }
                case BACKREF:
                {
                    int id = nd.id;
                    if (id < 0) { const Name &nm = P.names[-id - 1]; id = P.group_named(nm.s, nm.len); }
                    if (c.s[id] < 0) return call(k, pos, c);
                    int len = c.e[id] - c.s[id];
                    int from = dir > 0 ? pos : pos - len;
                    if (from < 0 || from + len > n) return false;
                    for (int j = 0; j < len; ++j)
                        if (!same(in[c.s[id] + j], in[from + j])) return false;
                    return call(k, pos + dir * len, c);
                }
            }
            return false;
        }

        bool match_at(int pos, bool must_end)
        {
            Caps c;
            for (int g = 0; g < MAX_GROUPS; ++g) c.s[g] = c.e[g] = -1;
            KFinal kf; kf.fn = ffinal; kf.must_end = must_end;
            if (!run(P.root, pos, 1, c, &kf)) return false;
            result.s[0] = (short)pos; result.e[0] = (short)result_end;
            return true;
        }
        bool match() { return match_at(0, true); }
        bool prefix(int pos = 0) { return match_at(pos, false); }
        bool search(int from = 0)
        {
            for (int pos = from; pos <= n; ++pos) if (match_at(pos, false)) return true;
            return false;
        }
    };
}
