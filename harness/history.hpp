// C25: constant evaluation gives what execution gives. C26: operations do not influence each other.
#pragma once
#include "results.hpp"

namespace hx
{
    // ---- C25 ----------------------------------------------------------------------------------
    enum How { C_MATCH, C_PREFIX, C_SEARCH, C_TOKENS, C_FINDS, C_RANGE, C_BIDI, C_FWD };

    // iterators of weaker categories that can be used in constant expressions
    template<class Category>
    struct const_it
    {
        using iterator_category = Category; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = const char *; using reference = const char &;
        const char *p = nullptr;
        constexpr reference operator*() const { return *p; }
        constexpr const_it &operator++() { ++p; return *this; }
        constexpr const_it operator++(int) { auto c = *this; ++p; return c; }
        constexpr const_it &operator--() requires std::is_same_v<Category, std::bidirectional_iterator_tag> { --p; return *this; }
        constexpr const_it operator--(int) requires std::is_same_v<Category, std::bidirectional_iterator_tag> { auto c = *this; --p; return c; }
        constexpr bool operator==(const_it const &o) const { return p == o.p; }
        constexpr std::ptrdiff_t operator-(const char *base) const { return p - base; }
    };

    // all texts of up to N characters of an alphabet; T[i]: what evaluation by the compiler gives for the i-th
    template<class R, meta::static_string Alphabet, int N, How H>
    struct ConstOps
    {
        static constexpr int A = (int)Alphabet.length();
        static constexpr int count() { int c = 0, p = 1; for (int k = 0; k <= N; ++k, p *= A) c += p; return c; }
        static constexpr int SIZE = H <= C_SEARCH ? 24 : H >= C_BIDI ? 24 * 3 : 24 * (N + 3);
        struct Row { signed char v[SIZE]; };

        static constexpr void put(auto &row, int &k, auto const &r, const char *base)
        {
            row.v[k++] = r.matched();
            [&]<std::size_t... I>(std::index_sequence<I...>) {
                ((row.v[k++] = (signed char)r.template group<I>().length(),
                  row.v[k++] = (signed char)(r.template group<I>().is_empty() ? -1 : r.template group<I>().begin() - base)), ...);
            }(std::make_index_sequence<std::remove_cvref_t<decltype(r)>::group_count>{});
        }
        static constexpr Row eval(const char *b, int n)
        {
            Row row{}; int k = 0;
            std::string_view in(b, (std::size_t)n);
            if constexpr (H == C_MATCH) put(row, k, R::match(in), b);
            else if constexpr (H == C_PREFIX) put(row, k, R::match_prefix(in), b);
            else if constexpr (H == C_SEARCH) put(row, k, R::search(b, b + n), b);
            else if constexpr (H == C_TOKENS) { auto g = R::tokenizer(in); for (int i = 0; i <= n + 2; ++i) put(row, k, g(), b); }
            else if constexpr (H == C_FINDS) { auto g = R::searcher(in); for (int i = 0; i <= n + 2; ++i) put(row, k, g(), b); }
            else if constexpr (H >= C_BIDI)
            {
                using I = const_it<std::conditional_t<H == C_BIDI, std::bidirectional_iterator_tag, std::forward_iterator_tag>>;
                I first{b}, last{b + n};
                put(row, k, R::match(first, last), b);
                put(row, k, R::search(first, last), b);
                auto g = R::tokenizer(first, last); put(row, k, g(), b);
            }
            else for (auto const &r : R::find_all(in)) if (k + 24 <= SIZE) put(row, k, r, b);
            return row;
        }
        struct Table { Row row[count()]; };
        static constexpr Table make()
        {
            Table t{}; int i = 0;
            for (int n = 0, p = 1; n <= N; ++n, p *= A)
                for (int j = 0; j < p; ++j)
                {
                    char text[N + 1] = {};
                    for (int q = n - 1, x = j; q >= 0; --q, x /= A) text[q] = Alphabet[(std::size_t)(x % A)];
                    t.row[i++] = eval(text, n);
                }
            return t;
        }
        static constexpr Table table = make();

        static void run(unsigned long n)
        {
            Input in(n);
            int first = 0, p = 1, index = 0;
            for (int k = 0; k < in.n; ++k, p *= A) first += p;
            for (int k = 0; k < in.n; ++k)
            {
                int at = -1;
                if constexpr (A == 256) at = in.data[k];         // the alphabet lists all bytes in order
                else for (int i = 0; i < A; ++i) at = in.data[k] == (ref::u8)Alphabet[(std::size_t)i] ? i : at;
                vs_assume(at >= 0);
                index = index * A + at;
            }
            Row got = eval(in.begin(), in.n);
            Row const &want = table.row[first + (int)vs_concrete((unsigned long)index)];
            vs_cover(got.v[0] ? "matched" : "not matched");
            for (int i = 0; i < SIZE; ++i) vs_check(got.v[i] == want.v[i], "a constant expression gives another result than execution");
        }
    };

    // texts of L characters, a repeated unit in which one place (chosen symbolically) holds one character of an alphabet
    template<class R, meta::static_string Unit, meta::static_string Alphabet, int L, How H>
    struct ConstLong
    {
        using C = ConstOps<R, Alphabet, 0, H>;
        static constexpr int A = (int)Alphabet.length(), U = (int)Unit.length();
        static constexpr int SIZE = 80;
        struct Row { signed char v[SIZE]; };
        static constexpr Row eval(const char *b)
        {
            Row row{}; int k = 0;
            std::string_view in(b, (std::size_t)L);
            if constexpr (H == C_MATCH) C::put(row, k, R::match(in), b);
            else if constexpr (H == C_PREFIX) C::put(row, k, R::match_prefix(in), b);
            else if constexpr (H == C_SEARCH) C::put(row, k, R::search(b, b + L), b);
            else { auto g = R::searcher(in); for (int i = 0; i < 4 && k + 20 <= SIZE; ++i) C::put(row, k, g(), b); }
            return row;
        }
        static constexpr void text(char *t, int at, int what)
        {
            for (int i = 0; i < L; ++i) t[i] = Unit[(std::size_t)(i % U)];
            t[at] = Alphabet[(std::size_t)what];
        }
        struct Table { Row row[L * A]; };
        static constexpr Table make()
        {
            Table t{};
            for (int i = 0; i < L * A; ++i) { char b[L] = {}; text(b, i / A, i % A); t.row[i] = eval(b); }
            return t;
        }
        static constexpr Table table = make();
        static void run(unsigned long)
        {
            unsigned at = vs_byte(); vs_assume(at < (unsigned)L);
            unsigned what = vs_byte(); vs_assume(what < (unsigned)A);
            int i = (int)vs_concrete(at), j = (int)vs_concrete(what);
            char b[L]; text(b, i, j);
            Row got = eval(b);
            Row const &want = table.row[i * A + j];
            vs_cover(got.v[0] ? "matched" : "not matched");
            for (int k = 0; k < SIZE; ++k) vs_check(got.v[k] == want.v[k], "a constant expression gives another result than execution");
        }
    };

    // ---- C26 ----------------------------------------------------------------------------------
    struct Place { int pos = 0; bool active = true; };
    template<class R, meta::static_string P, int FB, bool Search>
    struct HistoryOps
    {
        static bool next(ref::Matcher &m, Place &p)
        {
            bool ok = p.active && (Search ? m.search(p.pos) : m.prefix(p.pos));
            if (ok) { p.active = m.result.e[0] != m.result.s[0]; p.pos = m.result.e[0]; } else p.active = false;
            return ok;
        }
        static auto generator(std::string_view s) { if constexpr (Search) return R::searcher(s); else return R::tokenizer(s); }
        static auto range(std::string_view s) { if constexpr (Search) return R::find_all(s); else return R::tokenize(s); }

        // a schedule chooses what happens next: one of two generators, copying one, or an operation on another text
        static void generators(unsigned long n)
        {
            Pat<P> p; Input in(n);
            ref::u8 before[32];
            for (int i = 0; i < in.n; ++i) before[i] = in.data[i];
            ref::Matcher m(p.prog, in.data, in.n, FB);
            auto a = generator(in.view()), b = generator(in.view());
            Place pa, pb;
            constexpr int STEPS = 4;
            decltype(a()) kept[STEPS]; ref::Caps caps[STEPS]; bool ok[STEPS]; int k = 0;
            for (int i = 0; i < STEPS; ++i)
            {
                unsigned what = (unsigned)vs_concrete(vs_byte() & 3u);
                if (what == 0) { kept[k] = a(); ok[k] = next(m, pa); caps[k] = m.result; ++k; }
                else if (what == 1) { kept[k] = b.next(); ok[k] = next(m, pb); caps[k] = m.result; ++k; }
                else if (what == 2) { auto c = a; b = c; pb = pa; vs_check(b.active() == pa.active, "a copied generator is not where the original is"); }
                else
                {
                    auto other = generator(std::string_view("ba ab"));
                    (void)other(); (void)other();
                    (void)R::match(std::string_view("aba"));
                    (void)R::search(std::string_view(in.begin(), in.n > 0 ? (std::size_t)in.n - 1 : 0));
                }
            }
            for (int i = 0; i < k; ++i)
            {
                m.result = caps[i];
                result_is<ALL>(kept[i], ok[i], m, in.begin(), in.end(), Search ? searcher_msg : token_msg);
            }
            bool same = true;
            for (int i = 0; i < in.n; ++i) same &= before[i] == in.data[i];
            vs_check(same, "the input is modified");
        }
        // the same with lazy ranges
        static void ranges(unsigned long n)
        {
            Pat<P> p; Input in(n);
            ref::Matcher m(p.prog, in.data, in.n, FB);
            auto a = range(in.view()), b = range(in.view());
            Place pa, pb; bool oa = next(m, pa); ref::Caps ca = m.result; bool ob = oa; ref::Caps cb = ca; pb = pa;
            for (int i = 0; i < 4; ++i)
            {
                unsigned what = (unsigned)vs_concrete(vs_byte() & 3u);
                if (what == 0 && oa) { ++a.begin(); oa = next(m, pa); ca = m.result; }
                else if (what == 1 && ob) { auto it = b.begin(); it++; ob = next(m, pb); cb = m.result; }
                else if (what == 2) { auto c = a; b = c; pb = pa; ob = oa; cb = ca; }
                else if (what == 3) { auto c = b; a = std::move(c); pa = pb; oa = ob; ca = cb; }
                vs_check(a.active() == oa && b.active() == ob, "a range ends at another place");
                vs_check((a.begin() != a.end()) == oa && (b.begin() != b.end()) == ob, "a range ends at another place");
                m.result = ca; result_is<ALL>(*a.begin(), oa, m, in.begin(), in.end(), Search ? searcher_msg : token_msg);
                m.result = cb; result_is<ALL>(b.current_result(), ob, m, in.begin(), in.end(), Search ? searcher_msg : token_msg);
            }
        }
        // the same buffer holds one text after the other; another pattern is used in between
        template<int What>
        static void reuse(unsigned long n)
        {
            Pat<P> p; Input in(n), in2(n);
            char buffer[40] = {};
            for (int i = 0; i < in.n; ++i) buffer[i] = (char)in.data[i];
            auto once = [&](Input const &text) {
                ref::Matcher m(p.prog, text.data, text.n, FB);
                const char *b = buffer, *e = buffer + text.n;
                if constexpr (What == 0) result_is<ALL>(R::match(b, e), m.match(), m, b, e, match_msg);
                else if constexpr (What == 1) result_is<ALL>(R::match_prefix(b, e), m.prefix(), m, b, e, prefix_msg);
                else if constexpr (What == 2) result_is<ALL>(R::search(b, e), m.search(), m, b, e, search_msg);
                else { auto g = generator({b, (std::size_t)text.n}); Place at; for (int i = 0; i < 2; ++i) { auto r = g(); bool ok = next(m, at); result_is<ALL>(r, ok, m, b, e, Search ? searcher_msg : token_msg); } }
            };
            once(in);
            (void)meta::regex<"b|(a)">::search(std::string_view(buffer, (std::size_t)in.n));
            (void)meta::regex<"(b*)a?">::match(std::string_view(buffer, (std::size_t)in.n));
            for (int i = 0; i < in.n; ++i) buffer[i] = (char)in2.data[i];
            once(in2);
            if (in.n > 0)
            {
                Input shorter = in2; --shorter.n;       // the same place and beginning, but shorter
                once(shorter);
                for (int i = 0; i < shorter.n; ++i) buffer[i] = buffer[i + 1];
                shorter.data += 1;                      // the same place, but shifted
                once(shorter);
            }
        }
        static void reuse_match(unsigned long n) { reuse<0>(n); }
        static void reuse_prefix(unsigned long n) { reuse<1>(n); }
        static void reuse_search(unsigned long n) { reuse<2>(n); }
        static void reuse_generator(unsigned long n) { reuse<3>(n); }

        // hundreds of operations on short texts, each result the one of the first round; then operations on a symbolic text
        static void many(unsigned long n)
        {
            Pat<P> p;
            const char text[] = "ab"; std::string_view s(text, 2), t(text, 1);
            auto f1 = R::match(s); auto f2 = R::match_prefix(s); auto f3 = R::search(t); auto g = generator(s); auto f4 = g(); auto f5 = g();
            bool same = true;
            for (int i = 0; i < 280; ++i)
            {
                auto h = generator(s);
                auto r1 = R::match(s); auto r2 = R::match_prefix(s); auto r3 = R::search(t); auto r4 = h(); auto r5 = h();
                same &= alike(r1, f1) && alike(r2, f2) && alike(r3, f3) && alike(r4, f4) && alike(r5, f5);
            }
            vs_check(same, "an operation gives another result when it is repeated");
            same = true;
            int rest = 0;
            for (int i = 0; i < 40; ++i) for (auto const &r : range(s)) rest += (int)r.length() + 1;
            int once = 0; for (auto const &r : range(s)) once += (int)r.length() + 1;
            vs_check(rest == 40 * once, "a range gives other results when it is repeated");
            Input in(n); ref::Matcher m(p.prog, in.data, in.n, FB);
            result_is<ALL>(R::match(in.view()), m.match(), m, in.begin(), in.end(), match_msg);
            result_is<ALL>(R::match_prefix(in.view()), m.prefix(), m, in.begin(), in.end(), prefix_msg);
            result_is<ALL>(R::search(in.view()), m.search(), m, in.begin(), in.end(), search_msg);
            auto k = generator(in.view()); Place at;
            for (int i = 0; i < in.n + 2; ++i) { auto r = k(); bool ok = next(m, at); result_is<ALL>(r, ok, m, in.begin(), in.end(), Search ? searcher_msg : token_msg); }
        }
        template<class Res>
        static bool alike(Res const &a, Res const &b)
        {
            return [&]<std::size_t... I>(std::index_sequence<I...>) {
                return a.matched() == b.matched() && ((a.template group<I>().begin() == b.template group<I>().begin() && a.template group<I>().end() == b.template group<I>().end()) && ...);
            }(std::make_index_sequence<Res::group_count>{});
        }

        // operations in an order that is chosen symbolically, each twice
        static void calls(unsigned long n)
        {
            Pat<P> p; Input in(n);
            ref::u8 before[32];
            for (int i = 0; i < in.n; ++i) before[i] = in.data[i];
            ref::Matcher m(p.prog, in.data, in.n, FB);
            for (int i = 0; i < 3; ++i)
            {
                unsigned what = (unsigned)vs_concrete(vs_byte() & 3u);
                if (what == 0) { auto r = R::match(in.view()); bool ok = m.match(); result_is<ALL>(r, ok, m, in.begin(), in.end(), match_msg); auto o = R::match(std::string(in.view())); texts_are(o, ok, m, "a temporary gives another result", std::make_index_sequence<decltype(o)::group_count>{}); }
                else if (what == 1) { auto r = R::match_prefix(in.begin(), in.end()); result_is<ALL>(r, m.prefix(), m, in.begin(), in.end(), prefix_msg); }
                else if (what == 2) { auto r = R::search(in.view()); auto again = R::search(in.view()); bool ok = m.search(); result_is<ALL>(r, ok, m, in.begin(), in.end(), search_msg); result_is<ALL>(again, ok, m, in.begin(), in.end(), search_msg); }
                else { R regex{}; auto r = regex.search(in.view()); r = regex.match(in.view()); result_is<ALL>(r, m.match(), m, in.begin(), in.end(), match_msg); }
            }
            bool same = true;
            for (int i = 0; i < in.n; ++i) same &= before[i] == in.data[i];
            vs_check(same, "the input is modified");
        }
    };
    template<meta::static_string P, bool Search, regex_flag... F>
    using History = HistoryOps<meta::regex<P, F...>, P, flag_bits<F...>(), Search>;
}
