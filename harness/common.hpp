// Differential harness: the library (real templates from /repo/include) against ref.hpp.
#pragma once
#include <mregex.hpp>
#include <cstddef>
#include <iterator>
#include <optional>
#include <string_view>
#include <utility>
#include "ref.hpp"
#include "vs.hpp"

namespace hx
{
    using meta::regex_flag;

    template<regex_flag... F>
    constexpr int flag_bits() noexcept
    {
        return (0 | ... | (F == regex_flag::icase ? ref::ICASE : F == regex_flag::dotall ? ref::DOTALL
                : F == regex_flag::multiline ? ref::MULTILINE : F == regex_flag::ungreedy ? ref::UNGREEDY : 0));
    }

    inline const ref::u8 *bytes(const char *p) { return reinterpret_cast<const ref::u8 *>(p); }

    struct Input
    {
        ref::u8 *data; int n;
        explicit Input(unsigned long len) : data(vs_input(len)), n((int)len) {}
        const char *begin() const { return reinterpret_cast<const char *>(data); }
        const char *end() const { return begin() + n; }
        std::string_view view() const { return {begin(), (std::size_t)n}; }
    };

    // what of a result is compared
    enum { VERDICT = 1, EXTENT = 2, GROUPS = 4, NOTHING_ON_FAILURE = 8, ALL = 15 };

    // distance between iterators of any category, by walking (never beyond 64 steps)
    template<class It>
    int steps(It from, It to)
    {
        if constexpr (std::random_access_iterator<It>) return (int)(to - from);
        else
        {
            for (int k = 0; k <= 64; ++k, ++from) if (from == to) return k;
            return -1;
        }
    }

    template<class Cap, class It>
    void group_is(Cap const &cap, It base, It last, int s, int e, const char *msg)
    {
        (void)last;
        int len = s < 0 ? 0 : e - s;
        vs_check((int)cap.length() == len, msg);
        if (len > 0)
        {
            vs_check(cap.begin() == std::next(base, s), msg);
            vs_check(cap.end() == std::next(base, e), msg);
        }
    }

    template<int What, class Res, class It, std::size_t... I>
    void groups_are(Res const &r, It base, It last, ref::Caps const &c, const char *msg, std::index_sequence<I...>)
    {
        (group_is(r.template group<I + 1>(), base, last, c.s[I + 1], c.e[I + 1], msg), ...);
    }

    struct Msg { const char *verdict, *extent, *groups, *failed; };

    template<int What, class Res, class It>
    void result_is(Res const &r, bool ok, ref::Matcher const &m, It base, It last, Msg const &msg)
    {
        if constexpr (What & VERDICT) vs_check(r.matched() == ok, msg.verdict);
        else vs_assume(r.matched() == ok);
        if (ok)
        {
            vs_cover("matched");
            if constexpr (What & EXTENT)
            {
                auto const &g0 = r.template group<0>();
                vs_check(g0.begin() == std::next(base, m.result.s[0]), msg.extent);
                vs_check(g0.end() == std::next(base, m.result.e[0]), msg.extent);
            }
            if constexpr (What & GROUPS)
                groups_are<What>(r, base, last, m.result, msg.groups, std::make_index_sequence<Res::group_count - 1>{});
        }
        else
        {
            vs_cover("not matched");
            if constexpr (What & NOTHING_ON_FAILURE)
            {
                bool empty = r.length() == 0;
                [&]<std::size_t... I>(std::index_sequence<I...>) {
                    ((empty = empty && r.template group<I>().length() == 0 && r.template group<I>().is_empty()), ...);
                }(std::make_index_sequence<Res::group_count>{});
                vs_check(empty, msg.failed);
            }
        }
    }

    inline constexpr Msg match_msg{"match: outcome differs from the pattern's meaning", "match: extent is not the whole input",
                                   "match: a group differs", "match: content exposed after failure"};
    inline constexpr Msg prefix_msg{"match_prefix: outcome differs from the pattern's meaning", "match_prefix: extent is not the preferred one",
                                    "match_prefix: a group differs", "match_prefix: content exposed after failure"};
    inline constexpr Msg search_msg{"search: outcome differs from the pattern's meaning", "search: not the leftmost preferred match",
                                    "search: a group differs", "search: content exposed after failure"};
    inline constexpr Msg token_msg{"tokenizer: outcome differs", "tokenizer: extent differs", "tokenizer: a group differs", "tokenizer: content exposed after failure"};
    inline constexpr Msg searcher_msg{"searcher: outcome differs", "searcher: extent differs", "searcher: a group differs", "searcher: content exposed after failure"};

    template<meta::static_string P> struct Pat
    {
        static constexpr int length = (int)P.length();
        ref::u8 text[length + 1];
        ref::Prog prog;
        Pat()
        {
            for (int i = 0; i < length; ++i) text[i] = (ref::u8)P[(std::size_t)i];
            bool ok = prog.parse(text, length);
            vs_check(ok, "harness: the reference rejects this pattern");
        }
    };

    // R: regex under test, P: pattern text giving its meaning, FB: flag bits of the meaning
    template<class R, meta::static_string P, int FB, int What>
    struct Ops
    {
        static void match(unsigned long n)
        {
            Pat<P> p; Input in(n);
            auto r = R::match(in.view());
            ref::Matcher m(p.prog, in.data, in.n, FB);
            result_is<What>(r, m.match(), m, in.begin(), in.end(), match_msg);
        }
        static void prefix(unsigned long n)
        {
            Pat<P> p; Input in(n);
            auto r = R::match_prefix(in.view());
            ref::Matcher m(p.prog, in.data, in.n, FB);
            result_is<What>(r, m.prefix(), m, in.begin(), in.end(), prefix_msg);
        }
        static void search(unsigned long n)
        {
            Pat<P> p; Input in(n);
            auto r = R::search(in.view());
            ref::Matcher m(p.prog, in.data, in.n, FB);
            result_is<What>(r, m.search(), m, in.begin(), in.end(), search_msg);
        }
        // ends, whatever the result: what the operations report only has to be consistent
        static void ends(unsigned long n)
        {
            Input in(n);
            auto a = R::match(in.view());
            auto b = R::match_prefix(in.view());
            auto c = R::search(in.view());
            vs_check(!a || b, "a whole match is no prefix match");
            vs_check(!b || (c && c.begin() == b.begin() && c.end() == b.end()), "a match at the beginning is not what search finds");
            int k = 0;
            for (auto gen = R::searcher(in.view()); gen(); ) vs_check(++k <= in.n + 1, "iteration does not end");
            vs_cover(c ? "matched" : "not matched");
        }
        // all results of an iteration followed by two more requests
        template<bool Search, class Gen, class It>
        static void iterate(Gen gen, ref::Matcher &m, It base, It last)
        {
            int pos = 0; bool active = true;
            for (int k = 0; k < m.n + 4; ++k)
            {
                auto r = gen();
                bool ok = active && (Search ? m.search(pos) : m.prefix(pos));
                result_is<What>(r, ok, m, base, last, Search ? searcher_msg : token_msg);
                if (!ok) { if (!active) break; active = false; continue; }
                if (m.result.e[0] == m.result.s[0]) active = false;
                pos = m.result.e[0];
            }
        }
        static void tokens(unsigned long n)
        {
            Pat<P> p; Input in(n);
            ref::Matcher m(p.prog, in.data, in.n, FB);
            iterate<false>(R::tokenizer(in.view()), m, in.begin(), in.end());
        }
        static void finds(unsigned long n)
        {
            Pat<P> p; Input in(n);
            ref::Matcher m(p.prog, in.data, in.n, FB);
            iterate<true>(R::searcher(in.view()), m, in.begin(), in.end());
        }
    };

    template<meta::static_string P, int What, regex_flag... F>
    using Std = Ops<meta::regex<P, F...>, P, flag_bits<F...>(), What>;
}
