// Ways of reading results: success/failure views, accessors, owned copies, lazy ranges.
#pragma once
#include "iters.hpp"
#include <algorithm>
#include <ranges>
#include <string>

namespace hx
{
    // ---- all views of success and failure agree (C15) ---------------------------------------
    template<class Res>
    void outcome_is(Res r, bool ok)
    {
        constexpr auto all = std::make_index_sequence<Res::group_count>{};
        Res const &c = r;
        vs_check(c.matched() == ok, "outcome: matched() is wrong");
        vs_check(static_cast<bool>(c) == ok, "outcome: conversion to bool disagrees");
        vs_check((c == true) == ok, "outcome: comparison with true disagrees");
        vs_check((c == false) == !ok, "outcome: comparison with false disagrees");
        vs_check((c != true) == !ok, "outcome: inequality with true disagrees");
        vs_check(r.as_optional().has_value() == ok, "outcome: optional disagrees");
        vs_check(c.as_optional().has_value() == ok, "outcome: optional disagrees");
        vs_check(Res(c).as_optional().has_value() == ok, "outcome: optional disagrees");
        vs_check(std::move(c).as_optional().has_value() == ok, "outcome: optional disagrees");
        if (auto o = c.as_optional()) vs_check(o->matched(), "outcome: optional holds a failure");
        if (ok) { vs_cover("matched"); return; }
        vs_cover("not matched");
        vs_check(c.length() == 0, "failure: length is not zero");
        vs_check(c.begin() == c.end(), "failure: range is not empty");
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            (vs_check(c.template group<I>().length() == 0, "failure: a group has a length"), ...);
            (vs_check(c.template group<I>().is_empty(), "failure: a group is not empty"), ...);
            (vs_check(!static_cast<bool>(c.template group<I>()), "failure: a group converts to true"), ...);
            (vs_check(c.template group<I>().begin() == c.template group<I>().end(), "failure: a group has a range"), ...);
            (vs_check(c.template group<I>().content().empty(), "failure: a group has content"), ...);
        }(all);
        int shown = 0;
        c.for_each_group([&](auto const &g) { shown += (int)g.length(); });
        vs_check(shown == 0, "failure: visited groups have content");
        if constexpr (std::is_convertible_v<Res, std::string_view>)
            vs_check(static_cast<std::string_view>(c).empty(), "failure: string view is not empty");
    }
    template<class R, meta::static_string P, int FB>
    struct OutcomeOps
    {
        template<class Res> static void both(Res r, bool ok)
        {
            if constexpr (Res::is_view) outcome_is(r.as_memory_owner(), ok);
            outcome_is(r, ok);
        }
        static void match(unsigned long n) { Pat<P> p; Input in(n); ref::Matcher m(p.prog, in.data, in.n, FB); both(R::match(in.view()), m.match()); }
        static void prefix(unsigned long n) { Pat<P> p; Input in(n); ref::Matcher m(p.prog, in.data, in.n, FB); both(R::match_prefix(in.view()), m.prefix()); }
        static void search(unsigned long n) { Pat<P> p; Input in(n); ref::Matcher m(p.prog, in.data, in.n, FB); both(R::search(in.view()), m.search()); }
        static void owned(unsigned long n)
        {
            Pat<P> p; Input in(n); ref::Matcher m(p.prog, in.data, in.n, FB);
            outcome_is(R::match(std::string(in.view())), m.match());
            outcome_is(R::search(std::string(in.view())), m.search());
        }
        template<bool Search, class Gen>
        static void iterate(Gen gen, ref::Matcher &m)
        {
            int pos = 0; bool active = true;
            for (int k = 0; k < m.n + 4; ++k)
            {
                bool ok = active && (Search ? m.search(pos) : m.prefix(pos));
                outcome_is(gen(), ok);
                if (!ok) { if (!active) break; active = false; continue; }
                if (m.result.e[0] == m.result.s[0]) active = false;
                pos = m.result.e[0];
            }
        }
        static void tokens(unsigned long n) { Pat<P> p; Input in(n); ref::Matcher m(p.prog, in.data, in.n, FB); iterate<false>(R::tokenizer(in.view()), m); }
        static void finds(unsigned long n) { Pat<P> p; Input in(n); ref::Matcher m(p.prog, in.data, in.n, FB); iterate<true>(R::searcher(in.view()), m); }
        static void forward(unsigned long n)
        {
            Pat<P> p; Checked<bidi_it> s(n); ref::Matcher m(p.prog, s.data, s.n, FB);
            outcome_is(R::match(s.begin(), s.end()), m.match());
            outcome_is(R::match_prefix(s.begin(), s.end()), m.prefix());
            outcome_is(R::search(s.begin(), s.end()), m.search());
        }
        static void blank(unsigned long)
        {
            decltype(R::match(std::string_view{})) r;
            outcome_is(r, false);
            vs_cover("matched");
        }
    };
    template<meta::static_string P, regex_flag... F>
    using Outcome = OutcomeOps<meta::regex<P, F...>, P, flag_bits<F...>()>;

    // ---- accessors and owned copies (C19) ----------------------------------------------------
    inline bool equal_text(std::string_view v, const ref::u8 *data, int s, int e)
    {
        int len = s < 0 ? 0 : e - s;
        if ((int)v.size() != len) return false;
        bool same = true;
        for (int i = 0; i < len; ++i) same &= (ref::u8)v[(std::size_t)i] == data[s + i];
        return same;
    }
    // every accessor of one group
    template<class Cap>
    void capture_reads(Cap cap, const ref::u8 *data, int s, int e)
    {
        Cap const &c = cap;
        int len = s < 0 ? 0 : e - s;
        vs_check((int)c.length() == len, "group: wrong length");
        vs_check(c.is_empty() == (len == 0), "group: is_empty disagrees");
        vs_check(static_cast<bool>(c) == (len != 0), "group: bool conversion disagrees");
        vs_check(equal_text(static_cast<std::string_view>(c), data, s, e), "group: string view differs");
        vs_check(equal_text(c.content(), data, s, e), "group: content differs");
        vs_check(equal_text(cap.content(), data, s, e), "group: content differs");
        vs_check(equal_text(Cap(c).content(), data, s, e), "group: content of an rvalue differs");
        vs_check(equal_text(std::move(c).content(), data, s, e), "group: content of a const rvalue differs");
        bool same = true; int k = 0;
        for (auto it = c.begin(); it != c.end() && k < len; ++it, ++k) same &= (ref::u8)*it == data[s + k];
        vs_check(same && k == len && (int)std::distance(c.begin(), c.end()) == len, "group: iteration differs");
        same = true; k = 0;
        for (auto it = cap.begin(); it != cap.end() && k < len; ++it, ++k) same &= (ref::u8)*it == data[s + k];
        vs_check(same && k == len, "group: iteration differs");
        for (int i = 0; i < len; ++i) vs_check((ref::u8)c[(std::size_t)i] == data[s + i], "group: indexing differs");
        for (int i = 0; i < len; ++i) vs_check((ref::u8)cap[(std::size_t)i] == data[s + i], "group: indexing differs");
    }
    template<class Res>
    void result_reads(Res &r, bool ok, const ref::u8 *data, ref::Matcher const &m)
    {
        constexpr int G = (int)Res::group_count;
        Res const &c = r;
        ref::Caps caps = m.result;
        if (!ok) for (int g = 0; g < G; ++g) caps.s[g] = caps.e[g] = -1;
        int len = ok ? caps.e[0] - caps.s[0] : 0;
        vs_check(c.matched() == ok, "result: matched differs");
        vs_check((int)c.length() == len, "result: length differs");
        vs_check((int)std::distance(c.begin(), c.end()) == len, "result: range differs");
        vs_check(equal_text(static_cast<std::string_view>(c), data, caps.s[0], caps.e[0]), "result: string view differs");
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            (capture_reads(c.template group<I>(), data, caps.s[I], caps.e[I]), ...);
            (vs_check(&c.template group<I>() == &c.template get<I>(), "result: get and group differ"), ...);
            (vs_check(&r.template group<I>() == &r.template get<I>(), "result: get and group differ"), ...);
            (vs_check(&meta::get_group<I>(c) == &c.template group<I>(), "result: get_group differs"), ...);
            (vs_check(equal_text(Res(c).template group<I>().content(), data, caps.s[I], caps.e[I]), "result: group of an rvalue differs"), ...);
            (vs_check(equal_text(Res(c).template get<I>().content(), data, caps.s[I], caps.e[I]), "result: get of an rvalue differs"), ...);
            (vs_check(equal_text(std::move(c).template group<I>().content(), data, caps.s[I], caps.e[I]), "result: group of a const rvalue differs"), ...);
            (vs_check(equal_text(std::move(c).template get<I>().content(), data, caps.s[I], caps.e[I]), "result: get of a const rvalue differs"), ...);
            (vs_check(equal_text(meta::get_group<I>(Res(c)).content(), data, caps.s[I], caps.e[I]), "result: get_group of an rvalue differs"), ...);
            auto t = c.transform_groups([](auto const &g) { return (int)g.length(); });
            static_assert(std::tuple_size_v<decltype(t)> == G);
            (vs_check(std::get<I>(t) == (caps.s[I] < 0 ? 0 : caps.e[I] - caps.s[I]), "result: transformed groups differ"), ...);
            auto u = c.transform_groups([](auto const &g) { return &g; });
            (vs_check((const void *)std::get<I>(u) == (const void *)&c.template group<I>(), "result: transform visits other groups"), ...);
            if (auto o = c.as_optional())
            {
                vs_check(ok, "result: optional of a failure");
                (vs_check(equal_text(o->template group<I>().content(), data, caps.s[I], caps.e[I]), "result: optional differs"), ...);
            }
            else vs_check(!ok, "result: no optional of a success");
            if (auto o = std::move(c).as_optional())
                (vs_check(equal_text(o->template group<I>().content(), data, caps.s[I], caps.e[I]), "result: optional of a const rvalue differs"), ...);
            if (auto o = r.as_optional())
                (vs_check(equal_text(o->template group<I>().content(), data, caps.s[I], caps.e[I]), "result: optional differs"), ...);
            if (auto o = Res(c).as_optional())
                (vs_check(equal_text(o->template group<I>().content(), data, caps.s[I], caps.e[I]), "result: optional of an rvalue differs"), ...);
        }(std::make_index_sequence<(std::size_t)G>{});
        static_assert(std::tuple_size<Res>::value == (std::size_t)G);
        int k = 0; bool same = true;
        c.for_each_group([&](auto const &g) { same &= k < G && equal_text(static_cast<std::string_view>(g), data, caps.s[k], caps.e[k]); ++k; });
        vs_check(same && k == G, "result: for_each_group differs");
        k = 0;
        r.for_each_group([&](auto &g) { same &= k < G && equal_text(static_cast<std::string_view>(g), data, caps.s[k], caps.e[k]); ++k; });
        vs_check(same && k == G, "result: for_each_group differs");
        k = 0;
        Res(c).for_each_group([&](auto &&g) { same &= k < G && equal_text(static_cast<std::string_view>(g), data, caps.s[k], caps.e[k]); ++k; });
        vs_check(same && k == G, "result: for_each_group of an rvalue differs");
        k = 0;
        std::move(c).for_each_group([&](auto const &&g) { same &= k < G && equal_text(static_cast<std::string_view>(g), data, caps.s[k], caps.e[k]); ++k; });
        vs_check(same && k == G, "result: for_each_group of a const rvalue differs");
    }
    // names: a type with static void check(result const &) generated per pattern
    template<class R, meta::static_string P, int FB, class Names>
    struct AccessOps
    {
        template<class Res>
        static void all(Res r, bool ok, Input &in, ref::Matcher &m)
        {
            ref::u8 copy[32];
            for (int i = 0; i < in.n; ++i) copy[i] = in.data[i];
            if (ok) vs_cover("matched"); else vs_cover("not matched");
            result_reads(r, ok, copy, m);
            Names::check(r);
            auto owned = r.as_memory_owner();
            static_assert(!decltype(owned)::is_view && Res::is_view);
            result_reads(owned, ok, copy, m);
            Names::check(owned);
            for (int i = 0; i < in.n; ++i) in.data[i] = (ref::u8)~in.data[i];     // the input changes: owned results do not
            result_reads(owned, ok, copy, m);
            auto second = owned;
            owned = decltype(owned){};
            result_reads(second, ok, copy, m);
            auto third = std::move(second);
            result_reads(third, ok, copy, m);
            Names::check(third);
        }
        static void match(unsigned long n) { Pat<P> p; Input in(n); ref::Matcher m(p.prog, in.data, in.n, FB); bool ok = m.match(); all(R::match(in.view()), ok, in, m); }
        static void prefix(unsigned long n) { Pat<P> p; Input in(n); ref::Matcher m(p.prog, in.data, in.n, FB); bool ok = m.prefix(); all(R::match_prefix(in.view()), ok, in, m); }
        static void search(unsigned long n) { Pat<P> p; Input in(n); ref::Matcher m(p.prog, in.data, in.n, FB); bool ok = m.search(); all(R::search(in.view()), ok, in, m); }
        static void finds(unsigned long n)
        {
            Pat<P> p; Input in(n); ref::Matcher m(p.prog, in.data, in.n, FB);
            auto gen = R::searcher(in.view());
            int pos = 0;
            for (int k = 0; k < in.n + 2; ++k)
            {
                auto r = gen();
                bool ok = m.search(pos);
                result_reads(r, ok, in.data, m);
                auto o = r.as_memory_owner();
                result_reads(o, ok, in.data, m);
                if (!ok || m.result.e[0] == m.result.s[0]) break;
                pos = m.result.e[0];
            }
        }
        static void temporary(unsigned long n)
        {
            Pat<P> p; Input in(n); ref::Matcher m(p.prog, in.data, in.n, FB);
            ref::u8 copy[32];
            for (int i = 0; i < in.n; ++i) copy[i] = in.data[i];
            auto a = R::match(std::string(in.view()));
            static_assert(!decltype(a)::is_view);
            result_reads(a, m.match(), copy, m); Names::check(a);
            auto b = R::match_prefix(std::string(in.view()));
            result_reads(b, m.prefix(), copy, m); Names::check(b);
            auto c = R::search(std::string(in.view()));
            result_reads(c, m.search(), copy, m); Names::check(c);
            vs_cover(c.matched() ? "matched" : "not matched");
        }
    };

    // owned copies of long content (beyond any small-string storage), with a few symbolic characters
    template<meta::static_string P, meta::static_string Filler>
    struct LongOwned
    {
        template<class Res, std::size_t... I>
        static void is(Res const &r, bool ok, const ref::u8 *data, ref::Caps const &c, std::index_sequence<I...>)
        {
            vs_check(r.matched() == ok, "result: matched differs");
            vs_cover(ok ? "matched" : "not matched");
            (vs_check(equal_text(static_cast<std::string_view>(r.template group<I>()), data, ok ? c.s[I] : -1, ok ? c.e[I] : -1), "owned group differs"), ...);
            (vs_check(equal_text(r.template group<I>().content(), data, ok ? c.s[I] : -1, ok ? c.e[I] : -1), "owned content differs"), ...);
            (walk(r.template group<I>(), data, ok ? c.s[I] : -1, ok ? c.e[I] : -1), ...);
        }
        template<class G>
        static void walk(G group, const ref::u8 *data, int s, int e)
        {
            int len = s < 0 ? 0 : e - s, k = 0;
            vs_check((int)group.length() == len && group.is_empty() == (len == 0), "owned length differs");
            bool same = true;
            for (auto it = group.begin(); it != group.end() && k < len; ++it, ++k) same &= (ref::u8)*it == data[s + k];
            vs_check(same && k == len, "iterating over an owned group differs");
            G const &fixed = group;
            for (int i = 0; i < len; ++i) same &= (ref::u8)fixed[(std::size_t)i] == data[s + i] && (ref::u8)group[(std::size_t)i] == data[s + i];
            vs_check(same, "a character of an owned group differs");
        }
        static void run(unsigned long n)
        {
            using R = meta::regex<P>;
            Pat<P> p; Long<Filler> s(n); ref::Matcher m(p.prog, s.data, s.n, 0);
            ref::u8 copy[1024];
            for (int i = 0; i < s.n; ++i) copy[i] = s.data[i];
            constexpr auto all = std::make_index_sequence<decltype(R::match(s.begin(), s.end()))::group_count>{};
            bool ok = m.search();
            auto view = R::search(s.begin(), s.end());
            auto owned = view.as_memory_owner();
            auto temporary = R::search(std::string(s.begin(), s.end()));
            is(view, ok, copy, m.result, all);
            if (s.n <= 140)
            {
                is(R::search(std::list<char>(s.begin(), s.end())), ok, copy, m.result, all);
                is(R::search(std::deque<char>(s.begin(), s.end())), ok, copy, m.result, all);
                std::list<char> nodes(s.begin(), s.end());
                auto scattered = R::search(nodes);
                is(scattered.as_memory_owner(), ok, copy, m.result, all);
            }
            for (int i = 0; i < s.n; ++i) s.data[i] = (ref::u8)~s.data[i];
            is(owned, ok, copy, m.result, all);
            is(temporary, ok, copy, m.result, all);
            auto moved = std::move(owned);
            is(moved, ok, copy, m.result, all);
            auto again = moved;
            moved = temporary;
            is(again, ok, copy, m.result, all);
            is(moved, ok, copy, m.result, all);
        }
    };

    // ---- lazy ranges (C18) ---------------------------------------------------------------------
    template<class A, class B>
    void same_result(A const &a, B const &b, const char *msg)
    {
        vs_check(a.matched() == b.matched(), msg);
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            (vs_check(a.template group<I>().begin() == b.template group<I>().begin() && a.template group<I>().end() == b.template group<I>().end(), msg), ...);
        }(std::make_index_sequence<A::group_count>{});
    }
    // more results than any small counter holds
    template<meta::static_string P, bool Search, meta::static_string Filler>
    struct LongLazy
    {
        static void run(unsigned long n)
        {
            using R = meta::regex<P>;
            Pat<P> p; Long<Filler> s(n); ref::Matcher m(p.prog, s.data, s.n, 0);
            auto rg = [&] { if constexpr (Search) return R::find_all(s.begin(), s.end()); else return R::tokenize(s.begin(), s.end()); }();
            int pos = 0, k = 0; bool active = true;
            for (auto it = rg.begin();; ++k)
            {
                bool ok = active && (Search ? m.search(pos) : m.prefix(pos));
                vs_check(static_cast<bool>(it) == ok && (it != rg.end()) == ok && rg.active() == ok, "range: end is reported wrongly");
                if (!ok) break;
                result_is<ALL>(*it, true, m, s.begin(), s.end(), searcher_msg);
                active = m.result.e[0] != m.result.s[0]; pos = m.result.e[0];
                if (k % 2) ++it; else it++;
            }
            vs_cover("not matched"); if (k) vs_cover("matched");
            auto again = [&] { if constexpr (Search) return R::find_all(s.begin(), s.end()); else return R::tokenize(s.begin(), s.end()); }();
            vs_check((int)std::ranges::distance(again) == k, "range: distance differs");
        }
    };
    template<class R, meta::static_string P, int FB, bool Search>
    struct RangeOps
    {
        template<class S> static auto range(S const &s) { if constexpr (Search) return R::find_all(s.begin(), s.end()); else return R::tokenize(s.begin(), s.end()); }
        template<class S> static auto generator(S const &s) { if constexpr (Search) return R::searcher(s.begin(), s.end()); else return R::tokenizer(s.begin(), s.end()); }
        static bool next(ref::Matcher &m, int &pos, bool &active)
        {
            bool ok = active && (Search ? m.search(pos) : m.prefix(pos));
            if (ok) { active = m.result.e[0] != m.result.s[0]; pos = m.result.e[0]; } else active = false;
            return ok;
        }
        static void range_for(unsigned long n)
        {
            Pat<P> p; Input in(n); ref::Matcher m(p.prog, in.data, in.n, FB);
            int pos = 0; bool active = true; int k = 0;
            auto g = generator(in.view());
            for (auto const &r : range(in.view()))
            {
                vs_check(next(m, pos, active), "range: more results than the generator has");
                vs_cover("matched");
                result_is<ALL>(r, true, m, in.begin(), in.end(), searcher_msg);
                same_result(r, g(), "range: a result differs from the generator's");
                if (++k > in.n + 2) vs_check(0, "range: does not end");
            }
            vs_check(!next(m, pos, active), "range: a result is missing");
            vs_cover("not matched");
        }
        static void pre_increment(unsigned long n)
        {
            Pat<P> p; Input in(n); ref::Matcher m(p.prog, in.data, in.n, FB);
            int pos = 0; bool active = true;
            auto rg = range(in.view());
            auto it = rg.begin();
            for (int k = 0; k <= in.n + 2; ++k)
            {
                bool ok = next(m, pos, active);
                vs_check((it != rg.end()) == ok && (it == rg.end()) == !ok, "range: sentinel comparison is wrong");
                vs_check((std::default_sentinel == it) == !ok, "range: sentinel comparison is wrong");
                vs_check(static_cast<bool>(it) == ok, "range: iterator's bool conversion is wrong");
                vs_check(rg.active() == ok, "range: active() is wrong");
                if (!ok) { vs_cover("not matched"); return; }
                vs_cover("matched");
                result_is<ALL>(*it, true, m, in.begin(), in.end(), searcher_msg);
                result_is<ALL>(*it, true, m, in.begin(), in.end(), searcher_msg);       // reading does not advance
                vs_check((int)it->length() == m.result.e[0] - m.result.s[0], "range: access through -> differs");
                result_is<ALL>(*rg.begin(), true, m, in.begin(), in.end(), searcher_msg);   // nor does asking for the beginning
                auto &same = ++it;
                vs_check(&same == &it, "range: pre-increment returns something else");
            }
            vs_check(0, "range: does not end");
        }
        static void post_increment(unsigned long n)
        {
            Pat<P> p; Input in(n); ref::Matcher m(p.prog, in.data, in.n, FB);
            int pos = 0; bool active = true;
            auto rg = range(in.view());
            auto it = rg.begin();
            for (int k = 0; k <= in.n + 2; ++k)
            {
                bool ok = next(m, pos, active);
                vs_check((it != rg.end()) == ok && static_cast<bool>(it) == ok, "range: end is reported wrongly");
                if (!ok) { vs_cover("not matched"); return; }
                vs_cover("matched");
                result_is<ALL>(*it, true, m, in.begin(), in.end(), searcher_msg);
                it++;
            }
            vs_check(0, "range: does not end");
        }
        static void algorithms(unsigned long n)
        {
            Pat<P> p; Input in(n); ref::Matcher m(p.prog, in.data, in.n, FB);
            int pos = 0; bool active = true; int count = 0, total = 0, nonempty = 0, last = 0;
            while (next(m, pos, active)) { ++count; int l = m.result.e[0] - m.result.s[0]; total += l; nonempty += l > 0; last = m.result.e[0]; }
            vs_cover(count ? "matched" : "not matched");
            auto a = range(in.view());
            vs_check((int)std::ranges::distance(a) == count, "range: distance differs");
            auto b = range(in.view());
            int sum = 0, end = 0;
            std::ranges::for_each(b, [&](auto const &r) { sum += (int)r.length(); end = (int)(r.end() - in.begin()); });
            vs_check(sum == total && (count == 0 || end == last), "range: for_each differs");
            auto c = range(in.view());
            vs_check((int)std::ranges::count_if(c, [](auto const &r) { return r.length() > 0; }) == nonempty, "range: count_if differs");
            int k = 0, visited = 0;
            auto d = range(in.view());
            for (auto l : d | std::views::transform([](auto const &r) { return (int)r.length(); })) { visited += l; ++k; }
            vs_check(k == count && visited == total, "range: transformed view differs");
            auto e = range(in.view());
            auto found = std::ranges::find_if(e, [](auto const &r) { return r.length() == 0; });
            vs_check((found == e.end()) == (nonempty == count), "range: find_if differs");
        }
        // computed one at a time: the range reads no more of the input than the generator's calls so far
        static void laziness(unsigned long n)
        {
            Pat<P> p; Checked<bidi_it> s(n);
            counters = {0, -1};
            auto rg = range(s);
            Counters here = counters;
            auto gen = generator(s);
            for (int k = 0; k <= s.n + 1; ++k)
            {
                counters = {0, -1};
                auto r = gen();
                vs_check(here.reads <= counters.reads && here.furthest <= counters.furthest, "range: computes more than one result at a time");
                vs_check(here.reads >= counters.reads, "range: the current result is not computed yet");
                auto it = rg.begin();
                vs_check(static_cast<bool>(it) == r.matched(), "range: end is reported wrongly");
                if (!r) { vs_cover("not matched"); return; }
                vs_cover("matched");
                same_result(*it, r, "range: a result differs from the generator's");
                counters = {0, -1};
                ++it;
                here = counters;
            }
            vs_check(0, "range: does not end");
        }
    };
    template<meta::static_string P, bool Search, regex_flag... F>
    using Lazy = RangeOps<meta::regex<P, F...>, P, flag_bits<F...>(), Search>;
}
