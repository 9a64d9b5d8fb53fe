// Numbering and naming of groups.
#pragma once
#include "common.hpp"

namespace hx
{
    // Names: a type with static void check(result const &) generated per pattern; G: number of capturing groups
    template<class R, meta::static_string P, int FB, class Names, int G>
    struct NumberOps
    {
        static void count(unsigned long n)
        {
            Pat<P> p; Input in(n);
            vs_check(p.prog.groups == G, "harness: the reference counts groups differently");
            vs_check((int)R::capture_count == G, "capture_count differs from the number of groups");
            auto r = R::search(in.view());
            vs_check((int)decltype(r)::group_count == G + 1, "group_count differs from the number of groups");
            vs_check((int)std::tuple_size<decltype(r)>::value == G + 1, "tuple size differs from the number of groups");
            int k = 0;
            r.for_each_group([&](auto const &) { ++k; });
            vs_check(k == G + 1, "another number of groups is visited");
            Names::check(r);
        }
        template<class Res>
        static void is(Res const &r, bool ok, ref::Matcher &m, Input &in, Msg const &msg)
        {
            result_is<ALL>(r, ok, m, in.begin(), in.end(), msg);
            Names::check(r);
            auto o = r.as_memory_owner();
            Names::check(o);
        }
        static void match(unsigned long n) { Pat<P> p; Input in(n); ref::Matcher m(p.prog, in.data, in.n, FB); is(R::match(in.view()), m.match(), m, in, match_msg); }
        static void prefix(unsigned long n) { Pat<P> p; Input in(n); ref::Matcher m(p.prog, in.data, in.n, FB); is(R::match_prefix(in.view()), m.prefix(), m, in, prefix_msg); }
        static void search(unsigned long n) { Pat<P> p; Input in(n); ref::Matcher m(p.prog, in.data, in.n, FB); is(R::search(in.view()), m.search(), m, in, search_msg); }
        static void finds(unsigned long n)
        {
            Pat<P> p; Input in(n); ref::Matcher m(p.prog, in.data, in.n, FB);
            auto gen = R::searcher(in.view());
            int pos = 0;
            for (int k = 0; k < in.n + 2; ++k)
            {
                auto r = gen();
                bool ok = m.search(pos);
                is(r, ok, m, in, searcher_msg);
                if (!ok || m.result.e[0] == m.result.s[0]) break;
                pos = m.result.e[0];
            }
        }
    };
}
