// C27: which uses of the library do not compile. What the compiler made of every use of a family is a table.
#pragma once
#include "holes.hpp"

namespace hx
{
    // S: the pattern; Q: the group that is read from the result (a number or a name), or nothing
    template<meta::static_string S, meta::static_string Q, meta::static_string Alphabet, int K, bool ForwardOnly, const signed char *Table>
    struct Rejected
    {
        using L = letters<Alphabet, K>;
        static void run(unsigned long)
        {
            constexpr int N = (int)S.length(), M = (int)Q.length();
            ref::u8 text[N + 1], id[M + 1], h[4] = {};
            L::choose(h);
            for (int i = 0; i < N; ++i) text[i] = fill((unsigned char)S[(std::size_t)i], h, K);
            for (int i = 0; i < M; ++i) id[i] = fill((unsigned char)Q[(std::size_t)i], h, K);
            ref::Prog prog;
            bool ok = prog.parse(text, N) && !prog.impossible;
            if (ok && M > 0)
            {
                int number = 0; bool digits = true;
                for (int i = 0; i < M; ++i) { digits = digits && ref::is_digit(id[i]); number = number * 10 + (id[i] - '0'); }
                ok = digits ? number <= prog.groups : prog.group_named(id, M) != 0;
            }
            if (ok && ForwardOnly)
                for (int i = 0; i < prog.nnodes; ++i)
                    if (prog.nodes[i].kind == ref::LOOK && prog.nodes[i].dir < 0) ok = false;
            signed char got = Table[L::index(h)];
            if (got > 1) { vs_cover("not decided here"); return; }
            vs_cover(ok ? "accepted" : "rejected");
            if (ok) vs_check(got == 1, "a use that has a meaning does not compile");
            else vs_check(got == 0, "a use that has no meaning compiles");
        }
    };
}
