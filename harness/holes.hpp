// Families of patterns: a skeleton whose marker characters (codes 1, 2, 3) stand for every byte of an alphabet.
// The bytes are inputs of the harness: their values select what the library made of that pattern.
#pragma once
#include "common.hpp"

namespace hx
{
    // 1..3: the bytes; 4, 5: first and second hexadecimal digit of the first byte; 6, 7: in capitals
    constexpr unsigned char fill(unsigned char c, unsigned char const *h, int k)
    {
        if (k == 0) return c;
        if (c >= 1 && c <= k) return h[c - 1];
        if (c < 4 || c > 7) return c;
        unsigned char d = c & 1 ? h[0] & 15 : h[0] >> 4;
        return (unsigned char)(d < 10 ? '0' + d : (c < 6 ? 'a' : 'A') + d - 10);
    }

    // only bounds and references can make a pattern impossible
    constexpr bool suspicious(ref::u8 const *t, int n)
    {
        for (int i = 0; i < n; ++i) if (t[i] == '{' || t[i] == '-' || t[i] == '\\') return true;
        return false;
    }

    template<meta::static_string S, unsigned char... H>
    struct filled
    {
        static constexpr std::size_t N = S.length();
        struct text_t { char c[N + 1]; ref::u8 u[N + 1]; };
        static constexpr text_t make()
        {
            constexpr unsigned char h[] = {H..., 0};
            text_t t{};
            for (std::size_t i = 0; i < N; ++i)
            {
                unsigned char c = (unsigned char)S[i];
                t.u[i] = fill(c, h, (int)sizeof...(H));
                t.c[i] = (char)t.u[i];
            }
            return t;
        }
        static constexpr text_t text = make();
        static constexpr auto pattern = meta::static_string{text.c};
        // patterns whose use is documented to be an error but not a syntax error (crossed bounds, missing groups)
        static constexpr bool impossible = suspicious(text.u, (int)N) && [] { ref::Prog p; p.parse(text.u, (int)N); return p.impossible; }();
    };

    enum Op { MATCH, PREFIX, SEARCH, TOKENS, FINDS };

    // K holes over the bytes of an alphabet (or one hole over all bytes if it is empty)
    template<meta::static_string Alphabet, int K>
    struct letters
    {
        static constexpr int A = Alphabet.length() ? (int)Alphabet.length() : 256;
        static constexpr int total = K == 0 ? 1 : K == 1 ? A : K == 2 ? A * A : A * A * A;
        static constexpr unsigned char letter(int i)
        {
            if constexpr (Alphabet.length() == 0) return (unsigned char)i;
            else return (unsigned char)Alphabet[(std::size_t)i];
        }
        template<meta::static_string S, int I> static auto pick()
        {
            if constexpr (K == 0) return filled<S>{};
            else if constexpr (K == 1) return filled<S, letter(I)>{};
            else if constexpr (K == 2) return filled<S, letter(I / A), letter(I % A)>{};
            else return filled<S, letter(I / A / A), letter(I / A % A), letter(I % A)>{};
        }
        struct index_t { short v[256]; };
        static constexpr index_t index_of = [] { index_t t{}; for (int i = 0; i < A; ++i) t.v[letter(i)] = (short)i; return t; }();
        static void choose(ref::u8 *h)
        {
            for (int k = 0; k < K; ++k)
            {
                h[k] = vs_byte();
                if constexpr (Alphabet.length() != 0)
                {
                    bool known = false;
                    for (int i = 0; i < A; ++i) known |= h[k] == letter(i);
                    vs_assume(known);
                }
            }
        }
        static int index(ref::u8 const *h)
        {
            int index = 0;
            for (int k = 0; k < K; ++k) index = index * A + index_of.v[vs_concrete(h[k])];
            return index;
        }
    };

    // the meaning of every accepted pattern of the family
    template<meta::static_string S, meta::static_string Alphabet, int K, int What, Op Operation, regex_flag... F>
    struct Holes
    {
        using L = letters<Alphabet, K>;
        template<int I>
        static void one(unsigned long n)
        {
            using P = decltype(L::template pick<S, I>());
            if constexpr (!P::impossible) if constexpr (meta::parser<P::pattern>::accepted)
            {
                vs_cover("accepted");
                using O = Std<P::pattern, What, F...>;
                if constexpr (Operation == MATCH) O::match(n);
                else if constexpr (Operation == PREFIX) O::prefix(n);
                else if constexpr (Operation == SEARCH) O::search(n);
                else if constexpr (Operation == TOKENS) O::tokens(n);
                else O::finds(n);
            }
        }
        static void run(unsigned long n)
        {
            using Fn = void (*)(unsigned long);
            struct table_t { Fn f[L::total]; };
            static constexpr auto table = []<std::size_t... I>(std::index_sequence<I...>) {
                return table_t{{&one<(int)I>...}};
            }(std::make_index_sequence<L::total>{});
            ref::u8 h[4] = {};
            L::choose(h);
            table.f[L::index(h)](n);
        }
    };

    template<class V> struct error_position { static constexpr short value = -1; };
    template<std::size_t I> struct error_position<meta::parsing::syntax_error<I>> { static constexpr short value = (short)I; };
    constexpr short SKIPPED = -3;

    template<class P> constexpr short verdict_of()
    {
        if constexpr (P::impossible) return SKIPPED;
        else
        {
            constexpr bool accepted = meta::parser<P::pattern>::accepted;
            constexpr short at = error_position<meta::parser_verdict<P::pattern>>::value;
            static_assert(accepted == (at == -1));
            return at;
        }
    }

    // acceptance and error position of every pattern of the family
    template<meta::static_string S, meta::static_string Alphabet, int K>
    struct Syntax
    {
        using L = letters<Alphabet, K>;
        struct table_t { short v[L::total]; };
        static constexpr table_t table = []<std::size_t... I>(std::index_sequence<I...>) {
            return table_t{{verdict_of<decltype(L::template pick<S, (int)I>())>()...}};
        }(std::make_index_sequence<(std::size_t)L::total>{});

        static void run(unsigned long)
        {
            constexpr int N = (int)S.length();
            ref::u8 text[N + 1], h[4] = {};
            L::choose(h);
            for (int i = 0; i < N; ++i) text[i] = fill((unsigned char)S[(std::size_t)i], h, K);
            ref::Prog prog;
            bool ok = prog.parse(text, N);
            if (prog.impossible) { vs_cover("not decided here"); return; }
            short got;
            if constexpr (Alphabet.length() == 0) got = table.v[h[0]];
            else got = table.v[L::index(h)];
            if (ok)
            {
                vs_cover("accepted");
                vs_check(got == -1, "a valid pattern is rejected");
            }
            else
            {
                vs_cover("rejected");
                vs_check(got != -1, "an invalid pattern is accepted");
                vs_check(got == (short)prog.error, "the error position is not the first character that cannot be completed");
            }
        }
    };
}
