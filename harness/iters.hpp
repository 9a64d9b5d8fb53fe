// Iterators that check every use, and the same text through different iterators and containers.
#pragma once
#include "common.hpp"
#include <deque>
#include <forward_list>
#include <list>
#include <span>
#include <string>
#include <vector>

#ifdef VS_SYMBOLIC
// The one part of std::list that lies in the standard library's binary rather than in its headers
void std::__detail::_List_node_base::_M_hook(_List_node_base *const pos) noexcept
{
    this->_M_next = pos;
    this->_M_prev = pos->_M_prev;
    pos->_M_prev->_M_next = this;
    pos->_M_prev = this;
}
extern "C" wchar_t *wmemcpy(wchar_t *to, const wchar_t *from, std::size_t n) noexcept
{
    for (std::size_t i = 0; i < n; ++i) to[i] = from[i];
    return to;
}
#endif

namespace hx
{
    struct Counters { int reads; int furthest; };
    inline Counters counters;

    // Cat: iterator category; every use outside of [lo, hi) / [lo, hi] is reported
    template<class Cat>
    struct chk
    {
        using iterator_category = Cat;
        using value_type = char;
        using difference_type = std::ptrdiff_t;
        using pointer = const char *;
        using reference = const char &;
        static constexpr bool bidi = std::is_base_of_v<std::bidirectional_iterator_tag, Cat>;
        static constexpr bool rand = std::is_base_of_v<std::random_access_iterator_tag, Cat>;

        const char *p = nullptr, *lo = nullptr, *hi = nullptr;

        void move(std::ptrdiff_t by)
        {
            vs_check(by <= hi - p, "an iterator is moved past the end of the range");
            vs_check(-by <= p - lo, "an iterator is moved before the beginning of the range");
            p += by;
        }
        reference operator*() const
        {
            vs_check(p != nullptr && p >= lo && p < hi, "a character outside of the range is read");
            ++counters.reads;
            if (p - lo > counters.furthest) counters.furthest = (int)(p - lo);
            return *p;
        }
        pointer operator->() const { return &**this; }
        chk &operator++() { move(1); return *this; }
        chk operator++(int) { chk c = *this; move(1); return c; }
        chk &operator--() requires bidi { move(-1); return *this; }
        chk operator--(int) requires bidi { chk c = *this; move(-1); return c; }
        chk &operator+=(std::ptrdiff_t d) requires rand { move(d); return *this; }
        chk &operator-=(std::ptrdiff_t d) requires rand { move(-d); return *this; }
        friend chk operator+(chk a, std::ptrdiff_t d) requires rand { a.move(d); return a; }
        friend chk operator+(std::ptrdiff_t d, chk a) requires rand { a.move(d); return a; }
        friend chk operator-(chk a, std::ptrdiff_t d) requires rand { a.move(-d); return a; }
        friend std::ptrdiff_t operator-(chk a, chk b) requires rand { same(a, b); return a.p - b.p; }
        reference operator[](std::ptrdiff_t d) const requires rand { return *(*this + d); }
        static void same(chk a, chk b) { vs_check(a.lo == b.lo && a.hi == b.hi, "iterators of different ranges are compared"); }
        friend bool operator==(chk a, chk b) { same(a, b); return a.p == b.p; }
        friend auto operator<=>(chk a, chk b) requires rand { same(a, b); return a.p <=> b.p; }
    };
    using fwd_it = chk<std::forward_iterator_tag>;
    using bidi_it = chk<std::bidirectional_iterator_tag>;
    using rand_it = chk<std::random_access_iterator_tag>;
    static_assert(std::forward_iterator<fwd_it> && !std::bidirectional_iterator<fwd_it>);
    static_assert(std::bidirectional_iterator<bidi_it> && !std::random_access_iterator<bidi_it>);
    static_assert(std::random_access_iterator<rand_it> && !std::contiguous_iterator<rand_it>);

    // ---- sources: how the text is supplied. data/n: the text for the reference -----------------
    template<class It>
    struct Checked
    {
        Input in; const ref::u8 *data; int n;
        explicit Checked(unsigned long k) : in(k), data(in.data), n(in.n) {}
        It begin() const { return {in.begin(), in.begin(), in.end()}; }
        It end() const { return {in.end(), in.begin(), in.end()}; }
    };
    // the range [2, 2 + n) of a buffer with two symbolic characters on either side
    template<class It>
    struct Inside
    {
        Input in; const ref::u8 *data; int n;
        explicit Inside(unsigned long k) : in(k + 4), data(in.data + 2), n((int)k) {}
        It begin() const
        {
            if constexpr (std::is_pointer_v<It>) return in.begin() + 2;
            else return {in.begin() + 2, in.begin() + 2, in.begin() + 2 + n};
        }
        It end() const
        {
            if constexpr (std::is_pointer_v<It>) return in.begin() + 2 + n;
            else return {in.begin() + 2 + n, in.begin() + 2, in.begin() + 2 + n};
        }
    };
    struct Pointers
    {
        Input in; const ref::u8 *data; int n;
        explicit Pointers(unsigned long k) : in(k), data(in.data), n(in.n) {}
        const char *begin() const { return in.begin(); }
        const char *end() const { return in.end(); }
    };
    struct Mutable
    {
        Input in; const ref::u8 *data; int n;
        explicit Mutable(unsigned long k) : in(k), data(in.data), n(in.n) {}
        char *begin() const { return const_cast<char *>(in.begin()); }
        char *end() const { return const_cast<char *>(in.end()); }
    };
    template<class C>
    struct Container
    {
        Input in; const ref::u8 *data; int n; C c;
        explicit Container(unsigned long k) : in(k), data(in.data), n(in.n), c(in.begin(), in.end()) {}
        auto begin() const { return c.cbegin(); }
        auto end() const { return c.cend(); }
    };
    // characters of other types with the same codes
    template<class C>
    struct Elements
    {
        Input in; const ref::u8 *data; int n; C c;
        explicit Elements(unsigned long k) : in(k), data(in.data), n(in.n), c(in.data, in.data + in.n) {}
        auto begin() const { return c.begin(); }
        auto end() const { return c.end(); }
    };
    struct Reverse
    {
        Input in; ref::u8 back[32]; const ref::u8 *data; int n;
        explicit Reverse(unsigned long k) : in(k), data(back), n(in.n) { for (int i = 0; i < n; ++i) back[i] = in.data[n - 1 - i]; }
        auto begin() const { return std::make_reverse_iterator(in.end()); }
        auto end() const { return std::make_reverse_iterator(in.begin()); }
    };

    // a long text: a repeated filler with symbolic first, middle and last characters
    template<meta::static_string Filler>
    struct Long
    {
        ref::u8 *data; int n;
        explicit Long(unsigned long k) : data(new ref::u8[k]), n((int)k)
        {
            for (int i = 0; i < n; ++i) data[i] = (ref::u8)Filler[(std::size_t)i % Filler.length()];
            if (n > 0) data[n - 1] = vs_byte();
            if (n > 2) data[n / 2] = vs_byte();
            if (n > 4) data[0] = vs_byte();
        }
        const char *begin() const { return reinterpret_cast<const char *>(data); }
        const char *end() const { return begin() + n; }
    };

    // the same through other iterators
    template<class It, meta::static_string Filler>
    struct LongAs
    {
        Long<Filler> in; const ref::u8 *data; int n;
        explicit LongAs(unsigned long k) : in(k), data(in.data), n(in.n) {}
        It begin() const { return {in.begin(), in.begin(), in.end()}; }
        It end() const { return {in.end(), in.begin(), in.end()}; }
    };
    template<class C, meta::static_string Filler>
    struct LongIn
    {
        Long<Filler> in; const ref::u8 *data; int n; C c;
        explicit LongIn(unsigned long k) : in(k), data(in.data), n(in.n), c(in.begin(), in.end()) {}
        auto begin() const { return c.cbegin(); }
        auto end() const { return c.cend(); }
    };

    // n times the letter a, then two symbolic characters
    struct HugeText
    {
        ref::u8 *data; int n;
        explicit HugeText(unsigned long k) : data(new ref::u8[k + 2]), n((int)k + 2)
        {
            for (unsigned long i = 0; i < k; ++i) data[i] = 'a';
            data[k] = vs_byte(); data[k + 1] = vs_byte();
        }
        const char *begin() const { return reinterpret_cast<const char *>(data); }
        const char *end() const { return begin() + n; }
    };

    template<class R>
    void huge_is(R const &r, HugeText const &t, int first, int last)
    {
        vs_cover(r.matched() ? "matched" : "not matched");
        vs_check(r.matched() == (last >= 0), "outcome differs on a long text");
        if (last < 0) { vs_check(r.length() == 0, "content after failure on a long text"); return; }
        vs_check(r.begin() - t.begin() == first && r.end() - t.begin() == last, "extent differs on a long text");
        vs_check(r.length() == (std::size_t)(last - first) && r.template group<0>().content().size() == (std::size_t)(last - first), "length differs on a long text");
    }

    // the range given as iterators
    template<class R, meta::static_string P, int FB, int What, class Source>
    struct ItOps
    {
        static void match(unsigned long n)
        {
            Pat<P> p; Source s(n);
            auto r = R::match(s.begin(), s.end());
            ref::Matcher m(p.prog, s.data, s.n, FB);
            result_is<What>(r, m.match(), m, s.begin(), s.end(), match_msg);
        }
        static void prefix(unsigned long n)
        {
            Pat<P> p; Source s(n);
            auto r = R::match_prefix(s.begin(), s.end());
            ref::Matcher m(p.prog, s.data, s.n, FB);
            result_is<What>(r, m.prefix(), m, s.begin(), s.end(), prefix_msg);
        }
        static void search(unsigned long n)
        {
            Pat<P> p; Source s(n);
            auto r = R::search(s.begin(), s.end());
            ref::Matcher m(p.prog, s.data, s.n, FB);
            result_is<What>(r, m.search(), m, s.begin(), s.end(), search_msg);
        }
        static void tokens(unsigned long n)
        {
            Pat<P> p; Source s(n);
            ref::Matcher m(p.prog, s.data, s.n, FB);
            Ops<R, P, FB, What>::template iterate<false>(R::tokenizer(s.begin(), s.end()), m, s.begin(), s.end());
        }
        static void finds(unsigned long n)
        {
            Pat<P> p; Source s(n);
            ref::Matcher m(p.prog, s.data, s.n, FB);
            Ops<R, P, FB, What>::template iterate<true>(R::searcher(s.begin(), s.end()), m, s.begin(), s.end());
        }
    };
    template<meta::static_string P, int What, class Source, regex_flag... F>
    using It = ItOps<meta::regex<P, F...>, P, flag_bits<F...>(), What, Source>;

    // the container passed itself (lvalue), or as a temporary (owning results)
    template<class Cap>
    void text_is(Cap const &cap, const ref::u8 *data, int s, int e, const char *msg)
    {
        int len = s < 0 ? 0 : e - s;
        vs_check((int)cap.length() == len, msg);
        bool same = true;
        auto it = cap.begin();
        for (int i = 0; i < len; ++i, ++it) same &= (ref::u8)*it == data[s + i];
        vs_check(same, msg);
    }
    template<class Res, std::size_t... I>
    void texts_are(Res const &r, bool ok, ref::Matcher const &m, const char *msg, std::index_sequence<I...>)
    {
        vs_check(r.matched() == ok, msg);
        if (ok) { vs_cover("matched"); (text_is(r.template group<I>(), m.in, m.result.s[I], m.result.e[I], msg), ...); }
        else { vs_cover("not matched"); (vs_check(r.template group<I>().length() == 0, msg), ...); }
    }
    template<class R, meta::static_string P, int FB, class C>
    struct WholeOps
    {
        template<class Res>
        static void same(Res const &r, bool ok, ref::Matcher const &m, const char *msg)
        { texts_are(r, ok, m, msg, std::make_index_sequence<Res::group_count>{}); }
        static void match(unsigned long n)
        {
            Pat<P> p; Input in(n); C c(in.data, in.data + in.n);
            ref::Matcher m(p.prog, in.data, in.n, FB); bool ok = m.match();
            same(R::match(c), ok, m, "match of a container differs");
            auto r = R::match(C(c)); same(r, ok, m, "match of a temporary differs");
            auto q = R::match(static_cast<C const &&>(C(c))); same(q, ok, m, "match of a constant temporary differs");
        }
        static void prefix(unsigned long n)
        {
            Pat<P> p; Input in(n); C c(in.data, in.data + in.n);
            ref::Matcher m(p.prog, in.data, in.n, FB); bool ok = m.prefix();
            same(R::match_prefix(c), ok, m, "match_prefix of a container differs");
            auto r = R::match_prefix(C(c)); same(r, ok, m, "match_prefix of a temporary differs");
            auto q = R::match_prefix(static_cast<C const &&>(C(c))); same(q, ok, m, "match_prefix of a constant temporary differs");
        }
        static void search(unsigned long n)
        {
            Pat<P> p; Input in(n); C c(in.data, in.data + in.n);
            ref::Matcher m(p.prog, in.data, in.n, FB); bool ok = m.search();
            same(R::search(c), ok, m, "search of a container differs");
            auto r = R::search(C(c)); same(r, ok, m, "search of a temporary differs");
            auto q = R::search(static_cast<C const &&>(C(c))); same(q, ok, m, "search of a constant temporary differs");
        }
        template<bool Search, class Gen>
        static void iterate(Gen gen, ref::Matcher &m)
        {
            int pos = 0; bool active = true;
            for (int k = 0; k < m.n + 3; ++k)
            {
                auto r = gen();
                bool ok = active && (Search ? m.search(pos) : m.prefix(pos));
                same(r, ok, m, Search ? "searcher over a container differs" : "tokenizer over a container differs");
                if (!ok) break;
                if (m.result.e[0] == m.result.s[0]) active = false;
                pos = m.result.e[0];
            }
        }
        static void tokens(unsigned long n)
        {
            Pat<P> p; Input in(n); C c(in.data, in.data + in.n);
            ref::Matcher m(p.prog, in.data, in.n, FB);
            iterate<false>(R::tokenizer(c), m);
            walk<false>(R::tokenize(c), m);
        }
        static void finds(unsigned long n)
        {
            Pat<P> p; Input in(n); C c(in.data, in.data + in.n);
            ref::Matcher m(p.prog, in.data, in.n, FB);
            iterate<true>(R::searcher(c), m);
            walk<true>(R::find_all(c), m);
        }
        template<bool Search, class Range>
        static void walk(Range range, ref::Matcher &m)
        {
            int pos = 0, k = 0; bool active = true;
            auto next = [&] { return active && (Search ? m.search(pos) : m.prefix(pos)); };
            for (auto it = range.begin(); it != range.end() && k < m.n + 3; ++it, ++k)
            {
                bool ok = next();
                same(*it, ok, m, Search ? "find_all over a container differs" : "tokenize over a container differs");
                if (!ok) return;
                if (m.result.e[0] == m.result.s[0]) active = false;
                pos = m.result.e[0];
            }
            vs_check(!next(), Search ? "find_all over a container ends too early" : "tokenize over a container ends too early");
        }
        // the text up to the terminating NUL of a C string, given as a pointer and as an array
        static void terminated(unsigned long n)
        {
            Pat<P> p; Input in(n);
            char text[16] = {};
            for (int i = 0; i < in.n; ++i) { vs_assume(in.data[i] != 0); text[i] = (char)in.data[i]; }
            char const *c = text;
            ref::Matcher m(p.prog, in.data, in.n, FB);
            bool ok = m.match();
            same(R::match(c), ok, m, "match of a C string differs");
            same(R::match(text), ok, m, "match of a character array differs");
            ok = m.prefix();
            same(R::match_prefix(c), ok, m, "match_prefix of a C string differs");
            same(R::match_prefix(text), ok, m, "match_prefix of a character array differs");
            ok = m.search();
            same(R::search(c), ok, m, "search of a C string differs");
            same(R::search(text), ok, m, "search of a character array differs");
            iterate<false>(R::tokenizer(c), m);
            iterate<true>(R::searcher(text), m);
            walk<false>(R::tokenize(text), m);
            walk<true>(R::find_all(c), m);
        }
    };
    template<meta::static_string P, class C, regex_flag... F>
    using Whole = WholeOps<meta::regex<P, F...>, P, flag_bits<F...>(), C>;
}
