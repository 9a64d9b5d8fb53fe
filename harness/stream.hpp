// Inserting results into a stream (C19). Natively a real std::ostream; symbolically an object laid out like one,
// whose out-of-line operations (put, write, __ostream_insert: compiled into the shared library) append to a text.
#pragma once
#include "results.hpp"
#include <ostream>
#include <streambuf>

namespace hx
{
    struct Text { char text[80]; int n = 0; void add(const char *s, long k) { for (long i = 0; i < k; ++i) if (n < 80) text[n++] = s[i]; } };
#ifdef VS_SYMBOLIC
    inline Text *written;
    extern "C" inline __attribute__((used)) std::ostream *hx_put(std::ostream *os, char c) asm("_ZNSo3putEc");
    extern "C" inline std::ostream *hx_put(std::ostream *os, char c) { written->add(&c, 1); return os; }
    extern "C" inline __attribute__((used)) std::ostream *hx_insert(std::ostream *os, const char *s, long n) asm("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
    extern "C" inline std::ostream *hx_insert(std::ostream *os, const char *s, long n) { written->add(s, n); return os; }
    extern "C" inline __attribute__((used)) std::ostream *hx_write(std::ostream *os, const char *s, long n) asm("_ZNSo5writeEPKcl");
    extern "C" inline std::ostream *hx_write(std::ostream *os, const char *s, long n) { written->add(s, n); return os; }
    struct Stream
    {
        Text out;
        long table[3] = {8, 0, 0};                    // what a virtual table of std::ostream holds: the offset of its virtual base
        alignas(16) unsigned char memory[sizeof(std::ostream)];
        Stream()
        {
            for (auto &b : memory) b = 0;
            *reinterpret_cast<long **>(memory) = table + 3;
            written = &out;
        }
        std::ostream &get() { return *reinterpret_cast<std::ostream *>(memory); }
    };
#else
    struct Stream
    {
        Text out;
        struct Buffer : std::streambuf
        {
            Text *t;
            int_type overflow(int_type c) override { char x = (char)c; t->add(&x, 1); return c == -1 ? 0 : c; }
            std::streamsize xsputn(const char *s, std::streamsize k) override { t->add(s, (long)k); return k; }
        } buffer;
        std::ostream os;
        Stream() : os(&buffer) { buffer.t = &out; }
        std::ostream &get() { return os; }
    };
#endif
    template<class T>
    void streamed_is(T const &what, const ref::u8 *data, int s, int e, const char *msg)
    {
        Stream st;
        std::ostream &same = st.get() << what;
        vs_check(&same == &st.get(), msg);
        vs_check(equal_text(std::string_view(st.out.text, (std::size_t)st.out.n), data, s, e), msg);
        st.out.n = 0;
        st.get() << what << '|' << what;
        int len = s < 0 ? 0 : e - s;
        vs_check(st.out.n == 2 * len + 1 && st.out.text[len] == '|', msg);
        vs_check(equal_text(std::string_view(st.out.text + len + 1, (std::size_t)len), data, s, e), msg);
    }
    template<class R, meta::static_string P, int FB>
    struct StreamOps
    {
        template<class Res>
        static void is(Res const &r, bool ok, ref::Matcher const &m)
        {
            ref::Caps c = m.result;
            vs_cover(ok ? "matched" : "not matched");
            if (!ok) for (int g = 0; g < (int)Res::group_count; ++g) c.s[g] = c.e[g] = -1;
            streamed_is(r, m.in, c.s[0], c.e[0], "stream: a result is written differently");
            [&]<std::size_t... I>(std::index_sequence<I...>) {
                (streamed_is(r.template group<I>(), m.in, c.s[I], c.e[I], "stream: a group is written differently"), ...);
            }(std::make_index_sequence<Res::group_count>{});
        }
        static void view(unsigned long n) { Pat<P> p; Input in(n); ref::Matcher m(p.prog, in.data, in.n, FB); bool ok = m.search(); is(R::search(in.view()), ok, m); }
        static void owned(unsigned long n) { Pat<P> p; Input in(n); ref::Matcher m(p.prog, in.data, in.n, FB); bool ok = m.search(); is(R::search(std::string(in.view())), ok, m); }
        static void bidi(unsigned long n) { Pat<P> p; Checked<bidi_it> s(n); ref::Matcher m(p.prog, s.data, s.n, FB); bool ok = m.prefix(); is(R::match_prefix(s.begin(), s.end()), ok, m); }
        static void pattern(unsigned long)
        {
            Stream st;
            st.get() << P;
            bool same = st.out.n == (int)P.length();
            for (int i = 0; i < (int)P.length(); ++i) same = same && st.out.text[i] == P[(std::size_t)i];
            vs_check(same, "stream: a static string is written differently");
            vs_cover("matched"); vs_cover("not matched");
        }
    };
}
