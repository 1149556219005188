#ifndef ZOO_BOOST_HXX_
#define ZOO_BOOST_HXX_

#include "zoo_std.hxx"

#include "cxon/lib/boost/dynamic_bitset.hxx"
#include "cxon/lib/boost/variant.hxx"
#include "cxon/lib/boost/variant2.hxx"
#include "cxon/lib/boost/container/deque.hxx"
#include "cxon/lib/boost/container/flat_map.hxx"
#include "cxon/lib/boost/container/flat_set.hxx"
#include "cxon/lib/boost/container/list.hxx"
#include "cxon/lib/boost/container/map.hxx"
#include "cxon/lib/boost/container/set.hxx"
#include "cxon/lib/boost/container/slist.hxx"
#include "cxon/lib/boost/container/small_vector.hxx"
#include "cxon/lib/boost/container/stable_vector.hxx"
#include "cxon/lib/boost/container/static_vector.hxx"
#include "cxon/lib/boost/container/string.hxx"

namespace zoo {

    namespace bc = boost::container;

    template <typename T, typename ...R> struct Z<bc::deque<T, R...>> : ZSeq<bc::deque<T, R...>> {};
    template <typename T, typename ...R> struct Z<bc::list<T, R...>> : ZSeq<bc::list<T, R...>> {};
    template <typename T, typename ...R> struct Z<bc::slist<T, R...>> : ZFwd<bc::slist<T, R...>> {};
    template <typename T, std::size_t N, typename ...R> struct Z<bc::small_vector<T, N, R...>> : ZSeq<bc::small_vector<T, N, R...>> {};
    template <typename T, typename ...R> struct Z<bc::stable_vector<T, R...>> : ZSeq<bc::stable_vector<T, R...>> {};
    template <typename T, std::size_t N, typename ...R> struct Z<bc::static_vector<T, N, R...>> : ZSeq<bc::static_vector<T, N, R...>> {
        using S = bc::static_vector<T, N, R...>;
        static void gen(S& t, Rng& r, unsigned d) { t = S(); for (std::size_t n = r.below(N + 1); n; --n) { T x{}; Z<T>::gen(x, r, d ? d - 1 : 0); t.push_back(std::move(x)); } }
    };
    template <typename T, typename ...R> struct Z<bc::basic_string<T, R...>> : ZString<bc::basic_string<T, R...>> {};
    template <typename T, typename ...R> struct Z<bc::set<T, R...>> : ZSet<bc::set<T, R...>, DEDUP> {};
    template <typename T, typename ...R> struct Z<bc::multiset<T, R...>> : ZSet<bc::multiset<T, R...>, UNORD> {};
    template <typename T, typename ...R> struct Z<bc::flat_set<T, R...>> : ZSet<bc::flat_set<T, R...>, DEDUP> {};
    template <typename T, typename ...R> struct Z<bc::flat_multiset<T, R...>> : ZSet<bc::flat_multiset<T, R...>, UNORD> {};
    template <typename K, typename T, typename ...R> struct Z<bc::map<K, T, R...>> : ZMap<bc::map<K, T, R...>> {};
    template <typename K, typename T, typename ...R> struct Z<bc::multimap<K, T, R...>> : ZMap<bc::multimap<K, T, R...>, UNORD | MULTI> {};
    template <typename K, typename T, typename ...R> struct Z<bc::flat_map<K, T, R...>> : ZMap<bc::flat_map<K, T, R...>> {};
    template <typename K, typename T, typename ...R> struct Z<bc::flat_multimap<K, T, R...>> : ZMap<bc::flat_multimap<K, T, R...>, UNORD | MULTI> {};

    template <typename B, typename A> struct Z<boost::dynamic_bitset<B, A>> : base<boost::dynamic_bitset<B, A>> {
        using S = boost::dynamic_bitset<B, A>;
        static void gen(S& t, Rng& r, unsigned) { t.clear(); for (std::size_t n = r.len(300); n; --n) t.push_back(r.chance(1, 2)); }
        static bool eq(const S& a, const S& b) { return a == b; }
        static X x(const S& t, Fmt f) {
            std::string s; std::size_t N = t.size();
            if (f == J) { for (std::size_t i = N; i--; ) s += t[i] ? '1' : '0'; return V::str(s); }
            std::size_t m = (N + 7) / 8; s.assign(m + 1, '\0'); s[0] = char(m * 8 - N);
            for (std::size_t i = 0; i < N; ++i) if (t[i]) s[m - i / 8] = char(s[m - i / 8] | 1 << i % 8);
            X x = V::bytes(s); x.f |= BITS; return x;
        }
    };

    // variants: by index
    template <typename Var> struct vacc;
    template <typename ...T> struct vacc<boost::variant<T...>> {
        using S = boost::variant<T...>;
        static std::size_t index(const S& s) { return std::size_t(s.which()); }
        template <typename U> static const U& get(const S& s) { return boost::get<U>(s); }
    };
    template <typename ...T> struct vacc<boost::variant2::variant<T...>> {
        using S = boost::variant2::variant<T...>;
        static std::size_t index(const S& s) { return s.index(); }
        template <typename U> static const U& get(const S& s) { return boost::variant2::get<U>(s); }
    };
    template <typename S, std::size_t I, typename ...T> struct bvar { // no alternative left
        static void gen(S&, std::size_t, Rng&, unsigned) {} static bool eq(const S&, const S&) { return false; } static X x(const S&, Fmt) { return X(); }
    };
    template <typename T> bool finite(const T& t, std::true_type) { return std::isfinite(t); }
    template <typename T> bool finite(const T&, std::false_type) { return true; }
    template <typename S, std::size_t I, typename T, typename ...R> struct bvar<S, I, T, R...> {
        using N = bvar<S, I + 1, R...>;
        static void gen(S& s, std::size_t i, Rng& r, unsigned d) { if (i != I) return N::gen(s, i, r, d); T t{}; do Z<T>::gen(t, r, d); while (!finite(t, std::is_floating_point<T>())); s = std::move(t); }
        static bool eq(const S& a, const S& b) { if (vacc<S>::index(a) != vacc<S>::index(b)) return false; return vacc<S>::index(a) == I ? Z<T>::eq(vacc<S>::template get<T>(a), vacc<S>::template get<T>(b)) : N::eq(a, b); }
        static X x(const S& s, Fmt f) { return vacc<S>::index(s) == I ? Z<T>::x(vacc<S>::template get<T>(s), f) : N::x(s, f); }
    };
    template <typename S, bool Amb, typename ...T> struct ZBVar : base<S> {
        using Q = bvar<S, 0, T...>;
        static void gen(S& s, Rng& r, unsigned d) { Q::gen(s, r.below(sizeof...(T)), r, d ? d - 1 : 0); }
        static bool eq(const S& a, const S& b) { return Q::eq(a, b); }
        static X x(const S& t, Fmt f) {
            X v = Q::x(t, f);
            if (f == C) { X x = xarr(); x.a = {X(V::integer(int(vacc<S>::index(t)))), v}; return x; }
            if (!Amb) return v;
            X x = xmap(); X k(V::integer(int(vacc<S>::index(t)))); k.key = true; x.a = {k, v}; return x;
        }
    };
    template <typename ...T> struct Z<boost::variant<T...>> : ZBVar<boost::variant<T...>, cxon::cio::var::is_ambiguous<T...>::value, T...> {};
    template <typename ...T> struct Z<boost::variant2::variant<T...>> : ZBVar<boost::variant2::variant<T...>, cxon::cio::var::is_ambiguous<T...>::value, T...> {};
    template <> struct Z<boost::variant2::monostate> : base<boost::variant2::monostate> {
        static void gen(boost::variant2::monostate&, Rng&, unsigned) {}
        static bool eq(const boost::variant2::monostate&, const boost::variant2::monostate&) { return true; }
        static X x(const boost::variant2::monostate&, Fmt f) { return f == J ? V::null() : V::undef(); }
    };

} // zoo

#endif
