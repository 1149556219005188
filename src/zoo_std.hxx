#ifndef ZOO_STD_HXX_
#define ZOO_STD_HXX_

#include "zoo.hxx"

#include "cxon/json.hxx"
#include "cxon/cbor.hxx"

#include "cxon/lib/std/array.hxx"
#include "cxon/lib/std/bitset.hxx"
#include "cxon/lib/std/chrono.hxx"
#include "cxon/lib/std/complex.hxx"
#include "cxon/lib/std/deque.hxx"
#include "cxon/lib/std/forward_list.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/memory.hxx"
#include "cxon/lib/std/queue.hxx"
#include "cxon/lib/std/set.hxx"
#include "cxon/lib/std/stack.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/tuple.hxx"
#include "cxon/lib/std/unordered_map.hxx"
#include "cxon/lib/std/unordered_set.hxx"
#include "cxon/lib/std/utility.hxx"
#include "cxon/lib/std/valarray.hxx"
#include "cxon/lib/std/vector.hxx"
#if __cplusplus >= 201703L
#   include "cxon/lib/std/optional.hxx"
#   include "cxon/lib/std/string_view.hxx"
#   include "cxon/lib/std/variant.hxx"
#endif

namespace zoo {

    template <typename T, std::size_t N> struct Z<std::array<T, N>> {
        using S = std::array<T, N>;
        static void clear(S& t) { for (auto& x : t) Z<T>::clear(x); }
        static void gen(S& t, Rng& r, unsigned d) { for (auto& x : t) Z<T>::gen(x, r, d ? d - 1 : 0); }
        static bool eq(const S& a, const S& b) { for (std::size_t i = 0; i < N; ++i) if (!Z<T>::eq(a[i], b[i])) return false; return true; }
        static X x(const S& t, Fmt f) { X x = seq_x<T>::x(t, f); x.f |= PAD | NULPAD; return x; }
    };
    template <std::size_t N> struct Z<std::bitset<N>> : base<std::bitset<N>> {
        using S = std::bitset<N>;
        static void gen(S& t, Rng& r, unsigned) { for (std::size_t i = 0; i < N; ++i) t[i] = r.chance(1, 2); }
        static bool eq(const S& a, const S& b) { return a == b; }
        static X x(const S& t, Fmt f) {
            std::string s;
            if (f == J) { for (std::size_t i = N; i--; ) s += t[i] ? '1' : '0'; return V::str(s); }
            std::size_t m = (N + 7) / 8; s.assign(m + 1, '\0'); s[0] = char(m * 8 - N);
            for (std::size_t i = 0; i < N; ++i) if (t[i]) s[m - i / 8] = char(s[m - i / 8] | 1 << i % 8);
            X x = V::bytes(s); x.f |= BITS; return x;
        }
    };
    template <typename R, typename P> struct Z<std::chrono::duration<R, P>> : base<std::chrono::duration<R, P>> {
        using S = std::chrono::duration<R, P>;
        static void gen(S& t, Rng& r, unsigned d) { R c; Z<R>::gen(c, r, d); t = S(c); }
        static bool eq(const S& a, const S& b) { return Z<R>::eq(a.count(), b.count()); }
        static X x(const S& t, Fmt f) { return Z<R>::x(t.count(), f); }
    };
    template <typename K, typename D> struct Z<std::chrono::time_point<K, D>> : base<std::chrono::time_point<K, D>> {
        using S = std::chrono::time_point<K, D>;
        static void gen(S& t, Rng& r, unsigned d) { D c; Z<D>::gen(c, r, d); t = S(c); }
        static bool eq(const S& a, const S& b) { return Z<D>::eq(a.time_since_epoch(), b.time_since_epoch()); }
        static X x(const S& t, Fmt f) { return Z<D>::x(t.time_since_epoch(), f); }
    };
    template <typename T> struct Z<std::complex<T>> : base<std::complex<T>> {
        using S = std::complex<T>;
        static void gen(S& t, Rng& r, unsigned d) { T a, b; Z<T>::gen(a, r, d); Z<T>::gen(b, r, d); t = S(a, b); }
        static bool eq(const S& a, const S& b) { return Z<T>::eq(a.real(), b.real()) && Z<T>::eq(a.imag(), b.imag()); }
        static X x(const S& t, Fmt f) { X x = xarr(); x.a = {Z<T>::x(t.real(), f), Z<T>::x(t.imag(), f)}; return x; }
    };
    template <typename T, typename A> struct Z<std::vector<T, A>> : ZSeq<std::vector<T, A>> {};
    template <typename A> struct Z<std::vector<bool, A>> : ZSeq<std::vector<bool, A>> { static void clear(std::vector<bool, A>&) {} };
    template <typename T, typename A> struct Z<std::deque<T, A>> : ZSeq<std::deque<T, A>> {};
    template <typename T, typename A> struct Z<std::list<T, A>> : ZSeq<std::list<T, A>> {};
    template <typename T, typename A> struct Z<std::forward_list<T, A>> : ZFwd<std::forward_list<T, A>> {};
    template <typename T, typename L, typename A> struct Z<std::set<T, L, A>> : ZSet<std::set<T, L, A>, DEDUP> {};
    template <typename T, typename L, typename A> struct Z<std::multiset<T, L, A>> : ZSet<std::multiset<T, L, A>, UNORD> {};
    template <typename T, typename H, typename L, typename A> struct Z<std::unordered_set<T, H, L, A>> : ZSet<std::unordered_set<T, H, L, A>, DEDUP | UNORD> {};
    template <typename T, typename H, typename L, typename A> struct Z<std::unordered_multiset<T, H, L, A>> : ZSet<std::unordered_multiset<T, H, L, A>, UNORD> {};
    template <typename K, typename T, typename L, typename A> struct Z<std::map<K, T, L, A>> : ZMap<std::map<K, T, L, A>> {};
    template <typename K, typename T, typename L, typename A> struct Z<std::multimap<K, T, L, A>> : ZMap<std::multimap<K, T, L, A>, UNORD | MULTI> {};
    template <typename K, typename T, typename H, typename L, typename A> struct Z<std::unordered_map<K, T, H, L, A>> : ZMap<std::unordered_map<K, T, H, L, A>, UNORD> {};
    template <typename K, typename T, typename H, typename L, typename A> struct Z<std::unordered_multimap<K, T, H, L, A>> : ZMap<std::unordered_multimap<K, T, H, L, A>, UNORD | MULTI> {};
    template <typename T, typename D> struct Z<std::unique_ptr<T, D>> {
        using S = std::unique_ptr<T, D>;
        static void clear(S& t) { if (t) Z<T>::clear(*t); t.reset(); }
        static void gen(S& t, Rng& r, unsigned d) { t.reset(); if (r.chance(3, 4)) { t.reset(new T()); Z<T>::gen(*t, r, d ? d - 1 : 0); } }
        static bool eq(const S& a, const S& b) { return a && b ? Z<T>::eq(*a, *b) : !a && !b; }
        static X x(const S& t, Fmt f) { return t ? Z<T>::x(*t, f) : X(V::null()); }
    };
    template <typename T> struct Z<std::shared_ptr<T>> {
        using S = std::shared_ptr<T>;
        static void clear(S& t) { if (t) Z<T>::clear(*t); t.reset(); }
        static void gen(S& t, Rng& r, unsigned d) { t.reset(); if (r.chance(3, 4)) { t.reset(new T()); Z<T>::gen(*t, r, d ? d - 1 : 0); } }
        static bool eq(const S& a, const S& b) { return a && b ? Z<T>::eq(*a, *b) : !a && !b; }
        static X x(const S& t, Fmt f) { return t ? Z<T>::x(*t, f) : X(V::null()); }
    };
    template <typename A> struct under : A { static const typename A::container_type& of(const A& a) { return a.*&under::c; } };
    template <typename S> struct ZAdapt : base<S> {
        using T = typename S::value_type;
        static void gen(S& t, Rng& r, unsigned d) { t = S(); fill(t, r, d, [&](S& s) { T x{}; Z<T>::gen(x, r, d ? d - 1 : 0); s.push(std::move(x)); }); }
        static bool eq(const S& a, const S& b) { return Z<typename S::container_type>::eq(under<S>::of(a), under<S>::of(b)); }
        static X x(const S& t, Fmt f) { return Z<typename S::container_type>::x(under<S>::of(t), f); }
    };
    template <typename T, typename C> struct Z<std::queue<T, C>> : ZAdapt<std::queue<T, C>> {};
    template <typename T, typename C> struct Z<std::stack<T, C>> : ZAdapt<std::stack<T, C>> { // top first; reading restores the written order bottom first: exempt
        using S = std::stack<T, C>;
        static X x(const S& t, Fmt f) { X x = ZAdapt<S>::x(t, f); x.f |= UNORD; return x; }
        static bool eq(const S& a, const S& b) { return under<S>::of(a).size() == under<S>::of(b).size() && (std::equal(under<S>::of(a).begin(), under<S>::of(a).end(), under<S>::of(b).begin()) || std::equal(under<S>::of(a).begin(), under<S>::of(a).end(), under<S>::of(b).rbegin())); }
    };
    template <typename T, typename C, typename L> struct Z<std::priority_queue<T, C, L>> : ZAdapt<std::priority_queue<T, C, L>> { // order is that of the heap
        using S = std::priority_queue<T, C, L>;
        static bool eq(S a, S b) { if (a.size() != b.size()) return false; for (; !a.empty(); a.pop(), b.pop()) if (!Z<T>::eq(a.top(), b.top())) return false; return true; }
        static X x(const S& t, Fmt f) { X x = ZAdapt<S>::x(t, f); x.f |= UNORD; return x; }
        static void gen(S& t, Rng& r, unsigned d) { t = S(); fill(t, r, d, [&](S& s) { T x{}; Z<T>::gen(x, r, d ? d - 1 : 0); if (Z<T>::eq(x, x)) s.push(std::move(x)); }); }
    };
    template <typename A, typename B> struct Z<std::pair<A, B>> {
        using S = std::pair<A, B>;
        static void clear(S& t) { Z<A>::clear(t.first); Z<B>::clear(t.second); }
        static void gen(S& t, Rng& r, unsigned d) { Z<A>::gen(t.first, r, d ? d - 1 : 0); Z<B>::gen(t.second, r, d ? d - 1 : 0); }
        static bool eq(const S& a, const S& b) { return Z<A>::eq(a.first, b.first) && Z<B>::eq(a.second, b.second); }
        static X x(const S& t, Fmt f) { X x = xarr(); x.a = {Z<A>::x(t.first, f), Z<B>::x(t.second, f)}; return x; }
    };
    template <typename S, std::size_t I, std::size_t N> struct ZTup {
        using T = typename std::tuple_element<I, S>::type; using R = ZTup<S, I + 1, N>;
        static void clear(S& t) { Z<T>::clear(std::get<I>(t)); R::clear(t); }
        static void gen(S& t, Rng& r, unsigned d) { Z<T>::gen(std::get<I>(t), r, d); R::gen(t, r, d); }
        static bool eq(const S& a, const S& b) { return Z<T>::eq(std::get<I>(a), std::get<I>(b)) && R::eq(a, b); }
        static void x(const S& t, Fmt f, zoo::X& x) { x.a.push_back(Z<T>::x(std::get<I>(t), f)); R::x(t, f, x); }
    };
    template <typename S, std::size_t N> struct ZTup<S, N, N> {
        static void clear(S&) {} static void gen(S&, Rng&, unsigned) {} static bool eq(const S&, const S&) { return true; } static void x(const S&, Fmt, zoo::X&) {}
    };
    template <typename ...T> struct Z<std::tuple<T...>> {
        using S = std::tuple<T...>; using Q = ZTup<S, 0, sizeof...(T)>;
        static void clear(S& t) { Q::clear(t); }
        static void gen(S& t, Rng& r, unsigned d) { Q::gen(t, r, d ? d - 1 : 0); }
        static bool eq(const S& a, const S& b) { return Q::eq(a, b); }
        static X x(const S& t, Fmt f) { X x = xarr(); Q::x(t, f, x); return x; }
    };
    template <typename T> struct Z<std::valarray<T>> : base<std::valarray<T>> {
        using S = std::valarray<T>;
        static void gen(S& t, Rng& r, unsigned d) { std::vector<T> v; Z<std::vector<T>>::gen(v, r, d); t.resize(v.size()); for (std::size_t i = 0; i < v.size(); ++i) t[i] = v[i]; }
        static std::vector<T> vec(const S& t) { std::vector<T> v; for (std::size_t i = 0; i < t.size(); ++i) v.push_back(t[i]); return v; }
        static bool eq(const S& a, const S& b) { return Z<std::vector<T>>::eq(vec(a), vec(b)); }
        static X x(const S& t, Fmt f) { if (t.size() == 0) return xarr(); return Z<std::vector<T>>::x(vec(t), f); }
    };
#   if __cplusplus >= 201703L
        template <typename T> struct Z<std::optional<T>> {
            using S = std::optional<T>;
            static void clear(S& t) { if (t) Z<T>::clear(*t); t.reset(); }
            static void gen(S& t, Rng& r, unsigned d) { t.reset(); if (r.chance(3, 4)) Z<T>::gen(t.emplace(), r, d ? d - 1 : 0); }
            static bool eq(const S& a, const S& b) { return a && b ? Z<T>::eq(*a, *b) : !a && !b; }
            static X x(const S& t, Fmt f) { return t ? Z<T>::x(*t, f) : f == J ? X(V::null()) : X(V::undef()); }
        };
        template <> struct Z<std::monostate> : base<std::monostate> {
            static void gen(std::monostate&, Rng&, unsigned) {}
            static bool eq(const std::monostate&, const std::monostate&) { return true; }
            static X x(const std::monostate&, Fmt f) { return f == J ? V::null() : V::undef(); }
        };
        template <typename S, bool Amb> struct ZVar : base<S> {
            template <std::size_t I = 0> static void gen_at(S& t, std::size_t i, Rng& r, unsigned d) {
                if constexpr (I < std::variant_size_v<S>) { if (i == I) fin(t.template emplace<I>(), r, d); else gen_at<I + 1>(t, i, r, d); }
            }
            template <typename T> static void fin(T& t, Rng& r, unsigned d) {
                if constexpr (std::is_floating_point_v<T>) do Z<T>::gen(t, r, d); while (!Amb && !std::isfinite(t));
                else Z<T>::gen(t, r, d);
            }
            static void gen(S& t, Rng& r, unsigned d) { gen_at(t, r.below(std::variant_size_v<S>), r, d ? d - 1 : 0); }
            static bool eq(const S& a, const S& b) {
                return a.index() == b.index() && std::visit([&](const auto& x) { using T = std::decay_t<decltype(x)>; bool e = false; eq_at<T>(x, a, b, e); return e; }, a);
            }
            template <typename T, std::size_t I = 0> static void eq_at(const T& x, const S& a, const S& b, bool& e) {
                if constexpr (I < std::variant_size_v<S>) { if (I == a.index()) { if constexpr (std::is_same_v<T, std::variant_alternative_t<I, S>>) e = Z<T>::eq(x, std::get<I>(b)); } else eq_at<T, I + 1>(x, a, b, e); }
            }
            static X x(const S& t, Fmt f) {
                X v = std::visit([&](const auto& x) { return Z<std::decay_t<decltype(x)>>::x(x, f); }, t);
                if (f == C) { X x = xarr(); x.a = {X(V::integer(int(t.index()))), v}; return x; }
                if (!Amb) return v;
                X x = xmap(); X k(V::integer(int(t.index()))); k.key = true; x.a = {k, v}; return x;
            }
        };
        template <typename ...T> struct Z<std::variant<T...>> : ZVar<std::variant<T...>, cxon::cio::var::is_ambiguous<T...>::value> {};
#   endif

} // zoo

#endif
