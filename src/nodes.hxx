// Generic nodes: conversion to and from the data model, what a node must hold after reading. C++11.
#ifndef NODES_HXX_
#define NODES_HXX_

#include "ref.hxx"
#include "cxon/json.hxx"
#include "cxon/cbor.hxx"
#include "cxon/lib/node.ordered.hxx"

namespace nodes {

    using ref::V; using ref::i128; using mon::Rng;

    template <typename N> struct is_json : std::false_type {};
    template <typename Tr> struct is_json<cxon::json::basic_node<Tr>> : std::true_type {};

    struct u16_traits : cxon::json::node_traits<> { using string_type = std::u16string; };
    typedef cxon::json::basic_node<u16_traits> node16;

    inline std::string text_of(const std::string& s) { return s; }
    inline std::string text_of(const std::u16string& s) {
        std::string r;
        for (std::size_t i = 0; i < s.size(); ++i) {
            std::uint32_t c = s[i];
            if (c >= 0xD800 && c <= 0xDBFF && i + 1 < s.size() && s[i + 1] >= 0xDC00 && s[i + 1] <= 0xDFFF) c = 0x10000 + ((c - 0xD800) << 10) + (s[++i] - 0xDC00);
            ref::utf8_put(r, c);
        }
        return r;
    }
    template <typename A> inline std::string text_of(const std::basic_string<char, std::char_traits<char>, A>& s) { return std::string(s.begin(), s.end()); }
    inline void text_to(const std::string& s, std::u16string& t) {
        t.clear();
        for (auto c : ref::utf32(s)) if (c >= 0x10000) t += char16_t(0xD800 + ((c - 0x10000) >> 10)), t += char16_t(0xDC00 + ((c - 0x10000) & 0x3FF)); else t += char16_t(c);
    }
    template <typename A> inline void text_to(const std::string& s, std::basic_string<char, std::char_traits<char>, A>& t) { t.assign(s.begin(), s.end()); }

    // what a node holds
    template <typename Tr> V to_v(const cxon::json::basic_node<Tr>& n) {
        using N = cxon::json::basic_node<Tr>; using K = cxon::json::node_kind;
        V v;
        switch (n.kind()) {
            case K::null: return V::null();
            case K::boolean: return V::boolean(n.template get<typename N::boolean>());
            case K::sint: return V::integer(n.template get<typename N::sint>());
            case K::uint: return V::integer(i128(n.template get<typename N::uint>()));
            case K::real: return V::real(n.template get<typename N::real>());
            case K::string: return V::str(text_of(n.template get<typename N::string>()));
            case K::array: v = V::arr(); for (auto& e : n.template get<typename N::array>()) v.a.push_back(to_v(e)); return v;
            case K::object: v = V::map(); for (auto& e : n.template get<typename N::object>()) v.add(to_v(e.first), to_v(e.second)); return v;
        }
        return v;
    }
    template <typename Tr> V to_v(const cxon::cbor::basic_node<Tr>& n) {
        using N = cxon::cbor::basic_node<Tr>; using K = cxon::cbor::node_kind;
        V v;
        switch (n.kind()) {
            case K::null: return V::null();
            case K::undefined: return V::undef();
            case K::boolean: return V::boolean(n.template get<typename N::boolean>());
            case K::sint: return V::integer(n.template get<typename N::sint>());
            case K::uint: return V::integer(i128(n.template get<typename N::uint>()));
            case K::real: return V::real(n.template get<typename N::real>());
            case K::simple: return V::simple(n.template get<typename N::simple>().value);
            case K::text: return V::str(text_of(n.template get<typename N::text>()));
            case K::bytes: { auto& b = n.template get<typename N::bytes>(); return V::bytes(std::string(b.begin(), b.end())); }
            case K::tag: { auto& t = n.template get<typename N::tag>(); return V::tagged(t.tag, to_v(t.value)); }
            case K::array: v = V::arr(); for (auto& e : n.template get<typename N::array>()) v.a.push_back(to_v(e)); return v;
            case K::map: v = V::map(); for (auto& e : n.template get<typename N::map>()) v.add(to_v(e.first), to_v(e.second)); return v;
        }
        return v;
    }

    template <typename M, typename N> void put(M& m, N&& k, N&& v, std::true_type) { m.emplace_back(std::move(k), std::move(v)); }
    template <typename M, typename N> void put(M& m, N&& k, N&& v, std::false_type) { m.emplace(std::move(k), std::move(v)); }
    template <typename M> struct is_seq : std::false_type {};
    template <typename T, typename A> struct is_seq<std::vector<T, A>> : std::true_type {};

    // non-negative integers are unsigned, negative ones signed
    template <typename Tr> void make(const V& v, cxon::json::basic_node<Tr>& n) {
        using N = cxon::json::basic_node<Tr>;
        switch (v.k) {
            case V::Bool: n = v.b; break;
            case V::Int: if (v.i < 0) n.template imbue<typename N::sint>() = (long long)v.i; else n.template imbue<typename N::uint>() = (unsigned long long)v.i; break;
            case V::Real: n.template imbue<typename N::real>() = v.r; break;
            case V::Str: text_to(v.s, n.template imbue<typename N::string>()); break;
            case V::Arr: { auto& a = n.template imbue<typename N::array>(); for (auto& e : v.a) { N x; make(e, x); a.push_back(std::move(x)); } break; }
            case V::Map: { auto& m = n.template imbue<typename N::object>(); for (std::size_t i = 0; i < v.a.size(); i += 2) { N x, y; make(v.a[i], x); make(v.a[i + 1], y); put(m, std::move(x), std::move(y), is_seq<typename N::object>()); } break; }
            default: n = nullptr;
        }
    }
    template <typename Tr> void make(const V& v, cxon::cbor::basic_node<Tr>& n) {
        using N = cxon::cbor::basic_node<Tr>;
        switch (v.k) {
            case V::Bool: n = v.b; break;
            case V::Int: if (v.i < 0) n.template imbue<typename N::sint>() = (long long)v.i; else n.template imbue<typename N::uint>() = (unsigned long long)v.i; break;
            case V::Real: n.template imbue<typename N::real>() = v.r; break;
            case V::Str: text_to(v.s, n.template imbue<typename N::text>()); break;
            case V::Bytes: { auto& b = n.template imbue<typename N::bytes>(); for (char c : v.s) b.push_back((unsigned char)c); break; }
            case V::Simple: n.template imbue<typename N::simple>().value = (unsigned char)v.i; break;
            case V::Undef: n.template imbue<typename N::undefined>(); break;
            case V::Tag: { auto& t = n.template imbue<typename N::tag>(); t.tag = v.tag; make(v.a[0], t.value); break; }
            case V::Arr: { auto& a = n.template imbue<typename N::array>(); for (auto& e : v.a) { N x; make(e, x); a.push_back(std::move(x)); } break; }
            case V::Map: { auto& m = n.template imbue<typename N::map>(); for (std::size_t i = 0; i < v.a.size(); i += 2) { N x, y; make(v.a[i], x); make(v.a[i + 1], y); put(m, std::move(x), std::move(y), is_seq<typename N::map>()); } break; }
            default: n = nullptr;
        }
    }

    // a JSON text in any node: integers beyond 64 bits are reals
    inline V of_json(V v) {
        if (v.k == V::Int && (v.i > i128(std::numeric_limits<unsigned long long>::max()) || v.i < i128(std::numeric_limits<long long>::min()))) return V::real(std::strtod(ref::i2s(v.i).c_str(), nullptr));
        for (auto& e : v.a) e = of_json(e);
        return v;
    }
    // CBOR in a JSON node
    inline V to_json(V v) {
        switch (v.k) {
            case V::Tag: { V w = v.a[0]; return to_json(w); }
            case V::Undef: return V::null();
            case V::Simple: return V::integer(v.i);
            case V::Bytes: { V w = V::arr(); for (char c : v.s) w.a.push_back(V::integer((unsigned char)c)); return w; }
            default: break;
        }
        for (auto& e : v.a) e = to_json(e);
        return v;
    }
    inline bool any_of(const V& v, bool (*f)(const V&)) { if (f(v)) return true; for (auto& e : v.a) if (any_of(e, f)) return true; return false; }
    inline bool too_negative(const V& v) { return v.k == V::Int && v.i < i128(std::numeric_limits<long long>::min()); }
    inline bool is_nan(const V& v) { return v.k == V::Real && v.r != v.r; }
    inline bool is_inf(const V& v) { return v.k == V::Real && std::isinf(v.r); }
    // keys that are the same key to a node
    inline bool same_key(const V& a, const V& b) {
        if (a.k != b.k) return false;
        if (a.k == V::Real) return a.r == b.r;
        if (a.k == V::Tag && a.tag != b.tag) return false;
        if (a.k == V::Arr || a.k == V::Map || a.k == V::Tag) { if (a.a.size() != b.a.size()) return false; for (std::size_t i = 0; i < a.a.size(); ++i) if (!same_key(a.a[i], b.a[i])) return false; return true; }
        return ref::same(a, b);
    }
    inline bool dup_here(const V& v) { if (v.k == V::Map) for (std::size_t i = 0; i < v.a.size(); i += 2) { for (std::size_t j = i + 2; j < v.a.size(); j += 2) if (same_key(v.a[i], v.a[j]) || (v.a[i].k == V::Map && v.a[j].k == V::Map)) return true; if (any_of(v.a[i], is_nan)) return true; } return false; }
    inline bool dups(const V& v) { return any_of(v, dup_here); }
    // numbers compared as numbers
    inline bool near(const V& a, const V& b, bool ordered) {
        if (a.k == V::Int && b.k == V::Real) return double(a.i) == b.r;
        if (a.k == V::Real && b.k == V::Int) return a.r == double(b.i);
        if (a.k == V::Real && b.k == V::Real) return a.r == b.r || (a.r != a.r && b.r != b.r);
        if (a.k != b.k) return false;
        if (a.k == V::Tag && a.tag != b.tag) return false;
        if (a.k == V::Map && !ordered) {
            if (a.a.size() != b.a.size()) return false;
            std::vector<char> u(b.a.size(), 0);
            for (std::size_t i = 0; i < a.a.size(); i += 2) { bool f = false; for (std::size_t j = 0; j < b.a.size() && !f; j += 2) if (!u[j] && near(a.a[i], b.a[j], false) && near(a.a[i + 1], b.a[j + 1], false)) u[j] = 1, f = true; if (!f) return false; }
            return true;
        }
        if (a.k == V::Arr || a.k == V::Map || a.k == V::Tag) { if (a.a.size() != b.a.size()) return false; for (std::size_t i = 0; i < a.a.size(); ++i) if (!near(a.a[i], b.a[i], ordered)) return false; return true; }
        return ref::same(a, b);
    }

    template <typename N> struct name_of;
    template <> struct name_of<cxon::json::node> { static const char* v() { return "json::node"; } };
    template <> struct name_of<cxon::json::ordered_node> { static const char* v() { return "json::ordered_node"; } };
    template <> struct name_of<cxon::cbor::node> { static const char* v() { return "cbor::node"; } };
    template <> struct name_of<cxon::cbor::ordered_node> { static const char* v() { return "cbor::ordered_node"; } };
    template <> struct name_of<node16> { static const char* v() { return "json::node(u16)"; } };
    template <typename N> struct is_ordered : std::false_type {};
    template <> struct is_ordered<cxon::json::ordered_node> : std::true_type {};
    template <> struct is_ordered<cxon::cbor::ordered_node> : std::true_type {};

}

#endif
