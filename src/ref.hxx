// Reference model: values, an independent strict JSON parser, an independent CBOR decoder/encoder,
// UTF-8 tools and generators. Shares nothing with the library under test. C++11.
#ifndef REF_HXX_
#define REF_HXX_

#include "mon.hxx"
#include <utility>

namespace ref {

    typedef __int128 i128;

    struct V {
        enum Kind { Null, Undef, Bool, Int, Real, Str, Bytes, Arr, Map, Tag, Simple } k = Null;
        bool b = false;
        i128 i = 0;                 // Int, Simple
        double r = 0;               // Real
        std::string s;              // Str (utf-8), Bytes, lexeme of a JSON Real
        std::uint64_t tag = 0;
        std::vector<V> a;           // Arr; Tag: one element; Map: k0 v0 k1 v1 ..

        V() {}
        static V null() { return V(); }
        static V undef() { V v; v.k = Undef; return v; }
        static V boolean(bool b) { V v; v.k = Bool; v.b = b; return v; }
        static V integer(i128 i) { V v; v.k = Int; v.i = i; return v; }
        static V real(double d) { V v; v.k = Real; v.r = d; return v; }
        static V str(const std::string& s) { V v; v.k = Str; v.s = s; return v; }
        static V bytes(const std::string& s) { V v; v.k = Bytes; v.s = s; return v; }
        static V arr() { V v; v.k = Arr; return v; }
        static V map() { V v; v.k = Map; return v; }
        static V simple(unsigned n) { V v; v.k = Simple; v.i = n; return v; }
        static V tagged(std::uint64_t t, V x) { V v; v.k = Tag; v.tag = t; v.a.push_back(std::move(x)); return v; }
        std::size_t pairs() const { return a.size() / 2; }
        void add(V x, V y) { a.push_back(std::move(x)); a.push_back(std::move(y)); }
    };

    inline std::string i2s(i128 i) {
        if (i == 0) return "0";
        bool n = i < 0; std::string s;
        unsigned __int128 u = n ? -(unsigned __int128)i : (unsigned __int128)i;
        for (; u; u /= 10) s.insert(s.begin(), char('0' + int(u % 10)));
        return n ? "-" + s : s;
    }
    inline std::string d2s(double d) { char b[64]; std::snprintf(b, sizeof b, "%.17g", d); return b; }

    // unambiguous rendering
    inline void show(const V& v, std::string& o) {
        switch (v.k) {
            case V::Null: o += "null"; break;
            case V::Undef: o += "undefined"; break;
            case V::Bool: o += v.b ? "true" : "false"; break;
            case V::Int: o += i2s(v.i); break;
            case V::Real: o += "r" + d2s(v.r); break;
            case V::Str: o += mon::quote(v.s); break;
            case V::Bytes: o += "h'" + mon::hex(v.s) + "'"; break;
            case V::Arr: o += '['; for (std::size_t i = 0; i < v.a.size(); ++i) { if (i) o += ", "; show(v.a[i], o); } o += ']'; break;
            case V::Map: o += '{'; for (std::size_t i = 0; i < v.a.size(); i += 2) { if (i) o += ", "; show(v.a[i], o); o += ": "; show(v.a[i + 1], o); } o += '}'; break;
            case V::Tag: o += std::to_string(v.tag) + "("; show(v.a[0], o); o += ')'; break;
            case V::Simple: o += "simple(" + i2s(v.i) + ")"; break;
        }
    }
    inline std::string show(const V& v) { std::string s; show(v, s); return s; }

    inline bool same_real(double a, double b) {
        if (a != a || b != b) return a != a && b != b;
        return std::memcmp(&a, &b, sizeof a) == 0;
    }
    // ordered: compare maps as sequences
    inline bool same(const V& a, const V& b, bool ordered = false) {
        if (a.k != b.k) return false;
        switch (a.k) {
            case V::Null: case V::Undef: return true;
            case V::Bool: return a.b == b.b;
            case V::Int: case V::Simple: return a.i == b.i;
            case V::Real: return same_real(a.r, b.r);
            case V::Str: case V::Bytes: return a.s == b.s;
            case V::Tag: return a.tag == b.tag && same(a.a[0], b.a[0], ordered);
            case V::Arr:
                if (a.a.size() != b.a.size()) return false;
                for (std::size_t i = 0; i < a.a.size(); ++i) if (!same(a.a[i], b.a[i], ordered)) return false;
                return true;
            case V::Map: {
                if (a.a.size() != b.a.size()) return false;
                if (ordered) {
                    for (std::size_t i = 0; i < a.a.size(); ++i) if (!same(a.a[i], b.a[i], ordered)) return false;
                    return true;
                }
                std::vector<char> used(b.pairs(), 0);
                for (std::size_t i = 0; i < a.a.size(); i += 2) {
                    bool f = false;
                    for (std::size_t j = 0; j < b.a.size() && !f; j += 2)
                        if (!used[j / 2] && same(a.a[i], b.a[j], ordered) && same(a.a[i + 1], b.a[j + 1], ordered)) used[j / 2] = 1, f = true;
                    if (!f) return false;
                }
                return true;
            }
        }
        return false;
    }
    inline bool dup_keys(const V& m) {
        for (std::size_t i = 0; i < m.a.size(); i += 2) for (std::size_t j = i + 2; j < m.a.size(); j += 2) if (same(m.a[i], m.a[j])) return true;
        return false;
    }
    inline bool dup_keys_deep(const V& v) {
        if (v.k == V::Map && dup_keys(v)) return true;
        for (auto& x : v.a) if (dup_keys_deep(x)) return true;
        return false;
    }
    inline unsigned depth(const V& v) { // containers and tags
        unsigned d = 0;
        if (v.k != V::Arr && v.k != V::Map && v.k != V::Tag) return 0;
        for (auto& x : v.a) d = std::max(d, depth(x));
        return d + 1;
    }

    // ------------------------------------------------------------ utf-8

    inline void utf8_put(std::string& s, std::uint32_t c) { // also surrogates
        if (c < 0x80) s += char(c);
        else if (c < 0x800) s += char(0xC0 | c >> 6), s += char(0x80 | (c & 63));
        else if (c < 0x10000) s += char(0xE0 | c >> 12), s += char(0x80 | (c >> 6 & 63)), s += char(0x80 | (c & 63));
        else s += char(0xF0 | c >> 18), s += char(0x80 | (c >> 12 & 63)), s += char(0x80 | (c >> 6 & 63)), s += char(0x80 | (c & 63));
    }
    inline std::string utf8(std::uint32_t c) { std::string s; utf8_put(s, c); return s; }
    // strict; -1 on error
    inline std::int64_t utf8_get(const unsigned char*& p, const unsigned char* e) {
        if (p == e) return -1;
        unsigned c = *p++;
        if (c < 0x80) return c;
        int n; std::uint32_t v, lo;
             if (c >= 0xC2 && c <= 0xDF) n = 1, v = c & 31, lo = 0x80;
        else if (c >= 0xE0 && c <= 0xEF) n = 2, v = c & 15, lo = 0x800;
        else if (c >= 0xF0 && c <= 0xF4) n = 3, v = c & 7,  lo = 0x10000;
        else return -1;
        for (; n; --n) { if (p == e || (*p & 0xC0) != 0x80) return -1; v = v << 6 | (*p++ & 63); }
        if (v < lo || v > 0x10FFFF || (v >= 0xD800 && v <= 0xDFFF)) return -1;
        return v;
    }
    inline bool utf8_valid(const std::string& s) {
        auto p = reinterpret_cast<const unsigned char*>(s.data()), e = p + s.size();
        while (p != e) if (utf8_get(p, e) < 0) return false;
        return true;
    }
    inline std::vector<std::uint32_t> utf32(const std::string& s) {
        std::vector<std::uint32_t> r; auto p = reinterpret_cast<const unsigned char*>(s.data()), e = p + s.size();
        while (p != e) { auto c = utf8_get(p, e); r.push_back(c < 0 ? 0xFFFFFFFFu : std::uint32_t(c)); }
        return r;
    }
    inline std::uint32_t gen_cp(mon::Rng& r) {
        static const std::uint32_t b[] = {0,1,7,8,9,10,11,12,13,0x1f,0x20,0x21,'"','\\','/','\'',0x5b,0x5d,0x7e,0x7f,0x80,0x9f,0xa0,0xff,0x100,0x7fe,0x7ff,0x800,0x801,
            0xfff,0x1000,0x2027,0x2028,0x2029,0x202a,0xd7fe,0xd7ff,0xe000,0xe001,0xfeff,0xfffd,0xfffe,0xffff,0x10000,0x10001,0x103ff,0x10400,0x1f600,0xfffff,0x100000,0x10fffe,0x10ffff};
        switch (r.below(8)) {
            case 0: case 1: return b[r.below(sizeof b / sizeof *b)];
            case 2: { std::uint32_t c = std::uint32_t(r.below(0x110000)); return c >= 0xD800 && c <= 0xDFFF ? 'x' : c; }
            case 3: return std::uint32_t(r.below(0x80));
            default: return std::uint32_t('a' + r.below(26));
        }
    }
    inline std::string gen_text(mon::Rng& r, std::size_t max = 300) {
        std::size_t n = r.len(max); std::string s;
        unsigned mode = unsigned(r.below(4)); // plain runs matter for block-wise code
        for (std::size_t i = 0; i < n; ++i) {
            if (mode == 0) s += char('a' + r.below(26));
            else if (mode == 1 && !r.chance(1, 12)) s += char('a' + r.below(26));
            else utf8_put(s, gen_cp(r));
        }
        return s;
    }

    // ------------------------------------------------------------ JSON parser (RFC 8259)

    struct Json {
        const char *p, *e;
        unsigned max_depth = 0;     // reached
        bool lone_surrogate = false; // an escaped unpaired surrogate was met (RFC allows, cxon must refuse)
        bool huge = false;          // number not representable (overflow to infinity)
        bool tiny = false;          // non-zero literal that underflows to zero or denormal
        bool longnum = false;       // longer than the number buffers
        Json(const char* b, const char* e) : p(b), e(e) {}
        void ws() { while (p != e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) ++p; }
        bool lit(const char* s) { auto q = p; for (; *s; ++s, ++q) if (q == e || *q != *s) return false; p = q; return true; }
        static bool dig(char c) { return c >= '0' && c <= '9'; }
        bool number(V& v) {
            auto b = p; bool neg = false, integral = true;
            if (p != e && *p == '-') ++p, neg = true;
            if (p == e) return false;
            if (*p == '0') ++p;
            else if (dig(*p)) while (p != e && dig(*p)) ++p;
            else return false;
            if (p != e && *p == '.') { integral = false; ++p; if (p == e || !dig(*p)) return false; while (p != e && dig(*p)) ++p; }
            if (p != e && (*p == 'e' || *p == 'E')) {
                integral = false; ++p;
                if (p != e && (*p == '+' || *p == '-')) ++p;
                if (p == e || !dig(*p)) return false;
                while (p != e && dig(*p)) ++p;
            }
            std::string l(b, p);
            if (l.size() > 28) longnum = true;
            if (integral && l.size() - neg <= 37) {
                i128 x = 0; for (char c : l) if (dig(c)) x = x * 10 + (c - '0');
                v = V::integer(neg ? -x : x);
            }
            else {
                v = V::real(std::strtod(l.c_str(), nullptr));
                if (std::isinf(v.r)) huge = true;
                if (std::fabs(v.r) < std::numeric_limits<double>::min()) for (char c : l) { if (c == 'e' || c == 'E') break; if (c >= '1' && c <= '9') { tiny = true; break; } }
            }
            v.s = l;
            return true;
        }
        static int hexd(char c) { return dig(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
        bool hex4(std::uint32_t& u) { u = 0; for (int i = 0; i < 4; ++i) { int h; if (p == e || (h = hexd(*p)) < 0) return false; u = u * 16 + unsigned(h); ++p; } return true; }
        bool string(std::string& s) {
            if (p == e || *p != '"') return false;
            ++p;
            for (;;) {
                if (p == e) return false;
                unsigned char c = (unsigned char)*p;
                if (c == '"') return ++p, true;
                if (c < 0x20) return false;
                if (c == '\\') {
                    if (++p == e) return false;
                    switch (*p++) {
                        case '"': s += '"'; break; case '\\': s += '\\'; break; case '/': s += '/'; break;
                        case 'b': s += '\b'; break; case 'f': s += '\f'; break; case 'n': s += '\n'; break; case 'r': s += '\r'; break; case 't': s += '\t'; break;
                        case 'u': {
                            std::uint32_t u;
                            if (!hex4(u)) return false;
                            if (u >= 0xD800 && u <= 0xDBFF && e - p >= 6 && p[0] == '\\' && p[1] == 'u') {
                                auto q = p; p += 2; std::uint32_t w;
                                if (!hex4(w)) return false;
                                if (w >= 0xDC00 && w <= 0xDFFF) u = 0x10000 + ((u - 0xD800) << 10) + (w - 0xDC00);
                                else p = q;
                            }
                            if (u >= 0xD800 && u <= 0xDFFF) lone_surrogate = true;
                            utf8_put(s, u);
                            break;
                        }
                        default: return false;
                    }
                }
                else {
                    auto q = reinterpret_cast<const unsigned char*>(p);
                    if (utf8_get(q, reinterpret_cast<const unsigned char*>(e)) < 0) return false;
                    s.append(p, reinterpret_cast<const char*>(q)); p = reinterpret_cast<const char*>(q);
                }
            }
        }
        bool value(V& v, unsigned d = 0) { // leading whitespace is skipped
            ws();
            if (p == e) return false;
            switch (*p) {
                case 'n': v = V::null(); return lit("null");
                case 't': v = V::boolean(true); return lit("true");
                case 'f': v = V::boolean(false); return lit("false");
                case '"': { v = V::str(""); return string(v.s); }
                case '[': {
                    if (++d > max_depth) max_depth = d;
                    if (d > 2000) return false;
                    v = V::arr(); ++p; ws();
                    if (p != e && *p == ']') return ++p, true;
                    for (;;) {
                        v.a.emplace_back();
                        if (!value(v.a.back(), d)) return false;
                        ws();
                        if (p == e) return false;
                        if (*p == ']') return ++p, true;
                        if (*p != ',') return false;
                        ++p;
                    }
                }
                case '{': {
                    if (++d > max_depth) max_depth = d;
                    if (d > 2000) return false;
                    v = V::map(); ++p; ws();
                    if (p != e && *p == '}') return ++p, true;
                    for (;;) {
                        ws();
                        V k = V::str("");
                        if (!string(k.s)) return false;
                        ws();
                        if (p == e || *p != ':') return false;
                        ++p;
                        V x;
                        if (!value(x, d)) return false;
                        v.add(std::move(k), std::move(x));
                        ws();
                        if (p == e) return false;
                        if (*p == '}') return ++p, true;
                        if (*p != ',') return false;
                        ++p;
                    }
                }
                default: return number(v);
            }
        }
        bool document(V& v) { if (!value(v)) return false; ws(); return p == e; }
    };
    inline bool json_parse(const std::string& s, V& v) { Json j(s.data(), s.data() + s.size()); return j.document(v) && !j.lone_surrogate; }

    // remove insignificant whitespace outside of strings
    inline std::string json_strip(const std::string& s) {
        std::string o; bool q = false;
        for (std::size_t i = 0; i < s.size(); ++i) {
            if (q) { o += s[i]; if (s[i] == '\\' && i + 1 < s.size()) o += s[++i]; else if (s[i] == '"') q = false; }
            else if (s[i] == '"') q = true, o += s[i];
            else if (s[i] != ' ' && s[i] != '\n' && s[i] != '\t' && s[i] != '\r') o += s[i];
        }
        return o;
    }

    // ------------------------------------------------------------ JSON text generator (any spelling)

    enum : std::uint64_t { VERBATIM = ~std::uint64_t(0) }; // tag of a string: its spelling
    struct JsonSpell {
        unsigned ws = 0;            // chance in 8 of whitespace
        unsigned esc = 0;           // chance in 16 of a needless escape
        JsonSpell(unsigned w = 0, unsigned e = 0) : ws(w), esc(e) {}
    };
    inline void put_ws(mon::Rng& r, const JsonSpell& c, std::string& o) { while (r.chance(c.ws, 8)) o += " \t\n\r"[r.below(4)]; }
    inline void json_str(mon::Rng& r, const JsonSpell& c, const std::string& s, std::string& o) {
        o += '"';
        for (auto u : utf32(s)) {
            char b[16];
            bool must = u < 0x20 || u == '"' || u == '\\';
            if (must || r.chance(c.esc, 16)) {
                char sh = 0;
                switch (u) { case '"': case '\\': case '/': sh = char(u); break; case 8: sh = 'b'; break; case 9: sh = 't'; break; case 10: sh = 'n'; break; case 12: sh = 'f'; break; case 13: sh = 'r'; break; }
                if (sh && !r.chance(1, 3)) { o += '\\'; o += sh; continue; }
                bool up = r.chance(1, 2);
                auto put = [&](unsigned x) { std::snprintf(b, sizeof b, up ? "\\u%04X" : "\\u%04x", x); o += b; };
                if (u < 0x10000) put(u);
                else put(0xD800 + ((u - 0x10000) >> 10)), put(0xDC00 + ((u - 0x10000) & 0x3FF));
            }
            else utf8_put(o, u);
        }
        o += '"';
    }
    inline void json_text(mon::Rng& r, const JsonSpell& c, const V& v, std::string& o) {
        switch (v.k) {
            case V::Null: case V::Undef: o += "null"; break;
            case V::Bool: o += v.b ? "true" : "false"; break;
            case V::Int: o += v.s.empty() ? i2s(v.i) : v.s; break;
            case V::Real: o += v.s.empty() ? d2s(v.r) : v.s; break;
            case V::Str: if (v.tag == VERBATIM) o += '"' + v.s + '"'; else json_str(r, c, v.s, o); break;
            case V::Arr:
                o += '['; put_ws(r, c, o);
                for (std::size_t i = 0; i < v.a.size(); ++i) { if (i) o += ',', put_ws(r, c, o); json_text(r, c, v.a[i], o); put_ws(r, c, o); }
                o += ']'; break;
            case V::Map:
                o += '{'; put_ws(r, c, o);
                for (std::size_t i = 0; i < v.a.size(); i += 2) {
                    if (i) o += ',', put_ws(r, c, o);
                    json_text(r, c, v.a[i], o); put_ws(r, c, o); o += ':'; put_ws(r, c, o); json_text(r, c, v.a[i + 1], o); put_ws(r, c, o);
                }
                o += '}'; break;
            default: break;
        }
    }
    inline double gen_double(mon::Rng& r) {
        for (;;) {
            double d;
            switch (r.below(6)) {
                case 0: { static const double b[] = {0., -0., 1., -1., .1, .5, 1e22, 1e23, 9007199254740993., 5e-324, 2.2250738585072014e-308, 2.2250738585072009e-308, 1.7976931348623157e308, 1e-5, 1e-7, 123456789.125, 1e16, 1e15, 1e17, 3.14159265358979, 65504., 6.103515625e-05, 5.960464477539063e-08, 3.4028234663852886e38, 1.1754943508222875e-38}; d = b[r.below(sizeof b / sizeof *b)]; break; }
                case 1: { std::uint64_t u = r.next(); std::memcpy(&d, &u, sizeof d); break; }
                case 2: d = double(std::int64_t(r.bits())); break;
                case 3: d = double(std::int64_t(r.below(2000001)) - 1000000) / 1000.; break;
                case 4: d = double(r.bits()) * std::pow(10., double(int(r.below(40)) - 20)); break;
                default: d = double(float(std::int64_t(r.next())) / 65536.f); break;
            }
            if (std::isfinite(d)) return d;
        }
    }
    inline std::string gen_real_lexeme(mon::Rng& r) { // finite, normal range
        for (;;) {
            std::string s; char b[64];
            switch (r.below(5)) {
                case 0: std::snprintf(b, sizeof b, "%.17g", gen_double(r)); s = b; break;
                case 1: std::snprintf(b, sizeof b, "%.*e", int(r.below(20)), gen_double(r)); s = b; break;
                case 2: std::snprintf(b, sizeof b, "%.*f", int(r.below(12)), double(std::int64_t(r.below(2000000)) - 1000000) / 4096.); s = b; break;
                default: {
                    if (r.chance(1, 3)) s += '-';
                    if (r.chance(1, 3)) s += '0'; else { s += char('1' + r.below(9)); for (std::size_t n = r.below(12); n; --n) s += char('0' + r.below(10)); }
                    if (r.chance(2, 3)) { s += '.'; for (std::size_t n = 1 + r.below(12); n; --n) s += char('0' + r.below(10)); }
                    if (r.chance(1, 2)) { s += r.chance(1, 2) ? 'e' : 'E'; if (r.chance(2, 3)) s += r.chance(1, 2) ? '+' : '-'; if (r.chance(1, 4)) s += '0'; s += std::to_string(r.below(r.chance(1, 6) ? 320 : 40)); }
                }
            }
            V v; Json j(s.data(), s.data() + s.size());
            if (j.document(v) && !j.huge && !j.tiny && v.k == V::Real && s.size() <= 60) return s;
        }
    }
    // a value expressible in JSON
    inline V gen_json(mon::Rng& r, unsigned depth, bool dups = false) {
        switch (r.below(depth ? 10 : 7)) {
            case 0: return V::null();
            case 1: return V::boolean(r.chance(1, 2));
            case 2: { auto u = r.bits(); return V::integer(i128(u)); }
            case 3: { auto u = r.bits() >> 1; return V::integer(-i128(u) - 1); }
            case 4: { auto l = gen_real_lexeme(r); V v = V::real(std::strtod(l.c_str(), 0)); v.s = l; return v; }
            case 5: case 6: return V::str(gen_text(r, 70));
            case 7: case 8: { V v = V::arr(); for (std::size_t n = r.below(6); n; --n) v.a.push_back(gen_json(r, depth - 1, dups)); return v; }
            default: {
                V v = V::map(); std::set<std::string> ks;
                for (std::size_t n = r.below(6); n; --n) { auto k = r.chance(1, 2) ? std::string(1, char('a' + r.below(6))) : gen_text(r, 40); if (!dups && !ks.insert(k).second) continue; v.add(V::str(k), gen_json(r, depth - 1, dups)); }
                return v;
            }
        }
    }

    // ------------------------------------------------------------ CBOR decoder (RFC 7049)

    inline double half(unsigned h) {
        int e = h >> 10 & 31, m = h & 1023; double d;
        if (e == 0) d = std::ldexp(double(m), -24);
        else if (e != 31) d = std::ldexp(double(m + 1024), e - 25);
        else d = m ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity();
        return h & 0x8000 ? -d : d;
    }

    struct Cbor {
        const unsigned char *p, *e;
        bool shortest = true;       // all integers and lengths in shortest form
        bool definite = true;
        bool low_simple = false;    // F8 00..1F
        bool short_fp = false;      // fp16 or fp32 used
        unsigned max_depth = 0;
        bool badutf = false;
        bool resv = false;          // reserved additional information met
        Cbor(const void* b, std::size_t n) : p(static_cast<const unsigned char*>(b)), e(p + n) {}
        bool arg(unsigned ai, std::uint64_t& u) {
            if (ai < 24) return u = ai, true;
            if (ai > 27) return false;
            unsigned n = 1u << (ai - 24); u = 0;
            if (std::size_t(e - p) < n) return p = e, false;
            for (unsigned i = 0; i < n; ++i) u = u << 8 | *p++;
            if (n == 1 ? u < 24 : u >> (n * 4) == 0) shortest = false;
            return true;
        }
        bool item(V& v, unsigned d = 0) {
            if (p == e || d > 3000) return false;
            unsigned h = *p++, mt = h >> 5, ai = h & 31; std::uint64_t u;
            switch (mt) {
                case 0: if (!arg(ai, u)) return false; v = V::integer(i128(u)); return true;
                case 1: if (!arg(ai, u)) return false; v = V::integer(-1 - i128(u)); return true;
                case 2: case 3: {
                    v = mt == 2 ? V::bytes("") : V::str("");
                    if (ai == 31) {
                        definite = false;
                        for (;;) {
                            if (p == e) return false;
                            unsigned c = *p++;
                            if (c == 0xFF) break;
                            if (c >> 5 != mt || (c & 31) == 31 || !arg(c & 31, u)) return false;
                            if (std::uint64_t(e - p) < u) return false;
                            v.s.append(reinterpret_cast<const char*>(p), std::size_t(u)); p += u;
                        }
                    }
                    else {
                        if (!arg(ai, u)) return false;
                        if (std::uint64_t(e - p) < u) return false;
                        v.s.assign(reinterpret_cast<const char*>(p), std::size_t(u)); p += u;
                    }
                    if (mt == 3 && !utf8_valid(v.s)) badutf = true;
                    return true;
                }
                case 4: case 5: {
                    if (d + 1 > max_depth) max_depth = d + 1;
                    v = mt == 4 ? V::arr() : V::map();
                    unsigned w = mt == 4 ? 1 : 2;
                    if (ai == 31) {
                        definite = false;
                        for (;;) {
                            if (p == e) return false;
                            if (*p == 0xFF) return ++p, true;
                            for (unsigned i = 0; i < w; ++i) { v.a.emplace_back(); V x; if (!item(x, d + 1)) return false; v.a.back() = std::move(x); }
                        }
                    }
                    if (!arg(ai, u)) return false;
                    if (u > std::uint64_t(e - p) / w) { // cannot be complete: still walk for depth
                        if (u > (1u << 20)) u = 1u << 20;
                    }
                    for (std::uint64_t i = 0; i < u * w; ++i) { V x; if (!item(x, d + 1)) return false; v.a.push_back(std::move(x)); }
                    return true;
                }
                case 6: {
                    if (d + 1 > max_depth) max_depth = d + 1;
                    if (!arg(ai, u)) return false;
                    V x; if (!item(x, d + 1)) return false;
                    v = V::tagged(u, std::move(x)); return true;
                }
                default:
                    switch (ai) {
                        case 20: v = V::boolean(false); return true;
                        case 21: v = V::boolean(true); return true;
                        case 22: v = V::null(); return true;
                        case 23: v = V::undef(); return true;
                        case 24: if (p == e) return false; u = *p++; if (u < 32) low_simple = true; v = V::simple(unsigned(u)); return true;
                        case 25: { if (e - p < 2) return false; v = V::real(half(unsigned(p[0] << 8 | p[1]))); p += 2; short_fp = true; return true; }
                        case 26: { if (e - p < 4) return false; std::uint32_t x = std::uint32_t(p[0]) << 24 | p[1] << 16 | p[2] << 8 | p[3]; float f; std::memcpy(&f, &x, 4); v = V::real(f); p += 4; short_fp = true; return true; }
                        case 27: { if (e - p < 8) return false; std::uint64_t x = 0; for (int i = 0; i < 8; ++i) x = x << 8 | p[i]; double f; std::memcpy(&f, &x, 8); v = V::real(f); p += 8; return true; }
                        default: if (ai > 27) return false; v = V::simple(ai); return true;
                    }
            }
        }
    };
    inline bool cbor_parse(const std::string& s, V& v) { Cbor c(s.data(), s.size()); return c.item(v) && c.p == c.e; }

    // ------------------------------------------------------------ CBOR encoder (any encoding)

    struct CborSpell {
        unsigned wide = 0;          // chance in 8 of a wider head than needed
        unsigned indef = 0;         // chance in 8 of indefinite length
        bool fp = false;            // use narrower floats when exact
        CborSpell(unsigned w = 0, unsigned i = 0, bool f = false) : wide(w), indef(i), fp(f) {}
    };
    inline void cbor_head(mon::Rng& r, const CborSpell& c, unsigned mt, std::uint64_t u, std::string& o) {
        unsigned n = u < 24 ? 0 : u < 0x100 ? 1 : u < 0x10000 ? 2 : u < 0x100000000ull ? 3 : 4;
        if (n < 4 && r.chance(c.wide, 8)) n += 1 + unsigned(r.below(4 - n));
        if (!n) o += char(mt << 5 | u);
        else {
            o += char(mt << 5 | (23 + n));
            for (int i = int(1u << (n - 1)) - 1; i >= 0; --i) o += char(u >> (8 * i));
        }
    }
    inline void cbor_text(mon::Rng& r, const CborSpell& c, const V& v, std::string& o) {
        switch (v.k) {
            case V::Null: o += char(0xF6); break;
            case V::Undef: o += char(0xF7); break;
            case V::Bool: o += char(v.b ? 0xF5 : 0xF4); break;
            case V::Int: if (v.i >= 0) cbor_head(r, c, 0, std::uint64_t(v.i), o); else cbor_head(r, c, 1, std::uint64_t(-1 - v.i), o); break;
            case V::Simple: if (v.i < 20) o += char(0xE0 | int(v.i)); else o += char(0xF8), o += char(int(v.i)); break;
            case V::Real: {
                if (c.fp && r.chance(1, 2)) {
                    if (r.chance(1, 2)) for (unsigned h = 0, s = unsigned(r.below(2)); h < 1; ++h) { // exact halves only
                        (void)s;
                        double a = std::fabs(v.r);
                        if (v.r != v.r) { o += char(0xF9); o += char(0x7E); o += char(0); return; }
                        int ex; double m = std::frexp(a, &ex); // a = m * 2^ex
                        if (a == 0) { o += char(0xF9); o += char(std::signbit(v.r) ? 0x80 : 0); o += char(0); return; }
                        if (std::isinf(a)) { o += char(0xF9); o += char(std::signbit(v.r) ? 0xFC : 0x7C); o += char(0); return; }
                        unsigned bits;
                        if (ex >= -13 && ex <= 16 && std::ldexp(m, 11) == std::floor(std::ldexp(m, 11))) bits = unsigned(ex + 14) << 10 | (unsigned(std::ldexp(m, 11)) & 1023);
                        else if (ex < -13 && std::ldexp(a, 24) == std::floor(std::ldexp(a, 24)) && std::ldexp(a, 24) >= 1) bits = unsigned(std::ldexp(a, 24));
                        else break;
                        if (std::signbit(v.r)) bits |= 0x8000;
                        o += char(0xF9); o += char(bits >> 8); o += char(bits); return;
                    }
                    float f = float(v.r);
                    if (double(f) == v.r) { std::uint32_t x; std::memcpy(&x, &f, 4); o += char(0xFA); for (int i = 3; i >= 0; --i) o += char(x >> 8 * i); return; }
                }
                std::uint64_t x; std::memcpy(&x, &v.r, 8); o += char(0xFB); for (int i = 7; i >= 0; --i) o += char(x >> 8 * i);
                break;
            }
            case V::Str: case V::Bytes: {
                unsigned mt = v.k == V::Str ? 3 : 2;
                if (r.chance(c.indef, 8)) {
                    o += char(mt << 5 | 31);
                    for (std::size_t i = 0; i < v.s.size(); ) {
                        std::size_t n = std::min<std::size_t>(v.s.size() - i, 1 + r.below(r.chance(1, 2) ? 4 : 40));
                        if (mt == 3) while (i + n < v.s.size() && (v.s[i + n] & 0xC0) == 0x80) ++n; // RFC 7049 2.2.2: chunks hold whole characters
                        cbor_head(r, c, mt, n, o); o.append(v.s, i, n); i += n;
                        if (r.chance(1, 8)) cbor_head(r, c, mt, 0, o);
                    }
                    o += char(0xFF);
                }
                else cbor_head(r, c, mt, v.s.size(), o), o += v.s;
                break;
            }
            case V::Arr: case V::Map: {
                unsigned mt = v.k == V::Arr ? 4 : 5;
                bool in = r.chance(c.indef, 8);
                if (in) o += char(mt << 5 | 31); else cbor_head(r, c, mt, mt == 4 ? v.a.size() : v.pairs(), o);
                for (auto& x : v.a) cbor_text(r, c, x, o);
                if (in) o += char(0xFF);
                break;
            }
            case V::Tag: cbor_head(r, c, 6, v.tag, o); cbor_text(r, c, v.a[0], o); break;
        }
    }
    inline V gen_cbor(mon::Rng& r, unsigned depth, bool keys_scalar = false) {
        switch (r.below(depth ? 17 : 12)) {
            case 0: return V::null();
            case 1: return V::undef();
            case 2: return V::boolean(r.chance(1, 2));
            case 3: case 4: return V::integer(i128(r.bits()));
            case 5: return V::integer(-1 - i128(r.bits() >> 1));
            case 6: case 7: {
                static const double sp[] = {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 0., -0., 1., 65504., 5.960464477539063e-08, 6.103515625e-05, 6.097555160522461e-05, 1.5, -2.};
                if (r.chance(1, 3)) return V::real(sp[r.below(sizeof sp / sizeof *sp)]);
                if (r.chance(1, 3)) return V::real(half(unsigned(r.below(0x10000)) & ~0x7C00u));
                return V::real(gen_double(r));
            }
            case 8: case 9: return V::str(gen_text(r));
            case 10: { V v = V::bytes(""); for (std::size_t n = r.len(300); n; --n) v.s += char(r.next()); return v; }
            case 11: { unsigned s = unsigned(r.below(r.chance(1, 2) ? 20 : 224)); if (s >= 20) s += 12; if (s > 255) s = 255; return V::simple(s); }
            case 12: case 13: { V v = V::arr(); std::size_t n = r.chance(1, 12) ? r.len(300) : r.below(6); for (; n; --n) v.a.push_back(n > 6 ? V::integer(i128(r.below(40))) : gen_cbor(r, depth - 1, keys_scalar)); return v; }
            case 14: case 15: {
                V v = V::map();
                std::size_t n = r.chance(1, 16) ? r.len(60) : r.below(6);
                for (std::size_t i = 0; i < n; ++i) { V k = r.chance(1, 3) || n > 6 ? V::integer(i128(r.below(6) + i * 7)) : gen_cbor(r, keys_scalar ? 0 : depth - 1, keys_scalar); v.add(k, gen_cbor(r, n > 6 ? 0 : depth - 1, keys_scalar)); }
                return v;
            }
            default: return V::tagged(r.bits(), gen_cbor(r, depth - 1, keys_scalar));
        }
    }

    // mutate bytes
    inline void mutate(mon::Rng& r, std::string& s, const char* alphabet = nullptr) {
        for (std::size_t n = 1 + r.below(3); n; --n) {
            auto any = [&]() -> char { return alphabet && r.chance(2, 3) ? alphabet[r.below(std::strlen(alphabet))] : char(r.next()); };
            std::size_t at = s.empty() ? 0 : r.below(s.size() + 1);
            switch (r.below(6)) {
                case 0: if (at < s.size()) s[at] = any(); break;
                case 1: s.insert(at, 1, any()); break;
                case 2: if (at < s.size()) s.erase(at, 1 + r.below(3)); break;
                case 3: s.resize(at); break;
                case 4: if (at < s.size()) { auto x = s.substr(at, 1 + r.below(8)); s.insert(r.below(s.size() + 1), x); } break;
                case 5: if (at < s.size()) s[at] = char(s[at] ^ (1 << r.below(8))); break;
            }
        }
    }

} // ref

#endif // REF_HXX_
