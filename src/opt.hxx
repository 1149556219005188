// Formats derived from JSON by options, texts in their notations (in any spelling) and a reader of what is written in them. Define OPT.
#ifndef OPT_HXX_
#define OPT_HXX_

#include "types.hxx"
#include "cxon/cxcf.hxx"

#if !defined(OPT)
#   define OPT 0
#endif

namespace opt {

    using ref::V; using zoo::X; using mon::Rng;

    struct Opt { char div, msep, lsep, del; bool qu, uq, com, trail, nans, sjs; };

#   define FORMAT(N, DIV, MSEP, LSEP, DEL, QU, UQ, COM, TRAIL, NANS, SJS) \
        struct traits##N : cxon::json::format_traits { \
            struct map : cxon::json::format_traits::map { static constexpr char div = DIV; static constexpr char sep = MSEP; }; \
            struct list : cxon::json::format_traits::list { static constexpr char sep = LSEP; }; \
            struct string { static constexpr char del = DEL; }; \
            static constexpr bool quote_unquoted_keys = QU, unquote_quoted_keys = UQ, allow_comments = COM, allow_trailing_separators = TRAIL, allow_javascript_nans = NANS, produce_strict_javascript = SJS; \
        }; \
        static const Opt opt##N = {DIV, MSEP, LSEP, DEL, QU, UQ, COM, TRAIL, NANS, SJS}
    //         div   sep  sep  del  qu uq com tr nan sjs
    FORMAT(0, ':', ',', ',', '"', 1, 0, 1, 0, 0, 0);
    FORMAT(1, ':', ',', ',', '"', 1, 0, 0, 1, 0, 1);
    FORMAT(2, ':', ',', ',', '"', 1, 0, 1, 1, 1, 0);
    FORMAT(3, ':', ',', ',', '"', 0, 0, 0, 0, 0, 0);
    FORMAT(4, ':', ',', ',', '"', 1, 1, 0, 0, 0, 0);
    FORMAT(5, ':', ',', ',', '"', 0, 1, 1, 1, 1, 1);
    FORMAT(7, '=', ';', ';', '\'', 0, 0, 1, 1, 0, 0);
    FORMAT(8, ':', ' ', ' ', '\'', 1, 1, 1, 0, 1, 0);
    FORMAT(9, ':', ',', ',', '"', 1, 0, 0, 0, 1, 0);
#   undef FORMAT
    typedef cxon::cxcf::format_traits traits6; static const Opt opt6 = {'=', ' ', ' ', '"', 0, 1, 1, 0, 1, 0};
    // nothing checked, nothing assumed; strings known to need no escapes
    struct traits10 : cxon::json::format_traits { static constexpr bool validate_string_encoding = false, validate_string_escapes = false, assume_unique_object_keys = false; }; static const Opt opt10 = {':', ',', ',', '"', 1, 0, 0, 0, 0, 0};
    struct traits11 : cxon::json::format_traits { static constexpr bool assume_no_escapes = true; }; static const Opt opt11 = {':', ',', ',', '"', 1, 0, 0, 0, 0, 0};
#   define CAT_(a, b) a##b
#   define CAT(a, b) CAT_(a, b)
    typedef CAT(traits, OPT) traits; static const Opt cfg = CAT(opt, OPT);
#   define NAME_(x) #x
#   define NAME__(x) NAME_(x)
    inline bool no_way(const std::string& s) { return OPT == 11 && s.find('\\') != std::string::npos; } // not a text for the format
    static const char name[] = "format " NAME__(OPT);

    // ------------------------------------------------------------------------- texts

    enum Feature { Comments = 1, Trailing = 2, RawKeys = 4, BareKeys = 8, Nans = 16 }; // what a text relies on

    struct Text {
        Rng& r; Opt o; unsigned ws, com, esc; // chances in 8
        std::string s; unsigned used; bool node; // unquoted keys of any kind
        Text(Rng& r, const Opt& o) : r(r), o(o), ws(unsigned(r.below(5))), com(o.com ? unsigned(r.below(4)) : 0), esc(unsigned(r.below(4))), used(0), node(false) {}

        void space() { s += " \t\n\r"[r.below(4)]; }
        void comment() {
            used |= Comments;
            std::string c; static const char* const t[] = {"*", "/", "\"", "'", "]", "}", ",", ":", "=", ";", "x", " ", "\\", "[", "{", "\xE2\x82\xAC", "//", "/*", "null", "1"};
            for (std::size_t n = r.below(6); n; --n) c += r.pick(t);
            if (r.chance(1, 2)) { for (std::size_t i; (i = c.find("*/")) != std::string::npos; ) c[i + 1] = '*'; s += "/*" + c + (r.chance(1, 3) ? "*" : "") + "*/"; }
            else s += "//" + c + "\n";
        }
        void gap(bool some = false) { // some - at least one white-space character
            while (r.chance(ws, 8)) space(), some = false;
            if (some) space();
            while (r.chance(com, 8)) { comment(); while (r.chance(ws, 8)) space(); }
        }
        void after_raw() { if (r.chance(ws + com, 16)) gap(true); } // an unquoted key ends with white-space

        void chr(std::uint32_t c, bool raw, bool first) {
            char b[16];
            bool must = c < 0x20 || c == '\\' || (raw ? c == ' ' || c == (unsigned char)o.div || (first && (c == '}' || (o.com && c == '/') || (node && (c == '[' || c == '{')))) : c == (unsigned char)o.del);
            if (c < 0x10000 && ((c == '}' || c == '[' || c == '{') && must ? true : (must || c == '/') ? r.chance(esc, 8) : r.chance(esc, 24))) { std::snprintf(b, sizeof b, r.chance(1, 2) ? "\\u%04x" : "\\u%04X", unsigned(c)); s += b; return; }
            if (must || (c == '/' && r.chance(esc, 8))) switch (c) {
                case '\b': s += "\\b"; return; case '\t': s += "\\t"; return; case '\n': s += "\\n"; return; case '\f': s += "\\f"; return; case '\r': s += "\\r"; return;
                case '"': case '\'': case '\\': case '/': case ' ': case ':': case '=': s += '\\'; s += char(c); return;
                default: std::snprintf(b, sizeof b, "\\u%04x", unsigned(c)); s += b; return;
            }
            ref::utf8_put(s, c);
        }
        void str(const std::string& t, bool raw) {
            if (!raw) s += o.del;
            for (std::size_t i = 0; i < t.size(); ) {
                unsigned char c = (unsigned char)t[i]; std::size_t n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; std::uint32_t u = n == 1 ? c : c & (0x7Fu >> n);
                for (std::size_t k = 1; k < n; ++k) u = u << 6 | ((unsigned char)t[i + k] & 0x3F);
                chr(u, raw, i == 0); i += n;
            }
            if (!raw) s += o.del;
        }
        void leaf(const X& x) {
            switch (x.v.k) {
                case V::Null: s += "null"; break;
                case V::Bool: s += x.v.b ? "true" : "false"; break;
                case V::Int: s += ref::i2s(x.v.i); break;
                case V::Real: {
                    bool const inf = x.ld - x.ld != 0, neg = std::signbit(x.ld);
                    if (inf && o.nans) { used |= Nans; s += x.ld != x.ld ? "NaN" : neg ? "-Infinity" : "Infinity"; }
                    else if (inf) { s += o.del; s += x.ld != x.ld ? "nan" : neg ? "-inf" : "inf"; s += o.del; }
                    else { char b[64]; std::snprintf(b, sizeof b, "%.*Lg", x.fw == 4 ? 9 : x.fw == 8 ? 17 : 21, x.ld); s += b; if (x.f & REAL && !std::strpbrk(b, ".e")) s += r.chance(1, 2) ? ".0" : "e0"; }
                    break; }
                default: { unsigned const e = esc; if (!x.v.s.empty() && x.v.s.find_first_not_of("01") == std::string::npos) esc = 0; str(x.v.s, false); esc = e; } // bit sets
            }
        }
        enum : unsigned { REAL = 1u << 30, NAME = 1u << 29 }; // to be read as a real number, a member of a class without escapes
        void key(const X& x) {
            unsigned const c = esc; if (x.f & NAME) esc = 0;
            if (!x.key && o.uq) { used |= RawKeys; str(x.v.s, true); esc = c; after_raw(); return; }
            if (!x.key) { str(x.v.s, false); esc = c; gap(); return; }
            if (!o.qu || o.uq) {
                used |= BareKeys;
                unsigned const c = com, w = ws; if (x.v.k != V::Arr && x.v.k != V::Map) com = ws = 0;
                value(x); com = c; ws = w;
            }
            else { s += o.del; if (x.v.k != V::Arr && x.v.k != V::Map) { unsigned const c = com, w = ws; com = ws = 0; value(x); com = c; ws = w; } else zoo::within_text(r, x, s); s += o.del; }
            gap();
        }
        void value(const X& x) {
            if (x.v.k != V::Arr && x.v.k != V::Map) { leaf(x); return; }
            bool const map = x.v.k == V::Map; char const sep = map ? o.msep : o.lsep; std::size_t const st = map ? 2 : 1;
            s += map ? '{' : '['; gap();
            for (std::size_t i = 0; i < x.a.size(); i += st) {
                if (i) { if (sep != ' ') s += sep; gap(sep == ' '); }
                if (map) { key(x.a[i]); s += o.div; gap(); }
                value(x.a[i + st - 1]);
                if (sep != ' ' || i + st >= x.a.size()) gap();
            }
            if (o.trail && sep != ' ' && !x.a.empty() && r.chance(1, 3)) { used |= Trailing; s += sep; gap(); }
            s += map ? '}' : ']';
        }
        void document(const X& x) { gap(); value(x); }
        void bare(const X& x) { // members one after another
            gap();
            for (std::size_t i = 0; i < x.a.size(); i += 2) { key(x.a[i]); s += o.div; gap(); value(x.a[i + 1]); gap(i + 2 < x.a.size()); }
        }
    };

    // ------------------------------------------------------------------------- what is written

    struct Reader { // guided by what is expected in the choice of the kind of keys only
        const Opt& o; const char *p, *e; std::string err;
        Reader(const Opt& o, const std::string& s) : o(o), p(s.data()), e(s.data() + s.size()) {}
        bool fail(const char* m) { if (err.empty()) err = m; return false; }

        bool esc(std::string& t, bool raw) { // after the backslash
            if (p == e) return fail("escape");
            switch (char c = *p++) {
                case 'b': t += '\b'; return true; case 'f': t += '\f'; return true; case 'n': t += '\n'; return true; case 'r': t += '\r'; return true; case 't': t += '\t'; return true;
                case '"': case '\\': case '/': t += c; return true;
                case '\'': if (o.del != '\'') return fail("escaped quote"); t += c; return true;
                case ' ': if (!raw) return fail("escaped space"); t += c; return true;
                case ':': case '=': if (!raw || c != o.div) return fail("escaped divider"); t += c; return true;
                case 'u': { unsigned c0; if (!hex(c0)) return fail("hex");
                    if (c0 >= 0xD800 && c0 < 0xDC00) { unsigned c1; if (e - p < 2 || p[0] != '\\' || p[1] != 'u') return fail("surrogate"); p += 2; if (!hex(c1) || c1 < 0xDC00 || c1 > 0xDFFF) return fail("surrogate"); c0 = 0x10000 + ((c0 - 0xD800) << 10) + (c1 - 0xDC00); }
                    ref::utf8_put(t, c0); return true; }
                default: return fail("escape");
            }
        }
        bool hex(unsigned& c) { if (e - p < 4) return false; c = 0; for (int i = 0; i < 4; ++i, ++p) { if (!std::isxdigit((unsigned char)*p)) return false; c = c * 16 + unsigned(*p <= '9' ? *p - '0' : (*p | 32) - 'a' + 10); } return true; }
        bool str(std::string& t) {
            if (p == e || *p != o.del) return fail("string");
            for (++p; p != e; ) { if (*p == o.del) return ++p, true; if ((unsigned char)*p < 0x20) return fail("control character"); if (*p == '\\') { ++p; if (!esc(t, false)) return false; } else t += *p++; }
            return fail("end of string");
        }
        bool raw(std::string& t) {
            for ( ; p != e; ) { if (*p == o.div) return true; if ((unsigned char)*p <= 0x20) return fail("white-space in a key"); if (*p == '\\') { ++p; if (!esc(t, true)) return false; } else t += *p++; }
            return fail("end of key");
        }
        bool word(const char* w) { std::size_t n = std::strlen(w); if (std::size_t(e - p) < n || std::memcmp(p, w, n) != 0) return false; p += n; return true; }
        bool key(V& v, const X* g) {
            if (!g || !g->key) { v = V::str(""); return o.uq ? raw(v.s) : str(v.s); }
            if (o.qu && !o.uq) { v = V::str(""); return str(v.s); }
            const char* const b = p; V w; if (!value(w, g)) return false;
            v = w.k == V::Str || w.k == V::Arr || w.k == V::Map ? w : V::str(std::string(b, p)); // kept as text
            return true;
        }
        bool value(V& v, const X* g) {
            if (p == e) return fail("value");
            if (*p == '[' || *p == '{') {
                bool const map = *p == '{'; char const end = map ? '}' : ']', sep = map ? o.msep : o.lsep; v = map ? V::map() : V::arr(); ++p;
                if (g && g->v.k != v.k) g = nullptr;
                for (std::size_t i = 0; ; ++i) {
                    if (p == e) return fail("end of container");
                    if (i == 0 && *p == end) return ++p, true;
                    if (i) { if (*p == end) return ++p, true; if (*p != sep) return fail("separator"); ++p; }
                    V a, b;
                    if (map) { auto k = g && !g->a.empty() ? &g->a[std::min(2 * i, g->a.size() - 2)] : nullptr; if (!key(a, k)) return false; if (p == e || *p != o.div) return fail("divider"); ++p; }
                    std::size_t const n = map ? 2 * i + 1 : i;
                    if (!value(b, g && n < g->a.size() ? &g->a[n] : nullptr)) return false;
                    if (map) v.add(std::move(a), std::move(b)); else v.a.push_back(std::move(b));
                }
            }
            if (*p == o.del) { v = V::str(""); return str(v.s); }
            if (word("null")) return v = V::null(), true;
            if (word("true")) return v = V::boolean(true), true;
            if (word("false")) return v = V::boolean(false), true;
            if (o.nans) { if (word("NaN")) return v = V::str("nan"), true; if (word("-NaN")) return v = V::str("-nan"), true; if (word("Infinity")) return v = V::str("inf"), true; if (word("-Infinity")) return v = V::str("-inf"), true; }
            ref::Json j(p, e); if (!j.number(v)) return fail("number"); p = j.p; return true;
        }
        bool document(V& v, const X* g) { return value(v, g) && (p == e || fail("more after the value")); }
    };

    inline X of(const V& v) { // of a document
        X x(v); x.v.a.clear();
        if (v.k == V::Real) x.ld = v.r, x.fw = 8, x.f |= Text::REAL;
        for (std::size_t i = 0; i < v.a.size(); ++i) { x.a.push_back(of(v.a[i])); if (v.k == V::Map && i % 2 == 0 && v.a[i].k != V::Str) x.a.back().key = true; }
        return x;
    }

}

#endif
