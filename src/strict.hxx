// The JSON format read: the default one or, with STRICT, the one that checks the grammar of numbers in contiguous input too
#ifndef STRICT_HXX_
#define STRICT_HXX_

#include <string>
#if defined(STRICT)
    struct strict_traits : cxon::json::format_traits { struct number : cxon::json::format_traits::number { static constexpr bool strict = true; }; };
    typedef cxon::JSON<strict_traits> F;
    static const bool strict = true;
#else
    typedef cxon::JSON<> F;
    static const bool strict = false;
#endif

inline bool long_number(const std::string& s) {
    for (std::size_t i = 0, n = 0; i < s.size(); ++i) { n = s[i] && std::string("0123456789+-.eE").find(s[i]) != std::string::npos ? n + 1 : 0; if (n > 28) return true; }
    return false;
}

#endif // STRICT_HXX_
