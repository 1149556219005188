// The table of types, split in groups (compiled in parallel): define GROUP
#ifndef TYPES_HXX_
#define TYPES_HXX_

#if !defined(GROUP)
#   define GROUP 0
#endif
#if GROUP == 5
#   include "zoo_boost.hxx"
#else
#   include "zoo_std.hxx"
#endif

#if GROUP == 0
#   define TYPES_(M) \
    M(std::nullptr_t) M(bool) M(char) M(signed char) M(unsigned char) M(short) M(unsigned short) M(int) M(unsigned) M(long) M(unsigned long) M(long long) M(unsigned long long) \
    M(float) M(double) M(long double) M(wchar_t) M(char16_t) M(char32_t) \
    M(std::string) M(std::wstring) M(std::u16string) M(std::u32string) M(char[8]) M(char16_t[8]) M(const char*) M(const char16_t*) M(const wchar_t*) M(int[3]) M(unsigned char[4]) M(std::string[2])
#elif GROUP == 1
#   define TYPES_(M) \
    M(std::vector<int>) M(std::vector<bool>) M(std::vector<char>) M(std::vector<unsigned char>) M(std::vector<double>) M(std::vector<std::string>) M(std::vector<std::vector<int>>) M(std::vector<char16_t>) \
    M(std::deque<signed char>) M(std::deque<std::string>) M(std::list<long long>) M(std::list<std::list<bool>>) M(std::forward_list<unsigned>) M(std::forward_list<std::u16string>) \
    M(std::array<int, 3>) M(std::array<unsigned char, 5>) M(std::array<std::string, 2>) M(std::array<int, 0>) M(std::array<char, 4>) M(std::queue<int>) M(std::queue<unsigned char>) M(std::stack<int>) M(std::priority_queue<short>) \
    M(std::valarray<int>) M(std::valarray<unsigned char>) M(std::valarray<float>)
#elif GROUP == 2
#   define TYPES_(M) \
    M(std::map<std::string, int>) M(std::map<int, std::string>) M(std::map<std::string, std::vector<int>>) M(std::map<unsigned char, std::map<std::string, bool>>) M(std::map<double, int>) M(std::map<std::u16string, char>) \
    M(std::map<bool, std::string>) M(std::map<char, int>) M(std::multimap<std::string, int>) M(std::multimap<short, std::string>) M(std::unordered_map<std::string, double>) M(std::unordered_map<int, int>) M(std::unordered_multimap<std::string, int>) \
    M(std::set<int>) M(std::set<std::string>) M(std::set<unsigned char>) M(std::multiset<double>) M(std::unordered_set<std::string>) M(std::unordered_set<long>) M(std::unordered_multiset<int>)
#elif GROUP == 3
#   define TYPES_(M) \
    M(std::pair<int, std::string>) M(std::pair<std::vector<int>, double>) M(std::vector<std::pair<int, int>>) M(std::tuple<>) M(std::tuple<int>) M(std::tuple<std::string, double, bool>) M(std::tuple<int, std::tuple<char, std::vector<std::string>>>) \
    M(std::complex<float>) M(std::complex<double>) M(std::bitset<3>) M(std::bitset<8>) M(std::bitset<37>) M(std::bitset<64>) M(std::bitset<101>) \
    M(std::chrono::seconds) M(std::chrono::duration<double>) M(std::chrono::system_clock::time_point) \
    M(std::unique_ptr<int>) M(std::unique_ptr<std::string>) M(std::unique_ptr<std::vector<double>>) M(std::shared_ptr<std::string>) M(std::shared_ptr<std::map<std::string, int>>) M(std::vector<std::unique_ptr<int>>) M(std::map<std::string, std::shared_ptr<std::string>>) \
    M(int*) M(double*) M(std::string*) M(std::vector<int>*) M(std::vector<std::string*>)
#elif GROUP == 4 && __cplusplus >= 201703L
#   define TYPES_(M) \
    M(std::optional<int>) M(std::optional<std::string>) M(std::optional<std::vector<int>>) M(std::vector<std::optional<int>>) M(std::map<std::string, std::optional<double>>) \
    M(std::variant<int, std::string>) M(std::variant<int, double, std::string>) M(std::variant<std::monostate, bool, std::vector<int>, std::map<std::string, int>, double, std::string>) M(std::vector<std::variant<bool, int>>) \
    M(std::variant<std::vector<int>, std::vector<std::string>>) M(std::map<std::string, std::variant<int, std::vector<int>>>) M(std::optional<std::variant<int, std::string>>) M(std::tuple<std::optional<int>, std::optional<std::string>>)
#elif GROUP == 4
#   define TYPES_(M) M(int)
#elif GROUP == 5
#   define TYPES_(M) \
    M(zoo::bc::deque<int>) M(zoo::bc::list<std::string>) M(zoo::bc::slist<int>) M(zoo::bc::small_vector<int, 4>) M(zoo::bc::stable_vector<double>) M(zoo::bc::static_vector<int, 7>) M(zoo::bc::static_vector<unsigned char, 9>) M(zoo::bc::static_vector<zoo::bc::static_vector<int, 2>, 2>) M(zoo::bc::small_vector<unsigned char, 3>) M(zoo::bc::string) M(zoo::bc::basic_string<char16_t>) \
    M(zoo::bc::set<int>) M(zoo::bc::multiset<std::string>) M(zoo::bc::flat_set<std::string>) M(zoo::bc::flat_multiset<int>) M(zoo::bc::map<std::string, int>) M(zoo::bc::multimap<std::string, int>) M(zoo::bc::flat_map<int, std::string>) M(zoo::bc::flat_multimap<std::string, bool>) \
    M(boost::dynamic_bitset<>) M(boost::dynamic_bitset<unsigned char>) M(boost::variant<int, std::string>) M(boost::variant<int, double, std::vector<int>>) M(boost::variant2::variant<boost::variant2::monostate, int, std::string>) M(boost::variant2::variant<int, double>)
#elif GROUP == 6
#   define TYPES_(M) \
    M(std::map<std::pair<int, std::string>, int>) M(std::map<std::vector<int>, std::string>) M(std::map<std::vector<double>, int>) M(std::map<std::pair<double, bool>, std::pair<std::string, float>>) M(std::map<std::map<std::string, int>, std::vector<int>>) \
    M(std::map<std::tuple<char, std::u16string, int>, bool>) M(std::multimap<std::pair<std::string, std::string>, int>) M(std::map<std::set<short>, int>) M(std::map<std::array<int, 2>, std::map<std::array<int, 2>, int>>) M(std::map<std::map<int, std::map<double, std::string>>, int>) \
    M(std::unordered_map<int, std::pair<int, std::string>>) M(std::map<std::string, std::pair<std::vector<int>, std::string>>) M(std::map<std::list<std::wstring>, int>) M(std::map<long double, int>) M(std::map<std::u32string, std::tuple<int, std::string>>) M(std::map<wchar_t, int>) M(std::map<std::chrono::seconds, int>) \
    M(std::set<std::pair<int, std::string>>) M(std::set<std::vector<std::string>>) M(std::multiset<std::pair<int, std::vector<int>>>) M(std::vector<std::map<std::pair<int, int>, int>>) M(std::vector<std::vector<std::vector<std::vector<bool>>>>) M(std::pair<std::map<int, int>, std::list<std::pair<std::string, int>>>)
#endif

#endif
