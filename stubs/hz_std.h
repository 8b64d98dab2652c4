// Deterministic stand-ins for parts of the C++ library whose implementation is compiled code.
#pragma once
namespace std {
    // ------------------------------------------------------------------------------------------ string streams
    struct hz_ios {
        bool hz_eof = false, hz_fail = false;
        int hz_base = 10, hz_width = 0; char hz_fill = ' '; bool hz_upper = false;
        bool eof() const { return hz_eof; }
        bool fail() const { return hz_fail; }
        bool bad() const { return false; }
        bool good() const { return !hz_eof && !hz_fail; }
        explicit operator bool() const { return !hz_fail; }
        bool operator!() const { return hz_fail; }
        void clear() { hz_eof = hz_fail = false; }
    };
    struct hz_sstream : hz_ios {
        std::string hz_buf; size_t hz_pos = 0;
        hz_sstream() {}
        explicit hz_sstream(const std::string &s) : hz_buf(s) {}
        explicit hz_sstream(const std::string &s, std::ios_base::openmode) : hz_buf(s) {}
        explicit hz_sstream(std::ios_base::openmode) {}
        std::string str() const { return hz_buf; }
        void str(const std::string &s) { hz_buf = s; hz_pos = 0; }
        std::string_view view() const { return hz_buf; }
        void hz_put(const char *s, size_t n) {
            for (; hz_width > (int) n; hz_width--) hz_buf += hz_fill;
            hz_width = 0;
            hz_buf.append(s, n);
        }
        hz_sstream &hz_num(unsigned long long v, bool neg) {
            char t[24]; int p = 24;
            do { unsigned d = (unsigned) (v % hz_base); t[--p] = (char) (d < 10 ? '0' + d : (hz_upper ? 'A' : 'a') + d - 10); v /= hz_base; } while (v);
            if (neg) t[--p] = '-';
            hz_put(t + p, 24 - p);
            return *this;
        }
        hz_sstream &operator<<(const std::string &s) { hz_put(s.data(), s.size()); return *this; }
        hz_sstream &operator<<(const char *s) { hz_put(s, std::char_traits<char>::length(s)); return *this; }
        hz_sstream &operator<<(std::string_view s) { hz_put(s.data(), s.size()); return *this; }
        hz_sstream &operator<<(char c) { hz_put(&c, 1); return *this; }
        hz_sstream &operator<<(unsigned char c) { char d = (char) c; hz_put(&d, 1); return *this; }
        hz_sstream &operator<<(bool b) { return hz_num(b, false); }
        template<typename T, typename = std::enable_if_t<std::is_integral_v<T> || std::is_enum_v<T>>> hz_sstream &operator<<(T v) {
            if constexpr (std::is_enum_v<T>) return *this << (std::underlying_type_t<T>) v;
            else if constexpr (std::is_signed_v<T>) {
                if (hz_base == 10 && v < 0) return hz_num(0ull - (unsigned long long) (long long) v, true);
                return hz_num((unsigned long long) (std::make_unsigned_t<T>) v, false);
            } else return hz_num(v, false);
        }
        hz_sstream &operator<<(std::ios_base &(*f)(std::ios_base &)) {
            if (f == (std::ios_base &(*)(std::ios_base &)) std::hex) hz_base = 16;
            else if (f == (std::ios_base &(*)(std::ios_base &)) std::dec) hz_base = 10;
            else if (f == (std::ios_base &(*)(std::ios_base &)) std::oct) hz_base = 8;
            else if (f == (std::ios_base &(*)(std::ios_base &)) std::uppercase) hz_upper = true;
            else if (f == (std::ios_base &(*)(std::ios_base &)) std::nouppercase) hz_upper = false;
            return *this;
        }
        hz_sstream &operator<<(decltype(std::setw(0)) w) { hz_width = *(int *) &w; return *this; }
        hz_sstream &operator<<(decltype(std::setfill('0')) f) { hz_fill = *(char *) &f; return *this; }
        hz_sstream &operator>>(std::string &s) {
            s.clear();
            while (hz_pos < hz_buf.size() && (hz_buf[hz_pos] == ' ' || (hz_buf[hz_pos] >= 9 && hz_buf[hz_pos] <= 13))) hz_pos++;
            while (hz_pos < hz_buf.size() && !(hz_buf[hz_pos] == ' ' || (hz_buf[hz_pos] >= 9 && hz_buf[hz_pos] <= 13))) s += hz_buf[hz_pos++];
            if (hz_pos >= hz_buf.size()) hz_eof = true;
            if (s.empty()) hz_fail = true;
            return *this;
        }
        template<typename T, typename = std::enable_if_t<std::is_integral_v<T>>> hz_sstream &operator>>(T &v) {
            while (hz_pos < hz_buf.size() && (hz_buf[hz_pos] == ' ' || (hz_buf[hz_pos] >= 9 && hz_buf[hz_pos] <= 13))) hz_pos++;
            bool neg = false, any = false; unsigned long long r = 0;
            if (hz_pos < hz_buf.size() && (hz_buf[hz_pos] == '-' || hz_buf[hz_pos] == '+')) neg = hz_buf[hz_pos++] == '-';
            for (; hz_pos < hz_buf.size(); hz_pos++) {
                char c = hz_buf[hz_pos]; unsigned d;
                if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (c >= 'A' && c <= 'F') d = c - 'A' + 10; else break;
                if (d >= (unsigned) hz_base) break;
                r = r * hz_base + d; any = true;
            }
            if (hz_pos >= hz_buf.size()) hz_eof = true;
            if (!any) { hz_fail = true; v = 0; } else v = (T) (neg ? 0 - r : r);
            return *this;
        }
        int get() { if (hz_pos >= hz_buf.size()) { hz_eof = hz_fail = true; return -1; } return (unsigned char) hz_buf[hz_pos++]; }
        int peek() { if (hz_pos >= hz_buf.size()) { hz_eof = true; return -1; } return (unsigned char) hz_buf[hz_pos]; }
        hz_sstream &put(char c) { hz_buf += c; return *this; }
        hz_sstream &write(const char *s, std::streamsize n) { hz_buf.append(s, (size_t) n); return *this; }
    };
    inline hz_sstream &getline(hz_sstream &s, std::string &out, char delim = '\n') {
        out.clear();
        if (s.hz_eof || s.hz_fail) { s.hz_fail = true; return s; }
        bool got = false;
        while (true) {
            if (s.hz_pos >= s.hz_buf.size()) { s.hz_eof = true; if (!got) s.hz_fail = true; break; }
            char c = s.hz_buf[s.hz_pos++];
            got = true;
            if (c == delim) break;
            out += c;
        }
        return s;
    }
    // ------------------------------------------------------------------------------------------ console
    struct hz_null_ostream {
        template<typename T> hz_null_ostream &operator<<(const T &) { return *this; }
        hz_null_ostream &operator<<(hz_null_ostream &(*)(hz_null_ostream &)) { return *this; }
        hz_null_ostream &operator<<(std::ios_base &(*)(std::ios_base &)) { return *this; }
        hz_null_ostream &flush() { return *this; }
    };
    inline hz_null_ostream hz_cout, hz_cerr, hz_clog;
    inline hz_null_ostream &hz_endl(hz_null_ostream &o) { return o; }
    inline hz_null_ostream &hz_flush(hz_null_ostream &o) { return o; }
    // ------------------------------------------------------------------------------------------ unordered containers
    // insertion-ordered association list: only equality of keys is used
    template<typename K, typename V, typename H = std::hash<K>, typename E = std::equal_to<K>, typename A = std::allocator<std::pair<const K, V>>>
    class hz_unordered_map {
        std::list<std::pair<const K, V>> l;
    public:
        typedef K key_type; typedef V mapped_type; typedef std::pair<const K, V> value_type; typedef size_t size_type;
        typedef typename std::list<value_type>::iterator iterator;
        typedef typename std::list<value_type>::const_iterator const_iterator;
        hz_unordered_map() {}
        hz_unordered_map(const hz_unordered_map &o) : l(o.l) {}
        hz_unordered_map(hz_unordered_map &&o) : l(std::move(o.l)) {}
        hz_unordered_map(std::initializer_list<value_type> i) { for (auto &x: i) insert(x); }
        template<typename It> hz_unordered_map(It a, It b) { for (; a != b; ++a) insert(*a); }
        hz_unordered_map &operator=(const hz_unordered_map &o) { if (this != &o) { l.clear(); for (auto &x: o.l) l.push_back(x); } return *this; }
        hz_unordered_map &operator=(hz_unordered_map &&o) { l = std::move(o.l); return *this; }
        iterator begin() { return l.begin(); } iterator end() { return l.end(); }
        const_iterator begin() const { return l.begin(); } const_iterator end() const { return l.end(); }
        const_iterator cbegin() const { return l.begin(); } const_iterator cend() const { return l.end(); }
        size_t size() const { return l.size(); } bool empty() const { return l.empty(); }
        void clear() { l.clear(); }
        void reserve(size_t) {} void rehash(size_t) {}
        template<typename Q> iterator find(const Q &k) { for (auto i = l.begin(); i != l.end(); ++i) if (E()(i->first, k)) return i; return l.end(); }
        template<typename Q> const_iterator find(const Q &k) const { for (auto i = l.begin(); i != l.end(); ++i) if (E()(i->first, k)) return i; return l.end(); }
        bool contains(const K &k) const { return find(k) != l.end(); }
        size_t count(const K &k) const { return contains(k) ? 1 : 0; }
        V &at(const K &k) { auto i = find(k); if (i == l.end()) std::__throw_out_of_range("unordered_map::at"); return i->second; }
        const V &at(const K &k) const { auto i = find(k); if (i == l.end()) std::__throw_out_of_range("unordered_map::at"); return i->second; }
        V &operator[](const K &k) {
            auto i = find(k);
            if (i != l.end()) return i->second;
            l.emplace_back(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple());
            return l.back().second;
        }
        std::pair<iterator, bool> insert(const value_type &v) {
            auto i = find(v.first);
            if (i != l.end()) return {i, false};
            l.push_back(v);
            return {std::prev(l.end()), true};
        }
        template<typename P, typename = std::enable_if_t<std::is_constructible_v<value_type, P &&>>> std::pair<iterator, bool> insert(P &&v) { return insert(value_type(std::forward<P>(v))); }
        iterator insert(const_iterator, const value_type &v) { return insert(v).first; }
        template<typename... X> std::pair<iterator, bool> emplace(X &&...x) { return insert(value_type(std::forward<X>(x)...)); }
        template<typename... X> std::pair<iterator, bool> try_emplace(const K &k, X &&...x) {
            auto i = find(k);
            if (i != l.end()) return {i, false};
            l.emplace_back(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<X>(x)...));
            return {std::prev(l.end()), true};
        }
        template<typename M> std::pair<iterator, bool> insert_or_assign(const K &k, M &&m) {
            auto i = find(k);
            if (i != l.end()) { i->second = std::forward<M>(m); return {i, false}; }
            return emplace(k, std::forward<M>(m));
        }
        size_t erase(const K &k) { auto i = find(k); if (i == l.end()) return 0; l.erase(i); return 1; }
        iterator erase(iterator i) { return l.erase(i); }
        iterator erase(const_iterator i) { return l.erase(i); }
        void swap(hz_unordered_map &o) { l.swap(o.l); }
        bool operator==(const hz_unordered_map &o) const {
            if (size() != o.size()) return false;
            for (auto &x: l) { auto i = o.find(x.first); if (i == o.end() || !(i->second == x.second)) return false; }
            return true;
        }
    };
    template<typename K, typename H = std::hash<K>, typename E = std::equal_to<K>, typename A = std::allocator<K>>
    class hz_unordered_set {
        std::list<K> l;
    public:
        typedef K key_type; typedef K value_type; typedef size_t size_type;
        typedef typename std::list<K>::const_iterator iterator;
        typedef typename std::list<K>::const_iterator const_iterator;
        hz_unordered_set() {}
        hz_unordered_set(std::initializer_list<K> i) { for (auto &x: i) insert(x); }
        template<typename It> hz_unordered_set(It a, It b) { for (; a != b; ++a) insert(*a); }
        const_iterator begin() const { return l.begin(); } const_iterator end() const { return l.end(); }
        size_t size() const { return l.size(); } bool empty() const { return l.empty(); }
        void clear() { l.clear(); } void reserve(size_t) {}
        const_iterator find(const K &k) const { for (auto i = l.begin(); i != l.end(); ++i) if (E()(*i, k)) return i; return l.end(); }
        bool contains(const K &k) const { return find(k) != l.end(); }
        size_t count(const K &k) const { return contains(k) ? 1 : 0; }
        std::pair<const_iterator, bool> insert(const K &k) { auto i = find(k); if (i != l.end()) return {i, false}; l.push_back(k); return {std::prev(l.end()), true}; }
        template<typename... X> std::pair<const_iterator, bool> emplace(X &&...x) { return insert(K(std::forward<X>(x)...)); }
        size_t erase(const K &k) { auto i = find(k); if (i == l.end()) return 0; l.erase(i); return 1; }
        const_iterator erase(const_iterator i) { return l.erase(i); }
    };
    // ------------------------------------------------------------------------------------------ random numbers
    struct hz_random_device { typedef unsigned result_type; hz_random_device() {} template<typename S> explicit hz_random_device(const S &) {} unsigned operator()() { return (unsigned) hz_rand64_source("random_device"); } static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return ~0u; } double entropy() const { return 32; } };
    template<typename R> struct hz_mt {
        typedef R result_type; uint64_t s, n = 0;
        hz_mt() : s(5489) {} explicit hz_mt(uint64_t s) : s(s) {}
        R operator()() { return (R) hz_mt_source(s, n++); } static constexpr R min() { return 0; } static constexpr R max() { return (R) ~0ull; } void seed(uint64_t v = 5489) { s = v; n = 0; }
    };
    typedef hz_mt<uint64_t> hz_mt19937_64; typedef hz_mt<uint32_t> hz_mt19937;
    template<typename T = int> struct hz_uniform_int_distribution {
        T a, b;
        explicit hz_uniform_int_distribution(T a = 0, T b = std::numeric_limits<T>::max()) : a(a), b(b) {}
        template<typename G> T operator()(G &g) { T r = (T) g(); uint64_t w = (uint64_t) b - (uint64_t) a; if ((w & (w + 1)) == 0) return (T) (a + ((uint64_t) r & w)); if (r < a || r > b) { hzs_assume(r >= a && r <= b); } return r; }
        T min() const { return a; } T max() const { return b; }
    };
    // ------------------------------------------------------------------------------------------ regular expressions
    // A pattern without special characters matches where it occurs as a substring; ".*" matches everywhere.
    struct hz_regex {
        std::string p; bool all = false;
        hz_regex() {}
        hz_regex(const std::string &s) : p(s) {
            if (p == ".*" || p.empty()) all = true;
            for (char c: p) if (c == '(' || c == '[' ) throw std::runtime_error("regex_error");
        }
        hz_regex(const char *s) : hz_regex(std::string(s)) {}
        bool hz_find(const std::string &s) const { return all || s.find(p) != std::string::npos; }
        bool hz_match(const std::string &s) const { return all || s == p; }
    };
    inline bool hz_regex_search(const std::string &s, const hz_regex &r) { return r.hz_find(s); }
    inline bool hz_regex_match(const std::string &s, const hz_regex &r) { return r.hz_match(s); }
    template<typename It> inline bool hz_regex_search(It a, It b, const hz_regex &r) { return r.hz_find(std::string(a, b)); }
    template<typename It> inline bool hz_regex_match(It a, It b, const hz_regex &r) { return r.hz_match(std::string(a, b)); }
    // ------------------------------------------------------------------------------------------ file system
    namespace hz_filesystem {
        struct filesystem_error : std::runtime_error { explicit filesystem_error(const std::string &m) : std::runtime_error(m) {} };
        struct path {
            std::string s;
            path() {}
            path(const std::string &x) : s(x) {}
            path(const char *x) : s(x) {}
            operator std::string() const { return s; }
            const std::string &string() const { return s; }
            const std::string &native() const { return s; }
            const char *c_str() const { return s.c_str(); }
            bool empty() const { return s.empty(); }
            bool is_absolute() const { return !s.empty() && s[0] == '/'; }
            bool operator==(const path &o) const { return s == o.s; }
            // "//", "/./" and "/x/../" are removed; a trailing slash is kept
            path lexically_normal() const {
                if (s.empty()) return path();
                bool abs = s[0] == '/', slash = false;
                std::vector<std::string> v;
                for (size_t i = 0; i < s.size(); ) {
                    while (i < s.size() && s[i] == '/') { i++; slash = true; }
                    std::string t;
                    while (i < s.size() && s[i] != '/') { t += s[i++]; slash = false; }
                    if (t.empty()) continue;
                    if (t == ".") { slash = true; continue; }
                    if (t == "..") { if (!v.empty() && v.back() != "..") { v.pop_back(); slash = true; continue; } if (abs) continue; }
                    v.push_back(t);
                }
                std::string r = abs ? "/" : "";
                for (size_t i = 0; i < v.size(); i++) { if (i) r += '/'; r += v[i]; }
                if (slash && !v.empty()) r += '/';
                return path(r.empty() ? std::string(".") : r);
            }
            path parent_path() const { size_t i = s.size(); while (i && s[i - 1] != '/') i--; while (i > 1 && s[i - 1] == '/') i--; return path(s.substr(0, i)); }
            path filename() const { size_t i = s.size(); while (i && s[i - 1] != '/') i--; return path(s.substr(i)); }
        };
        inline path absolute(const path &p) { if (p.empty()) throw filesystem_error("cannot make absolute path"); return p.is_absolute() ? p : path("/cwd/" + p.s); }
        inline path canonical(const path &p) { path r = absolute(p).lexically_normal(); if (!hz_fs_find(r.c_str())) throw filesystem_error("cannot make canonical path"); return r; }
        inline path weakly_canonical(const path &p) { return absolute(p).lexically_normal(); }
        inline bool exists(const path &p) { return hz_fs_find(p.c_str()) != nullptr; }
        inline bool is_directory(const path &p) { hz_node *n = hz_fs_find(p.c_str()); return n && n->dir; }
        inline bool is_regular_file(const path &p) { hz_node *n = hz_fs_find(p.c_str()); return n && !n->dir; }
        inline uint64_t file_size(const path &p) { hz_node *n = hz_fs_find(p.c_str()); if (!n || n->dir) throw filesystem_error("file_size"); return n->size; }
        inline bool remove(const path &p) { bool e = exists(p); hz_fs_remove(p.c_str()); return e; }
    }
}
#define stringstream hz_sstream
#define istringstream hz_sstream
#define ostringstream hz_sstream
#define cout hz_cout
#define cerr hz_cerr
#define clog hz_clog
#define endl hz_endl
#define unordered_map hz_unordered_map
#define unordered_set hz_unordered_set
#define random_device hz_random_device
#define mt19937_64 hz_mt19937_64
#define mt19937 hz_mt19937
#define uniform_int_distribution hz_uniform_int_distribution
#define regex hz_regex
#define regex_search hz_regex_search
#define regex_match hz_regex_match
#define filesystem hz_filesystem
