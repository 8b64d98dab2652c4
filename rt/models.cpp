// Models of compiled libstdc++ / libc functions, used only in symbolic runs (native replays use the real library).
#undef stringstream
#include <cstring>
#include <cstdlib>
#include <cstdarg>
// ------------------------------------------------------------------------------------------------ exception classes
// std::exception objects: the message is kept in a std::string* behind the vtable pointer, never freed (as for thrown objects)
namespace std {
    exception::~exception() noexcept {}
    const char *exception::what() const noexcept { return "std::exception"; }
    bad_alloc::~bad_alloc() noexcept {}
    const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
    bad_array_new_length::~bad_array_new_length() noexcept {}
    const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
    bad_cast::~bad_cast() noexcept {}
    const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
    bad_function_call::~bad_function_call() noexcept {}
    const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
    __cow_string::__cow_string() : _M_bytes{} {}
    __cow_string::__cow_string(const std::string &s) : __cow_string(s.c_str(), s.size()) {}
    __cow_string::__cow_string(const char *s, size_t n) { char *p = new char[n + 1]; for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; *(char **) this = p; }
    __cow_string::__cow_string(const __cow_string &o) noexcept : __cow_string(*(const char *const *) &o, strlen(*(const char *const *) &o)) {}
    __cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this != &o) { delete[] *(char **) this; new(this) __cow_string(o); } return *this; }
    __cow_string::~__cow_string() { delete[] *(char **) this; }
#define HZ_EXC(C, B) \
    C::C(const std::string &s) : B(s) {} \
    C::C(const char *s) : B(s) {} \
    C::~C() noexcept {}
#define HZ_ROOT(C) \
    C::C(const std::string &s) : _M_msg(s) {} \
    C::C(const char *s) : _M_msg(s, strlen(s)) {} \
    C::C(const C &o) noexcept : exception(o), _M_msg(o._M_msg) {} \
    C &C::operator=(const C &o) noexcept { _M_msg = o._M_msg; return *this; } \
    C::C(C &&o) noexcept : exception(o), _M_msg(o._M_msg) {} \
    C &C::operator=(C &&o) noexcept { _M_msg = o._M_msg; return *this; } \
    C::~C() noexcept {} \
    const char *C::what() const noexcept { return *(const char *const *) &_M_msg; }
    HZ_ROOT(logic_error)
    HZ_ROOT(runtime_error)
    HZ_EXC(domain_error, logic_error)
    HZ_EXC(invalid_argument, logic_error)
    HZ_EXC(length_error, logic_error)
    HZ_EXC(out_of_range, logic_error)
    HZ_EXC(range_error, runtime_error)
    HZ_EXC(overflow_error, runtime_error)
    HZ_EXC(underflow_error, runtime_error)
    void __throw_bad_alloc() { throw bad_alloc(); }
    void __throw_bad_array_new_length() { throw bad_array_new_length(); }
    void __throw_bad_cast() { throw bad_cast(); }
    void __throw_bad_function_call() { throw bad_function_call(); }
    void __throw_bad_optional_access_() { throw bad_optional_access(); }
    void __throw_logic_error(const char *s) { throw logic_error(s); }
    void __throw_domain_error(const char *s) { throw domain_error(s); }
    void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
    void __throw_length_error(const char *s) { throw length_error(s); }
    void __throw_out_of_range(const char *s) { throw out_of_range(s); }
    void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
    void __throw_runtime_error(const char *s) { throw runtime_error(s); }
    void __throw_range_error(const char *s) { throw range_error(s); }
    void __throw_overflow_error(const char *s) { throw overflow_error(s); }
    void __throw_underflow_error(const char *s) { throw underflow_error(s); }
    void __throw_system_error(int) { throw runtime_error("system_error"); }
    // -------------------------------------------------------------------------------------------- lists
    namespace __detail {
        void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
        void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
        void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
            if (this == last) return;
            last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
            _List_node_base *t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
        }
        void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
            if (x._M_next != &x) {
                if (y._M_next != &y) {
                    std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
                    x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
                } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
            } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
        }
    }
    // -------------------------------------------------------------------------------------------- maps and sets: unbalanced search trees
    static _Rb_tree_node_base *hz_rbmin(_Rb_tree_node_base *x) { while (x->_M_left) x = x->_M_left; return x; }
    static _Rb_tree_node_base *hz_rbmax(_Rb_tree_node_base *x) { while (x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept {
        if (x->_M_right) return hz_rbmin(x->_M_right);
        _Rb_tree_node_base *y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        return x->_M_right != y ? y : x;
    }
    const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
    _Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept {
        if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
        if (x->_M_left) return hz_rbmax(x->_M_left);
        _Rb_tree_node_base *y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        return y;
    }
    const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
        x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
        if (left) {
            p->_M_left = x;
            if (p == &h) { h._M_parent = x; h._M_right = x; }
            else if (p == h._M_left) h._M_left = x;
        } else {
            p->_M_right = x;
            if (p == h._M_right) h._M_right = x;
        }
    }
    _Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
        auto repl = [&](_Rb_tree_node_base *o, _Rb_tree_node_base *n) {
            if (h._M_parent == o) h._M_parent = n;
            else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n;
            else o->_M_parent->_M_right = n;
            if (n) n->_M_parent = o->_M_parent;
        };
        if (!z->_M_left) repl(z, z->_M_right);
        else if (!z->_M_right) repl(z, z->_M_left);
        else {
            _Rb_tree_node_base *y = hz_rbmin(z->_M_right);
            if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
            repl(z, y);
            y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
        }
        if (h._M_parent) { h._M_left = hz_rbmin(h._M_parent); h._M_right = hz_rbmax(h._M_parent); }
        else { h._M_left = &h; h._M_right = &h; }
        return z;
    }
    size_t _Hash_bytes(const void *p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 31 + ((const unsigned char *) p)[i]; return h; }
}
extern "C" {
// ------------------------------------------------------------------------------------------------ C strings and numbers
int hz_strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (int) (unsigned char) *a - (int) (unsigned char) *b; }
int hz_strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) a++, b++, n--; return n ? (int) (unsigned char) *a - (int) (unsigned char) *b : 0; }
char *hz_strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *hz_strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *hz_strchr(const char *s, int c) { for (;; s++) { if (*s == (char) c) return (char *) s; if (!*s) return nullptr; } }
char *hz_strrchr(const char *s, int c) { const char *r = nullptr; for (;; s++) { if (*s == (char) c) r = s; if (!*s) return (char *) r; } }
int hz_abs(int x) { return x < 0 ? -x : x; }
long hz_labs(long x) { return x < 0 ? -x : x; }
int hz_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int hz_isdigit(int c) { return c >= '0' && c <= '9'; }
int hz_isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int hz_isalnum(int c) { return isdigit(c) || isalpha(c); }
int hz_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int hz_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
extern int *hz___errno_location();
unsigned long long hz_strtoull(const char *s, char **end, int base) {
    const char *q = s;
    while (isspace((unsigned char) *q)) q++;
    bool neg = false;
    if (*q == '-' || *q == '+') neg = *q++ == '-';
    if ((base == 0 || base == 16) && q[0] == '0' && (q[1] == 'x' || q[1] == 'X')) { q += 2; base = 16; }
    else if (base == 0) base = q[0] == '0' ? 8 : 10;
    unsigned long long r = 0; unsigned digits = 0; bool any = false, over = false;
    for (;; q++) {
        unsigned c = (unsigned char) *q, d;
        if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
        if (d >= (unsigned) base) break;
        // up to 19 decimal digits cannot overflow
        if (base != 10 || ++digits > 19) { if (r > ~0ull / (unsigned) base || r * (unsigned) base > ~0ull - d) over = true; }
        r = r * (unsigned) base + d; any = true;
    }
    if (end) *end = (char *) (any ? q : s);
    if (over) { *hz___errno_location() = 34; return ~0ull; }
    return neg ? 0 - r : r;
}
long long hz_strtoll(const char *s, char **end, int base) {
    const char *q = s;
    while (isspace((unsigned char) *q)) q++;
    bool neg = *q == '-';
    if (*q == '-' || *q == '+') q++;
    if (*q == '-' || *q == '+' || isspace((unsigned char) *q)) { if (end) *end = (char *) s; return 0; }
    char *e;
    unsigned long long r = hz_strtoull(q, &e, base);
    if (e == q) { if (end) *end = (char *) s; return 0; }
    if (end) *end = e;
    if (r > (1ull << 63) - (neg ? 0 : 1)) { *hz___errno_location() = 34; return neg ? (long long) (1ull << 63) : (long long) ((1ull << 63) - 1); }
    return (long long) (neg ? 0 - r : r);
}
unsigned long hz_strtoul(const char *s, char **e, int b) { return hz_strtoull(s, e, b); }
long hz_strtol(const char *s, char **e, int b) { return hz_strtoll(s, e, b); }
long hz___isoc23_strtol(const char *s, char **e, int b) { return hz_strtoll(s, e, b); }
unsigned long hz___isoc23_strtoul(const char *s, char **e, int b) { return hz_strtoull(s, e, b); }
long long hz___isoc23_strtoll(const char *s, char **e, int b) { return hz_strtoll(s, e, b); }
unsigned long long hz___isoc23_strtoull(const char *s, char **e, int b) { return hz_strtoull(s, e, b); }
int hz_atoi(const char *s) { return (int) hz_strtoll(s, nullptr, 10); }
long hz_atol(const char *s) { return hz_strtoll(s, nullptr, 10); }
// ------------------------------------------------------------------------------------------------ formatted output (integers, strings, characters)
int hz_vsnprintf(char *out, size_t n, const char *f, va_list ap) {
    size_t k = 0;
    auto put = [&](char c) { if (k + 1 < n) out[k] = c; k++; };
    for (; *f; f++) {
        if (*f != '%') { put(*f); continue; }
        f++;
        bool zero = false, left = false, alt = false, plus = false; int width = 0, prec = -1, lng = 0;
        for (;; f++) { if (*f == '0') zero = true; else if (*f == '-') left = true; else if (*f == '#') alt = true; else if (*f == '+') plus = true; else break; }
        if (*f == '*') { width = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
        while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j' || *f == 't') { if (*f != 'h') lng++; f++; }
        char t[32]; int p = 32;
        const char *s = nullptr; size_t len = 0;
        switch (*f) {
            case 'd': case 'i': {
                long v = lng ? va_arg(ap, long) : (long) va_arg(ap, int);
                unsigned long u = v < 0 ? 0ul - (unsigned long) v : (unsigned long) v;
                do { t[--p] = (char) ('0' + u % 10); u /= 10; } while (u);
                while (32 - p < prec) t[--p] = '0';
                if (v < 0) t[--p] = '-'; else if (plus) t[--p] = '+';
                s = t + p; len = (size_t) (32 - p);
                break;
            }
            case 'u': case 'x': case 'X': case 'o': {
                unsigned long u = lng ? va_arg(ap, unsigned long) : (unsigned long) va_arg(ap, unsigned);
                unsigned b = *f == 'u' ? 10 : *f == 'o' ? 8 : 16;
                do { unsigned d = (unsigned) (u % b); t[--p] = (char) (d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10); u /= b; } while (u);
                while (32 - p < prec) t[--p] = '0';
                if (alt && b == 16) { t[--p] = *f; t[--p] = '0'; }
                s = t + p; len = (size_t) (32 - p);
                break;
            }
            case 'c': t[31] = (char) va_arg(ap, int); s = t + 31; len = 1; break;
            case 's': s = va_arg(ap, const char *); while ((prec < 0 || len < (size_t) prec) && s[len]) len++; break;
            case 'p': { (void) va_arg(ap, void *); s = "0x0"; len = 3; break; }
            case '%': s = "%"; len = 1; break;
            default: hzs_bound("unsupported format directive"); return 0;
        }
        if (!left) for (size_t i = len; i < (size_t) width; i++) put(zero ? '0' : ' ');
        for (size_t i = 0; i < len; i++) put(s[i]);
        if (left) for (size_t i = len; i < (size_t) width; i++) put(' ');
    }
    if (n) out[k < n ? k : n - 1] = 0;
    return (int) k;
}
int hz_snprintf(char *out, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(out, n, f, ap); va_end(ap); return r; }
int hz_sprintf(char *out, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(out, 1 << 20, f, ap); va_end(ap); return r; }
int hz_printf(const char *, ...) { return 0; }
int hz_fprintf(FILE *, const char *, ...) { return 0; }
}
