// C28: hz_validate_path over every byte string up to a length, and long strings with two arbitrary neighbouring bytes.
#include <hzip_core/utils/validation.h>
static bool accepted(const std::string &s) {
    int r;
    HZ_TRY(r, hz_validate_path(s));
    HZ_CHECK(r != 2, "a rejected path is reported by a standard exception");
    return r == 0;
}
extern "C" void hz_main() {
    uint64_t mode = hzs_param("mode", 0), n;
    char *d;
    if (mode == 0) {
        n = hz_pick((uint8_t) (hzs_param("n", 4) + 1), "length");
        d = (char *) malloc(n);
        for (uint64_t i = 0; i < n; i++) d[i] = hz_sym<char>("c");
    } else {
        static const uint32_t lens[] = {130, 258, 300, 4100, 33000, 66000};
        static const uint16_t at[] = {1, 127, 255, 256, 4094, 32766, 65534};
        n = lens[hz_pick(6, "length")];
        uint64_t p = at[hz_pick(7, "at")];
        if (p + 2 > n) p = n - 2;
        d = (char *) malloc(n);
        for (uint64_t i = 0; i < n; i++) d[i] = i % 7 == 0 && i + 1 < n ? '/' : 'a';
        d[p] = hz_sym<char>("c"); d[p + 1] = hz_sym<char>("c");
    }
    int ok = n > 0;
    if (n) ok &= d[0] == '/';
    for (uint64_t i = 0; i < n; i++) ok &= (d[i] != 0) & (d[i] != '\\') & (d[i] != ' ');
    for (uint64_t i = 1; i < n; i++) ok &= !((d[i] == '/') & (d[i - 1] == '/'));
    std::string s(d, n);
    bool a = accepted(s);
    HZ_CHECK(a == ok, "a path is accepted exactly when it starts with '/', has no NUL, backslash or space and no repeated slash");
    HZ_CHECK(s.size() == n, "validation does not change the path");
    hzs_observe("accepted", a);
    if (a) hzs_reach("accepted"); else hzs_reach("rejected");
    free(d);
}
