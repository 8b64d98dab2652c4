// C15: codec parameters: byte form and typed lookup.
#include <hzip_core/blob/blob.h>
static std::string str(uint64_t max, const char *name) {
    uint64_t n = hz_pick((uint8_t) (max + 1), "length");
    std::string s;
    for (uint64_t i = 0; i < n; i++) s += hz_sym<char>(name);
    return s;
}
extern "C" void hz_main() {
    uint64_t mode = hzs_param("mode", 0);
    uint64_t base = hzs_live();
    if (mode == 0) {
        uint64_t k = hz_pick((uint8_t) (hzs_param("k", 2) + 1), "count"), len = hzs_param("len", 1);
        HZ_Params p;
        std::string key[4], val[4];
        for (uint64_t i = 0; i < k; i++) {
            key[i] = str(len, "key"); val[i] = str(len, "value");
            p.params[key[i]] = val[i];
        }
        auto raw = p.to_byte_array();
        auto q = HZ_Params::from_byte_array(raw);
        HZ_CHECK(q.params.size() == p.params.size(), "as many parameters are restored as were stored");
        for (uint64_t i = 0; i < k; i++) {
            uint64_t last = i;
            for (uint64_t j = i + 1; j < k; j++) if (key[j] == key[i]) last = j;
            HZ_CHECK(q.params.contains(key[i]), "every parameter name is restored");
            HZ_CHECK(q.params[key[i]] == val[last], "every parameter value is restored");
            HZ_CHECK(q.get<std::string>(key[i], "def") == val[last], "a text lookup returns the stored value");
        }
        std::string other = str(len, "other");
        bool known = false;
        for (uint64_t i = 0; i < k; i++) if (key[i] == other) known = true;
        if (!known) {
            std::string d = str(len, "default");
            HZ_CHECK(q.get<std::string>(other, d) == d, "an unknown name gives the default");
            HZ_CHECK(q.params.size() == p.params.size() && !q.params.contains(other), "a lookup does not add parameters");
            hzs_reach("unknown");
        }
        // once more: the byte form of the restored set restores the same set
        auto raw2 = q.to_byte_array();
        HZ_CHECK(raw2.size() == raw.size(), "the byte form of the restored set has the same size");
        if (k == 2) hzs_reach("two");
    } else if (mode == 2) {               // long names and values
        static const uint16_t lens[] = {254, 255, 256, 257, 300};
        uint64_t a = lens[hz_pick(5, "name-length")], b = lens[hz_pick(5, "value-length")];
        HZ_Params p;
        std::string key = std::string(a - 2, 'k'), val = std::string(b - 2, 'v');
        key = hz_sym<char>("first") + key + hz_sym<char>("last");
        val = hz_sym<char>("first") + val + hz_sym<char>("last");
        p.params[key] = val;
        auto q = HZ_Params::from_byte_array(p.to_byte_array());
        HZ_CHECK(q.params.size() == 1 && q.params.contains(key), "a long parameter name is restored");
        HZ_CHECK(q.params[key] == val, "a long parameter value is restored");
        hzs_reach("long");
    } else if (mode == 3) {               // numbers near the ends of the 64-bit ranges
        bool sign = hz_pick(2, "signed"), neg = sign && hz_pick(2, "negative");
        std::string s = neg ? "-" : "";
        s += sign ? "9223372036854775" : "1844674407370955";
        uint64_t v = sign ? 9223372036854775ull : 1844674407370955ull, w = 0, tail = sign ? 3 : 4;
        for (uint64_t i = 0; i < tail; i++) {
            char c = hz_sym<char>("digit");
            hzs_assume((c >= '0') & (c <= '9'));
            s += c; v = v * 10 + (unsigned) (c - '0'); w = w * 10 + (unsigned) (c - '0');
        }
        hzs_assume(w <= (sign ? neg ? 808u : 807u : 1615u));
        HZ_Params p;
        p.params["x"] = s;
        if (sign) HZ_CHECK(p.get<int64_t>("x", "5") == (int64_t) (neg ? 0 - v : v), "a signed lookup returns the number stored");
        else HZ_CHECK(p.get<uint64_t>("x", "5") == v, "an unsigned lookup returns the number stored");
        hzs_reach("large");
    } else {                              // typed lookups
        uint64_t n = 1 + hz_pick((uint8_t) hzs_param("digits", 18), "digits");
        bool neg = hz_pick(2, "negative"), present = hz_pick(2, "present");
        std::string s = neg ? "-" : "";
        uint64_t v = 0;
        for (uint64_t i = 0; i < n; i++) {
            char c = hz_sym<char>("digit");
            hzs_assume((c >= (i || n == 1 ? '0' : '1')) & (c <= '9'));
            s += c;
            unsigned d = (unsigned) (unsigned char) c - '0';
            v = v * 10 + d;
        }
        HZ_Params p;
        p.params["other"] = "7";
        if (present) p.params["x"] = s;
        const std::string def = present ? "5" : s;
        if (!neg) HZ_CHECK(p.get<uint64_t>("x", def) == v, "an unsigned lookup returns the number stored, or the default's");
        HZ_CHECK(p.get<int64_t>("x", def) == (int64_t) (neg ? 0 - v : v), "a signed lookup returns the number stored, or the default's");
        HZ_CHECK(p.get<std::string>("x", def) == s, "a text lookup returns the stored text, or the default");
        HZ_CHECK(p.params.size() == 1 + present, "a lookup does not add parameters");
        hzs_reach(present ? "present" : "absent");
    }
    (void) base;
}
