// C14: first-order context model against a table of counts, for every history of operations.
#include <hzip_core/models/first_order_context.h>
extern "C" void hz_main() {
    uint64_t n = 1 + hz_pick((uint8_t) hzs_param("n", 3), "alphabet"), k = hzs_param("k", 4);
    uint64_t base = hzs_live();
    {
        hzmodels::FirstOrderContextModel a, b;
        a.set_alphabet_size(n); b.set_alphabet_size(n);
        uint64_t exp[8][8], prev = 0; bool started = false;
        for (uint64_t i = 0; i < n; i++) for (uint64_t j = 0; j < n; j++) exp[i][j] = 1;
        auto compare = [&]() {
            for (uint64_t c = 0; c < n; c++) {
                auto d = a.get_dist(c), e = b.get_dist(c);
                for (uint64_t s = 0; s < n; s++) {
                    HZ_CHECK(d[s] == exp[c][s], "the distribution is the initial one plus the recorded transitions");
                    HZ_CHECK(d[s] == e[s], "two models fed the same history agree");
                }
            }
        };
        compare();
        // any state of the model: every cell holds an arbitrary value, any symbol (or none) was seen last
        for (uint64_t i = 0; i < n; i++) for (uint64_t j = 0; j < n; j++) { uint64_t v = hz_sym<uint64_t>("cell"); a.set(i, j, v); b.set(i, j, v); exp[i][j] = v; }
        if (uint64_t p = hz_pick((uint8_t) (n + 1), "last")) { a.update(p - 1); b.update(p - 1); prev = p - 1; started = true; }
        compare();
        for (uint64_t i = 0; i < k; i++) {
            uint64_t op = hz_pick(5, "op"), p = hz_pick((uint8_t) n, "p"), q = op > 1 ? hz_pick((uint8_t) n, "q") : 0;
            uint64_t d = op ? hz_sym<uint64_t>("d") : 1;
            switch (op) {
                case 0: a.update(p); b.update(p); break;
                case 1: a.update(p, d); b.update(p, d); break;
                case 2: a.update(p, q, d); b.update(p, q, d); break;
                case 3: a.revert(p, q, d); b.revert(p, q, d); break;
                default: a.set(p, q, d); b.set(p, q, d); break;
            }
            if (op < 2) { if (started) exp[prev][p] += d; prev = p; started = true; }
            else if (op == 2) exp[p][q] += d;
            else if (op == 3) exp[p][q] -= d;
            else exp[p][q] = d;
            if (i + 1 == k) compare();
        }
        // the distribution handed out is the model's own row: later updates are visible in it
        auto row = a.get_dist(n - 1);
        a.set(n - 1, 0, 7);
        HZ_CHECK(row[0] == 7, "a distribution obtained earlier follows the model");
        // starting over with a (new) alphabet gives the initial distributions
        a.set_alphabet_size(n + 1);
        for (uint64_t c = 0; c <= n; c++) for (uint64_t s = 0; s <= n; s++) HZ_CHECK(a.get_dist(c)[s] == 1, "a new alphabet starts from the initial distributions");
        hzs_reach("history");
    }
    HZ_CHECK(hzs_live() == base, "all memory is released");
}
