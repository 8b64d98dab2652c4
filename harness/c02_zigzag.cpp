// C02: zig-zag order.  mode 0: one step from an arbitrary cell of an arbitrary grid (all 32-bit widths, heights and positions): it stays
// in the grid, moves on in the zig-zag order, and ends exactly after the last cell.  mode 2: the step is injective; by induction the
// traversal from (0,0) then visits every cell exactly once.  mode 1: complete iterations of all grids up to n x n with the public range interface.
#include <hzip_core/preprocessor/zigzag.h>
typedef hztrans::ZigZagTransformer ZZ;
struct Cell { uint32_t x, y; };
// advance from an arbitrary position with the public iterator
static Cell advance(uint32_t x, uint32_t y, uint32_t W, uint32_t H) {
    ZZ::const_iterator it(ZZ::zigzag_pair{x, y}, W, H);
    ++it;
    auto v = *it;
    return {v.x, v.y};
}
extern "C" void hz_main() {
    if (hzs_param("mode", 0) == 0) {
        uint32_t W = hz_sym<uint32_t>("W"), H = hz_sym<uint32_t>("H"), x = hz_sym<uint32_t>("x"), y = hz_sym<uint32_t>("y");
        hzs_assume(x < W); hzs_assume(y < H);
        ZZ z(W, H);
        auto b = z.begin();
        auto first = *b;
        HZ_CHECK(first.x == 0 && first.y == 0, "the traversal starts at (0,0)");
        HZ_CHECK(z.begin() != z.end(), "a non-empty grid yields at least one cell");
        ZZ::const_iterator it(ZZ::zigzag_pair{x, y}, W, H);
        ++it;
        auto v = *it;
        ZZ::zigzag_pair q{x, y};
        q.next(W, H);
        ZZ::const_iterator it2(ZZ::zigzag_pair{x, y}, W, H);
        it2++;
        auto v2 = *it2;
        HZ_CHECK(v2.x == v.x && v2.y == v.y && q.x == v.x && q.y == v.y, "++it and it++ advance alike");
        hzs_observe("x", v.x); hzs_observe("y", v.y);
        if (x == W - 1 && y == H - 1) {
            hzs_reach("last");
            auto e = z.end();
            HZ_CHECK(it == e && !(it != e), "the last cell is followed by the end position");
        } else {
            hzs_reach("step");
            auto e = z.end();
            HZ_CHECK(it != e && !(it == e), "the end position is only reached after the last cell");
            HZ_CHECK(v.x < W && v.y < H, "every position lies in the grid");
            // diagonal index never decreases; within a diagonal the position grows by one in that diagonal's direction: so no cycle
            uint64_t d0 = (uint64_t) x + y, d1 = (uint64_t) v.x + v.y;
            HZ_CHECK(d1 == d0 || d1 == d0 + 1, "a step stays on its anti-diagonal or moves to the next one");
            if (d1 == d0) HZ_CHECK((d0 & 1) ? v.y == y + 1 : v.x == x + 1, "anti-diagonals are traversed in alternating directions, cell by cell");
        }
    } else if (hzs_param("mode", 0) == 2) {
        // no two cells have the same successor: with the above, the chain from (0,0) visits all W*H cells
        uint32_t W = hz_sym<uint32_t>("W"), H = hz_sym<uint32_t>("H");
        uint32_t x = hz_sym<uint32_t>("x"), y = hz_sym<uint32_t>("y"), a = hz_sym<uint32_t>("a"), b = hz_sym<uint32_t>("b");
        hzs_assume(x < W); hzs_assume(y < H); hzs_assume(a < W); hzs_assume(b < H);
        hzs_assume(x != a || y != b);
        Cell p = advance(x, y, W, H), q = advance(a, b, W, H);
        HZ_CHECK(p.x != q.x || p.y != q.y, "different cells are followed by different cells");
        hzs_reach("two");
        hzs_observe("px", p.x); hzs_observe("qx", q.x);
    } else {
        uint64_t n = hzs_param("n", 5);
        uint32_t W = hz_sym<uint32_t>("W"), H = hz_sym<uint32_t>("H");
        hzs_assume(W <= n); hzs_assume(H <= n);
        ZZ z(W, H);
        unsigned count = 0, seen[16][16] = {}, last = 0;
        for (auto c: z) {
            HZ_CHECK(c.x < W && c.y < H, "an iteration yields only cells of the grid");
            unsigned x = (unsigned) hzs_concretize(c.x), y = (unsigned) hzs_concretize(c.y);
            HZ_CHECK(seen[x][y] == 0, "an iteration yields every cell once");
            seen[x][y] = 1;
            HZ_CHECK(x + y >= last, "the diagonal index does not decrease");
            last = x + y;
            count++;
            HZ_CHECK(count <= W * H, "an iteration ends");
        }
        HZ_CHECK(count == W * H, "an iteration yields all W*H cells");
        if (W == 0 && H != 0) hzs_reach("empty");
        hzs_observe("count", count);
    }
}
