// C18/C19: the default codec, without and with a trained model.
#include <hzip_codec/victini/victini.h>
#include <hzip_codec/uncompressed/uncompressed.h>
#include <hzip_core/utils/utils.h>
static rainman::ptr<HZ_Blob> input(uint64_t n, std::vector<uint8_t> &v, const char *name) {
    uint64_t set = hzs_param("set", 0), lo = hzs_param("lo", 0), hi = hzs_param("hi", 255), run = hzs_param("run", 0);
    rainman::ptr<HZ_Blob> b;
    b->data = rainman::ptr<uint8_t>(n);
    b->size = b->o_size = n;
    v.resize(n);
    for (uint64_t i = 0; i < n; i++) {
        uint8_t x;
        static const uint8_t vals[] = {0, 255, 1, 128, 127, 2, 254, 64};
        if (run && i != run && i > 1) x = v[0];         // a long run with two other bytes
        else if (set) x = vals[i < 2 && hzs_param(i ? "b1" : "b0", 9) < 8 ? hzs_param(i ? "b1" : "b0", 9) : hz_pick((uint8_t) set, name)];
        else {
            x = hz_sym<uint8_t>(name);
            hzs_assume(lo <= x && x <= hi);
        }
        v[i] = b->data[i] = x;
    }
    b->mstate = rainman::ptr<HZ_MState>();
    return b;
}
static void same(const rainman::ptr<uint8_t> &d, const std::vector<uint8_t> &v) {
    HZ_CHECK(d.size() == v.size(), "the length is the original length");
    for (uint64_t i = 0; i < v.size(); i++) HZ_CHECK(d[i] == v[i], "every byte is the original byte");
}
// compress, then decode the result both directly and the way a stored blob is decoded
static void roundtrip(const rainman::ptr<HZ_Blob> &b, const std::vector<uint8_t> &v) {
    hzcodec::Victini codec;
    uint64_t n = v.size();
    auto c = codec.compress(b);
    HZ_CHECK(b->size == n && b->o_size == n, "the input sizes are unchanged");
    same(b->data, v);
    HZ_CHECK(c->o_size == n && c->data.size() == c->size && c->size % 4 == 0 && c->size >= 8, "the encoded blob describes itself");
    HZ_CHECK(c->mstate->alg == hzcodec::algorithms::VICTINI, "the encoded blob names its codec");
    hzs_observe("csize", c->size);
    // what a store keeps: copies of header, data and model state
    rainman::ptr<HZ_Blob> s;
    s->o_size = c->o_size; s->size = c->size;
    s->data = rainman::ptr<uint8_t>(c->size);
    for (uint64_t i = 0; i < c->size; i++) s->data[i] = c->data[i];
    HZ_CHECK(c->header.size() == 8, "the header has its size");
    s->header.raw = rainman::ptr<uint8_t>(8);
    for (uint64_t i = 0; i < 8; i++) s->header.raw[i] = c->header.raw[i];
    s->mstate = c->mstate;
    auto d = codec.decompress(s);
    HZ_CHECK(d->o_size == n, "the original size is restored");
    same(d->data, v);
    c->evaluate(b->data);
    if (c->status) {
        HZ_CHECK(c->size < n && c->mstate->alg == hzcodec::algorithms::VICTINI, "a smaller blob stays encoded");
        hzs_reach("smaller");
    } else {
        HZ_CHECK(c->mstate->alg == hzcodec::algorithms::UNCOMPRESSED && c->size == n && c->o_size == n, "otherwise the blob holds the raw data");
        hzcodec::Uncompressed u;
        auto e = u.decompress(c);
        HZ_CHECK(e->o_size == n && e->size == n, "and decodes to the original size");
        same(e->data, v);
        hzs_reach("raw");
    }
}
static uint64_t cell(const rainman::ptr<HZ_MState> &m, uint64_t i, uint64_t j) {        // counts are stored as 64-bit words, row by row
    uint64_t v; memcpy(&v, m->data.pointer() + (i * 256 + j) * 8, 8);
    return __builtin_bswap64(v);
}
static void set_cell(const rainman::ptr<HZ_MState> &m, uint64_t i, uint64_t j, uint64_t v) {
    v = __builtin_bswap64(v); memcpy(m->data.pointer() + (i * 256 + j) * 8, &v, 8);
}
static rainman::ptr<HZ_MState> copy(const rainman::ptr<HZ_MState> &m) {                 // what storing and loading a model state does
    rainman::ptr<HZ_MState> r;
    r->alg = m->alg;
    r->data = rainman::ptr<uint8_t>(m->data.size());
    memcpy(r->data.pointer(), m->data.pointer(), m->data.size());
    return r;
}
static bool equal(const rainman::ptr<HZ_MState> &a, const rainman::ptr<HZ_MState> &b) {
    return a->alg == b->alg && a->data.size() == b->data.size() && !memcmp(a->data.pointer(), b->data.pointer(), 65536 * 8);
}
static void trained() {
    hzcodec::Victini codec;
    uint64_t maxt = hzs_param("train", 2), maxn = hzs_param("n", 2), minn = hzs_param("minn", 0);
    std::vector<uint8_t> t1, t2, v;
    auto b1 = input(hz_pick((uint8_t) (maxt + 1), "length1"), t1, "train");
    auto m1 = codec.train(b1);
    HZ_CHECK(m1->alg == hzcodec::algorithms::VICTINI && !m1->is_empty() && m1->data.size() >= 65536 * 8, "training yields a model state");
    same(b1->data, t1);
    auto k1 = copy(m1);
    if (hz_pick(2, "incremental")) {
        // training with t2 on top of t1 equals the sum of what each contributes
        auto b2 = input(hz_pick((uint8_t) (maxt + 1), "length2"), t2, "train2"), b3 = input(0, v, "");
        auto fresh = rainman::ptr<HZ_Blob>();
        fresh->data = b2->data; fresh->size = b2->size; fresh->o_size = b2->o_size; fresh->mstate = rainman::ptr<HZ_MState>();
        auto m2 = codec.train(fresh);
        b2->mstate = copy(m1);
        auto m12 = codec.train(b2);
        HZ_CHECK(m12->alg == hzcodec::algorithms::VICTINI, "the model state keeps its codec");
        unsigned ok = 1;
        for (uint64_t i = 0; i < 256; i++) for (uint64_t j = 0; j < 256; j++) ok &= cell(m12, i, j) == cell(k1, i, j) + cell(m2, i, j);
        HZ_CHECK(ok, "the statistics are the sum of both trainings");
        m1 = m12; k1 = copy(m12);
        hzs_reach("incremental");
    }
    auto b = input(minn + hz_pick((uint8_t) (maxn - minn + 1), "length"), v, "byte");
    b->mstate = copy(k1);
    roundtrip(b, v);
    HZ_CHECK(equal(b->mstate, k1), "using a model state does not change it");
    hzs_reach("trained");
}
// any model: arbitrary counts in two cells of the row the message uses, the codec round-trips every such model
static void arbitrary() {
    uint64_t n = 2, bits = hzs_param("bits", 32);
    std::vector<uint8_t> v;
    auto b = input(n, v, "byte");
    b->mstate->alg = hzcodec::algorithms::VICTINI;
    b->mstate->data = rainman::ptr<uint8_t>(65537 << 3);
    uint64_t p = v[0] == v[1] ? v[0] : v[1], q = v[0] == v[1] ? 0 : v[0] < v[1] ? v[0] + 1 : v[0];
    uint64_t r = hzs_param("r", 2) < 2 ? hzs_param("r", 2) * 255 : hz_pick(2, "cell") ? 255 : 0;
    if (r == q) r = 128;
    uint64_t seen = hz_pick(2, "seen");
    for (uint64_t i = 0; i < 256; i++) if (i != p) for (uint64_t j = 0; j < 256; j++) set_cell(b->mstate, i, j, 1);
    uint64_t x = hz_sym<uint32_t>("count") >> (32 - bits), y = hz_sym<uint32_t>("other") >> (32 - bits);
    (seen ? x : y)++;                                   // one of the two has occurred
    set_cell(b->mstate, p, q, x);
    set_cell(b->mstate, p, r, y);
    hzcodec::Victini codec;
    auto k = copy(b->mstate);
    auto c = codec.compress(b);
    HZ_CHECK(c->data.size() == c->size && c->o_size == n, "the encoded blob describes itself");
    rainman::ptr<HZ_Blob> s;
    s->o_size = n; s->size = c->size; s->data = c->data; s->header = c->header; s->mstate = k;
    auto d = codec.decompress(s);
    HZ_CHECK(d->o_size == n, "the original size is restored");
    same(d->data, v);
    hzs_reach("arbitrary");
}
extern "C" void hz_main() {
    uint64_t minn = hzs_param("minn", 0), maxn = hzs_param("n", 1), mode = hzs_param("mode", 0);
    uint64_t base = hzs_live();
    if (mode == 1) trained();
    else if (mode == 2) arbitrary();
    else {
        uint64_t n = minn + hz_pick((uint8_t) (maxn - minn + 1), "length");
        std::vector<uint8_t> v;
        auto b = input(n, v, "byte");
        roundtrip(b, v);
    }
    HZ_CHECK(hzs_live() == base, "no memory is leaked");
}
