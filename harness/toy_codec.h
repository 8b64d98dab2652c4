// A small codec registered in place of the real ones: its output depends on the model state and the header, it strips a suffix (so
// that data may or may not be compressible), learns from training data and fails on request. The real codecs are decided by
// C17 - C19; here any codec that inverts itself must do.
#pragma once
#include <hzip_codec/codec_provider.h>
#include <hzip_codec/uncompressed/uncompressed.h>
static uint64_t toyRunning, toyLimit = ~0ull;
struct Toy : hzcodec::AbstractCodec {
    static void fail(const rainman::ptr<HZ_Blob> &b) { if (b->o_size > 0 && hzs_fork(b->data[0] == 0xee)) throw std::runtime_error("codec failure"); }
    static void enter() { toyRunning++; HZ_CHECK(toyRunning <= toyLimit, "no more jobs run at once than configured"); hzs_sched(); toyRunning--; }
    rainman::ptr<HZ_Blob> compress(const rainman::ptr<HZ_Blob> &b) override {
        enter(); fail(b);
        auto m = b->mstate;
        uint64_t n = b->o_size;
        if (!m->is_empty() && m->size() < 1) throw std::runtime_error("no model");
        if (m->is_empty()) { m->data = rainman::ptr<uint8_t>(1); m->data[0] = n ? b->data[n - 1] : 0; }
        m->alg = hzcodec::algorithms::VICTINI;
        uint8_t k = m->data[0];
        auto c = rainman::ptr<HZ_Blob>();
        c->header.raw = rainman::ptr<uint8_t>(2);
        c->header.raw[0] = (uint8_t) n; c->header.raw[1] = 0x5a ^ (n ? b->data[0] : 0);
        uint64_t s = n;
        while (s && hzs_fork(b->data[s - 1] == k)) s--;
        c->data = rainman::ptr<uint8_t>(s);
        for (uint64_t i = 0; i < s; i++) c->data[i] = b->data[i] ^ k;
        c->size = s; c->o_size = n; c->mstate = m;
        return c;
    }
    rainman::ptr<HZ_Blob> decompress(const rainman::ptr<HZ_Blob> &b) override {
        enter();
        auto d = rainman::ptr<HZ_Blob>();
        uint64_t n = b->o_size;
        if (b->header.size() != 2 || b->mstate->size() < 1 || b->size > n || b->data.size() < b->size || hzs_fork(b->header.raw[0] != n)) throw std::runtime_error("not made by this codec");
        d->data = rainman::ptr<uint8_t>(n);
        for (uint64_t i = 0; i < n; i++) d->data[i] = i < b->size ? b->data[i] ^ b->mstate->data[0] : b->mstate->data[0];
        if (hzs_fork(b->header.raw[1] != (0x5a ^ (n ? d->data[0] : 0)))) throw std::runtime_error("not made by this codec");
        d->o_size = n; d->mstate = b->mstate;
        return d;
    }
    rainman::ptr<HZ_MState> train(const rainman::ptr<HZ_Blob> &b) override {
        enter(); fail(b);
        auto m = b->mstate;
        if (!m->is_empty() && m->size() < 1) throw std::runtime_error("no model");
        uint8_t old = m->is_empty() ? 0 : m->data[0];
        m->data = rainman::ptr<uint8_t>(1);
        m->data[0] = old + (b->o_size ? b->data[0] : 0) + 1;
        m->alg = hzcodec::algorithms::VICTINI;
        return m;
    }
};
using namespace hzcodec;
#ifdef TOY_THREE
#define TOY_OTHER(x) , {algorithms::SHARINGAN, x}
#else
#define TOY_OTHER(x)
#endif
std::unordered_map<algorithms::ALGORITHM, const char *> CodecProvider::strmap = {{algorithms::UNCOMPRESSED, "UNCOMPRESSED"}, {algorithms::VICTINI, "VICTINI"} TOY_OTHER("OTHER")};
std::unordered_map<algorithms::ALGORITHM, AbstractCodec *> CodecProvider::codec_map = {{algorithms::UNCOMPRESSED, new Uncompressed()}, {algorithms::VICTINI, new Toy()} TOY_OTHER(new Uncompressed())};
std::unordered_map<algorithms::ALGORITHM, uint64_t> CodecProvider::bsize_map = {{algorithms::UNCOMPRESSED, 4}, {algorithms::VICTINI, 2} TOY_OTHER(2)};
