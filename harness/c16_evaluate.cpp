// C16: HZ_Blob::evaluate.
#include <hzip_core/blob/blob.h>
extern "C" void hz_main() {
    uint64_t m = hzs_param("n", 3);
    HZ_Blob b;
    b.o_size = hz_pick((uint8_t) (m + 1), "original");
    b.size = hz_pick((uint8_t) (m + 2), "encoded");
    uint64_t enc = b.size, hs = hz_pick(3, "header");
    rainman::ptr<uint8_t> orig(b.o_size), data(b.size);
    uint8_t ov[16], ev[16], hv[4], mv;
    for (uint64_t i = 0; i < b.o_size; i++) ov[i] = orig[i] = hz_sym<uint8_t>("orig");
    for (uint64_t i = 0; i < b.size; i++) ev[i] = data[i] = hz_sym<uint8_t>("enc");
    b.data = data;
    b.header.raw = rainman::ptr<uint8_t>(hs);
    for (uint64_t i = 0; i < hs; i++) hv[i] = b.header.raw[i] = hz_sym<uint8_t>("header");
    bool model = hz_pick(2, "model");
    auto ms = rainman::ptr<HZ_MState>();
    b.mstate = ms;
    if (model) {
        ms->alg = (hzcodec::algorithms::ALGORITHM) (1 + hz_pick(2, "alg"));
        ms->data = rainman::ptr<uint8_t>(1);
        mv = ms->data[0] = hz_sym<uint8_t>("mstate");
    }
    uint64_t id = b.mstate_id = hz_sym<uint64_t>("id");
    auto alg = ms->alg;
    b.status = hz_pick(2, "status");
    b.evaluate(orig);
    if (enc < b.o_size) {
        HZ_CHECK(b.status, "a blob that became smaller is marked compressed");
        HZ_CHECK(b.size == enc && b.data.pointer() == data.pointer(), "the encoded data of a smaller blob is kept");
        for (uint64_t i = 0; i < enc; i++) HZ_CHECK(b.data[i] == ev[i], "the encoded bytes are untouched");
        HZ_CHECK(b.mstate->alg == alg && b.mstate.pointer() == ms.pointer() && b.mstate_id == id, "the model state of a smaller blob is kept");
        hzs_reach("smaller");
    } else {
        HZ_CHECK(!b.status, "a blob that did not become smaller is marked uncompressed");
        HZ_CHECK(b.size == b.o_size, "an uncompressed blob has the original size");
        HZ_CHECK(b.data.size() >= b.o_size, "an uncompressed blob holds all of the data");
        for (uint64_t i = 0; i < b.o_size; i++) HZ_CHECK(b.data[i] == ov[i], "an uncompressed blob holds the original bytes");
        HZ_CHECK(b.mstate->is_empty() && b.mstate->alg == hzcodec::algorithms::UNCOMPRESSED, "an uncompressed blob carries no model state");
        if (model) HZ_CHECK(ms->alg == alg && ms->data.size() == 1 && ms->data[0] == mv, "the model state itself, which others may use, is not changed");
        hzs_reach("raw");
    }
    for (uint64_t i = 0; i < b.o_size; i++) HZ_CHECK(orig[i] == ov[i], "the original data is not changed");
    HZ_CHECK(b.header.size() == hs, "the header is kept");
    for (uint64_t i = 0; i < hs; i++) HZ_CHECK(b.header.raw[i] == hv[i], "the header is kept");
}
