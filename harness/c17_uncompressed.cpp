// C17: the codec that stores data as it is.
#include <hzip_codec/uncompressed/uncompressed.h>
static uint64_t n; static uint8_t v[16]; static uint64_t osize, id;
static rainman::ptr<HZ_Blob> identical(const rainman::ptr<HZ_Blob> &in, const rainman::ptr<HZ_Blob> &out, hzcodec::algorithms::ALGORITHM alg, uint64_t ms) {
    HZ_CHECK(out.pointer() != in.pointer() && (n == 0 || out->data.pointer() != in->data.pointer()), "a new blob with its own data is returned");
    HZ_CHECK(out->size == n && out->o_size == osize && out->data.size() == n, "sizes are the same");
    for (uint64_t i = 0; i < n; i++) HZ_CHECK(out->data[i] == v[i], "the bytes are the same");
    HZ_CHECK(!out->status, "the blob is not marked compressed");
    HZ_CHECK(out->mstate->alg == alg && out->mstate->data.size() == ms, "the model state is the same");
    HZ_CHECK(in->size == n && in->o_size == osize && in->data.size() == n && in->mstate_id == id, "the input blob is unchanged");
    for (uint64_t i = 0; i < n; i++) HZ_CHECK(in->data[i] == v[i], "the input data is unchanged");
    HZ_CHECK(in->mstate->alg == alg && in->mstate->data.size() == ms, "the input's model state is unchanged");
    return out;
}
extern "C" void hz_main() {
    n = hz_pick((uint8_t) (hzs_param("n", 4) + 1), "size");
    rainman::ptr<HZ_Blob> b;
    b->size = n; b->o_size = osize = hz_sym<uint64_t>("osize"); b->mstate_id = id = hz_sym<uint64_t>("id");
    b->data = rainman::ptr<uint8_t>(n);
    for (uint64_t i = 0; i < n; i++) v[i] = b->data[i] = hz_sym<uint8_t>("data");
    b->status = hz_pick(2, "status");
    bool status = b->status;
    b->mstate = rainman::ptr<HZ_MState>();
    auto alg = b->mstate->alg = (hzcodec::algorithms::ALGORITHM) hz_pick(3, "alg");
    uint64_t ms = hz_pick(3, "mstate");
    b->mstate->data = rainman::ptr<uint8_t>(ms);
    for (uint64_t i = 0; i < ms; i++) b->mstate->data[i] = hz_sym<uint8_t>("mstate");
    hzcodec::Uncompressed codec;
    auto c = identical(b, codec.compress(b), alg, ms);
    rainman::ptr<HZ_Blob> d, e;
    int r, q;
    HZ_TRY(r, d = codec.decompress(b));
    HZ_TRY(q, e = codec.decompress(c));
    HZ_CHECK(r == q && (r == 0 || (r == 1 && osize != n)), "only a blob that announces another original size may be rejected, with an error");
    HZ_CHECK(b->size == n && b->o_size == osize && b->data.size() == n, "the input blob is unchanged");
    if (r == 0) {
        identical(b, d, alg, ms);
        id = 0;
        identical(c, e, alg, ms);
        identical(d, codec.compress(d), alg, ms);
        hzs_reach("identity");
    } else hzs_reach("rejected");
    HZ_CHECK(b->status == status, "the input blob's status is unchanged");
    HZ_TRY(r, codec.train(b));
    HZ_CHECK(r == 1, "training is rejected with an error");
}
