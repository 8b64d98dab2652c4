// C31: what an encode job delivers or stores decodes to the original data.
#include "archive_world.h"
#ifdef REAL
#include <hzip_codec/codec_provider.h>
using namespace hzcodec;
#else
#include "toy_codec.h"
#endif
#include <hzip_codec/processor/processor.h>
static HZ_Processor *proc; static rainman::ptr<HZ_Archive> arch; static uint64_t ended, stored; static bool got, failed, haveId;
static void go(const rainman::ptr<HZ_Job> &j) {
    uint64_t was = ended;
    failed = false;
    j->stub->on_error = [](const std::string &) { failed = true; };
    j->stub->on_completed = []() { ended++; hzs_wake(&ended); };
    proc->run(j);
    while (ended == was) hzs_wait(&ended);
}
static std::vector<uint8_t> *data;
static rainman::ptr<HZ_Blob> input(const std::vector<uint8_t> &d) {
    rainman::ptr<HZ_Blob> b;
    b->size = b->o_size = d.size(); b->data = rainman::ptr<uint8_t>(d.size());
    for (size_t i = 0; i < d.size(); i++) b->data[i] = d[i];
    return b;
}
static void decoded(const rainman::ptr<HZ_Blob> &b, bool withArchive, const char *addr) {
    rainman::ptr<HZ_Job> j;
    j->codec->job_type = HZ_CodecJob::DECODE;
    j->codec->blob = b;
    j->codec->algorithm = b->mstate->alg;
    if (withArchive) j->codec->archive = arch;
    if (addr) j->codec->mstate_addr = std::string(addr);
    got = false;
    j->codec->blob_callback = [](const rainman::ptr<HZ_Blob> &d) {
        got = true;
        HZ_CHECK(d->o_size == data->size() && d->data.size() >= data->size(), "decoded data has the original size");
        for (size_t i = 0; i < data->size() && i < d->data.size(); i++) HZ_CHECK(d->data[i] == (*data)[i], "decoded data is the original data");
    };
    go(j);
    HZ_CHECK(!failed && got, "encoded data can be decoded");
}
static rainman::ptr<HZ_Job> trainJob(const std::vector<uint8_t> &d, const char *addr, bool withArchive, uint32_t alg) {
    rainman::ptr<HZ_Job> j;
    j->codec->job_type = HZ_CodecJob::TRAIN; j->codec->algorithm = (algorithms::ALGORITHM) alg; j->codec->blob = input(d);
    if (addr) j->codec->mstate_addr = std::string(addr);
    if (withArchive) j->codec->archive = arch;
    return j;
}
static std::vector<uint8_t> bytes(uint64_t n, bool lesson = false) {
    std::vector<uint8_t> d;
#ifdef REAL
    uint64_t kind = lesson ? 0 : hz_pick((uint8_t) hzs_param("kinds", 3), "content");
    for (uint64_t i = 0; i < n; i++) d.push_back(kind == 0 ? 7 : kind == 1 ? (uint8_t) (i * 37) : (uint8_t) (i / 9 * 3));
#else
    for (uint64_t i = 0; i < n; i++) d.push_back(hz_sym<uint8_t>("byte"));
    if (n) hzs_assume(d[0] != 0xee);
#endif
    return d;
}
extern "C" void hz_main() {
    uint64_t maxn = hzs_param("n", 2), mode = hzs_param("mode", 0);
    idCounter = 1; idRepeat = 0;
    hz_fs_create("/tmp", true); hz_fs_create("/tmp/hz", true);
    proc = new HZ_Processor(1);
    arch = rainman::ptr<HZ_Archive>(1, std::string("/tmp/hz/archive"));
    arch->load();
    // "/t" is a trained model state, "/e" one without a model
    std::vector<uint8_t> lesson = bytes(hzs_param("lesson", 1), true);
    { auto j = trainJob(lesson, "/t", true, algorithms::VICTINI); go(j); HZ_CHECK(!failed && arch->check_mstate_exists("/t"), "training installs a model state"); }
    { rainman::ptr<HZ_MState> e; arch->install_mstate("/e", e); }
    // "/f" one of another codec
    { rainman::ptr<HZ_MState> f; f->alg = (algorithms::ALGORITHM) 2; f->data = rainman::ptr<uint8_t>(1); f->data[0] = hz_sym<uint8_t>("foreign"); arch->install_mstate("/f", f); }
    data = new std::vector<uint8_t>(bytes(hzs_param("minn", 0) + hz_pick((uint8_t) (maxn - hzs_param("minn", 0) + 1), "n")));
    if (mode == 0) {
        static const char *ADDR[] = {nullptr, "/t", "/e", "/absent", "bad path", "/f"};
        rainman::ptr<HZ_Job> j;
        bool withArchive = hz_pick(2, "archive"), withCallback = hz_pick(2, "callback");
        const char *addr = ADDR[hz_pick((uint8_t) hzs_param("addrs", 6), "address")];
        uint32_t alg = hz_pick(3, "algorithm"); // 2: not registered
#ifdef REAL
        if (alg == 2) alg = 77;
#endif
        bool own = hz_pick(2, "own");
        j->codec->job_type = HZ_CodecJob::ENCODE; j->codec->algorithm = (algorithms::ALGORITHM) alg; j->codec->blob = input(*data);
        if (own) { rainman::ptr<HZ_Blob> t; arch->inject_mstate("/t", t); j->codec->blob->mstate = t->mstate; }
        if (withArchive) j->codec->archive = arch;
        if (addr) j->codec->mstate_addr = std::string(addr);
        rainman::ptr<HZ_Blob> out; haveId = false; bool delivered = false;
        if (withCallback) j->codec->blob_callback = [&out, &delivered](const rainman::ptr<HZ_Blob> &b) { out = b; delivered = true; };
        j->codec->blob_id_callback = [](uint64_t id) { stored = id; haveId = true; };
        go(j);
        bool good = (withArchive || (withCallback && !addr)) && (!addr || addr == ADDR[1] || addr == ADDR[2] || (addr == ADDR[5] && alg == algorithms::UNCOMPRESSED)) && alg < 2;
        HZ_CHECK(failed == !good, "a job is rejected exactly when its archive, address, consumer or codec is missing");
        if (!good) { HZ_CHECK(!delivered && !haveId, "a rejected job delivers nothing"); hzs_reach("rejected"); return; }
        HZ_CHECK(delivered == withCallback && haveId == withArchive, "results go where they were asked for");
        if (withCallback) {
            HZ_CHECK(out->o_size == data->size() && out->size <= out->o_size && out->status == (out->size < out->o_size), "the encoded blob is never larger");
            if (out->status && addr == ADDR[1]) { // the same with the model state taken from the archive
                auto c = rainman::ptr<HZ_Blob>(); *c = *out; c->mstate = rainman::ptr<HZ_MState>(); c->mstate->alg = out->mstate->alg;
                decoded(c, true, addr);
                hzs_reach("address");
            }
            decoded(out, false, nullptr);
        }
        if (withArchive) {
            auto b = arch->read_blob(stored);
            if (b->mstate->size() && addr == ADDR[1] && b->status) { int r = 0; HZ_TRY(r, arch->uninstall_mstate("/t")); HZ_CHECK(r == 1, "the model state in use stays installed"); }
            decoded(b, true, nullptr);
            arch->close();
            arch = rainman::ptr<HZ_Archive>(1, std::string("/tmp/hz/archive"));
            arch->load();
            decoded(arch->read_blob(stored), true, nullptr);
            hzs_reach("stored");
        }
        hzs_reach("decoded");
    } else {
        // training: replaces the model state, or leaves everything as it was
        bool withArchive = hz_pick(2, "archive"), used = hz_pick(2, "used");
        static const char *ADDR[] = {"/t", "/new", nullptr, "/e", "bad path", "/t/x", "/f"};
        const char *addr = ADDR[hz_pick((uint8_t) hzs_param("addrs", 7), "address")];
        uint32_t alg = hz_pick(3, "algorithm");
        bool breaks = hz_pick(2, "fails");
        bool stays = false;
        if (used) { // something depends on "/t" (if it could be compressed)
            rainman::ptr<HZ_Job> j;
            j->codec->algorithm = algorithms::VICTINI; j->codec->blob = input(*data); j->codec->archive = arch; j->codec->mstate_addr = std::string("/t");
            j->codec->blob_id_callback = [](uint64_t id) { stored = id; };
            go(j);
            stays = arch->read_blob(stored)->status;
        }
        auto before = arch->read_mstate("/t");
        std::vector<uint8_t> more = bytes(1);
#ifndef REAL
        if (breaks) more[0] = 0xee;
#else
        breaks = false;
#endif
        auto j = trainJob(more, addr, withArchive, alg);
        go(j);
        bool good = withArchive && addr && addr != ADDR[4] && addr != ADDR[5] && addr != ADDR[6] && alg == algorithms::VICTINI && !breaks && !(addr == ADDR[0] && stays);
        HZ_CHECK(failed == !good, "a training job is rejected exactly when it cannot be carried out");
        HZ_CHECK(arch->check_mstate_exists("/t") && arch->check_mstate_exists("/e") && arch->check_mstate_exists("/new") == (good && addr == ADDR[1]), "exactly the requested model state is installed");
        auto after = arch->read_mstate("/t");
        if (!good || addr != ADDR[0]) {
            HZ_CHECK(after->size() == before->size() && after->alg == before->alg, "a model state that was not trained stays the same");
            for (uint64_t i = 0; i < before->size(); i++) HZ_CHECK(after->data[i] == before->data[i], "a model state that was not trained stays the same");
            hzs_reach("kept");
        }
#ifndef REAL
        else HZ_CHECK(after->data[0] == (uint8_t) (before->data[0] + more[0] + 1), "training continues from the installed model state");
#endif
        if (used) decoded(arch->read_blob(stored), true, nullptr);
        hzs_reach(good ? "trained" : "refused");
    }
}
