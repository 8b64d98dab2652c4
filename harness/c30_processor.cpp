// C30: every job calls exactly one of its success and error callbacks, then its completion callback, then frees its slot.
#include "toy_codec.h"
#include <hzip_codec/processor/processor.h>
static HZ_Processor *proc; static uint64_t slots, active, done;
struct Log { int success = 0, error = 0, completed = 0; bool seen = false, first = false; };
static Log *logs; static int wanted[4];
static void see(int i) { if (!logs[i].seen) { logs[i].seen = true; active++; HZ_CHECK(active <= slots, "no more jobs run at once than configured"); } }
static void left(int i) { active--; done++; hzs_wake(&done); }
enum { OK_ENCODE, CODEC_FAILS, NO_CONSUMER, ADDR_WITHOUT_ARCHIVE, UNKNOWN_ALG, DECODE_NO_CONSUMER, OK_DECODE, TRAIN_NO_ADDR, TRAIN_NO_ARCHIVE, CALLBACK_THROWS, SUCCESS_THROWS, ERROR_THROWS, COMPLETED_THROWS, DECODE_FAILS, KINDS };
static bool fails(uint64_t k) { return k != OK_ENCODE && k != OK_DECODE && k != SUCCESS_THROWS && k != COMPLETED_THROWS; }
static rainman::ptr<HZ_Job> makeJob(int i, uint64_t k, bool bare) {
    rainman::ptr<HZ_Job> j;
    uint64_t n = hzs_param("n", 2);
    auto c = j->codec; auto b = c->blob;
    b->o_size = b->size = n; b->data = rainman::ptr<uint8_t>(n);
    for (uint64_t x = 0; x < n; x++) { b->data[x] = hz_sym<uint8_t>("data"); }
    hzs_assume(b->data[0] != 0xee);
    c->algorithm = algorithms::VICTINI;
    c->job_type = HZ_CodecJob::ENCODE;
    if (k != NO_CONSUMER && k != DECODE_NO_CONSUMER) c->blob_callback = [i, k](const rainman::ptr<HZ_Blob> &) { see(i); hzs_sched(); if (k == CALLBACK_THROWS) throw std::runtime_error("callback"); };
    switch (k) {
        case CODEC_FAILS: b->data[0] = 0xee; break;
        case ADDR_WITHOUT_ARCHIVE: c->mstate_addr = std::string("/m"); break;
        case UNKNOWN_ALG: { uint32_t a = hz_sym<uint32_t>("algorithm"); hzs_assume(a > 1); c->algorithm = (algorithms::ALGORITHM) a; c->job_type = (HZ_CodecJob::CodecJobType) hz_pick(2, "job"); break; }
        case DECODE_NO_CONSUMER: case OK_DECODE: c->job_type = HZ_CodecJob::DECODE; c->algorithm = algorithms::UNCOMPRESSED; break;
        case DECODE_FAILS: c->job_type = HZ_CodecJob::DECODE; break;
        case TRAIN_NO_ADDR: c->job_type = HZ_CodecJob::TRAIN; break;
        case TRAIN_NO_ARCHIVE: c->job_type = HZ_CodecJob::TRAIN; c->mstate_addr = std::string("/m"); break;
        case ERROR_THROWS: b->data[0] = 0xee; break;
    }
    uint64_t absent = bare ? hz_pick(4, "absent") : 3;      // callbacks are optional
    bool nocompletion = absent == 2;
    wanted[i] = !nocompletion;
    if (absent != 0) j->stub->on_success = [i, k, nocompletion](const std::string &) {
        see(i);
        HZ_CHECK(!logs[i].completed, "success is reported before completion");
        logs[i].success++;
        hzs_sched();
        if (nocompletion) left(i);
        if (k == SUCCESS_THROWS) throw std::runtime_error("callback");
    };
    if (absent != 1) j->stub->on_error = [i, k, nocompletion](const std::string &m) {
        see(i);
        HZ_CHECK(!logs[i].completed, "an error is reported before completion");
        HZ_CHECK(m.size() > 0, "an error says what failed");
        logs[i].error++;
        hzs_sched();
        if (nocompletion) left(i);
        if (k == ERROR_THROWS) throw std::runtime_error("callback");
    };
    if (absent == 0 && !fails(k)) logs[i].success = 1;
    if (absent == 1 && fails(k)) logs[i].error = 1;
    if (absent != 2) j->stub->on_completed = [i, k]() {
        see(i);
        logs[i].completed++;
        hzs_sched();
        left(i);
        if (k == COMPLETED_THROWS) throw std::runtime_error("callback");
    };
    return j;
}
static uint64_t gathered;
extern "C" void hz_main() {
    uint64_t jobs = hzs_param("jobs", 1);
    slots = 1 + hz_pick((uint8_t) hzs_param("slots", 2), "slots");
    toyLimit = slots;
    logs = new Log[jobs];
    proc = new HZ_Processor(slots);
    uint64_t kind[4], waited = 0; static const uint8_t few[] = {OK_ENCODE, CODEC_FAILS, NO_CONSUMER, CALLBACK_THROWS, COMPLETED_THROWS};
    for (uint64_t i = 0; i < jobs; i++) {
        kind[i] = jobs == 1 ? hz_pick(KINDS, "kind") : i == 0 ? few[hz_pick((uint8_t) hzs_param("kinds", 5), "kind")] : i == 1 ? few[hz_pick(2, "kind")] : OK_ENCODE;
        auto j = makeJob((int) i, kind[i], jobs == 1);
        waited++;
        proc->run(j);
    }
    while (done < waited) hzs_wait(&done);
    // every slot is free again: as many jobs as there are slots get in at the same time
    for (uint64_t i = 0; i < slots; i++) {
        rainman::ptr<HZ_Job> j;
        j->codec->blob->data = rainman::ptr<uint8_t>(1); j->codec->blob->data[0] = 0;
        j->codec->blob_callback = [](const rainman::ptr<HZ_Blob> &) { gathered++; hzs_wake(&gathered); while (gathered < slots) hzs_wait(&gathered); };
        j->stub->on_completed = []() { done++; hzs_wake(&done); };
        proc->run(j);
    }
    while (done < waited + slots) hzs_wait(&done);
    for (uint64_t i = 0; i < jobs; i++) {
        HZ_CHECK(logs[i].success + logs[i].error == 1, "exactly one of success and error is reported");
        HZ_CHECK(logs[i].error == fails(kind[i]), "a job that failed reports the error");
        HZ_CHECK(logs[i].completed == wanted[i], "completion is reported once");
        hzs_reach(fails(kind[i]) ? "failed" : "succeeded");
    }
    proc->cycle();
    hzs_reach("slots");
}
