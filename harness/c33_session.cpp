// C33: sessions admit only clients that know the password, and always end by closing the socket and freeing the slot once.
#ifdef SERVER
#define OWN_IO
#endif
#include "net_world.h"
#include <hzip_network/api/api.h>
#include <hzip_network/api/api_enums.h>
#include "toy_codec.h"
// Numbers from a random device are pairwise different; a generator's output is a function of its seed and position.
static uint64_t devs[8], ndev;
extern "C" unsigned long hz_rand64_source(const char *) {
    if (hzs_param("api", 0)) return 77;
    uint32_t v = hz_sym<uint32_t>("random-device");
    for (uint64_t i = 0; i < ndev; i++) hzs_assume(devs[i] != v);
    devs[ndev++] = v;
    return v;
}
extern "C" unsigned long hz_mt_source(unsigned long seed, unsigned long n) {
    if (hzs_param("tokens", 0)) return seed * 0x100000001ull + (n << 32);
    return hz_sym<uint64_t>("random");
}
static bool extraGot;
// ---- Api::start
static const int MAXC = 6;
static int accepted, closedFd[MAXC + 1], usedFd[MAXC + 1], active; static uint64_t wantConns, maxInst; static bool refused[MAXC + 1];
#ifdef SERVER
extern "C" long hz_send(int fd, const void *, size_t n, int) {
    if (fd < 101 || fd > 100 + accepted || closedFd[fd - 100]) hzs_fail("use of a descriptor that is not an open connection");
    if (!usedFd[fd - 100]) { usedFd[fd - 100] = 1; active++; if ((uint64_t) active > maxInst) hzs_fail("more sessions run than configured"); if (active == 2) hzs_reach("parallel"); hzs_sched(); }
    return (long) n;
}
extern "C" long hz_recv(int fd, void *, size_t, int) {
    if (fd < 101 || fd > 100 + accepted || closedFd[fd - 100]) hzs_fail("use of a descriptor that is not an open connection");
    hzs_sched();
    return -1;
}
extern "C" int hz_close(int fd) {
    if (fd < 100 || fd > 100 + accepted) hzs_fail("close of a descriptor that was not accepted");
    closedFd[fd - 100]++;
    if (closedFd[fd - 100] > 1) hzs_fail("a connection is closed twice");
    if (usedFd[fd - 100]) active--;
    hzs_wake(&accepted);
    return 0;
}
extern "C" int hz_setsockopt(int fd, int, int, const void *, unsigned) { bool f = hz_pick(2, "setsockopt"); if (f) refused[fd - 100] = true; return f ? -1 : 0; }
extern "C" int hz_accept(int, void *, void *) {
    if ((uint64_t) accepted == wantConns) {
        // every connection ends (a deadlock would be reported here)
        for (int i = 1; i <= accepted; i++) while (!closedFd[i]) hzs_wait(&accepted);
        HZ_CHECK(active == 0, "all sessions ended");
        hzs_reach("served");
        hzs_exit();
    }
    return 100 + ++accepted;
}
#else
extern "C" int hz_close(int fd) { if (fd != FD) badFd++; closes++; return 0; }
#endif
extern "C" void hz_main() {
#ifdef SERVER
    wantConns = hzs_param("conns", 2); maxInst = 1 + hz_pick(2, "instances");
    hzapi::Api api(maxInst);
    api.process(1);
    if (hz_pick(2, "timeout")) { timeval t{}; t.tv_sec = 5; api.timeout(t); }
    api.protect("pw");
    api.start("127.0.0.1", 1729);
#else
    netReset();
    if (hzs_param("tokens", 0)) {
        uint64_t t[4];
        for (int i = 0; i < 4; i++) {
            auto session = [&t, i]() {
                wire->clear(); input->clear(); inPos = 0; broken = false; closes = 0;
                rainman::ptr<HZ_Processor> proc(1, (uint64_t) 1);
                rainman::ptr<hzapi::ArchiveProvider> prov;
                rainman::ptr<Semaphore> sem(1, (uint64_t) 0);
                hzapi::ApiInstance inst(FD, proc, "", sem, "1.2.3.4", 80, prov);
                inst.start();
                Reader c;
                t[i] = c.value(8);
                HZ_CHECK(c.ok, "a token is sent");
            };
            if (i < 2) session(); else std::thread(session).join();
            for (int j = 0; j < i; j++) HZ_CHECK(t[i] != t[j], "each session has a token of its own");
        }
        hzs_reach("tokens");
        return;
    }
    // password and reply of the client
    std::string pw;
    uint64_t l = hz_pick((uint8_t) (hzs_param("pw", 2) + 1), "length");
    if (l == hzs_param("pw", 2) && hzs_param("long", 0)) l = 9;
    uint8_t key[8] = {};
    for (uint64_t i = 0; i < l; i++) { char c = hz_sym<char>("password"); hzs_assume(c != 0); pw += c; key[i & 7] ^= (uint8_t) c; }
    uint64_t reply = hz_sym<uint64_t>("reply");
    putN(reply, 8);
    // the client's commands: any first bytes, with the payload the served ones need
    uint64_t k = hzs_param("k", 2);
    struct Cmd { uint8_t word, sub; } cmd[4];
    for (uint64_t i = 0; i < k; i++) {
        cmd[i].word = hz_sym<uint8_t>("command");
        put8(cmd[i].word);
        cmd[i].sub = 0xff;
        if (hzs_fork(cmd[i].word == hzapi::API_CTL_STREAM) || hzs_fork(cmd[i].word == hzapi::API_CTL_QUERY)) {
            cmd[i].sub = hz_sym<uint8_t>("subcommand");
            if (cmd[i].word == hzapi::API_CTL_STREAM) hzs_assume(cmd[i].sub > 3);
            else hzs_assume(cmd[i].sub > 8 || cmd[i].sub == hzapi::QUERY_CTL_GET_MEM_USAGE);
            put8(cmd[i].sub);
        }
    }
    if (hzs_param("fail", 0)) {
        failAt = hz_pick((uint8_t) hzs_param("fail", 0), "fails-at");
        failHow = hz_pick(3, "failure");
    }
    rainman::ptr<HZ_Processor> proc(1, (uint64_t) 1);
    rainman::ptr<hzapi::ArchiveProvider> prov;
    rainman::ptr<Semaphore> sem(1, (uint64_t) 0);
    {
        hzapi::ApiInstance inst(FD, proc, pw, sem, "1.2.3.4", 80, prov);
        int r = 0;
        HZ_TRY(r, inst.start());
        HZ_CHECK(r == 0, "no error leaves a session");
    }
    HZ_CHECK(closes == 1, "the socket is closed exactly once");
    HZ_CHECK(badFd == 0, "only the session's socket is used");
    HZ_CHECK(late == 0, "the socket is not used after it was closed");
    sem->acquire();                                                          // a deadlock is reported when the slot was not released
    std::thread t([sem]() { sem->acquire(); extraGot = true; });
    hzs_sched(); hzs_sched();
    HZ_CHECK(!extraGot, "the slot is released exactly once");
    sem->release();
    t.join();
    // what the client saw
    uint64_t secret = 0;
    for (int i = 7; i >= 0; i--) secret = secret << 8 | key[i];
    Reader c;
    uint64_t sent = c.value(8);
    c.sync();
    if (!c.ok) { HZ_CHECK(broken && inPos == 0, "the client is asked for the token"); hzs_reach("refused"); return; }
    bool admitted = hzs_fork((reply ^ secret) == sent);                      // the client decrypted the token with the password
    if (!admitted) {
        HZ_CHECK(c.end(), "a client without the password is not answered");
        HZ_CHECK(inPos <= 8, "a client without the password is not served");
        hzs_reach("refused");
        return;
    }
    if (failAt != ~0ull && broken && inPos < 8 + k) { hzs_reach("broken"); }
    if (failAt == ~0ull) {
        c.message();
        HZ_CHECK(c.ok, "the handshake is confirmed");
        bool closed = false;
        for (uint64_t i = 0; i < k && !closed; i++) {
            c.sync();
            if (cmd[i].word == hzapi::API_CTL_CLOSE) { closed = true; hzs_reach("closed"); }
            else if (cmd[i].word == hzapi::API_CTL_HEALTH_CHECK) { c.message(); HZ_CHECK(c.ok, "a health check is answered"); }
            else if (cmd[i].word == hzapi::API_CTL_QUERY && cmd[i].sub == hzapi::QUERY_CTL_GET_MEM_USAGE) { c.sync(); c.value(8); HZ_CHECK(c.ok, "a query is answered"); }
            else {
                if (cmd[i].word == hzapi::API_CTL_QUERY || cmd[i].word == hzapi::API_CTL_STREAM) c.sync();
                HZ_CHECK(c.ok && c.error().size() > 0 && c.ok, "an invalid command is answered with an error");
                hzs_reach("invalid");
            }
        }
        if (!closed) c.sync();
        HZ_CHECK(c.ok && c.end(), "nothing else is sent, and the session goes on until it is closed");
    }
    hzs_reach("admitted");
#endif
}
