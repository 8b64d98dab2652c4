// C32: SocketInterface against a socket whose every transfer may be complete, short, closed or failed.
#include <hzip_network/api/handlers/socket_class.h>
#include <hzip_network/api/api_enums.h>
#include <hzip_network/errors/api.h>
#include <sys/socket.h>
static std::vector<uint8_t> *wire;            // bytes accepted by the socket
static bool content = true, failed, sentAfterFailure, badFd;
static uint64_t calls, recvd;
static uint8_t *incoming;
static const int FD = 11;
static long transfer(size_t n) {
    long r = hz_sym<long>("result");
    hzs_assume(r >= -1 && (r < 0 || (uint64_t) r <= n));
    return r;
}
extern "C" long hz_send(int fd, const void *b, size_t n, int) {
    if (fd != FD) badFd = true;
    if (failed) sentAfterFailure = true;
    calls++;
    long r = transfer(n);
    if (content) {
        r = (long) hzs_concretize((uint64_t) r);
        for (long i = 0; i < r; i++) wire->push_back(((const uint8_t *) b)[i]);
        if (r != (long) n) failed = true;
    } else if (hzs_fork((uint64_t) r != n)) failed = true;
    if (r < 0) errno = 32;
    return r;
}
extern "C" long hz_recv(int fd, void *b, size_t n, int flags) {
    if (fd != FD) badFd = true;
    if (failed) sentAfterFailure = true;
    HZ_CHECK((flags & MSG_WAITALL) != 0 || n <= 1, "a receive waits for all bytes");
    calls++;
    long r = transfer(n);
    if (content) {
        r = (long) hzs_concretize((uint64_t) r);
        for (long i = 0; i < r; i++) ((uint8_t *) b)[i] = incoming[recvd++];
        if (r != (long) n) failed = true;
    } else if (hzs_fork((uint64_t) r != n)) failed = true;
    if (r < 0) errno = 11;
    return r;
}
struct Peer : hzapi::SocketInterface {
    Peer() : SocketInterface(FD, "1.2.3.4", 80) {}
    // 0: completed, 1: connection error, 2: something else
    int doSend(const void *b, size_t n) { try { HZ_SEND(b, n); } catch (ApiErrors::ConnectionError &) { return 1; } catch (...) { return 2; } return 0; }
    int doRecv(void *b, size_t n, bool sync) { try { t_recv(b, n, sync); } catch (ApiErrors::ConnectionError &) { return 1; } catch (...) { return 2; } return 0; }
    int doSync() { try { HZ_RECV_SYNC; } catch (ApiErrors::ConnectionError &) { return 1; } catch (...) { return 2; } return 0; }
    int doSuccess(const std::string &s) { try { success(s); } catch (ApiErrors::ConnectionError &) { return 1; } catch (...) { return 2; } return 0; }
    int doError(const std::string &s) { try { error(s); } catch (ApiErrors::ConnectionError &) { return 1; } catch (...) { return 2; } return 0; }
};
static void checkWire(const std::vector<uint8_t> &exp, bool ok) {
    HZ_CHECK(!badFd, "only the session's socket is used");
    HZ_CHECK(!sentAfterFailure, "nothing is transferred after a failed step");
    HZ_CHECK(wire->size() <= exp.size(), "no extra bytes on the wire");
    if (ok) HZ_CHECK(wire->size() == exp.size(), "a completed operation put every byte on the wire");
    int same = 1;
    for (size_t i = 0; i < wire->size() && i < exp.size(); i++) same &= (*wire)[i] == exp[i];
    HZ_CHECK(same, "the bytes on the wire follow the framing");
}
extern "C" void hz_main() {
    uint64_t op = hz_pick(6, "operation"), max = hzs_param("n", 3);
    std::vector<uint8_t> w, exp;
    wire = &w;
    Peer p;
    int r;
    if (hzs_param("anysize", 0)) {                 // any message size: only the transfer results matter
        content = false;
        uint64_t n = hz_sym<uint64_t>("size");
        hzs_assume(n <= (1ull << 40));
        static uint8_t dummy[8];
        if (op == 0) r = p.doSend(dummy, n); else if (op == 1) r = p.doRecv(dummy, n, true); else if (op == 2) r = p.doRecv(dummy, n, false); else return;
        HZ_CHECK(r == (failed ? 1 : 0), "an operation completes exactly if every transfer did, otherwise it raises a connection error");
        HZ_CHECK(!sentAfterFailure, "nothing is transferred after a failed step");
        if (r) hzs_reach("failed"); else hzs_reach("done");
        return;
    }
    uint64_t n = hz_pick((uint8_t) (max + 1), "length");
    std::vector<uint8_t> data(n + 1);
    for (uint64_t i = 0; i < n; i++) data[i] = hz_sym<uint8_t>("data");
    std::string text((const char *) data.data(), n);
    uint8_t len2[2] = {(uint8_t) n, (uint8_t) (n >> 8)};
    const uint8_t OKW = hzapi::COMMON_CTL_SUCCESS;
    switch (op) {
        case 0:
            exp.push_back(OKW); exp.insert(exp.end(), data.begin(), data.begin() + n);
            r = p.doSend(data.data(), n);
            HZ_CHECK(r == (failed ? 1 : 0), "sending completes exactly if every byte was sent, otherwise it raises a connection error");
            checkWire(exp, r == 0);
            break;
        case 1: case 2: {
            incoming = data.data();
            uint8_t *buf = (uint8_t *) malloc(n);
            if (op == 1) exp.push_back(OKW);
            r = p.doRecv(buf, n, op == 1);
            HZ_CHECK(r == (failed ? 1 : 0), "receiving completes exactly if every byte arrived, otherwise it raises a connection error");
            if (r == 0) { int same = recvd == n; for (uint64_t i = 0; i < n; i++) same &= buf[i] == data[i]; HZ_CHECK(same, "the received bytes are delivered in order"); }
            checkWire(exp, r == 0);
            free(buf);
            break;
        }
        case 3:
            exp.push_back(OKW);
            r = p.doSync();
            HZ_CHECK(r == (failed ? 1 : 0), "the request word is sent or a connection error is raised");
            checkWire(exp, r == 0);
            break;
        case 4:
            exp.push_back(OKW); exp.push_back(len2[0]); exp.push_back(len2[1]); exp.push_back(OKW); exp.insert(exp.end(), text.begin(), text.end());
            r = p.doSuccess(text);
            HZ_CHECK(r == (failed ? 1 : 0), "a success message is sent completely or a connection error is raised");
            checkWire(exp, r == 0);
            break;
        default:
            exp.push_back(hzapi::COMMON_CTL_ERROR); exp.push_back(len2[0]); exp.push_back(len2[1]); exp.insert(exp.end(), text.begin(), text.end());
            r = p.doError(text);
            HZ_CHECK(r == 0 || (r == 1 && failed), "an error message raises nothing but a connection error");
            checkWire(exp, !failed);
            break;
    }
    if (failed) hzs_reach("failed"); else hzs_reach("done");
}
