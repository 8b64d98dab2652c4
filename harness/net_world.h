// A client at the other end of the server's socket: bytes it sends are taken from `input` on demand, bytes sent to it are kept in
// `wire`. Any transfer can be made to fail.
#pragma once
#include <cerrno>
#include <cstring>
#include <vector>
#include <string>
#include <sys/socket.h>
static std::vector<uint8_t> *input, *wire; static uint64_t inPos, transfers, failAt = ~0ull, failHow, closes, badFd, late; static bool broken, endless;
static const int FD = 11;
#ifndef OWN_IO
extern "C" long hz_send(int fd, const void *b, size_t n, int) {
    if (fd != FD) badFd++;
    if (closes) late++;
    if (broken || transfers++ == failAt) { broken = true; errno = 32; return n == 0 ? -1 : failHow == 0 ? -1 : failHow == 1 ? 0 : (long) n - 1; }
    for (size_t i = 0; i < n; i++) wire->push_back(((const uint8_t *) b)[i]);
    return (long) n;
}
extern "C" long hz_recv(int fd, void *b, size_t n, int) {
    if (fd != FD) badFd++;
    if (closes) late++;
    if (broken || transfers++ == failAt) { broken = true; errno = 11; return n == 0 ? -1 : failHow == 0 ? -1 : failHow == 1 ? 0 : (long) n - 1; }
    if (inPos + n > input->size()) { broken = true; return 0; }              // the client closed the connection
    for (size_t i = 0; i < n; i++) ((uint8_t *) b)[i] = (*input)[inPos++];
    return (long) n;
}
#endif
static void netReset() { input = new std::vector<uint8_t>; wire = new std::vector<uint8_t>; inPos = transfers = closes = 0; broken = false; failAt = ~0ull; }
// ---- what the client sends
static void put8(uint64_t v) { input->push_back((uint8_t) v); }
static void putN(uint64_t v, int n) { for (int i = 0; i < n; i++) input->push_back((uint8_t) (v >> (8 * i))); }
static void putText(const std::string &s) { putN(s.size(), 2); for (char c: s) input->push_back((uint8_t) c); }
// ---- what the client receives
struct Reader {
    size_t pos = 0; bool ok = true;
    uint64_t get(int n) { uint64_t v = 0; for (int i = 0; i < n; i++) { if (pos >= wire->size()) { ok = false; return 0; } v |= (uint64_t) (*wire)[pos++] << (8 * i); } return v; }
    void sync() { if (get(1) != 0) ok = false; }                             // precedes everything that is not an error
    uint64_t value(int n) { sync(); return get(n); }
    std::vector<uint8_t> bytes(uint64_t n) { std::vector<uint8_t> v; sync(); for (uint64_t i = 0; i < n && ok; i++) v.push_back((uint8_t) get(1)); return v; }
    std::string message() { uint64_t n = value(2); auto b = bytes(n); return std::string(b.begin(), b.end()); }
    bool isError() { return pos < wire->size() && (*wire)[pos] == 0xff; }
    std::string error() { std::string s; if (get(1) != 0xff) ok = false; uint64_t n = get(2); for (uint64_t i = 0; i < n && ok; i++) s += (char) get(1); return s; }
    bool end() const { return pos == wire->size(); }
};
