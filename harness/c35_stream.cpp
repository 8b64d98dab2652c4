// C35: sequences of streaming messages against a model of the archive: what is stored decodes to the original, the rest is rejected.
#include "net_world.h"
#include "archive_world.h"
#define TOY_THREE
#include "toy_codec.h"
#include <hzip_network/api/handlers/streamer.h>
#include <hzip_network/api/api_enums.h>
#include <hzip_network/errors/api.h>
using namespace hzapi;
typedef std::vector<uint8_t> Bytes;
enum { E_STREAM, E_MSTATE, E_ARCHIVE, E_DEST, E_ALG, E_PIGGY, E_TRAIN };
enum { D_STREAM, D_MSTATE, D_ARCHIVE, D_SRC, D_ALG, D_PIGGY, D_MSTREAM, D_BLOB };
enum { M_ARCHIVE, M_ADDR, M_STREAM, M_PIGGY };
struct Piece { uint64_t alg = 0, osize = 0, size = 0; Bytes mstate, header, data; bool genuine = false; Bytes original; };
struct Model { uint64_t alg = 0, deps = 0; Bytes data; };
struct Stored { std::vector<uint64_t> sizes; Bytes data; std::vector<Model *> uses; };
struct Arc { std::map<std::string, Stored> files; std::map<std::string, Model *> names; };
struct Msg { uint8_t word = 0; int arch = -1; std::string text; uint64_t value = 0; Bytes data; Piece piece; };
static Arc arc; static rainman::ptr<ArchiveProvider> *prov; static rainman::ptr<HZ_Processor> *proc;
static std::vector<Piece> pieces; static uint64_t pieceFrom;
static const char *ARCH[] = {"/tmp/hz/archive", "/tmp/hz/../hz/archive", "/tmp/none/a"};
static std::vector<Msg> msgs;
static const uint64_t V = hzcodec::algorithms::VICTINI;
static bool valid(const std::string &s) { return World::valid(s); }
// ---- sending
static void put(const Msg &m, int mode) {
    put8(m.word);
    auto raw = [](const Bytes &b) { for (auto x: b) put8(x); };
    auto blob = [&](const Bytes &b) { putN(b.size(), 8); raw(b); };
    if (mode == 0) switch (m.word) {
        case E_MSTATE: case E_ARCHIVE: case E_DEST: putText(m.text); break;
        case E_ALG: putN(m.value, 8); break;
        case E_STREAM: case E_TRAIN: blob(m.data); break;
        default: break;
    } else if (mode == 1) switch (m.word) {
        case D_MSTATE: case D_ARCHIVE: case D_SRC: putText(m.text); break;
        case D_ALG: putN(m.value, 8); break;
        case D_MSTREAM: blob(m.data); break;
        case D_BLOB: blob(m.piece.header); putN(m.piece.size, 8); raw(m.piece.data); putN(m.piece.osize, 8); break;
        default: break;
    } else switch (m.word) {
        case M_ARCHIVE: case M_ADDR: putText(m.text); break;
        case M_STREAM: if (mode == 2) { putN(m.value, 8); blob(m.data); } break;
        default: break;
    }
}
// ---- what must happen
enum { DONE, REJECT, GONE };
static Reader *c; static uint64_t used, idx;
static bool take(uint64_t n, bool sync = true) { if (sync) c->sync(); if (used + n > input->size()) { used = input->size(); return false; } used += n; return true; }
static bool takeText(const std::string &s) { return take(2) && take(s.size()); }
static void reported() { HZ_CHECK(c->isError() && c->error().size() > 0 && c->ok, "a failure is reported to the client"); }
static void confirmed() { std::string s = c->message(); HZ_CHECK(c->ok && s.size() > 0, "success is reported to the client"); hzs_reach("success"); }
static bool no(const char *why) { hzs_reach(why); return false; }
static Model *model(const Bytes &d, uint64_t alg) { Model *m = new Model; m->data = d; m->alg = alg; return m; }
static int expectEncode() {
    bool arch = false, piggy = false, haveDest = false, haveAddr = false; std::string dest, addr; uint64_t alg = 0;
    while (true) {
        if (idx == msgs.size()) { c->sync(); return GONE; }
        Msg &m = msgs[idx++];
        if (!take(1)) return GONE;
        switch (m.word) {
            case E_ARCHIVE: if (!takeText(m.text)) return GONE; if (m.arch == 2) { no("no-archive"); return REJECT; } arch = true; break;
            case E_MSTATE: if (!takeText(m.text)) return GONE; haveAddr = true; addr = m.text; break;
            case E_DEST: if (!takeText(m.text)) return GONE; if (!valid(m.text)) { no("bad-path"); return REJECT; } haveDest = true; dest = m.text; break;
            case E_ALG: if (!take(8)) return GONE; alg = m.value; break;
            case E_PIGGY: piggy = true; break;
            case E_STREAM: case E_TRAIN: {
                bool train = m.word == E_TRAIN;
                if (hzs_fork(alg != V)) { no("no-algorithm"); return REJECT; }
                if (train ? !arch || !haveAddr : !arch && (haveDest || haveAddr)) { no("missing"); return REJECT; }
                if (!train && !piggy && !haveDest) { no("nowhere"); return REJECT; }
                if (!train && haveDest && (World::exists(arc.files, dest) || !World::canInsert(arc.files, dest))) { no("occupied"); return REJECT; }
                if (!take(8)) return GONE;
                c->sync();
                bool failed = false;
                Stored f;
                uint64_t n = m.data.size();
                for (uint64_t at = 0; at < n; at += 2) {
                    uint64_t l = n - at < 2 ? n - at : 2;
                    if (!take(l, false)) return GONE;
                    const uint8_t *d = m.data.data() + at;
                    auto i = haveAddr ? arc.names.find(addr) : arc.names.end();
                    bool there = i != arc.names.end();
                    if (train) {
                        Model *old = there ? i->second : nullptr;
                        bool bad = (old && ((old->alg && old->alg != V) || (old->alg && old->data.empty()) || old->deps)) || hzs_fork(d[0] == 0xee) || !valid(addr) || (!there && !World::canInsert(arc.names, addr));
                        if (bad) { failed = true; reported(); hzs_reach("untrained"); continue; }
                        arc.names[addr] = model({(uint8_t) ((old && old->alg ? old->data[0] : 0) + d[0] + 1)}, V);
                        hzs_reach("trained");
                        continue;
                    }
                    bool own = !haveAddr || (there && i->second->alg == 0);
                    bool bad = (haveAddr && !there) || (!own && (i->second->alg != V || i->second->data.empty())) || hzs_fork(d[0] == 0xee);
                    if (bad) { failed = true; reported(); hzs_reach("failed"); continue; }
                    uint8_t k = own ? d[l - 1] : i->second->data[0];
                    bool small = hzs_fork(d[l - 1] == k);
                    Model *u = nullptr;
                    if (!own && small) { u = i->second; u->deps++; }
                    f.sizes.push_back(l); f.uses.push_back(u);
                    for (uint64_t j = 0; j < l; j++) f.data.push_back(d[j]);
                    if (piggy) {
                        Piece p;
                        p.genuine = true; p.osize = l; p.original = Bytes(d, d + l);
                        p.alg = c->value(8);
                        uint64_t a = c->value(8); if (a > 8) a = 8; p.mstate = c->bytes(a);
                        a = c->value(8); if (a > 8) a = 8; p.header = c->bytes(a);
                        p.size = c->value(8); if (p.size > 8) p.size = 8;
                        p.data = c->bytes(p.size);
                        HZ_CHECK(c->ok && p.size <= l, "a compressed blob is sent to the client");
                        HZ_CHECK((p.alg == V) == small && (p.alg == 0 || p.alg == V), "the sent blob names its algorithm");
                        pieces.push_back(p);
                        hzs_reach("piggyback");
                    }
                }
                if (failed) return DONE;
                if (!train && haveDest) { arc.files[dest] = f; hzs_reach("stored"); }
                confirmed();
                return DONE;
            }
            default: reported(); hzs_reach("unknown"); break;
        }
    }
}
static int expectDecode() {
    bool arch = false, piggy = false, haveSrc = false, haveAddr = false, haveState = false; std::string src, addr; uint64_t alg = 0; Bytes state;
    while (true) {
        if (idx == msgs.size()) { c->sync(); return GONE; }
        Msg &m = msgs[idx++];
        if (!take(1)) return GONE;
        switch (m.word) {
            case D_ARCHIVE: if (!takeText(m.text)) return GONE; if (m.arch == 2) { no("no-archive"); return REJECT; } arch = true; break;
            case D_MSTATE: if (!arch) { no("missing"); return REJECT; } if (!takeText(m.text)) return GONE; haveAddr = true; addr = m.text; break;
            case D_SRC: if (!takeText(m.text)) return GONE; if (!valid(m.text)) { no("bad-path"); return REJECT; } haveSrc = true; src = m.text; break;
            case D_ALG: if (!take(8)) return GONE; alg = m.value; break;
            case D_PIGGY: piggy = true; break;
            case D_MSTREAM: if (!take(8) || !take(m.data.size())) return GONE; haveState = true; state = m.data; break;
            case D_STREAM: {
                if (!piggy || !arch || !haveSrc) { no("missing"); return REJECT; }
                auto f = arc.files.begin();
                while (f != arc.files.end() && World::parts(f->first) != World::parts(src)) ++f;
                if (f == arc.files.end()) { no("absent"); return REJECT; }
                uint64_t n = c->value(8), at = 0;
                HZ_CHECK(c->ok && n == f->second.sizes.size(), "a file has all of its parts");
                for (uint64_t i = 0; i < n && i < f->second.sizes.size(); i++) {
                    uint64_t l = c->value(8);
                    HZ_CHECK(c->ok && l == f->second.sizes[i], "a part has its original size");
                    Bytes b = c->bytes(f->second.sizes[i]);
                    for (uint64_t j = 0; j < b.size(); j++) HZ_CHECK(b[j] == f->second.data[at + j], "stored data decodes to the original data");
                    at += f->second.sizes[i];
                }
                confirmed();
                hzs_reach("decoded");
                return DONE;
            }
            case D_BLOB: {
                if (!piggy || (!haveState && !haveAddr)) { no("missing"); return REJECT; }
                if (hzs_fork(alg > 2)) { no("no-algorithm"); return REJECT; }
                Piece &p = m.piece;
                if (!take(8) || !take(p.header.size()) || !take(8) || !take(p.data.size()) || !take(8)) return GONE;
                bool status = p.size < p.osize;
                auto i = haveAddr ? arc.names.find(addr) : arc.names.end();
                bool bad = (status && haveAddr && (i == arc.names.end() || i->second->alg != alg));
                if (!bad && p.genuine && alg == p.alg) {
                    const Bytes &s = status && haveAddr ? i->second->data : state;
                    bool same = s.size() == p.mstate.size();
                    for (uint64_t j = 0; same && j < s.size(); j++) same = s[j] == p.mstate[j];
                    if (same || !status) {
                        uint64_t l = c->value(8);
                        HZ_CHECK(c->ok && l == p.osize, "a blob decodes to its original size");
                        Bytes b = c->bytes(p.osize);
                        for (uint64_t j = 0; j < b.size(); j++) HZ_CHECK(b[j] == p.original[j], "a blob decodes to the original data");
                        confirmed();
                        hzs_reach("blob");
                        return DONE;
                    }
                }
                if (bad || c->isError()) { reported(); hzs_reach("undecodable"); return DONE; }
                uint64_t l = c->value(8);
                HZ_CHECK(c->ok && l == p.osize && p.osize < 16, "only decoded data is sent");
                c->bytes(p.osize < 16 ? p.osize : 0);
                confirmed();
                hzs_reach("foreign");
                return DONE;
            }
            default: reported(); hzs_reach("unknown"); break;
        }
    }
}
static int expectModel(bool write) {
    bool arch = false, piggy = false, haveAddr = false; std::string addr;
    while (true) {
        if (idx == msgs.size()) { c->sync(); return GONE; }
        Msg &m = msgs[idx++];
        if (!take(1)) return GONE;
        if (m.word == M_ARCHIVE) { if (!takeText(m.text)) return GONE; if (m.arch == 2) { no("no-archive"); return REJECT; } arch = true; }
        else if (m.word == M_ADDR) { if (!takeText(m.text)) return GONE; haveAddr = true; addr = m.text; }
        else if (m.word == M_PIGGY && !write) piggy = true;
        else if (m.word == M_STREAM) {
            if (!arch || !haveAddr || (!write && !piggy)) { no("missing"); return REJECT; }
            if (write) {
                if (!take(8) || !take(8) || !take(m.data.size())) return GONE;
                if (hzs_fork(m.value > 2)) { no("no-algorithm"); return REJECT; }
                if (!valid(addr) || !World::canInsert(arc.names, addr)) { no("occupied"); return REJECT; }
                arc.names[addr] = model(m.data, m.value);
                confirmed();
                hzs_reach("written");
                return DONE;
            }
            auto i = arc.names.begin();
            while (i != arc.names.end() && World::parts(i->first) != World::parts(addr)) ++i;
            if (i == arc.names.end()) { no("absent"); return REJECT; }
            uint64_t a = c->value(8), n = c->value(8);
            HZ_CHECK(c->ok && a == i->second->alg && n == i->second->data.size(), "a model state keeps its algorithm and size");
            Bytes b = c->bytes(i->second->data.size());
            for (uint64_t j = 0; j < b.size(); j++) HZ_CHECK(b[j] == i->second->data[j], "a model state is read back unchanged");
            confirmed();
            hzs_reach("read");
            return DONE;
        } else { no("unknown"); return REJECT; }
    }
}
static int run(uint64_t mode) {                // one streaming command with the messages in msgs
    int got = DONE, want;
    {
        Streamer s(FD, "1.2.3.4", 80, *proc, *prov);
        try { s.start(); } catch (ApiErrors::ConnectionError &) { got = GONE; } catch (std::exception &) { got = REJECT; } catch (...) { got = 9; }
    }
    Reader r; c = &r; used = 0; idx = 0;
    if (!take(1)) want = GONE;
    else if (mode > 3) { want = REJECT; no("unknown"); }
    else want = mode == 0 ? expectEncode() : mode == 1 ? expectDecode() : expectModel(mode == 2);
    HZ_CHECK(got == want, "a request is carried out, rejected or broken off");
    HZ_CHECK(r.ok && r.end(), "exactly the documented answer is sent");
    HZ_CHECK(want == GONE || inPos == used, "a request takes exactly its messages");
    HZ_CHECK(closes == 0 && badFd == 0, "only the given socket is used");
    return want;
}
static void begin() { netReset(); msgs.clear(); }
static int send(uint64_t mode) { put8(mode); for (auto &m: msgs) put(m, (int) mode); return run(mode); }
static Msg text(uint8_t w, const std::string &t, int arch = -1) { Msg m; m.word = w; m.text = t; m.arch = arch; return m; }
static Msg value(uint8_t w, uint64_t v) { Msg m; m.word = w; m.value = v; return m; }
static Msg data(uint8_t w, const Bytes &d, uint64_t v = 0) { Msg m; m.word = w; m.data = d; m.value = v; return m; }
static Bytes some(uint64_t n, bool ok) { Bytes b; for (uint64_t i = 0; i < n; i++) { b.push_back(hz_sym<uint8_t>("byte")); if (ok && i % 2 == 0) hzs_assume(b[i] != 0xee); } return b; }
static void store(const std::string &path, const char *addr, const Bytes &d) {
    begin();
    msgs.push_back(text(E_ARCHIVE, ARCH[0], 0)); msgs.push_back(text(E_DEST, path)); msgs.push_back(value(E_ALG, V));
    if (addr) msgs.push_back(text(E_MSTATE, addr));
    msgs.push_back(data(E_STREAM, d));
    HZ_CHECK(send(0) == DONE && arc.files.count(path), "data is stored");
}
static void install(const std::string &name, const Bytes &d, uint64_t alg) {
    begin();
    msgs.push_back(text(M_ARCHIVE, ARCH[0], 0)); msgs.push_back(text(M_ADDR, name)); msgs.push_back(data(M_STREAM, d, alg));
    HZ_CHECK(send(2) == DONE && arc.names.count(name), "a model state is written");
}
static Bytes image() { hz_node *n = hz_fs_find(ARCH[0]); return n ? Bytes(n->data, n->data + n->size) : Bytes(); }
// everything stored, read back through the API
static void verify() {
    static const char *P[] = {"/a", "/d/b", "/new"}, *N[] = {"/m", "/e", "/f", "/new"};
    for (auto p: P) {
        begin();
        msgs.push_back(text(D_ARCHIVE, ARCH[0], 0)); msgs.push_back(text(D_SRC, p)); msgs.push_back(value(D_PIGGY, 0)); msgs.push_back(value(D_STREAM, 0));
        send(1);
    }
    for (auto n: N) {
        begin();
        msgs.push_back(text(M_ARCHIVE, ARCH[0], 0)); msgs.push_back(text(M_ADDR, n)); msgs.push_back(value(M_PIGGY, 0)); msgs.push_back(value(M_STREAM, 0));
        send(3);
    }
    auto a = (*prov)->provide(ARCH[0]);
    uint64_t k = 0;
    for (auto p: P) { HZ_CHECK(a->check_file_exists(p) == World::exists(arc.files, p), "exactly the stored files exist"); k += arc.files.count(p); }
    HZ_CHECK(k == arc.files.size(), "only files of the harness are stored");
}
static void decodePieces() {
    for (uint64_t i = pieceFrom; i < pieces.size(); i++) {
        Piece p = pieces[i];
        begin();
        msgs.push_back(value(D_PIGGY, 0)); msgs.push_back(value(D_ALG, p.alg)); msgs.push_back(data(D_MSTREAM, p.mstate));
        Msg b; b.word = D_BLOB; b.piece = p; msgs.push_back(b);
        HZ_CHECK(send(1) == DONE && wire->size() > 12, "data sent back is decoded");
    }
    pieceFrom = pieces.size();
}
// any message of a mode
static Msg any(uint64_t mode) {
    static const char *DEST[] = {"/new", "/a", "/d", "/a/x", "bad", "/d/b"}, *ADDR[] = {"/m", "/new", "/e", "/f", "bad", "/m/x"};
    static const uint8_t WORDS[] = {7, 8, 4, 4};
    Msg m;
    uint64_t w = hz_pick((uint8_t) (WORDS[mode] + 1), "word");
    if (w == WORDS[mode]) { uint8_t u = hz_sym<uint8_t>("unknown"); hzs_assume(u >= w); m.word = u; return m; }
    m.word = (uint8_t) w;
    auto archive = [&]() { m.arch = hz_pick((uint8_t) hzs_param("archs", 3), "archive"); if (m.arch == 1 && hzs_param("archs", 3) == 2) m.arch = 2; m.text = ARCH[m.arch]; };
    auto path = [&]() { m.text = DEST[hz_pick((uint8_t) hzs_param("paths", 6), "path")]; };
    auto addr = [&]() { m.text = ADDR[hz_pick((uint8_t) hzs_param("addrs", 6), "address")]; };
    auto alg = [&]() { uint64_t k = hz_pick(3, "algorithm"); m.value = k == 0 ? V : k == 1 ? 0 : hz_sym<uint64_t>("algorithm"); if (k == 2) hzs_assume(m.value > 2); };
    auto bytes = [&](bool ok) { m.data = some(hz_pick((uint8_t) hzs_param("bytes", 4), "length"), ok); };
    if (mode == 0) switch (w) {
        case E_STREAM: case E_TRAIN: bytes(hzs_param("healthy", 1)); break;
        case E_MSTATE: addr(); break;
        case E_ARCHIVE: archive(); break;
        case E_DEST: path(); break;
        case E_ALG: alg(); break;
    } else if (mode == 1) switch (w) {
        case D_MSTATE: addr(); break;
        case D_ARCHIVE: archive(); break;
        case D_SRC: path(); break;
        case D_ALG: alg(); break;
        case D_MSTREAM: { uint64_t k = hz_pick(3, "state"); m.data = k < 2 ? some(k, false) : pieces[0].mstate; break; }
        case D_BLOB: {
            uint64_t k = hz_pick((uint8_t) (pieces.size() + 1), "blob");
            if (k < pieces.size()) { m.piece = pieces[k]; break; }
            m.piece.header = some(hz_pick(2, "header") * 2, false);
            m.piece.data = some(hz_pick(3, "size"), false); m.piece.size = m.piece.data.size();
            m.piece.osize = hz_pick(4, "osize");
            break;
        }
    } else switch (w) {
        case M_ARCHIVE: archive(); break;
        case M_ADDR: addr(); break;
        case M_STREAM: bytes(false); m.value = hz_sym<uint64_t>("algorithm"); break;
    }
    return m;
}
extern "C" void hz_main() {
    hz_fs_create("/tmp", true); hz_fs_create("/tmp/hz", true);
    hz_fs_strict = 1;
    idCounter = 1; idRepeat = 0;
    proc = new rainman::ptr<HZ_Processor>(1, (uint64_t) 1); prov = new rainman::ptr<ArchiveProvider>();
    // a model state for the codec, one without a model, one of another codec; a file using the first, one of its own
    install("/m", some(1, false), V);
    install("/e", {}, 0);
    install("/f", some(1, false), 2);
    store("/a", hzs_param("used", 1) ? "/m" : nullptr, some(hzs_param("size", 3), true));
    store("/d/b", nullptr, some(1, true));
    uint64_t k = hzs_param("k", 2), base = hzs_param("base", 0), mode = hzs_param("mode", 0);
    if (mode == 1) {                           // parts that the client got
        begin();
        msgs.push_back(value(E_PIGGY, 0)); msgs.push_back(value(E_ALG, V)); msgs.push_back(text(E_ARCHIVE, ARCH[0], 0)); msgs.push_back(text(E_MSTATE, "/m"));
        msgs.push_back(data(E_STREAM, some(hzs_param("piece", 2), true)));
        HZ_CHECK(send(0) == DONE, "data is sent back");
        pieceFrom = pieces.size();
    }
    Bytes before = image();
    int result = DONE;
    begin();
    if (mode == 4) { uint8_t w = hz_sym<uint8_t>("mode"); hzs_assume(w > 3); put8(w); run(4); }
    else {
        auto fixed = [&](uint64_t i) -> Msg {
            if (mode == 0) return i == 0 ? value(E_ALG, V) : i == 1 ? text(E_ARCHIVE, ARCH[0], 0) : i == 2 ? value(E_PIGGY, 0) : text(E_DEST, "/new");
            if (mode == 1) return i == 0 ? value(D_PIGGY, 0) : i == 1 ? text(D_ARCHIVE, ARCH[0], 0) : i == 2 ? value(D_ALG, V) : text(D_SRC, "/a");
            return i == 0 ? text(M_ARCHIVE, ARCH[0], 0) : i == 1 ? text(M_ADDR, "/new") : value(M_PIGGY, 0);
        };
        put8(mode);
        for (uint64_t i = 0; i < k; i++) {
            msgs.push_back(i < base ? fixed(i) : any(mode));
            put(msgs.back(), (int) mode);
        }
        if (hzs_param("last", 9) < 9) { Msg m; m.word = (uint8_t) hzs_param("last", 9); m.data = some(hzs_param("bytes", 4), hzs_param("healthy", 1)); if (mode == 2) { m.value = hz_sym<uint64_t>("algorithm"); if (hzs_param("fail", 0)) hzs_assume(m.value <= 2); } if (mode == 1) m.piece = pieces[0]; msgs.push_back(m); put(m, (int) mode); }
        if (hzs_param("cut", 0)) { uint64_t n = input->size() - 1 < 12 ? input->size() - 1 : 12; if (n) input->resize(input->size() - 1 - hz_pick((uint8_t) n, "cut")); }
        if (hzs_param("fail", 0)) {            // any one transfer fails: either everything was stored or nothing can be seen of it
            failAt = hz_pick((uint8_t) hzs_param("fail", 0), "fails-at"); failHow = hz_pick(3, "failure");
            int r = 0;
            { Streamer s(FD, "1.2.3.4", 80, *proc, *prov); HZ_TRY(r, s.start()); }
            HZ_CHECK(r <= 1 && (broken || r == 0), "a broken connection ends a request with an error");
            const Bytes &d = msgs.back().data;
            auto a = (*prov)->provide(ARCH[0]);
            if (mode == 0 && a->check_file_exists("/new")) {
                Stored f;
                f.data = d;
                for (uint64_t at = 0; at < d.size(); at += 2) f.sizes.push_back(d.size() - at < 2 ? 1 : 2);
                arc.files["/new"] = f;
                hzs_reach("stored-before");
            }
            if (mode == 2 && a->check_mstate_exists("/new")) arc.names["/new"] = model(d, msgs.back().value);
            hzs_reach(broken ? "fault" : "no-fault");
            verify();
            return;
        }
        result = run(mode);
    }
    decodePieces();
    // a rejected request leaves the archive as it was
    Bytes after = image();
    bool same = before.size() == after.size();
    for (size_t j = 0; same && j < before.size(); j++) same = before[j] == after[j];
    HZ_CHECK(same || result != REJECT, "a rejected request leaves the archive unchanged");
    if (same) {
        auto a = (*prov)->provide(ARCH[0]);
        HZ_CHECK(arc.files.size() == (size_t) 2 + arc.files.count("/new") && a->check_file_exists("/new") == (arc.files.count("/new") == 1) && a->check_mstate_exists("/new") == (arc.names.count("/new") == 1), "nothing is stored");
    } else verify();
    if (hzs_param("reopen", 0)) {
        (*prov)->close();
        prov = new rainman::ptr<ArchiveProvider>();
        verify();
        hzs_reach("reopened");
    }
    hzs_reach("end");
}
