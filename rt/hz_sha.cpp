// Model of SHA-512: some fixed function of the bytes (only used to derive semaphore names).
#include <openssl/sha.h>
#include <stdint.h>
extern "C" {
int SHA512_Init(SHA512_CTX *c) { c->h[0] = 0xcbf29ce484222325ull; c->h[1] = 0x84222325cbf29ce4ull; return 1; }
int SHA512_Update(SHA512_CTX *c, const void *p, size_t n) {
    for (size_t i = 0; i < n; i++) { c->h[0] = (c->h[0] ^ ((const uint8_t *) p)[i]) * 0x100000001b3ull; c->h[1] = (c->h[1] + ((const uint8_t *) p)[i]) * 0x9e3779b97f4a7c15ull; }
    return 1;
}
int SHA512_Final(unsigned char *md, SHA512_CTX *c) {
    for (int i = 0; i < SHA512_DIGEST_LENGTH; i++) md[i] = (unsigned char) (c->h[i & 1] >> ((i >> 1) & 7) * 8) + i;
    return 1;
}
}
