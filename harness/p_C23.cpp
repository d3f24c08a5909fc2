// Cipher helpers: round trip, comparison with the standard ciphers, tampering.
#include "sim.h"
#include "shim.h"
#include <cstdlib>
#include <cstring>
#include <openssl/evp.h>

const char *prop_rule = "a case is one message (length 0..70000, skewed to block boundaries) through CFB-8 or GCM: encrypt, compare with the standard cipher, decrypt, then up to 8 modifications of ciphertext/tag; non-trivial when the message is not empty and, for GCM, at least one modification was tried";
long prop_cases_quick = 8000, prop_cases_thorough = 80000; int prop_batch = 400;
static const unsigned char *IV = (const unsigned char *)"tanxaes_deadbeef", *KEY = (const unsigned char *)"f29baf6ff9f9acb2cbf6441cd8eb29e4";
void prop_setup() { sim_clock_active(true); engine_ready(); prop_case(); engine_done(); }
struct Buf { // exact-size buffer with guard bytes
    unsigned char *p; int n; explicit Buf(int n_) : n(n_) { p = (unsigned char *)malloc(n + 64) + 32; memset(p - 32, 0xc3, n + 64); }
    void put(const Bytes &b) { memcpy(p, b.data(), b.size()); } Bytes get(int k) { return Bytes((char *)p, k); }
    void guard(const char *what) { for (int i = 0; i < 32; i++) if (p[-1 - i] != 0xc3 || p[n + i] != 0xc3) fail("%s writes outside its %d-byte buffer", what, n); }
};
static Bytes ref(bool gcm, const Bytes &in, Bytes *tag) {
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); Bytes out(in.size() + 32, 0); int l = 0, t = 0;
    if (gcm) { EVP_EncryptInit_ex(c, EVP_aes_256_gcm(), 0, 0, 0); EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_SET_IVLEN, 16, 0); EVP_EncryptInit_ex(c, 0, 0, KEY, IV); } else EVP_EncryptInit_ex(c, EVP_aes_256_cfb8(), 0, KEY, IV);
    EVP_EncryptUpdate(c, (unsigned char *)&out[0], &l, (const unsigned char *)in.data(), in.size()); EVP_EncryptFinal_ex(c, (unsigned char *)&out[l], &t); out.resize(l + t);
    if (gcm) { tag->resize(16); EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_GET_TAG, 16, &(*tag)[0]); } EVP_CIPHER_CTX_free(c); return out;
}
static int gdec(const Bytes &ct, const Bytes &tag, Bytes &out) { void *d = sh_gcm_new(1); CHECK(d, "no decryption context"); Buf i(ct.size()), o(ct.size()), t(16); i.put(ct); t.put(tag); int r = sh_gcm(d, 1, i.p, ct.size(), o.p, (char *)t.p); sh_gcm_free(d); i.guard("decryption"); o.guard("decryption"); t.guard("decryption"); if (r >= 0) out = o.get(r); CHECK(i.get(ct.size()) == ct, "decryption changed its input"); return r; }
void prop_case() {
    steps_reset(100000000); long base = W.live_malloc; size_t n; switch (G.below(5)) { case 0: n = G.below(40); break; case 1: n = 16 * G.below(20) + G.range(0, 2); break; case 2: n = G.below(70001); break; default: n = G.size(2000); }
    Bytes m = G.coin() ? G.blob(n) : Bytes(n, (char)G.below(256)); bool gcm = G.coin(); Bytes tag, want = ref(gcm, m, &tag);
    Buf in(n), out(n), tb(16); in.put(m);
    if (!gcm) {
        int r = sh_cfb(0, in.p, n, out.p); CHECK(r == (int)n, "encrypting %zu bytes returns %d", n, r); out.guard("encryption"); in.guard("encryption"); CHECK(out.get(n) == want, "ciphertext of %zu bytes differs from AES-256-CFB8", n); CHECK(in.get(n) == m, "encryption changed its input");
        Buf back(n); r = sh_cfb(1, out.p, n, back.p); CHECK(r == (int)n, "decrypting %zu bytes returns %d", n, r); back.guard("decryption"); CHECK(back.get(n) == m, "decryption of %zu bytes differs from the plaintext", n);
        if (n) nontrivial(); label("cfb");
    } else {
        void *e = sh_gcm_new(0); CHECK(e, "no encryption context"); int r = sh_gcm(e, 0, in.p, n, out.p, (char *)tb.p); sh_gcm_free(e); CHECK(r == (int)n, "encrypting %zu bytes returns %d", n, r); out.guard("encryption"); tb.guard("encryption"); CHECK(out.get(n) == want, "ciphertext of %zu bytes differs from AES-256-GCM", n); CHECK(tb.get(16) == tag, "tag differs from AES-256-GCM");
        Bytes back; r = gdec(want, tag, back); CHECK(r == (int)n && back == m, "decryption of %zu bytes returns %d or other bytes", n, r);
        int k = 1 + G.below(8);
        for (int i = 0; i < k; i++) {
            Bytes c2 = want, t2 = tag; std::string what;
            switch (G.below(4)) {
            case 0: { int b = G.below(128); t2[b / 8] ^= 1 << (b % 8); what = strf("tag bit %d flipped", b); break; }
            case 1: if (n) { size_t b = G.below(n * 8); c2[b / 8] ^= 1 << (b % 8); what = strf("ciphertext bit %zu flipped", b); break; } // fall through
            case 2: t2 = G.rbytes(16); what = "random tag"; break;
            default: if (n) { size_t cut = 1 + G.below(n); c2.resize(n - cut); what = strf("cut by %zu", cut); } else { c2 = G.rbytes(1 + G.below(20)); what = "extended"; } }
            if (c2 == want && t2 == tag) continue;
            r = gdec(c2, t2, back); CHECK(r < 0, "authenticated decryption of %zu bytes accepted a modification (%s)", n, what.c_str()); label("modifications");
        }
        nontrivial(); label("gcm");
    }
    if (G.chance(1, 10)) { Buf r1(16), r2(16); CHECK(sh_rand16((char *)r1.p) == 0 && sh_rand16((char *)r2.p) == 0, "random bytes failed"); r1.guard("random"); CHECK(r1.get(16) != r2.get(16), "two 16-byte random values are equal"); }
    CHECK(W.live_malloc == base, "%ld heap blocks left", W.live_malloc - base);
    if (want_sample()) sample(strf("%s message of %zu bytes %s", gcm ? "GCM" : "CFB8", n, hex(m, 16).c_str()));
}
