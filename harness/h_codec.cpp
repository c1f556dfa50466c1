#include <bitset>
#include "pbt.h"
#include "ref.h"
#include "zthdr.h"
#include <random>
#include <set>
#include <thread>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

struct Variant { const char *name; zt_base_definition_t **def; const char *alpha; int obits, ogroups, igroups; bool pad; };
static const char *A64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char *A64U = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
static const char *A32 = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", *A32H = "0123456789ABCDEFGHIJKLMNOPQRSTUV", *A16 = "0123456789ABCDEF";
static Variant VAR[] = {
    {"base64", &zt_base64_rfc, A64, 6, 4, 3, true}, {"base64nopad", &zt_base64_rfc_nopad, A64, 6, 4, 3, false}, {"base64uri", &zt_base64_uri, A64U, 6, 4, 3, true},
    {"base32", &zt_base32_rfc, A32, 5, 8, 5, true}, {"base32hex", &zt_base32_hex, A32H, 5, 8, 5, true}, {"base16", &zt_base16_rfc, A16, 4, 2, 1, false}};

// every other length through the macro of the alphabet
static bool named(Variant &v, size_t n) { return &v >= VAR && &v < VAR + 6 && (n ^ n >> 1) & 1; }
static int enc(Variant &v, const void *in, size_t n, void **o, size_t *on) {
    if (named(v, n)) switch (&v - VAR) { case 0: return zt_base64_encode(in, n, o, on); case 1: return zt_base64_encode_nopad(in, n, o, on); case 2: return zt_base64_encode_uri(in, n, o, on); case 3: return zt_base32_encode(in, n, o, on); case 4: return zt_base32_encode_hex(in, n, o, on); default: return zt_base16_encode(in, n, o, on); }
    return zt_base_encode(*v.def, in, n, o, on);
}
static int dec(Variant &v, const void *in, size_t n, void **o, size_t *on) {
    if (named(v, n)) switch (&v - VAR) { case 0: return zt_base64_decode(in, n, o, on); case 2: return zt_base64_decode_uri(in, n, o, on); case 3: return zt_base32_decode(in, n, o, on); case 4: return zt_base32_decode_hex(in, n, o, on); case 5: return zt_base16_decode(in, n, o, on); }
    return zt_base_decode(*v.def, in, n, o, on);
}
// encode through one of the documented buffer styles; returns text
static std::string encode(Gen &g, Variant &v, const std::string &data, const std::string &want) {
    Mem in(data.data(), data.size()); unsigned style = (unsigned)g.u(3);
    size_t n = 12345; int r;
    if (style == 0 && !data.empty()) { // library allocates
        void *o = nullptr; n = 0; r = enc(v, in.p, in.n, &o, &n); CHECK(r == 0, "%s encode of %zu bytes -> %d", v.name, data.size(), r);
        CHECK(o != nullptr); std::string s((char *)o, n); free(o); return s;
    }
    if (style == 1) { // size query, then exact buffer
        n = g.coin() ? 1u << 20 : want.size(); r = enc(v, in.p, in.n, nullptr, &n);
        CHECK(r == 0 && n == want.size(), "%s size query for %zu bytes: rc %d size %zu want %zu", v.name, data.size(), r, n, want.size());
    } else if (style == 2 && want.size() > 0) { // too small a buffer is refused and left alone
        size_t small = g.u(want.size() - 1); Mem o(small); void *p = o.p; n = small; std::string before = o.s();
        if (small == 0) { static char d; p = &d; }
        r = enc(v, in.p, in.n, &p, &n);
        CHECK(r == -2 && n == want.size(), "%s encode into %zu of %zu: rc %d size %zu", v.name, small, want.size(), r, n); CHECK(o.s() == before, "output written despite refusal");
    }
    size_t room = want.size() + (style == 3 ? g.u(9) : 0); Mem o(room); void *p = o.p; n = room;
    if (room == 0) { static char d; p = &d; }
    r = enc(v, in.p, in.n, &p, &n);
    CHECK(r == 0, "%s encode of %zu bytes -> %d", v.name, data.size(), r);
    CHECK(n <= room, "%s reported %zu bytes in a buffer of %zu", v.name, n, room);
    for (size_t i = n; i < room; i++) CHECK(o.p[i] == (char)0xA5, "byte %zu past the text was written", i - n);
    CHECK(in.s() == data, "input modified");
    return std::string(o.p, n);
}
// decode via one of the buffer styles; returns rc, fills out
static int decode(Gen &g, Variant &v, const std::string &text, std::string &out) {
    Mem in(text.data(), text.size()); unsigned style = (unsigned)g.u(2); out.clear();
    size_t n = 777; int r;
    if (style == 0) { // library allocates
        void *o = nullptr; n = 0; r = dec(v, in.p, in.n, &o, &n);
        if (r == 0 && n) { CHECK(o != nullptr); out.assign((char *)o, n); }
        free(o); CHECK(in.s() == text, "input modified"); return r;
    }
    r = dec(v, in.p, in.n, nullptr, &n); CHECK(r == 0, "%s size query of %s -> %d", v.name, show(text).c_str(), r);
    size_t room = n; CHECK(room <= text.size() + 8, "size query %zu for %zu characters", room, text.size());
    if (style == 1 && room > 0) { // smaller buffer: refused, nothing written
        size_t small = g.u(room - 1); Mem o(small); void *p = o.p; static char d; if (!small) p = &d; n = small; std::string before = o.s();
        int r2 = dec(v, in.p, in.n, &p, &n);
        CHECK(r2 == -2 && n == room, "%s decode into %zu of %zu: rc %d size %zu", v.name, small, room, r2, n); CHECK(o.s() == before, "output written despite refusal");
    }
    Mem o(room); void *p = o.p; static char d; if (!room) p = &d; n = room;
    r = dec(v, in.p, in.n, &p, &n);
    if (r == 0) { CHECK(n <= room, "%s decode reported %zu bytes in a buffer of %zu", v.name, n, room); out.assign(o.p, n); }
    CHECK(in.s() == text, "input modified");
    return r;
}

P(B01, roundtrip, 500000, 10000000, 500, "random byte strings (0..400 bytes, edge bytes, exact-size heap buffers) through all six alphabets and all buffer styles against an independent encoder; non-trivial = at least one full group and a partial one") {
    Variant &v = VAR[g.u(5)]; std::string d = g.coin() ? g.bytestr(60) : g.blob(g.len(400));
    std::string want = ref::base(d, v.alpha, v.obits, v.ogroups, v.pad), back;
    g.note("%s of %s", v.name, hex(d.data(), d.size()).c_str()); g.label(v.name);
    std::string e = encode(g, v, d, want);
    CHECK(e == want, "%s of %s: got %s want %s", v.name, hex(d.data(), d.size()).c_str(), show(e).c_str(), show(want).c_str());
    int r = decode(g, v, e, back); CHECK(r == 0, "%s decode of own output -> %d", v.name, r);
    CHECK(back == d, "%s: decoded %s want %s", v.name, hex(back.data(), back.size()).c_str(), hex(d.data(), d.size()).c_str());
    if ((int)d.size() > v.igroups && (v.igroups == 1 || d.size() % v.igroups)) g.nontrivial();
}
P_(B01, large, 120, 3000, 10, 120, 0, 300, "data of 40000..300000 bytes, around multiples of 64 KiB often, through all six alphabets and buffer styles: encoded as by the reference and decoded back; non-trivial = more than 64 KiB") {
    Variant &v = VAR[g.u(5)]; size_t n = 40000 + g.big(260000); std::string d = g.blob(n), want = ref::base(d, v.alpha, v.obits, v.ogroups, v.pad), back; g.note("%s of %zu bytes", v.name, n); if (n > 65536) g.nontrivial();
    std::string e = encode(g, v, d, want); CHECK(e.size() == want.size(), "%zu characters want %zu", e.size(), want.size()); for (size_t i = 0; i < e.size(); i++) CHECK(e[i] == want[i], "character %zu is %d want %d", i, e[i], want[i]); int r = decode(g, v, e, back); CHECK(r == 0, "decode -> %d", r); CHECK(back == d, "decoded %zu bytes differ", back.size());
}
P(B01, custom, 100000, 2000000, 500, "definitions of the user's own (any alphabet of 64, 32 or 16 characters, any padding character or none, any ignored characters): encoding by the reference and back, ignored characters put anywhere; definitions whose groups do not fit are refused; non-trivial = a partial group") {
    int k = (int)g.u(2); size_t base = k == 0 ? 64 : k == 1 ? 32 : 16; std::vector<int> ch; for (int i = 1; i < 256; i++) ch.push_back(i); for (size_t i = 0; i <= base + 3; i++) std::swap(ch[i], ch[i + g.u(ch.size() - 1 - i)]);
    std::string alpha; for (size_t i = 0; i < base; i++) alpha += (char)ch[i]; char pad = (char)ch[base], ign[3] = {(char)ch[base + 1], (char)ch[base + 2], (char)ch[base + 3]}; bool padded = g.coin(); CStr al(alpha);
    Mem raw(sizeof(zt_base_definition_t)); zt_base_definition_t *def = (zt_base_definition_t *)raw.p; char *dict = (char *)def->dictionary; memset(dict, -1, 256); for (size_t i = 0; i < base; i++) dict[(unsigned char)alpha[i]] = (char)i; dict[(unsigned char)pad] = -2; for (char c : ign) dict[(unsigned char)c] = -2;
    def->alphabet = al.p; def->base = base; def->igroups = k == 0 ? 3 : k == 1 ? 5 : 1; def->ogroups = k == 0 ? 4 : k == 1 ? 8 : 2; def->obits = k == 0 ? 6 : k == 1 ? 5 : 4; def->pad = pad; def->flags = (zt_base_flags)(padded ? zt_base_encode_with_padding : 0);
    Variant v = {"custom", &def, al.p, def->obits, def->ogroups, def->igroups, padded}; std::string d = g.bytestr(60), back; if (g.chance(1, 10)) { Mem in(d.data(), d.size()); void *o = NULL; size_t n = 0; g.label("refused"); unsigned char &x = g.coin() ? def->igroups : g.coin() ? def->ogroups : def->obits; unsigned char old = x; do x = (unsigned char)g.u(255); while (x == old); CHECK(zt_base_encode(def, in.p, in.n, &o, &n) == -1 && !o, "a definition with %u input groups, %u output groups of %u bits is accepted", def->igroups, def->ogroups, def->obits); CHECK(zt_base_decode(def, in.p, in.n, &o, &n) == -1 && !o); CHECK(zt_base_encode(NULL, in.p, in.n, &o, &n) == -1 && zt_base_decode(NULL, in.p, in.n, &o, &n) == -1); return; }
    std::string want = ref::base(d, al.p, def->obits, def->ogroups, false); if (padded) while (want.size() % def->ogroups) want += pad; g.note("base %zu pad %s of %s", base, padded ? show(std::string(1, pad)).c_str() : "none", hex(d.data(), d.size()).c_str()); if (d.size() % def->igroups) g.nontrivial();
    std::string e = encode(g, v, d, want); CHECK(e == want, "got %s want %s", show(e).c_str(), show(want).c_str()); int r = decode(g, v, e, back); CHECK(r == 0, "decode of own output -> %d", r); CHECK(back == d, "decoded %s", hex(back.data(), back.size()).c_str()); for (int i = (int)g.u(4); i--;) e.insert(g.u(e.size()), 1, ign[g.u(2)]); r = decode(g, v, e, back); CHECK(r == 0, "decode with ignored characters -> %d", r); CHECK(back == d, "decoded %s", hex(back.data(), back.size()).c_str());
}
P(B02, decode, 500000, 10000000, 500, "texts: valid encodings with injected whitespace/padding, truncations, single-character corruptions, and arbitrary bytes, decoded in all buffer styles against an independent decoder; non-trivial = the text has a character that is not plain alphabet, or an incomplete group") {
    Variant &v = VAR[g.u(5)]; std::string t;
    unsigned mode = (unsigned)g.u(5);
    if (mode == 0) t = g.bytestr(40);
    else if (mode == 1) t = g.str(v.alpha, 60);
    else {
        t = ref::base(g.bytestr(60), v.alpha, v.obits, v.ogroups, v.pad || g.coin());
        int k = (int)g.u(4);
        for (int i = 0; i < k; i++) { size_t at = g.u(t.size()); switch (g.u(3)) {
            case 0: t.insert(at, 1, " \t\r\n"[g.u(3)]); break; case 1: t.insert(at, g.u(5), '='); break;
            case 2: if (at < t.size()) t.erase(at, 1 + g.u(2)); break; default: if (at < t.size()) t[at] = (char)g.u(255); break; } }
    }
    std::string want, got; bool ok = ref::unbase(t, v.alpha, v.obits, want);
    g.note("%s decode %s", v.name, show(t).c_str()); g.label(ok ? "decodable" : "rejected");
    int r = decode(g, v, t, got);
    if (ok) { CHECK(r == 0, "%s decode of %s -> %d, want success", v.name, show(t).c_str(), r); CHECK(got == want, "%s decode of %s: got %s want %s", v.name, show(t).c_str(), hex(got.data(), got.size()).c_str(), hex(want.data(), want.size()).c_str()); }
    else CHECK(r < 0, "%s decode accepted %s", v.name, show(t).c_str());
    if (!ok || t.find_first_not_of(v.alpha) != t.npos) g.nontrivial();
}
P_(B02, large, 120, 3000, 10, 120, 0, 300, "encodings of 40000..200000 bytes with white space anywhere, runs of more than 64 KiB of white space, ends cut off and single characters replaced, decoded as by the reference; non-trivial = more than 64 Ki characters") {
    Variant &v = VAR[g.u(5)]; std::string t = ref::base(g.blob(20000 + g.big(180000)), v.alpha, v.obits, v.ogroups, v.pad), want, got; int k = (int)g.u(3); while (k--) { size_t at = g.u(t.size()); switch (g.u(4)) { case 0: t.insert(at, g.coin() ? g.u(20) : g.big(140000), " \t\r\n"[g.u(3)]); break; case 1: t.resize(at); break; case 2: if (at < t.size()) t[at] = (char)g.u(255); break; case 3: t.erase(at, 1 + g.u(3)); break; case 4: t.insert(at, 1 + g.u(3), '='); } }
    bool ok = ref::unbase(t, v.alpha, v.obits, want); g.note("%s decode of %zu characters, %s", v.name, t.size(), ok ? "good" : "bad"); g.label(ok ? "decodable" : "rejected"); if (t.size() > 65536) g.nontrivial(); int r = decode(g, v, t, got); if (ok) { CHECK(r == 0, "decode -> %d", r); CHECK(got == want, "%zu bytes decoded want %zu", got.size(), want.size()); } else CHECK(r < 0, "accepted");
}
P(B02, sizeonly, 50000, 1000000, 200, "decode with no destination but a non-zero announced size: only the size may be reported; non-trivial = non-empty text") {
    Variant &v = VAR[g.u(5)]; std::string t = ref::base(g.bytestr(40), v.alpha, v.obits, v.ogroups, v.pad); if (t.empty()) t = v.alpha;
    size_t n = 1 + g.len(300); void *o = nullptr; CStr in(t); g.note("%s decode of %s without destination, size %zu", v.name, show(t).c_str(), n);
    int r = zt_base_decode(*v.def, in.p, in.n, &o, &n); CHECK(r == 0 || r == -2, "rc %d", r); CHECK(o == nullptr); CHECK(n + v.igroups >= t.size() * v.obits / 8, "size %zu for %zu characters", n, t.size()); g.nontrivial();
    // missing size pointer is refused
    CHECK(zt_base_decode(*v.def, in.p, in.n, &o, nullptr) == -1); CHECK(zt_base_encode(*v.def, in.p, in.n, &o, nullptr) == -1);
}

// ---------------------------------------------------------------- SHA-1
P(H01, sha1, 200000, 4000000, 200, "messages of 0..700 bytes at arbitrary alignment, split into random update calls, against an independent SHA-1; non-trivial = message longer than one block and split in more than one call") {
    std::string m = g.coin() ? g.blob(g.len(700)) : g.bytestr(200); std::string want = ref::Sha1::digest(m);
    size_t off = g.u(7); Mem buf(m.size() + off); memcpy(buf.p + off, m.data(), m.size()); uint8_t *d = (uint8_t *)buf.p + off;
    uint8_t dg[20]; zt_sha1_ctx c; zt_sha1_init(&c); size_t i = 0; int calls = 0;
    while (i < m.size()) { size_t k = g.chance(1, 3) ? std::min<size_t>(m.size() - i, 63 + g.u(66)) : g.u(m.size() - i); if (calls > 60) k = m.size() - i; Mem part(d + i, k); zt_sha1_update(&c, (uint8_t *)part.p, k); CHECK(!memcmp(part.p, m.data() + i, k), "update modified the caller's data"); i += k; calls++; }
    zt_sha1_finalize(&c, dg); g.note("sha1 of %zu bytes in %d updates, alignment %zu", m.size(), calls, off);
    CHECK(std::string((char *)dg, 20) == want, "%zu bytes in %d updates: %s want %s", m.size(), calls, hex(dg, 20).c_str(), ref::hexs(want).c_str());
    uint8_t d2[20]; zt_sha1_data(d, m.size(), d2); CHECK(std::string((char *)d2, 20) == want, "one-shot of %zu bytes at offset %zu: %s", m.size(), off, hex(d2, 20).c_str());
    CHECK(!memcmp(d, m.data(), m.size()), "one-shot digest modified the caller's data");
    if (m.size() > 64 && calls > 1) g.nontrivial();
}
P(H01, text, 50000, 1000000, 200, "digest to text and back for arbitrary digests, exact-size buffers; all cases non-trivial") {
    Mem d(20); for (int i = 0; i < 20; i++) d.p[i] = (char)g.u(255); std::string raw = d.s(); Mem t(41); g.note("digest %s", hex(d.p, 20).c_str());
    char *r = zt_sha1_tostr((uint8_t *)d.p, t.p); CHECK(r == t.p); CHECK(t.p[40] == 0, "text not terminated"); CHECK(std::string(t.p) == ref::hexs(raw), "%s", show(std::string(t.p, 41)).c_str());
    Mem b(20); if (g.coin()) for (int i = 0; i < 40; i++) t.p[i] = (char)toupper(t.p[i]);
    CHECK(zt_str_tosha1(t.p, (uint8_t *)b.p) == (uint8_t *)b.p); CHECK(b.s() == raw, "text %s back to %s", t.p, hex(b.p, 20).c_str()); g.nontrivial();
}
P(H01, readonly, 2000, 20000, 50, "hashing data in read-only memory must not fault; all cases non-trivial") {
    std::string m = g.blob(64 + g.u(4000)); char *p = (char *)mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memcpy(p, m.data(), m.size()); mprotect(p, 8192, PROT_READ);
    uint8_t d[20]; g.note("sha1 of %zu read-only bytes", m.size()); zt_sha1_data(p, m.size(), d); CHECK(std::string((char *)d, 20) == ref::Sha1::digest(m)); munmap(p, 8192); g.nontrivial();
}

P_(H01, huge, 16, 64, 1, 120, 8, 3, "zero messages whose bit length crosses 32 bits, fed in one call, a few calls of random size or many equal pieces; all cases non-trivial") {
    int kind = (int)g.each(4); uint64_t n = (1ull << 29) - 70 + g.u(200); if (kind == 3) n = (1ull << 29) + g.u(300u << 20);
    size_t piece = kind == 2 ? 4096 + g.u(16u << 20) : kind == 3 ? (256u << 20) + g.u(200u << 20) : n; int parts = kind == 1 ? 1 + (int)g.u(3) : 0; g.note("%llu zero bytes, %d random calls, then pieces of %zu", (unsigned long long)n, parts, piece);
    if (kind == 2) n += piece;
    uint8_t *p = (uint8_t *)mmap(0, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return;
    uint8_t d[20]; zt_sha1_ctx c; zt_sha1_init(&c); uint64_t i = 0; for (int k = 0; k < parts; k++) { uint64_t l = g.u(n - i); zt_sha1_update(&c, p + i, l); i += l; }
    while (i < n) { size_t l = std::min<uint64_t>(piece, n - i); zt_sha1_update(&c, p + i, l); i += l; } zt_sha1_finalize(&c, d);
    ref::Sha1 r; r.zeros(n); std::string w = r.fin(); CHECK(std::string((char *)d, 20) == w, "%s want %s", hex(d, 20).c_str(), ref::hexs(w).c_str()); munmap(p, n); g.nontrivial();
}

P_(H01, giant, 1, 8, 1, 400, 8, 3, "zero messages of about 2^32 bytes given to one call after one of 0..63 bytes; all cases non-trivial") {
    uint64_t before = g.u(63), n = (1ull << 32) - 70 + g.u(140) + before; if (g.chance(1, 4)) n = (1ull << 32) + before; g.note("%llu zero bytes, %llu of them in a first call", (unsigned long long)n, (unsigned long long)before);
    uint8_t *p = (uint8_t *)mmap(0, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return;
    uint8_t d[20]; zt_sha1_ctx c; zt_sha1_init(&c); if (before) zt_sha1_update(&c, p, before); zt_sha1_update(&c, p + before, n - before); zt_sha1_finalize(&c, d);
    ref::Sha1 r; r.zeros(n); std::string w = r.fin(); CHECK(std::string((char *)d, 20) == w, "%s want %s", hex(d, 20).c_str(), ref::hexs(w).c_str()); munmap(p, n); g.nontrivial();
}

// ---------------------------------------------------------------- FNV
extern "C" { uint64_t zt_hash64_buff(void *, size_t, uint64_t); uint64_t zt_hash64_cstr(const uint8_t *, uint64_t); }
P(H02, folds, 400000, 8000000, 2000, "32 bit hashes folded to 4, 8, 16, 24 and any 1..32 bits with the published macros, against the published xor fold; non-trivial = top bits set") {
    uint32_t h = (uint32_t)g.bits(32); if (g.chance(1, 6)) h = (uint32_t)g.pick({0ull, 0xffffffffull, 0x80000000ull, 0xffffull, 0xffff0000ull, 0xff000000ull, 0xffffffull}); int n = 1 + (int)g.u(31); g.note("hash %08x bits %d", h, n);
    if (h >> 24) g.nontrivial(); auto ref = [&](int b) { return b >= 32 ? h : ((h >> b) ^ h) & (uint32_t)((1ull << b) - 1); }; uint32_t t;
    t = h; ZT_HASH24_MASK(t); CHECK(t == ref(24), "24 bits: %08x", t); t = h; ZT_HASH16_MASK(t); CHECK(t == ref(16), "16 bits: %08x", t); t = h; ZT_HASH8_MASK(t); CHECK(t == ref(8), "8 bits: %08x", t); t = h; ZT_HASH4_MASK(t); CHECK(t == ref(4), "4 bits: %08x", t);
    t = h; ZT_HASH_SUB32_MASK(t, n); CHECK(t == ref(n), "%d bits: %08x", n, t); t = h; ZT_HASH_SUB32_MASK(t, 32); CHECK(t == h, "32 bits: %08x", t);
}
P(H02, fnv, 800000, 20000000, 500, "byte strings with any starting value, split at a random point, against independent 32/64-bit FNV-1a; non-trivial = at least 2 bytes") {
    std::string m = g.bytestr(120); Mem b(m.data(), m.size()); uint32_t i32 = g.coin() ? 0 : (uint32_t)g.bits(32); uint64_t i64 = g.coin() ? 0 : g.bits(64);
    g.note("fnv of %s from %08x/%016llx", hex(m.data(), m.size()).c_str(), i32, (unsigned long long)i64);
    CHECK(zt_hash32_buff(b.p, b.n, i32) == ref::fnv32(m, i32)); CHECK(zt_hash64_buff(b.p, b.n, i64) == ref::fnv64(m, i64));
    std::string c = m; for (auto &x : c) if (!x) x = 1; CStr cs(c);
    CHECK(zt_hash32_cstr((uint8_t *)cs.p, i32) == ref::fnv32(c, i32)); CHECK(zt_hash64_cstr((uint8_t *)cs.p, i64) == ref::fnv64(c, i64));
    size_t k = g.u(m.size()); Mem x(m.data(), k), y(m.data() + k, m.size() - k);
    uint32_t h = zt_hash32_buff(x.p, x.n, i32); if (h) CHECK(zt_hash32_buff(y.p, y.n, h) == ref::fnv32(m, i32), "chained 32-bit hash");
    uint64_t h6 = zt_hash64_buff(x.p, x.n, i64); if (h6) CHECK(zt_hash64_buff(y.p, y.n, h6) == ref::fnv64(m, i64), "chained 64-bit hash");
    CHECK(b.s() == m); if (m.size() > 1) g.nontrivial();
}

// ---------------------------------------------------------------- UUID
static const zt_uuid_flags_t FM[] = {zt_uuid_std_fmt, zt_uuid_short_fmt, zt_uuid_base62_fmt, zt_uuid_base62_hashable_fmt};
static const size_t FL[] = {36, 32, 22, 22};
static const char *A62 = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
static std::string b62(const uint8_t *p) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | p[i]; std::string s(11, '0'); for (int i = 10; i >= 0; i--) { s[i] = A62[v % 62]; v /= 62; } return s; }
static std::string reftext(const uint8_t *b, int f) {
    std::string h = ref::hexs(std::string((const char *)b, 16));
    if (f == 0) return h.substr(0, 8) + "-" + h.substr(8, 4) + "-" + h.substr(12, 4) + "-" + h.substr(16, 4) + "-" + h.substr(20);
    if (f == 1) return h;
    std::string a = b62(b), c = b62(b + 8); if (f == 3) a = std::string(a.rbegin(), a.rend()); return a + c;
}
static void genuuid(Gen &g, zt_uuid_t *u) { if (g.coin()) for (int k = 0; k < 2; k++) { uint64_t v = g.bits(64); for (int i = 0; i < 8; i++) u->data.bytes[k * 8 + i] = (uint8_t)(v >> (56 - 8 * i)); } else for (auto &b : u->data.bytes) b = (uint8_t)g.u(255); }
P(U01, roundtrip, 300000, 6000000, 500, "arbitrary 128-bit values through all four text forms, both output calls and all buffer sizes, against an independent formatter; all cases non-trivial") {
    zt_uuid_t u, v; genuuid(g, &u); int f = (int)g.u(3); std::string want = reftext(u.data.bytes, f); g.note("uuid %s form %d", hex(u.data.bytes, 16).c_str(), f);
    char *s = nullptr; ssize_t n = zt_uuid_tostr(&u, &s, FM[f]); CHECK(n == (ssize_t)FL[f], "length %zd", n); CHECK(s && want == s, "text %s want %s", s, want.c_str());
    CHECK(zt_uuid_isvalid(s, FM[f]) == 0, "own text %s judged invalid", s);
    size_t need = 1; CHECK(zt_uuid_fillstr(&u, nullptr, &need, FM[f]) == 0 && need == FL[f] + 1, "size query %zu", need);
    { size_t small = g.u(FL[f]); Mem b(small); size_t k = small; std::string before = b.s(); CHECK(zt_uuid_fillstr(&u, b.p, &k, FM[f]) == 0 && k == FL[f] + 1, "buffer of %zu", small); CHECK(b.s() == before, "short buffer written"); }
    { size_t room = FL[f] + 1 + g.u(6); Mem b(room); size_t k = room; CHECK(zt_uuid_fillstr(&u, b.p, &k, FM[f]) == (ssize_t)FL[f]); CHECK(want == b.p, "fill %s want %s", b.p, want.c_str()); }
    memset(&v, 0xEE, sizeof v); CStr t(want); CHECK(zt_uuid_fromstr(t, &v, FM[f]) == 0, "own text %s rejected", want.c_str()); CHECK(zt_uuid_cmp(&u, &v) == 0 && !memcmp(u.data.bytes, v.data.bytes, 16), "parsed %s", hex(v.data.bytes, 16).c_str());
    if (f < 2 && g.coin()) { std::string up = want; for (auto &c : up) c = (char)toupper(c); CStr q(up); memset(&v, 0, sizeof v); CHECK(zt_uuid_fromstr(q, &v, FM[f]) == 0 && zt_uuid_cmp(&u, &v) == 0, "upper case %s", up.c_str()); }
    zt_uuid_t w; genuuid(g, &w); int c = zt_uuid_cmp(&u, &w), m = memcmp(u.data.bytes, w.data.bytes, 16); CHECK((c < 0) == (m < 0) && (c > 0) == (m > 0)); free(s); g.nontrivial();
}
P(U01, malformed, 500000, 10000000, 500, "texts one edit away from valid ones (wrong length, wrong separator, wrong character) and arbitrary texts: validation and parsing must both reject, without reading outside the text; non-trivial = the text is malformed") {
    int f = (int)g.u(3); zt_uuid_t u, v; genuuid(g, &u); std::string t = reftext(u.data.bytes, f);
    if (f >= 2 && g.chance(1, 4)) { // around the largest half
        std::string top = "lYGhA16ahyf"; if (g.coin()) top[g.u(10)] = A62[g.u(61)]; if (g.coin()) top[10] = A62[g.u(61)]; bool lo = g.coin(); if (f == 3 && !lo) std::reverse(top.begin(), top.end()); t.replace(lo ? 11 : 0, 11, top); } else switch (g.u(4)) {
    case 0: t = g.cstr(40); break; case 1: t = t.substr(0, g.u(t.size() - 1)); break; case 2: t += g.str("0a-Z ", 4) + "0"; break;
    case 3: { size_t i = g.u(t.size() - 1); t[i] = (char)(1 + g.u(254)); break; }
    default: { size_t i = g.u(t.size() - 1), j = g.u(t.size() - 1); std::swap(t[i], t[j]); if (g.coin()) t[i] = g.pick({' ', '-', 'g', 'G', '/', '\n'}); } }
    bool ok = t.size() == FL[f];
    for (size_t i = 0; ok && i < t.size(); i++) if (f == 0 && (i == 8 || i == 13 || i == 18 || i == 23)) ok = t[i] == '-'; else ok = strchr(f < 2 ? "0123456789abcdefABCDEF" : A62, t[i]) != nullptr;
    CStr c(t); g.note("form %d text %s", f, show(t).c_str()); g.label(ok ? "valid" : "malformed");
    CHECK((zt_uuid_isvalid(c, FM[f]) == 0) == ok, "validity of %s in form %d", show(t).c_str(), f);
    memset(&v, 0x5a, sizeof v); int r = zt_uuid_fromstr(c, &v, FM[f]);
    if (ok && f >= 2) { // eleven digits can exceed 64 bits; such text names no value
        unsigned __int128 a = 0, b = 0; for (int i = 0; i < 11; i++) { a = a * 62 + (strchr(A62, t[f == 3 ? 10 - i : i]) - A62); b = b * 62 + (strchr(A62, t[11 + i]) - A62); } if (a >> 64 || b >> 64) { g.label("too large"); CHECK(r == -1, "%s is more than 128 bits, accepted", t.c_str()); for (uint8_t x : v.data.bytes) CHECK(x == 0x5a, "refused text stored"); g.nontrivial(); return; } }
    if (ok) { CHECK(r == 0, "valid %s rejected", t.c_str()); char *s; CHECK(zt_uuid_tostr(&v, &s, FM[f]) > 0); std::string lo = t; if (f < 2) for (auto &x : lo) x = (char)tolower(x); CHECK(lo == s, "%s came back as %s", t.c_str(), s); free(s); }
    else { CHECK(r == -1, "malformed %s accepted in form %d", show(t).c_str(), f); g.nontrivial(); }
}
static const uint8_t NSB[4] = {0x10, 0x11, 0x12, 0x14};
P(U02, v5, 150000, 3000000, 200, "names of 0..300 bytes in all four name spaces against SHA-1 of namespace and name; non-trivial = non-empty name") {
    std::string n = g.coin() ? g.bytestr(120) : g.blob(g.len(300)); int ns = (int)g.u(3); zt_uuid_ns NS[] = {UUID_NS_DNS, UUID_NS_URL, UUID_NS_OID, UUID_NS_X500};
    uint8_t nb[16] = {0x6b, 0xa7, 0xb8, NSB[ns], 0x9d, 0xad, 0x11, 0xd1, 0x80, 0xb4, 0x00, 0xc0, 0x4f, 0xd4, 0x30, 0xc8};
    std::string d = ref::Sha1::digest(std::string((char *)nb, 16) + n).substr(0, 16); d[6] = (char)((d[6] & 0x0f) | 0x50); d[8] = (char)((d[8] & 0x3f) | 0x80);
    for (int k = 0; k < 2; k++) { Mem b(n.data(), n.size()); zt_uuid_t u; memset(&u, k ? 0xff : 0, sizeof u); g.note("v5 ns %d name %s", ns, hex(n.data(), n.size()).c_str());
        CHECK(zt_uuid5(b.p, b.n, NS[ns], &u) == 0); CHECK(std::string((char *)u.data.bytes, 16) == d, "ns %d name %s: %s want %s", ns, hex(n.data(), n.size()).c_str(), hex(u.data.bytes, 16).c_str(), ref::hexs(d).c_str()); CHECK(b.s() == n, "name modified"); }
    zt_uuid_t u; CHECK(zt_uuid5((char *)"x", 1, (zt_uuid_ns)(4 + g.u(50)), &u) == -1, "unknown name space accepted"); if (!n.empty()) g.nontrivial();
}
P(U02, v4, 8000, 200000, 20, "runs of random identifiers: version and variant bits always right, all distinct; all cases non-trivial") {
    std::set<std::string> seen; int n = 1 + (int)g.u(300); g.note("%d random identifiers", n); std::vector<std::bitset<302>> col(128); uint8_t o[16] = {0}, a[16]; memset(a, 0xff, 16);
    for (int i = 0; i < n; i++) { zt_uuid_t u; memset(&u, i & 1 ? 0xff : 0, sizeof u); CHECK(zt_uuid4(&u) == 0); CHECK((u.data.bytes[6] >> 4) == 4 && (u.data.bytes[8] >> 6) == 2, "%s", hex(u.data.bytes, 16).c_str()); CHECK(seen.insert(std::string((char *)u.data.bytes, 16)).second, "identifier %d repeats: %s", i, hex(u.data.bytes, 16).c_str()); for (int k = 0; k < 16; k++) { o[k] |= u.data.bytes[k]; a[k] &= u.data.bytes[k]; } for (int k = 0; k < 128; k++) col[k][i] = u.data.bytes[k / 8] >> (k % 8) & 1; }
    // every free bit must vary: with 200 draws a constant free bit has probability 2^-199
    if (n > 200) for (int k = 0; k < 16; k++) { uint8_t fix = k == 6 ? 0xf0 : k == 8 ? 0xc0 : 0; CHECK((uint8_t)((o[k] ^ a[k]) | fix) == 0xff, "bits of byte %d never vary: %02x", k, (uint8_t)(o[k] ^ a[k])); }
    // and no free bit is a copy or the opposite of another
    if (n > 200) { std::vector<int> fr; for (int k = 0; k < 128; k++) if (!(k / 8 == 6 && k % 8 >= 4) && !(k / 8 == 8 && k % 8 >= 6)) fr.push_back(k); for (int x : fr) for (int y : fr) if (x < y) { size_t d = (col[x] ^ col[y]).count(); CHECK(d != 0 && d != (size_t)n, "bits %d and %d always vary together", x, y); } }
    g.nontrivial();
}
struct UA { pthread_barrier_t *b; int n; std::vector<std::string> out; };
static void *uth(void *p) { UA *a = (UA *)p; if (a->b) pthread_barrier_wait(a->b); for (int i = 0; i < a->n; i++) { zt_uuid_t u; zt_uuid4(&u); if ((u.data.bytes[6] >> 4) != 4 || (u.data.bytes[8] >> 6) != 2) a->out.push_back(""); else a->out.push_back(std::string((char *)u.data.bytes, 16)); } return nullptr; }
P_(U03, threads, 4000, 40000, 1, 60, 0, 12, "2..8 threads (started together or one after another, with or without an earlier draw in the main thread) drawing 1..40 identifiers each, in a fresh process; non-trivial = at least two threads draw") {
    int nt = 2 + (int)g.u(6); bool together = g.coin(), mainfirst = g.coin(); std::set<std::string> seen; g.note("%d threads %s%s", nt, together ? "together" : "in turn", mainfirst ? ", main thread drew first" : "");
    auto add = [&](const std::string &s) { CHECK(!s.empty(), "wrong version or variant"); CHECK(seen.insert(s).second, "two threads drew the same identifier %s", hex(s.data(), 16).c_str()); };
    if (mainfirst) { UA a{nullptr, 1 + (int)g.u(3), {}}; uth(&a); for (auto &s : a.out) add(s); }
    pthread_barrier_t b; pthread_barrier_init(&b, nullptr, nt); std::vector<UA> as(nt); std::vector<pthread_t> th(nt);
    for (int i = 0; i < nt; i++) { as[i].b = together ? &b : nullptr; as[i].n = 1 + (int)g.u(39); }
    for (int i = 0; i < nt; i++) { CHECK(pthread_create(&th[i], nullptr, uth, &as[i]) == 0); if (!together) pthread_join(th[i], nullptr); }
    if (together) for (auto &t : th) pthread_join(t, nullptr);
    for (auto &a : as) { CHECK((int)a.out.size() == a.n); for (auto &s : a.out) add(s); } g.nontrivial();
}
P_(U03, processes, 1500, 10000, 1, 60, 0, 12, "2..6 processes that never drew before start in the same second and draw 1..20 identifiers each; all cases non-trivial") {
    int np = 2 + (int)g.u(4), n = 1 + (int)g.u(19); int fd[2]; CHECK(pipe(fd) == 0); g.note("%d processes, %d draws each", np, n);
    for (int i = 0; i < np; i++) { pid_t p = fork(); if (p == 0) { for (int k = 0; k < n; k++) { zt_uuid_t u; zt_uuid4(&u); if (write(fd[1], u.data.bytes, 16) != 16) _exit(1); } _exit(0); } }
    close(fd[1]); for (int i = 0; i < np; i++) wait(nullptr);
    std::set<std::string> seen; char b[16]; int c = 0; while (read(fd[0], b, 16) == 16) { c++; CHECK(seen.insert(std::string(b, 16)).second, "two processes drew the same identifier %s", hex(b, 16).c_str()); } close(fd[0]); CHECK(c == np * n); g.nontrivial();
}
P_(U03, forks, 1500, 10000, 1, 60, 0, 12, "a process draws 0..5 identifiers in 1..3 threads, forks 1..3 children which draw or not, fork in turn (down to two levels, at times ending before their own children draw) and draw again, and goes on drawing; everything drawn anywhere is distinct; non-trivial = a draw before a fork") {
    int fd[2]; CHECK(pipe(fd) == 0); int expect = 0; int pre = (int)g.u(5), th = (int)g.u(2), kids = 1 + (int)g.u(2), kd = (int)g.u(5), sub = (int)g.u(2), post = (int)g.u(4); bool kth = g.coin(), orphan = g.coin(); int idle = (int)g.u(1); g.note("%d draws, %d threads, %d children of %d draws with %d%s children, %d draws", pre, th, kids, kd, sub, orphan ? " orphaned" : "", post);
    auto draw = [&](int n) { for (int k = 0; k < n; k++) { zt_uuid_t u; zt_uuid4(&u); if (write(fd[1], u.data.bytes, 16) != 16) _exit(1); } };
    auto thr = [&](int n) { UA a{nullptr, n, {}}; pthread_t t; if (pthread_create(&t, nullptr, uth, &a)) _exit(1); pthread_join(t, nullptr); for (auto &s : a.out) if (s.size() != 16 || write(fd[1], s.data(), 16) != 16) _exit(1); };
    draw(pre); expect += pre; for (int i = 0; i < th; i++) { thr(2); expect += 2; } if (pre) g.nontrivial();
    for (int i = 0; i < kids; i++) { pid_t p = fork(); if (p == 0) { pid_t me = getpid(); draw(kd); if (kth) thr(2); for (int j = 0; j < sub; j++) { pid_t q = fork(); if (q == 0) { for (int w = 0; orphan && w < 400 && getppid() == me; w++) usleep(500); draw(2); _exit(0); } if (!idle) draw(1); } while (!orphan && wait(nullptr) > 0) ; draw(1); _exit(0); } expect += kd + 2 * kth + (idle ? 2 : 3) * sub + 1; draw(post); expect += post; }
    close(fd[1]); std::set<std::string> seen; char b[16]; int c = 0; while (read(fd[0], b, 16) == 16) { c++; CHECK(seen.insert(std::string(b, 16)).second, "identifier %s was drawn twice", hex(b, 16).c_str()); } close(fd[0]); while (wait(nullptr) > 0) ; CHECK(c == expect, "%d of %d identifiers", c, expect);
}

// ---------------------------------------------------------------- random
static void refarray(std::vector<uint32_t> &mt, const std::vector<uint32_t> &key) {
    mt.assign(624, 0); mt[0] = 19650218u; for (int i = 1; i < 624; i++) mt[i] = 1812433253u * (mt[i - 1] ^ (mt[i - 1] >> 30)) + (uint32_t)i;
    size_t i = 1, j = 0; for (size_t k = std::max<size_t>(624, key.size()); k; k--) { mt[i] = (mt[i] ^ ((mt[i - 1] ^ (mt[i - 1] >> 30)) * 1664525u)) + key[j] + (uint32_t)j; if (++i >= 624) { mt[0] = mt[623]; i = 1; } if (++j >= key.size()) j = 0; }
    for (size_t k = 623; k; k--) { mt[i] = (mt[i] ^ ((mt[i - 1] ^ (mt[i - 1] >> 30)) * 1566083941u)) - (uint32_t)i; if (++i >= 624) { mt[0] = mt[623]; i = 1; } } mt[0] = 0x80000000u;
}
struct RefMT { std::vector<uint32_t> mt; size_t i = 624; uint32_t next() { if (i >= 624) { for (size_t k = 0; k < 624; k++) { uint32_t y = (mt[k] & 0x80000000u) | (mt[(k + 1) % 624] & 0x7fffffffu); mt[k] = mt[(k + 397) % 624] ^ (y >> 1) ^ ((y & 1) ? 0x9908b0dfu : 0); } i = 0; } uint32_t y = mt[i++]; y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; y ^= y >> 18; return y; } };
P(R01, mt19937, 60000, 1500000, 100, "1..3 interleaved generators, seeded by a number or by an array of 1..700 words, 1..2000 draws, reseeded at random points, against an independent Mersenne Twister; non-trivial = more than 624 draws from one generator") {
    int ng = 1 + (int)g.u(2); std::vector<zt_random_state *> st; std::vector<RefMT> rf(ng); size_t mx = 0; std::vector<size_t> cnt(ng, 0);
    auto seed = [&](int k) { if (g.coin()) { uint32_t s = (uint32_t)g.bits(32); zt_random_srandom(st[k], s); rf[k].mt.assign(624, s); for (int i = 1; i < 624; i++) rf[k].mt[i] = 1812433253u * (rf[k].mt[i - 1] ^ (rf[k].mt[i - 1] >> 30)) + (uint32_t)i; g.note("seed %u", s); }
        else { size_t n = 1 + (g.chance(1, 400) ? g.big(100000) : g.chance(1, 4) ? g.u(699) : g.len(20)); std::vector<uint32_t> key; std::string bl = g.blob(n * 4); for (size_t i = 0; i < n; i++) { uint32_t v; memcpy(&v, &bl[i * 4], 4); key.push_back(v); } Mem km(key.data(), n * 4); zt_random_initstate(st[k], (uint32_t *)km.p, n); refarray(rf[k].mt, key); g.note("seed array of %zu", n); } rf[k].i = 624; cnt[k] = 0; };
    for (int k = 0; k < ng; k++) { st.push_back((zt_random_state *)malloc(sizeof(zt_random_state))); memset(st[k], g.coin() ? 0 : 0xff, sizeof(zt_random_state)); seed(k); }
    int steps = 1 + (int)g.u(11);
    for (int s = 0; s < steps; s++) { int k = (int)g.u(ng - 1); if (g.chance(1, 8)) seed(k); size_t n = g.chance(1, 3) ? g.u(900) : g.u(30);
        for (size_t i = 0; i < n; i++) { uint32_t w = rf[k].next(); cnt[k]++; mx = std::max(mx, cnt[k]);
            if (i % 7 == 3) { double f = i % 3 == 0 ? zt_random_float(st[k]) : i % 3 == 1 ? zt_random_float00(st[k]) : zt_random_float10(st[k]); double e = i % 3 == 0 ? w * (1.0 / 4294967295.0) : i % 3 == 1 ? (w + 0.5) * (1.0 / 4294967296.0) : w * (1.0 / 4294967296.0); CHECK(fabs(f - e) <= 1e-15, "draw %zu as real %.17g want %.17g", cnt[k], f, e); CHECK(f >= 0 && f <= 1 && (i % 3 != 1 || (f > 0 && f < 1)) && (i % 3 != 2 || f < 1), "draw %zu leaves its interval: %.17g", cnt[k], f); }
            else { uint32_t v = zt_random_uint32(st[k]); CHECK(v == w, "draw %zu of generator %d: %u want %u", cnt[k], k, v, w); } } }
    for (auto p : st) free(p); if (mx > 624) g.nontrivial();
}
static void quietlog() { static zt_log_ty *l; if (!l) { l = zt_log_file((char *)"/dev/null", ZT_LOG_FILE_APPEND, 0); zt_log_logger(l); } }
P(R01, unseeded, 200, 5000, 10, "a generator used without being seeded, its memory anything: it seeds itself from the clock and is from then on the generator of that seed; every case is non-trivial") {
    quietlog(); zt_random_state *st = (zt_random_state *)malloc(sizeof(zt_random_state)); std::string fill = g.coin() ? std::string(sizeof *st, 0) : g.blob(sizeof *st); memcpy(st, fill.data(), sizeof *st); st->initialized = g.pick({0u, 1u, 0xffffffffu, 0xD15EA5Du}); size_t n = 1 + g.u(1500); g.note("%zu draws unseeded", n); g.nontrivial();
    time_t t0 = time(NULL); std::vector<uint32_t> v; v.push_back(zt_random_uint32(st)); time_t t1 = time(NULL); while (v.size() < n) v.push_back(zt_random_uint32(st)); free(st); bool ok = false;
    for (time_t t = t0 - 1; t <= t1 + 1 && !ok; t++) { RefMT r; r.mt.assign(624, (uint32_t)t); for (int i = 1; i < 624; i++) r.mt[i] = 1812433253u * (r.mt[i - 1] ^ (r.mt[i - 1] >> 30)) + (uint32_t)i; ok = true; for (auto x : v) if (x != r.next()) { ok = false; break; } }
    CHECK(ok, "not the sequence of any seed from the clock");
}
