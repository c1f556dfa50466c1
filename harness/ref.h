// independent reference implementations used as oracles
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
namespace ref {
inline std::string base(const std::string &in, const char *alpha, int obits, int ogroups, bool pad) {
    std::string out; unsigned acc = 0; int nb = 0;
    for (unsigned char c : in) { acc = (acc << 8) | c; nb += 8; while (nb >= obits) { nb -= obits; out += alpha[(acc >> nb) & ((1u << obits) - 1)]; acc &= (1u << nb) - 1; } }
    if (nb) out += alpha[(acc << (obits - nb)) & ((1u << obits) - 1)];
    if (pad) while (out.size() % ogroups) out += '=';
    return out;
}
// false = not decodable
inline bool unbase(const std::string &in, const char *alpha, int obits, std::string &out) {
    out.clear(); unsigned long long acc = 0; int nb = 0; size_t n = 0;
    for (char c : in) {
        if (c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '=') continue;
        const char *p = c ? strchr(alpha, c) : nullptr; if (!p) return false;
        acc = (acc << obits) | (unsigned)(p - alpha); nb += obits; n++;
        if (nb >= 8) { nb -= 8; out += (char)((acc >> nb) & 0xff); acc &= (1ull << nb) - 1; }
    }
    if (nb >= obits) return false; // an output group that carries no whole byte
    return true;
}
struct Sha1 {
    uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}; uint64_t n = 0; uint8_t buf[64]; 
    static uint32_t rol(uint32_t x, int k) { return (x << k) | (x >> (32 - k)); }
    void block(const uint8_t *m) {
        uint32_t w[80]; for (int i = 0; i < 16; i++) w[i] = (uint32_t)m[4 * i] << 24 | (uint32_t)m[4 * i + 1] << 16 | (uint32_t)m[4 * i + 2] << 8 | m[4 * i + 3];
        for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for (int i = 0; i < 80; i++) {
            uint32_t f, k; if (i < 20) f = (b & c) | (~b & d), k = 0x5A827999; else if (i < 40) f = b ^ c ^ d, k = 0x6ED9EBA1; else if (i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8F1BBCDC; else f = b ^ c ^ d, k = 0xCA62C1D6;
            uint32_t t = rol(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = t;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    __attribute__((no_sanitize("address", "bounds"))) void zero() {    // block() of 64 zero bytes, whose schedule is zero
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4]; int i = 0;
        auto step = [&](uint32_t f) __attribute__((always_inline)) { uint32_t t = rol(a, 5) + f + e; e = d; d = c; c = rol(b, 30); b = a; a = t; };
        for (; i < 20; i++) step(((b & c) | (~b & d)) + 0x5A827999); for (; i < 40; i++) step((b ^ c ^ d) + 0x6ED9EBA1); for (; i < 60; i++) step(((b & c) | (b & d) | (c & d)) + 0x8F1BBCDC); for (; i < 80; i++) step((b ^ c ^ d) + 0xCA62C1D6);
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    void add(const uint8_t *p, size_t k) { for (size_t i = 0; i < k; i++) { buf[n++ & 63] = p[i]; if (!(n & 63)) block(buf); } }
    void zeros(uint64_t k) { static const uint8_t z[64] = {0}; while (k) { if (!(n & 63) && k >= 64) { zero(); n += 64; k -= 64; } else { add(z, 1); k--; } } }
    std::string fin() { uint64_t bits = n * 8; uint8_t c = 0x80; add(&c, 1); c = 0; while ((n & 63) != 56) add(&c, 1); for (int i = 7; i >= 0; i--) { c = (uint8_t)(bits >> (8 * i)); add(&c, 1); } std::string r; for (int i = 0; i < 5; i++) for (int k = 3; k >= 0; k--) r += (char)(h[i] >> (8 * k)); return r; }
    static std::string digest(const std::string &m) { Sha1 s; s.add((const uint8_t *)m.data(), m.size()); return s.fin(); }
};
inline std::string hexs(const std::string &s) { static const char *d = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
inline uint32_t fnv32(const std::string &s, uint32_t h) { if (!h) h = 0x811c9dc5u; for (unsigned char c : s) { h ^= c; h *= 0x01000193u; } return h; }
inline uint64_t fnv64(const std::string &s, uint64_t h) { if (!h) h = 0xcbf29ce484222325ull; for (unsigned char c : s) { h ^= c; h *= 0x100000001b3ull; } return h; }
}
