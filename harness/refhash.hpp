/* Plain reference digests, written from the published descriptions (checked against published vectors by C10). */
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
namespace ref {
typedef std::string S;
inline uint32_t rol(uint32_t x, int n) { return x << n | x >> (32 - n); }
inline uint32_t ror(uint32_t x, int n) { return x >> n | x << (32 - n); }
inline S padded(const S &m) {
  S p = m; p += (char) 0x80; while (p.size() % 64 != 56) p += (char) 0;
  uint64_t bits = 8ull * m.size(); for (int i = 7; i >= 0; i--) p += (char) (bits >> (8 * i)); return p;
}
inline uint32_t be(const S &p, size_t o) { return (uint32_t) (uint8_t) p[o] << 24 | (uint32_t) (uint8_t) p[o + 1] << 16 | (uint32_t) (uint8_t) p[o + 2] << 8 | (uint8_t) p[o + 3]; }
inline S words(const uint32_t *h, int n) { S s; for (int i = 0; i < n; i++) for (int b = 3; b >= 0; b--) s += (char) (h[i] >> (8 * b)); return s; }
inline S sha1(const S &m) {
  uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}; S p = padded(m);
  for (size_t o = 0; o < p.size(); o += 64) {
    uint32_t w[80]; for (int i = 0; i < 16; i++) w[i] = be(p, o + 4 * i); for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int i = 0; i < 80; i++) {
      uint32_t f, k;
      if (i < 20) { f = (b & c) | (~b & d); k = 0x5A827999; } else if (i < 40) { f = b ^ c ^ d; k = 0x6ED9EBA1; } else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8F1BBCDC; } else { f = b ^ c ^ d; k = 0xCA62C1D6; }
      uint32_t t = rol(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
  }
  return words(h, 5);
}
inline S sha256(const S &m) {
  static std::vector<uint32_t> K; static uint32_t H0[8];
  if (K.empty()) { // fractional parts of the roots of the first primes, in integer arithmetic
    std::vector<int> pr; for (int n = 2; pr.size() < 64; n++) { bool ok = true; for (int q : pr) if (n % q == 0) ok = false; if (ok) pr.push_back(n); }
    for (int i = 0; i < 64; i++) {
      unsigned __int128 lo = 0, hi = (unsigned __int128) 1 << 36; // cube root of p*2^96, below 2^35
      // floor(cbrt(p) * 2^32): largest x with x^3 <= p * 2^96; x < 2^35, x^3 < 2^105
      while (hi - lo > 1) { unsigned __int128 x = (lo + hi) / 2; if (x * x * x <= (unsigned __int128) pr[i] << 96) lo = x; else hi = x; }
      K.push_back((uint32_t) lo);
      if (i < 8) { lo = 0; hi = (unsigned __int128) 1 << 36; while (hi - lo > 1) { unsigned __int128 x = (lo + hi) / 2; if (x * x <= (unsigned __int128) pr[i] << 64) lo = x; else hi = x; } H0[i] = (uint32_t) lo; }
    }
  }
  uint32_t h[8]; memcpy(h, H0, sizeof h); S p = padded(m);
  for (size_t o = 0; o < p.size(); o += 64) {
    uint32_t w[64]; for (int i = 0; i < 16; i++) w[i] = be(p, o + 4 * i);
    for (int i = 16; i < 64; i++) { uint32_t a = w[i - 15], b = w[i - 2]; w[i] = w[i - 16] + (ror(a, 7) ^ ror(a, 18) ^ a >> 3) + w[i - 7] + (ror(b, 17) ^ ror(b, 19) ^ b >> 10); }
    uint32_t v[8]; memcpy(v, h, sizeof v);
    for (int i = 0; i < 64; i++) {
      uint32_t t1 = v[7] + (ror(v[4], 6) ^ ror(v[4], 11) ^ ror(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K[i] + w[i];
      uint32_t t2 = (ror(v[0], 2) ^ ror(v[0], 13) ^ ror(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
      for (int j = 7; j > 0; j--) v[j] = v[j - 1]; v[4] += t1; v[0] = t1 + t2;
    }
    for (int j = 0; j < 8; j++) h[j] += v[j];
  }
  return words(h, 8);
}
/** MurmurHash3 x64 128: byte by byte, no switch */
inline S murmur3(const S &m, uint32_t seed) {
  auto r = [](uint64_t x, int n) { return x << n | x >> (64 - n); };
  auto fmix = [](uint64_t k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdull; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ull; k ^= k >> 33; return k; };
  const uint64_t c1 = 0x87c37b91114253d5ull, c2 = 0x4cf5ad432745937full; uint64_t h1 = seed, h2 = seed; size_t nb = m.size() / 16;
  auto rd = [&](size_t from, size_t to) { uint64_t v = 0; for (size_t i = from; i < to && i < m.size(); i++) v |= (uint64_t) (uint8_t) m[i] << (8 * (i - from)); return v; };
  for (size_t b = 0; b < nb; b++) {
    uint64_t k1 = rd(16 * b, 16 * b + 8), k2 = rd(16 * b + 8, 16 * b + 16);
    h1 ^= r(k1 * c1, 31) * c2; h1 = (r(h1, 27) + h2) * 5 + 0x52dce729; h2 ^= r(k2 * c2, 33) * c1; h2 = (r(h2, 31) + h1) * 5 + 0x38495ab5;
  }
  h2 ^= r(rd(16 * nb + 8, 16 * nb + 16) * c2, 33) * c1; h1 ^= r(rd(16 * nb, 16 * nb + 8) * c1, 31) * c2;
  h1 ^= m.size(); h2 ^= m.size(); h1 += h2; h2 += h1; h1 = fmix(h1); h2 = fmix(h2); h1 += h2; h2 += h1;
  S o; for (uint64_t h : {h1, h2}) for (int i = 0; i < 8; i++) o += (char) (h >> (8 * i)); return o;
}
inline S hex(const S &b) { static const char *d = "0123456789ABCDEF"; S o; for (unsigned char c : b) { o += d[c >> 4]; o += d[c & 15]; } return o; }
} // namespace ref
