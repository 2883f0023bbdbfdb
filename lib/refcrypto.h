// Independent reference implementations used as oracles: Keccak-256, the transaction tree hash,
// ChaCha8, and the Edwards25519 group with CryptoNote signature equations on big integers.
#pragma once
#include <boost/multiprecision/cpp_int.hpp>
#include <cstring>
#include <string>
#include <vector>
namespace ref {
inline uint64_t rol(uint64_t x, int n) { return n ? (x << n) | (x >> (64 - n)) : x; }
inline void keccakf(uint64_t* a) {
  uint8_t lfsr = 1;
  for (int round = 0; round < 24; ++round) {
    uint64_t c[5];
    for (int x = 0; x < 5; ++x) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
    for (int x = 0; x < 5; ++x) { uint64_t d = c[(x + 4) % 5] ^ rol(c[(x + 1) % 5], 1); for (int y = 0; y < 25; y += 5) a[y + x] ^= d; }
    uint64_t cur = a[1]; int x = 1, y = 0;
    for (int t = 0; t < 24; ++t) { int r = ((t + 1) * (t + 2) / 2) % 64; int nx = y, ny = (2 * x + 3 * y) % 5; x = nx; y = ny; uint64_t tmp = a[x + 5 * y]; a[x + 5 * y] = rol(cur, r); cur = tmp; }
    for (int y5 = 0; y5 < 25; y5 += 5) { uint64_t t[5]; for (int i = 0; i < 5; ++i) t[i] = a[y5 + i]; for (int i = 0; i < 5; ++i) a[y5 + i] = t[i] ^ (~t[(i + 1) % 5] & t[(i + 2) % 5]); }
    for (int j = 0; j < 7; ++j) { if (lfsr & 1) a[0] ^= 1ULL << ((1 << j) - 1); lfsr = (lfsr << 1) ^ ((lfsr >> 7) * 0x71); }
  }
}
inline std::string keccak(const void* p, size_t n) {
  uint64_t a[25] = {0}; uint8_t* s = (uint8_t*)a; const uint8_t* d = (const uint8_t*)p; size_t pos = 0;
  for (size_t i = 0; i < n; ++i) { s[pos++] ^= d[i]; if (pos == 136) { keccakf(a); pos = 0; } }
  s[pos] ^= 1; s[135] ^= 0x80; keccakf(a);
  return std::string((char*)s, 32);
}
inline std::string keccak(const std::string& x) { return keccak(x.data(), x.size()); }
// tree hash by definition: leaves are reduced to the largest power of two by hashing the last pairs
inline std::string tree(std::vector<std::string> h) {
  size_t n = h.size();
  if (n == 1) return h[0];
  size_t p = 1; while (p * 2 < n || (p * 2 == n && false)) p *= 2;
  if (p * 2 == n) p = n;   // n is a power of two: nothing to reduce
  if (p != n) { std::vector<std::string> r(h.begin(), h.begin() + (2 * p - n)); for (size_t i = 2 * p - n; i < n; i += 2) r.push_back(keccak(h[i] + h[i + 1])); h = r; }
  while (h.size() > 1) { std::vector<std::string> r; for (size_t i = 0; i < h.size(); i += 2) r.push_back(keccak(h[i] + h[i + 1])); h = r; }
  return h[0];
}
inline std::string chacha8(const std::string& in, const uint8_t* key, const uint8_t* iv) {
  uint32_t st[16]; memcpy(st, "expand 32-byte k", 16); memcpy(st + 4, key, 32); st[12] = st[13] = 0; memcpy(st + 14, iv, 8);
  std::string out = in;
  auto qr = [](uint32_t* x, int a, int b, int c, int d) { auto r = [](uint32_t v, int n) { return (v << n) | (v >> (32 - n)); };
    x[a] += x[b]; x[d] = r(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = r(x[b] ^ x[c], 12); x[a] += x[b]; x[d] = r(x[d] ^ x[a], 8); x[c] += x[d]; x[b] = r(x[b] ^ x[c], 7); };
  for (size_t o = 0; o < in.size(); o += 64) {
    uint32_t x[16]; memcpy(x, st, 64);
    for (int i = 0; i < 4; ++i) { qr(x, 0, 4, 8, 12); qr(x, 1, 5, 9, 13); qr(x, 2, 6, 10, 14); qr(x, 3, 7, 11, 15); qr(x, 0, 5, 10, 15); qr(x, 1, 6, 11, 12); qr(x, 2, 7, 8, 13); qr(x, 3, 4, 9, 14); }
    for (int i = 0; i < 16; ++i) x[i] += st[i];
    const uint8_t* k = (const uint8_t*)x;
    for (size_t i = 0; i < 64 && o + i < in.size(); ++i) out[o + i] = in[o + i] ^ k[i];
    if (++st[12] == 0) ++st[13];
  }
  return out;
}
// ---- Edwards25519
using namespace boost::multiprecision;
typedef number<cpp_int_backend<640, 640, unsigned_magnitude, unchecked, void>> Z;
inline const Z& P() { static const Z p = (Z(1) << 255) - 19; return p; }
inline const Z& L() { static const Z l = (Z(1) << 252) + Z("27742317777372353535851937790883648493"); return l; }
inline Z mul(const Z& a, const Z& b) { return Z(a * b) % P(); }
inline Z sub(const Z& a, const Z& b) { return a >= b ? Z(a - b) : Z(a + P() - b); }
inline Z add(const Z& a, const Z& b) { Z r = a + b; if (r >= P()) r -= P(); return r; }
inline Z pw(Z b, Z e) { Z r = 1; while (e != 0) { if ((e & 1) != 0) r = mul(r, b); b = mul(b, b); e >>= 1; } return r; }
inline Z inv(const Z& a) { return pw(a, P() - 2); }
inline const Z& D() { static const Z d = mul(P() - 121665, inv(121666)); return d; }
inline Z fromBytes(const void* p) { Z r = 0; for (int i = 31; i >= 0; --i) r = (r << 8) | ((const uint8_t*)p)[i]; return r; }
inline std::string toBytes(Z v) { std::string s(32, 0); for (int i = 0; i < 32; ++i) { s[i] = (char)(uint8_t)(v & 255); v >>= 8; } return s; }
struct Pt { Z x, y, z, t; };
inline Pt ident() { return Pt{0, 1, 1, 0}; }
inline Pt padd(const Pt& a, const Pt& b) {
  Z A = mul(sub(a.y, a.x), sub(b.y, b.x)), B = mul(add(a.y, a.x), add(b.y, b.x)), C = mul(mul(a.t, Z(2) * D() % P()), b.t), Dd = mul(add(a.z, a.z), b.z);
  Z E = sub(B, A), F = sub(Dd, C), G = add(Dd, C), H = add(B, A);
  return Pt{mul(E, F), mul(G, H), mul(F, G), mul(E, H)};
}
inline Pt pmul(const Z& kk, Pt p) { Pt r = ident(); Z k = kk; while (k != 0) { if ((k & 1) != 0) r = padd(r, p); p = padd(p, p); k >>= 1; } return r; }
inline std::string enc(const Pt& p) { Z zi = inv(p.z), x = mul(p.x, zi), y = mul(p.y, zi); if ((x & 1) != 0) y |= Z(1) << 255; return toBytes(y); }
inline bool dec(const void* b, Pt& out) {
  Z v = fromBytes(b); bool sign = (v >> 255) != 0; Z y = v & ((Z(1) << 255) - 1);
  if (y >= P()) return false;
  Z y2 = mul(y, y), u = sub(y2, 1), w = add(mul(D(), y2), 1), x2 = mul(u, inv(w));
  if (x2 == 0) { if (sign) return false; out = Pt{0, y, 1, 0}; return true; }
  Z x = pw(x2, (P() + 3) / 8);
  if (mul(x, x) != x2) x = mul(x, pw(2, (P() - 1) / 4));
  if (mul(x, x) != x2) return false;
  if (((x & 1) != 0) != sign) x = sub(0, x);
  out = Pt{x, y, 1, mul(x, y)};
  return true;
}
inline const Pt& G() { static const Pt g = [] { Z y = mul(4, inv(5)); Pt p; std::string s = toBytes(y); dec(s.data(), p); return p; }(); return g; }
inline Z hs(const std::string& d) { std::string h = keccak(d); return fromBytes(h.data()) % L(); }
inline std::string varint(uint64_t v) { std::string s; while (v >= 0x80) { s += (char)((v & 0x7f) | 0x80); v >>= 7; } s += (char)v; return s; }
}
