// K01 signatures, K02 one-time outputs, K03 hashes, K04 encryption: checks against independent
// reference arithmetic (lib/refcrypto.h) and by construction.
#include "vh.h"
#include "refcrypto.h"
#include <thread>
#include <atomic>
#include "crypto/crypto.h"
#include "crypto/hash.h"
#include "crypto/chacha8.h"
#include "CryptoNoteCore/Account.h"
#include "CryptoNoteCore/CryptoNoteTools.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
#include "CryptoNoteCore/CryptoNoteBasicImpl.h"
#include "CryptoNoteCore/TransactionExtra.h"
#include "CryptoNoteCore/TransactionApi.h"
#include "CryptoNoteCore/Currency.h"
#include "Logging/LoggerGroup.h"
using namespace vh;
using namespace crypto;

static std::string bs(const void* p, size_t n = 32) { return std::string((const char*)p, n); }
template <class T> static std::string B(const T& v) { return std::string((const char*)&v, sizeof v); }
template <class T> static T fromB(const std::string& s) { T v; memset(&v, 0, sizeof v); memcpy(&v, s.data(), std::min(s.size(), sizeof v)); return v; }
// eight torsion points
static std::vector<ref::Pt> torsion() {
  static std::vector<ref::Pt> t;
  if (t.empty()) {
    Rng r(77);
    for (;;) { std::string b = r.bytes(32); ref::Pt p; if (!ref::dec(b.data(), p)) continue; ref::Pt q = ref::pmul(ref::L(), p); 
      ref::Pt q4 = ref::pmul(4, q); if (ref::enc(q4) == ref::enc(ref::ident())) continue;
      ref::Pt c = ref::ident(); for (int i = 0; i < 8; ++i) { t.push_back(c); c = ref::padd(c, q); } break; }
  }
  return t;
}
static void randKeys(Rng& r, PublicKey& p, SecretKey& s) { std::string b = r.bytes(32); SecretKey seed = fromB<SecretKey>(b); generate_keys_from_seed(p, s, seed); }

// reference verification of a ring signature
static bool refRing(const Hash& h, const KeyImage& img, const std::vector<PublicKey>& pubs, const std::vector<Signature>& sig) {
  ref::Pt I; if (!ref::dec(&img, I)) return false;
  std::string buf = B(h); ref::Z sum = 0;
  for (size_t i = 0; i < pubs.size(); ++i) {
    ref::Z c = ref::fromBytes(&sig[i]), rr = ref::fromBytes(sig[i].data + 32);
    if (c >= ref::L() || rr >= ref::L()) return false;
    ref::Pt P, H; if (!ref::dec(&pubs[i], P)) return false;
    PublicKey hp; hash_data_to_ec((const uint8_t*)&pubs[i], 32, hp); ref::dec(&hp, H);
    buf += ref::enc(ref::padd(ref::pmul(rr, ref::G()), ref::pmul(c, P)));
    buf += ref::enc(ref::padd(ref::pmul(rr, H), ref::pmul(c, I)));
    sum = (sum + c) % ref::L();
  }
  return ref::hs(buf) == sum;
}
static bool refSig(const Hash& h, const PublicKey& pub, const Signature& sig) {
  ref::Z c = ref::fromBytes(&sig), rr = ref::fromBytes(sig.data + 32);
  if (c >= ref::L() || rr >= ref::L()) return false;
  ref::Pt P; if (!ref::dec(&pub, P)) return false;
  std::string buf = B(h) + B(pub) + ref::enc(ref::padd(ref::pmul(c, P), ref::pmul(rr, ref::G())));
  return ref::hs(buf) == c;
}
static bool ringOK(const Hash& h, const KeyImage& img, const std::vector<PublicKey>& pubs, const std::vector<Signature>& sig) {
  std::vector<const PublicKey*> pp; for (auto& p : pubs) pp.push_back(&p);
  return check_ring_signature(h, img, pp, sig.data());
}
static void flip(void* p, size_t n, Rng& r) { ((uint8_t*)p)[r.below(n)] ^= 1 << r.below(8); }

static void caseK01(long k, Rng& r) {
  // keys
  PublicKey pub; SecretKey sec;
  if (r.coin()) generate_keys(pub, sec); else randKeys(r, pub, sec);
  PublicKey p2; if (!secret_key_to_public_key(sec, p2) || !(p2 == pub)) fail("K01", "pubkey", "secret_key_to_public_key disagrees with key generation for %s", phex(sec).c_str());
  if (ref::fromBytes(&sec) >= ref::L()) fail("K01", "scalar-range", "generated secret not reduced");
  if (ref::enc(ref::pmul(ref::fromBytes(&sec), ref::G())) != B(pub)) fail("K01", "pubkey-ref", "public key of %s is not sec*G", phex(sec).c_str());
  stat("keys");
  // unreduced secret refused
  { ref::Z v = ref::fromBytes(&sec) + ref::L() * (1 + r.below(7)); SecretKey s2 = fromB<SecretKey>(ref::toBytes(v)); PublicKey x; if (secret_key_to_public_key(s2, x)) fail("K01", "noncanonical-secret", "secret key >= group order accepted: %s", phex(s2).c_str()); }
  // check_key against the curve equation
  for (int i = 0; i < 6; ++i) {
    std::string b = r.bytes(32);
    if (i == 1) b = B(pub); if (i == 2) { b = B(pub); flip(&b[0], 32, r); }
    if (i == 3) { b = ref::toBytes(ref::P() + r.below(19)); if (r.coin()) b[31] |= 0x80; }   // y >= p
    if (i == 4) b = ref::enc(torsion()[r.below(8)]);
    if (i == 5) { b = ref::toBytes(1); b[31] |= 0x80; if (r.coin()) b = ref::toBytes(ref::P() - 1), b[31] |= 0x80; } // x=0 with sign
    ref::Pt pt; bool a = check_key(fromB<PublicKey>(b)), e = ref::dec(b.data(), pt);
    if (a != e) fail("K01", "check-key", "check_key(%s) says %d, the curve equation and canonical form say %d", hex(b).c_str(), a, e);
    stat(e ? "check_key.valid" : "check_key.invalid");
  }
  Hash h = fromB<Hash>(r.bytes(32));
  // ring signature
  size_t n = r.chance(10) ? r.range(9, 20) : r.range(1, 6), si = r.below(n);
  std::vector<PublicKey> ring(n); std::vector<SecretKey> secs(n);
  for (size_t i = 0; i < n; ++i) { if (i == si) { ring[i] = pub; secs[i] = sec; } else if (i > 0 && i - 1 != si && r.chance(8)) { ring[i] = ring[i - 1]; secs[i] = secs[i - 1]; } else randKeys(r, ring[i], secs[i]); }
  KeyImage img; generate_key_image(pub, sec, img);
  { KeyImage img2; generate_key_image(pub, sec, img2); if (!(img == img2)) fail("K01", "image-unstable", "key image not a function of the key");
    PublicKey hp; hash_data_to_ec((const uint8_t*)&pub, 32, hp); ref::Pt H; if (!ref::dec(&hp, H)) fail("K01", "hp", "hash to point off curve");
    if (ref::enc(ref::pmul(ref::L(), H)) != ref::enc(ref::ident())) fail("K01", "hp-subgroup", "hash to point outside the prime-order subgroup");
    if (ref::enc(ref::pmul(ref::fromBytes(&sec), H)) != B(img)) fail("K01", "image-ref", "key image is not sec*Hp(pub)"); }
  { KeyImage o; size_t j = (si + 1) % n; if (j != si) { generate_key_image(ring[j], secs[j], o); if (o == img && !(ring[j] == pub)) fail("K01", "image-collision", "different keys share an image"); } }
  std::vector<const PublicKey*> pp; for (auto& p : ring) pp.push_back(&p);
  std::vector<Signature> sig(n);
  generate_ring_signature(h, img, pp, sec, si, sig.data());
  if (!ringOK(h, img, ring, sig)) fail("K01", "ring-valid-refused", "signature by ring member %zu of %zu refused", si, n);
  if (!refRing(h, img, ring, sig)) fail("K01", "ring-ref", "ring signature fails the reference equations (n=%zu)", n);
  stat("ring.valid"); cover(fmt("ring%zu/%zu", n, si));
  // signing twice: other ring, other message, same image
  { size_t m = r.range(1, 4), mi = r.below(m); std::vector<PublicKey> rg(m); SecretKey t; for (size_t i = 0; i < m; ++i) if (i == mi) rg[i] = pub; else randKeys(r, rg[i], t);
    std::vector<const PublicKey*> q; for (auto& p : rg) q.push_back(&p); std::vector<Signature> s2(m); Hash h2 = fromB<Hash>(r.bytes(32));
    generate_ring_signature(h2, img, q, sec, mi, s2.data()); if (!ringOK(h2, img, rg, s2)) fail("K01", "ring-second", "second signature with the same image refused"); stat("ring.second"); 
    KeyImage other = fromB<KeyImage>(B(img)); SecretKey os; PublicKey op; randKeys(r, op, os); generate_key_image(op, os, other);
    if (ringOK(h2, other, rg, s2)) fail("K01", "ring-other-image", "signature verifies under another key image");
    // a signature made with a foreign image must not verify either
    std::vector<Signature> s3(m); generate_ring_signature(h2, other, q, sec, mi, s3.data()); if (ringOK(h2, other, rg, s3)) fail("K01", "ring-foreign-image", "owner can sign under an image that is not his"); stat("ring.foreign_image"); }
  // mutations: must be refused, and always judged as the reference judges
  for (int t = 0; t < 14; ++t) {
    Hash mh = h; KeyImage mi = img; auto mr = ring; auto ms = sig; const char* what = ""; bool sure = true;
    switch (t) {
      case 0: flip(&mh, 32, r); what = "message"; break;
      case 1: flip(&mi, 32, r); what = "image"; break;
      case 2: { size_t i = r.below(n); SecretKey s; randKeys(r, mr[i], s); what = "ring-member"; break; }
      case 3: flip(&ms[r.below(n)], 64, r); what = "signature"; break;
      case 4: { if (n < 2) continue; size_t i = r.below(n), j = (i + 1 + r.below(n - 1)) % n; if (mr[i] == mr[j]) continue; std::swap(mr[i], mr[j]); what = "ring-order"; break; }
      case 5: { if (n < 2) continue; size_t i = r.below(n), j = (i + 1 + r.below(n - 1)) % n; std::swap(ms[i], ms[j]); what = "signature-order"; if (mr[i] == mr[j]) continue; break; }
      case 6: { size_t i = r.below(n); ref::Z c = ref::fromBytes(&ms[i]) + ref::L(); if ((c >> 256) != 0) continue; std::string b = ref::toBytes(c); memcpy(ms[i].data, b.data(), 32); what = "c+l"; break; }
      case 7: { size_t i = r.below(n); ref::Z c = ref::fromBytes(ms[i].data + 32) + ref::L(); if ((c >> 256) != 0) continue; std::string b = ref::toBytes(c); memcpy(ms[i].data + 32, b.data(), 32); what = "r+l"; break; }
      case 8: { size_t i = r.below(n); memset(ms[i].data, 0, 32); what = "c=0"; break; }
      case 9: { size_t i = r.below(n); memset(ms[i].data + 32, 0, 32); what = "r=0"; break; }
      case 10: for (auto& s : ms) r.fill(&s, 64), s.data[31] &= 15, s.data[63] &= 15; what = "random"; break;
      case 11: { ref::Pt I; ref::dec(&img, I); mi = fromB<KeyImage>(ref::enc(ref::padd(I, torsion()[1 + r.below(7)]))); what = "image+torsion"; sure = false; break; } // may verify when c*T=0: the node itself must refuse it (C03)
      case 12: { mi = fromB<KeyImage>(ref::enc(torsion()[r.below(8)])); what = "torsion-image"; break; }
      case 13: { if (n < 2) continue; mr.pop_back(); ms.pop_back(); what = "ring-shortened"; break; }
    }
    bool a = ringOK(mh, mi, mr, ms), e = refRing(mh, mi, mr, ms);
    if (a != e) fail("K01", std::string("ring-judgement-") + what, "ring signature after change of %s: node says %d, equations say %d (n=%zu)", what, a, e, n);
    if (a && sure) fail("K01", std::string("ring-forged-") + what, "ring signature survives change of %s (n=%zu)", what, n);
    stat("ring.mutations"); cover(fmt("m%s/%zu", what, n));
  }
  // signer without the key: forged by someone whose key is not in the ring
  { std::vector<Signature> fs(n); PublicKey op; SecretKey os; randKeys(r, op, os); generate_ring_signature(h, img, pp, os, si, fs.data()); if (ringOK(h, img, ring, fs)) fail("K01", "ring-nonmember", "non-member produced a verifying ring signature"); stat("ring.nonmember"); }
  // prime-order image test as the node does it
  { ref::Pt I; ref::dec(&img, I); static const std::string Ls = ref::toBytes(ref::L());
    if (B(scalarmultKey(img, fromB<KeyImage>(Ls))) != ref::toBytes(1)) fail("K01", "image-subgroup", "genuine image not in the prime-order subgroup");
    for (int i = 1; i < 8; ++i) { KeyImage t = fromB<KeyImage>(ref::enc(ref::padd(I, torsion()[i]))); if (B(scalarmultKey(t, fromB<KeyImage>(Ls))) == ref::toBytes(1)) fail("K01", "torsion-undetected", "l*(I+T) = identity for torsion %d", i); } stat("torsion", 7);
    std::string sc = ref::toBytes(r.coin() ? ref::fromBytes(r.bytes(32).data()) % ref::L() : ref::Z(r.edgy()));
    if (B(scalarmultKey(img, fromB<KeyImage>(sc))) != ref::enc(ref::pmul(ref::fromBytes(sc.data()), I))) fail("K01", "scalarmult", "scalarmultKey(%s, %s) wrong", phex(img).c_str(), hex(sc).c_str()); }
  // plain signature
  Signature s; generate_signature(h, pub, sec, s);
  if (!check_signature(h, pub, s) || !refSig(h, pub, s)) fail("K01", "sig-valid", "own signature refused");
  stat("sig.valid");
  for (int t = 0; t < 7; ++t) {
    Hash mh = h; PublicKey mp = pub; Signature ms = s; const char* what = "";
    if (t == 0) { flip(&mh, 32, r); what = "message"; } else if (t == 1) { SecretKey x; randKeys(r, mp, x); what = "key"; } else if (t == 2) { flip(&ms, 64, r); what = "signature"; }
    else if (t == 3 || t == 4) { int o = t == 3 ? 0 : 32; ref::Z c = ref::fromBytes(ms.data + o) + ref::L() * (1 + r.below(14)); if ((c >> 256) != 0) continue; std::string b = ref::toBytes(c); memcpy(ms.data + o, b.data(), 32); what = o ? "r+l" : "c+l"; }
    else if (t == 5) { memset(ms.data, 0, 64); what = "zero"; } else { ref::Pt P; ref::dec(&pub, P); mp = fromB<PublicKey>(ref::enc(ref::padd(P, torsion()[1 + r.below(7)]))); what = "key+torsion"; }
    bool a = check_signature(mh, mp, ms), e = refSig(mh, mp, ms);
    if (a != e) fail("K01", std::string("sig-judgement-") + what, "signature after change of %s: node %d, equations %d", what, a, e);
    if (a && t != 6) fail("K01", std::string("sig-forged-") + what, "signature survives change of %s", what);
    stat("sig.mutations");
  }
  { SecretKey os; PublicKey op; randKeys(r, op, os); Signature fs; generate_signature(h, pub, os, fs); if (check_signature(h, pub, fs)) fail("K01", "sig-foreign", "another key signs for this one"); }
  // two signatures never share a nonce (would reveal the key)
  { Signature s2; generate_signature(h, pub, sec, s2); if (!memcmp(&s, &s2, 64)) fail("K01", "nonce-reuse", "two signatures are identical: the nonce repeats"); 
    Signature s3; Hash h3 = fromB<Hash>(r.bytes(32)); generate_signature(h3, pub, sec, s3);
    // k = r + c*sec must differ
    auto kof = [&](const Signature& q) { return (ref::fromBytes(q.data + 32) + ref::fromBytes(&q) * ref::fromBytes(&sec)) % ref::L(); };
    if (kof(s) == kof(s3) || kof(s2) == kof(s3) || kof(s) == kof(s2)) fail("K01", "nonce-reuse", "signatures share their nonce"); stat("nonces", 3);
    std::vector<Signature> g2(n); generate_ring_signature(h3, img, pp, sec, si, g2.data()); if (kof(g2[si]) == kof(sig[si])) fail("K01", "nonce-reuse-ring", "ring signatures share their nonce"); }
  // transaction proof
  { PublicKey R, A; SecretKey rs, as; randKeys(r, R, rs); randKeys(r, A, as);
    KeyImage Dk = scalarmultKey(fromB<KeyImage>(B(A)), fromB<KeyImage>(B(rs))); PublicKey Dp = fromB<PublicKey>(B(Dk)); Signature pr;
    generate_tx_proof(h, R, A, Dp, rs, pr); if (!check_tx_proof(h, R, A, Dp, pr)) fail("K01", "proof-valid", "transaction proof refused");
    stat("proof.valid");
    for (int t = 0; t < 6; ++t) { Hash mh = h; PublicKey mR = R, mA = A, mD = Dp; Signature ms = pr; PublicKey x; SecretKey y; randKeys(r, x, y);
      if (t == 0) flip(&mh, 32, r); if (t == 1) mR = x; if (t == 2) mA = x; if (t == 3) mD = x; if (t == 4) flip(&ms, 64, r);
      if (t == 5) { int o = r.coin() ? 32 : 0; ref::Z c = ref::fromBytes(ms.data + o) + ref::L(); if ((c >> 256) != 0) continue; std::string b = ref::toBytes(c); memcpy(ms.data + o, b.data(), 32); }
      if (check_tx_proof(mh, mR, mA, mD, ms)) fail("K01", fmt("proof-forged-%d", t), "transaction proof survives change %d", t); stat("proof.mutations"); } }
}

// ---------------------------------------------------------------- K02
static cn::AccountKeys newAcc(Rng& r) { cn::AccountKeys a; randKeys(r, a.address.spendPublicKey, a.spendSecretKey); if (r.coin()) cn::AccountBase::generateViewFromSpend(a.spendSecretKey, a.viewSecretKey, a.address.viewPublicKey); else randKeys(r, a.address.viewPublicKey, a.viewSecretKey); return a; }
static std::string refDerive(const PublicKey& P, const SecretKey& s) { ref::Pt p; ref::dec(&P, p); return ref::enc(ref::pmul(8, ref::pmul(ref::fromBytes(&s), p))); }
static void caseK02(long k, Rng& r) {
  using namespace cn;
  logging::LoggerGroup log; 
  std::vector<AccountKeys> acc; size_t na = r.range(2, 4); for (size_t i = 0; i < na; ++i) acc.push_back(newAcc(r));
  if (r.chance(30)) { acc[1].viewSecretKey = acc[0].viewSecretKey; acc[1].address.viewPublicKey = acc[0].address.viewPublicKey; }   // two addresses of one wallet
  // raw derivation symmetric, equal to reference, index and position matter
  { PublicKey R; SecretKey rs; randKeys(r, R, rs); KeyDerivation d1, d2; size_t idx = r.coin() ? r.below(300) : (size_t)r.edgy();
    if (!generate_key_derivation(acc[0].address.viewPublicKey, rs, d1) || !generate_key_derivation(R, acc[0].viewSecretKey, d2) || memcmp(&d1, &d2, 32)) fail("K02", "derivation-asymmetric", "sender and receiver derive different secrets");
    if (B(d1) != refDerive(R, acc[0].viewSecretKey)) fail("K02", "derivation-ref", "derivation is not 8*r*A");
    PublicKey P, base; derive_public_key(d1, idx, acc[0].address.spendPublicKey, P); SecretKey x; derive_secret_key(d1, idx, acc[0].spendSecretKey, x);
    ref::Z hsv = ref::hs(B(d1) + ref::varint(idx)); ref::Pt sp; ref::dec(&acc[0].address.spendPublicKey, sp);
    if (B(P) != ref::enc(ref::padd(ref::pmul(hsv, ref::G()), sp))) fail("K02", "onetime-ref", "one-time key is not Hs(D||%zu)G + B", idx);
    PublicKey px; if (!secret_key_to_public_key(x, px) || !(px == P)) fail("K02", "onetime-secret", "derived secret does not match derived public key (index %zu)", idx);
    if (!underive_public_key(d1, idx, P, base) || !(base == acc[0].address.spendPublicKey)) fail("K02", "underive", "underive_public_key does not invert derive_public_key (index %zu)", idx);
    EllipticCurveScalar hsc; if (!underive_public_key_and_get_scalar(d1, idx, P, base, hsc) || !(base == acc[0].address.spendPublicKey) || B(hsc) != ref::toBytes(hsv)) fail("K02", "underive-scalar", "underive with scalar wrong");
    PublicKey P2; derive_public_key(d1, idx ^ (1ULL << r.below(20)), acc[0].address.spendPublicKey, P2); if (P2 == P) fail("K02", "onetime-index", "output position does not change the one-time key");
    std::string suf = r.bytes(r.below(33)); PublicKey Ps, bs2; SecretKey xs; derive_public_key(d1, idx, acc[0].address.spendPublicKey, (const uint8_t*)suf.data(), suf.size(), Ps); derive_secret_key(d1, idx, acc[0].spendSecretKey, (const uint8_t*)suf.data(), suf.size(), xs);
    if (!secret_key_to_public_key(xs, px) || !(px == Ps) || !underive_public_key(d1, idx, Ps, (const uint8_t*)suf.data(), suf.size(), bs2) || !(bs2 == acc[0].address.spendPublicKey)) fail("K02", "suffix", "suffixed derivation inconsistent");
    stat("derivations"); }
  // source outputs owned by acc[0]
  std::vector<TransactionSourceEntry> src; uint64_t inSum = 0;
  size_t ns = r.range(1, 3);
  std::vector<KeyImage> images;
  for (size_t i = 0; i < ns; ++i) {
    PublicKey R; SecretKey rs; randKeys(r, R, rs); KeyDerivation d; generate_key_derivation(acc[0].address.viewPublicKey, rs, d); size_t idx = r.below(200); PublicKey P; derive_public_key(d, idx, acc[0].address.spendPublicKey, P);
    TransactionSourceEntry s; s.amount = r.range(1000, 1000000); s.realTransactionPublicKey = R; s.realOutputIndexInTransaction = idx; size_t m = r.range(1, 4); s.realOutput = r.below(m); uint32_t gi = 0;
    for (size_t j = 0; j < m; ++j) { PublicKey q; SecretKey t; randKeys(r, q, t); gi += 1 + r.below(50); s.outputs.push_back({gi, j == s.realOutput ? P : q}); }
    inSum += s.amount; src.push_back(s);
    KeyPair eph; KeyImage ki; if (!generate_key_image_helper(acc[0], R, idx, eph, ki) || !(eph.publicKey == P)) fail("K02", "image-helper", "generate_key_image_helper does not recover the one-time key");
    images.push_back(ki);
  }
  std::vector<TransactionDestinationEntry> dst; uint64_t left = inSum - 10; size_t nd = r.range(1, 8); std::map<std::string, uint64_t> expect;
  for (size_t i = 0; i < nd && left > 0; ++i) { size_t a = r.below(na); uint64_t amt = i + 1 == nd ? left : 1 + r.below(left); dst.push_back({amt, acc[a].address}); left -= amt; expect[B(acc[a].address)] += amt; }
  std::vector<tx_message_entry> msgs; size_t nm = r.below(3); std::vector<std::pair<size_t, std::string>> plainMsgs;
  for (size_t i = 0; i < nm; ++i) { tx_message_entry m; m.message = r.bytes(r.below(60)); m.encrypt = true; size_t a = r.below(na); m.addr = acc[a].address; msgs.push_back(m); plainMsgs.push_back({a, m.message}); }
  std::vector<uint8_t> extra; Hash pid = fromB<Hash>(r.bytes(32)); bool havePid = r.coin(); if (havePid) { BinaryArray n; setPaymentIdToTransactionExtraNonce(n, pid); addExtraNonceToTransactionExtra(extra, n); }
  uint64_t ttl = r.chance(20) ? r.edgy() : 0; Transaction tx; SecretKey txSec; uint64_t unlock = r.chance(30) ? r.edgy() : 0;
  if (!constructTransaction(acc[0], src, dst, msgs, ttl, extra, tx, unlock, log, txSec)) fail("K02", "construct", "constructTransaction refused a fair request");
  stat("tx.built");
  auto checkTx = [&](const Transaction& tx, const char* kind) {
    PublicKey txPub = getTransactionPublicKeyFromExtra(tx.extra);
    PublicKey pp; if (!secret_key_to_public_key(txSec, pp) || !(pp == txPub)) fail("K02", "txkey", "%s: returned tx secret does not match the tx public key", kind);
    KeyPair det; if (!generateDeterministicTransactionKeys(tx, acc[0].viewSecretKey, det) || !(det.publicKey == txPub) || memcmp(&det.secretKey, &txSec, 32)) fail("K02", "txkey-deterministic", "%s: deterministic transaction key not recovered from the view key", kind);
    { ref::Z e = ref::hs(bs(&acc[0].viewSecretKey) + B(getObjectHash(tx.inputs))); if (ref::toBytes(e) != B(det.secretKey)) fail("K02", "txkey-ref", "deterministic key is not Hs(view||inputs)"); }
    KeyPair wrong; generateDeterministicTransactionKeys(tx, acc.back().viewSecretKey, wrong); if (wrong.publicKey == txPub && memcmp(&acc.back().viewSecretKey, &acc[0].viewSecretKey, 32)) fail("K02", "txkey-foreign", "another view key recovers the tx key");
    if (!check_outs_valid(tx) || !check_money_overflow(tx) || !check_inputs_types_supported(tx)) fail("K02", "self-check", "%s: library-built transaction fails the node's checks", kind);
  };
  checkTx(tx, "construct");
  // signatures
  Hash ph = getObjectHash(*static_cast<TransactionPrefix*>(&tx));
  for (size_t i = 0; i < src.size(); ++i) { std::vector<PublicKey> ring; for (auto& o : src[i].outputs) ring.push_back(o.second); auto& ki = boost::get<KeyInput>(tx.inputs[i]);
    if (!(ki.keyImage == images[i])) fail("K02", "image", "key image in the transaction differs"); if (!ringOK(ph, ki.keyImage, ring, tx.signatures[i])) fail("K02", "ring", "built transaction's signature %zu does not verify", i);
    if (relative_output_offsets_to_absolute(ki.outputIndexes) != [&] { std::vector<uint32_t> v; for (auto& o : src[i].outputs) v.push_back(o.first); return v; }()) fail("K02", "offsets", "ring offsets do not round-trip"); }
  // who owns what
  PublicKey txPub = getTransactionPublicKeyFromExtra(tx.extra); std::vector<int> owner(tx.outputs.size(), -1);
  for (size_t a = 0; a < na; ++a) {
    std::vector<size_t> outs; uint64_t money = 0; AccountKeys watch = acc[a]; memset(&watch.spendSecretKey, 0, 32);
    if (!lookup_acc_outs(watch, tx, outs, money)) fail("K02", "lookup", "lookup failed");
    if (money != expect[B(acc[a].address)]) fail("K02", "lookup-sum", "address %zu recognises %llu of %llu sent to it", a, (unsigned long long)money, (unsigned long long)expect[B(acc[a].address)]);
    for (size_t o : outs) { if (owner[o] != -1 && acc[owner[o]].address.spendPublicKey.data[0] != acc[a].address.spendPublicKey.data[0]) fail("K02", "two-owners", "output %zu recognised by two addresses", o); owner[o] = a;
      KeyPair eph; KeyImage ki; if (!generate_key_image_helper(acc[a], txPub, o, eph, ki) || !(eph.publicKey == boost::get<KeyOutput>(tx.outputs[o].target).key)) fail("K02", "spend-key", "recipient cannot derive the one-time secret of output %zu", o);
      PublicKey q; secret_key_to_public_key(eph.secretKey, q); if (!(q == eph.publicKey)) fail("K02", "spend-secret", "derived secret does not open output %zu", o);
      // wrong spend key: recovers nothing
      AccountKeys thief = acc[a]; PublicKey tp; randKeys(r, tp, thief.spendSecretKey); KeyPair te; KeyImage tk; generate_key_image_helper(thief, txPub, o, te, tk); PublicKey tq; secret_key_to_public_key(te.secretKey, tq); if (tq == eph.publicKey || tk == ki) fail("K02", "thief", "a wrong spend key opens the output");
      stat("outputs.owned"); cover(fmt("own/%zu/%zu/%zu", o, owner.size(), na)); }
  }
  for (size_t o = 0; o < owner.size(); ++o) if (owner[o] < 0) fail("K02", "orphan-output", "output %zu of %zu recognised by nobody", o, owner.size());
  { AccountKeys st = newAcc(r); std::vector<size_t> outs; uint64_t money = 0; lookup_acc_outs(st, tx, outs, money); if (!outs.empty()) fail("K02", "stranger", "a stranger recognises an output"); stat("strangers"); }
  // messages, payment id, ttl
  for (size_t a = 0; a < na; ++a) { std::vector<std::string> want; for (auto& m : plainMsgs) if (!memcmp(&acc[m.first].address.spendPublicKey, &acc[a].address.spendPublicKey, 32)) want.push_back(m.second);
    auto got = get_messages_from_extra(tx.extra, txPub, &acc[a].spendSecretKey); if (got != want) fail("K02,K04", "messages", "address %zu reads %zu messages, %zu were sent to it", a, got.size(), want.size()); stat("messages", want.size()); }
  { Hash q; bool have = getPaymentIdFromTxExtra(tx.extra, q); if (have != havePid || (have && memcmp(&q, &pid, 32))) fail("K02,S04", "payment-id", "payment id lost or invented"); }
  { std::vector<TransactionExtraField> f; TransactionExtraTTL t; t.ttl = 0; if (!parseTransactionExtra(tx.extra, f)) fail("K02", "extra", "built extra does not parse"); bool have = findTransactionExtraFieldByType(f, t); if (have != (ttl != 0) || (have && t.ttl != ttl)) fail("K02", "ttl", "ttl %llu read back as %llu", (unsigned long long)ttl, (unsigned long long)t.ttl); }
  // the id covers every byte of the prefix and signatures
  { BinaryArray ba = toBinaryArray(tx); Hash id = getObjectHash(tx); for (int i = 0; i < 8; ++i) { BinaryArray m = ba; flip(m.data(), m.size(), r); Transaction t2; Hash i2, p2; if (parseAndValidateTransactionFromBinaryArray(m, t2, i2, p2)) { if (!memcmp(&i2, &id, 32)) fail("K02,S01", "id-collision", "changed transaction keeps its id"); if (!memcmp(&i2, &p2, 32)) fail("K02,S01", "id-prefix", "transaction id equals prefix hash"); stat("id.mutations"); } } 
    Transaction t3; Hash i3, p3; if (!parseAndValidateTransactionFromBinaryArray(ba, t3, i3, p3) || memcmp(&i3, &id, 32) || memcmp(&p3, &ph, 32)) fail("K02,S01", "id-parse", "id from bytes differs from id of object"); }
  // transaction API (wallets build with it): key outputs, deposits, deterministic keys
  {
    auto t = createTransaction(); std::vector<KeyPair> ephs; std::vector<transaction_types::InputKeyInfo> infos;
    for (auto& s : src) { transaction_types::InputKeyInfo in; in.amount = s.amount; for (auto& o : s.outputs) in.outputs.push_back({o.second, o.first}); in.realOutput.transactionIndex = s.realOutput; in.realOutput.outputInTransaction = s.realOutputIndexInTransaction; in.realOutput.transactionPublicKey = s.realTransactionPublicKey; KeyPair e; t->addInput(acc[0], in, e); ephs.push_back(e); infos.push_back(in); }
    bool det = r.coin(); if (det) t->setDeterministicTransactionSecretKey(acc[0].viewSecretKey);
    if (havePid && r.coin()) t->setPaymentId(pid);
    struct Dep { size_t a; uint32_t term; size_t out; }; std::vector<Dep> deps; std::map<size_t, std::vector<uint32_t>> wantOuts; std::map<size_t, uint64_t> sums;
    size_t no = r.range(1, 6);
    for (size_t i = 0; i < no; ++i) { size_t a = r.below(na); uint64_t amt = r.range(1, 100000); size_t o; if (r.chance(35)) { uint32_t term = r.coin() ? r.below(100000) : 0; o = t->addOutput(amt, std::vector<AccountPublicAddress>{acc[a].address}, 1, term); deps.push_back({a, term, o}); } else { o = t->addOutput(amt, acc[a].address); sums[a] += amt; } wantOuts[a].push_back((uint32_t)o); }
    t->setUnlockTime(unlock);
    for (size_t i = 0; i < infos.size(); ++i) t->signInputKey(i, infos[i], ephs[i]);
    if (!t->validateInputs() || !t->validateOutputs() || !t->validateSignatures()) fail("K02", "api-validate", "transaction built by the API is not valid by its own checks");
    Transaction full; BinaryArray data = t->getTransactionData(); if (!fromBinaryArray(full, data)) fail("K02", "api-data", "API transaction does not decode");
    if (getObjectHash(full) != t->getTransactionHash() || getObjectHash(*static_cast<TransactionPrefix*>(&full)) != t->getTransactionPrefixHash()) fail("K02,S01", "api-hash", "API hash differs from the hash of the bytes");
    if (toBinaryArray(full) != data) fail("K02,S01", "api-reencode", "API transaction re-encodes differently");
    PublicKey tp = t->getTransactionPublicKey(); SecretKey ts; if (!t->getTransactionSecretKey(ts)) fail("K02", "api-seckey", "no secret key"); PublicKey q; secret_key_to_public_key(ts, q); if (!(q == tp)) fail("K02", "api-txkey", "secret and public transaction key differ");
    if (det) { KeyPair kp; generateDeterministicTransactionKeys(full, acc[0].viewSecretKey, kp); if (!(kp.publicKey == tp)) fail("K02", "api-deterministic", "deterministic key not recovered"); }
    Hash fph = t->getTransactionPrefixHash();
    for (size_t i = 0; i < infos.size(); ++i) { std::vector<PublicKey> ring; for (auto& o : src[i].outputs) ring.push_back(o.second); if (!ringOK(fph, boost::get<KeyInput>(full.inputs[i]).keyImage, ring, full.signatures[i])) fail("K02", "api-ring", "API signature %zu does not verify", i); }
    for (size_t a = 0; a < na; ++a) { std::vector<uint32_t> outs; uint64_t m = 0; t->findOutputsToAccount(acc[a].address, acc[a].viewSecretKey, outs, m); if (m != sums[a]) fail("K02", "api-find", "address %zu finds %llu of %llu in plain outputs", a, (unsigned long long)m, (unsigned long long)sums[a]); if (outs != wantOuts[a]) fail("K02", "api-find-list", "address %zu finds %zu outputs of %zu", a, outs.size(), wantOuts[a].size()); }
    { AccountKeys st = newAcc(r); std::vector<uint32_t> outs; uint64_t m = 0; t->findOutputsToAccount(st.address, st.viewSecretKey, outs, m); if (m || !outs.empty()) fail("K02", "api-stranger", "stranger finds outputs"); }
    // deposits: owner can sign the withdrawal, nobody else
    for (auto& d : deps) {
      MultisignatureOutput mo; uint64_t amt; t->getOutput(d.out, mo, amt); if (mo.term != d.term || mo.requiredSignatureCount != 1 || mo.keys.size() != 1) fail("K02", "api-deposit", "deposit output altered");
      auto w = createTransaction(); MultisignatureInput in; in.amount = amt; in.outputIndex = r.below(1000); in.signatureCount = 1; in.term = d.term; w->addInput(in); w->addOutput(1, acc[d.a].address);
      Hash wph = w->getTransactionPrefixHash();
      w->signInputMultisignature(0, tp, d.out, acc[d.a]); Transaction wt; fromBinaryArray(wt, w->getTransactionData());
      if (wt.signatures.size() != 1 || wt.signatures[0].size() != 1 || !check_signature(wph, mo.keys[0], wt.signatures[0][0])) fail("K02", "deposit-sign", "owner's withdrawal signature does not verify");
      size_t o2 = (d.a + 1) % na; auto w2 = createTransaction(); w2->addInput(in); w2->addOutput(1, acc[o2].address); Hash wph2 = w2->getTransactionPrefixHash(); w2->signInputMultisignature(0, tp, d.out, acc[o2]); Transaction wt2; fromBinaryArray(wt2, w2->getTransactionData());
      if (memcmp(&acc[o2].spendSecretKey, &acc[d.a].spendSecretKey, 32) && check_signature(wph2, mo.keys[0], wt2.signatures[0][0])) fail("K02", "deposit-foreign", "another account signs the withdrawal");
      stat("deposits"); }
    stat("tx.api"); cover(fmt("tx/%zu/%zu/%zu/%zu/%d%d", na, no, deps.size(), infos.size(), (int)det, (int)havePid));
  }
}

// ---------------------------------------------------------------- K03
#include "golden_hash.inc"
static const char* powName[4] = {"cn_slow_hash_v0", "cn_fast_slow_hash_v1", "cn_conceal_slow_hash_v0", "cn_gpu_hash_v0"};
static Hash pow(int w, cn_context& c, const std::string& d) { Hash h; memset(&h, 0x5a, 32); switch (w) { case 0: cn_slow_hash_v0(c, d.data(), d.size(), h); break; case 1: cn_fast_slow_hash_v1(c, d.data(), d.size(), h); break; case 2: cn_conceal_slow_hash_v0(c, d.data(), d.size(), h); break; default: cn_gpu_hash_v0(c, d.data(), d.size(), h); } return h; }
static std::string powInput(int w, int i) { Rng r(9000 + w * 100 + i); return r.bytes(i == 0 ? 43 : i == 1 ? 76 : i == 2 ? 200 : 43 + r.below(160)); }
static cn_context& sharedCtx() { static cn_context* c = new cn_context(); return *c; }
static void caseK03(long k, Rng& r) {
  // ordinary hash against an independent implementation, all small lengths get covered over the cases
  for (int i = 0; i < 60; ++i) { size_t n = i < 30 ? (size_t)((k * 30 + i) % 700) : r.chance(10) ? r.range(1000, 9000) : r.below(600); std::string d = r.bytes(n); size_t off = r.below(8); std::string mis = std::string(off, 'x') + d;
    Hash h = cn_fast_hash(mis.data() + off, n); if (B(h) != ref::keccak(d)) fail("K03", "keccak", "cn_fast_hash of %zu bytes at alignment %zu differs from Keccak-256", n, off); stat("keccak"); cover(fmt("k%zu", n % 136)); 
    EllipticCurveScalar s; hash_to_scalar(mis.data() + off, n, s); if (B(s) != ref::toBytes(ref::hs(d))) fail("K03", "hash-to-scalar", "hash_to_scalar of %zu bytes wrong", n); }
  // tree hash
  for (int i = 0; i < 6; ++i) { size_t n = i < 3 ? 1 + (size_t)((k * 3 + i) % 130) : r.range(1, r.chance(10) ? 1500 : 70); std::vector<Hash> hs(n); std::vector<std::string> l(n); for (size_t j = 0; j < n; ++j) { r.fill(&hs[j], 32); l[j] = B(hs[j]); }
    Hash root; tree_hash(hs.data(), n, root); if (B(root) != ref::tree(l)) fail("K03", "tree", "tree hash of %zu leaves wrong", n); 
    if (cn::get_tx_tree_hash(hs) != root) fail("K03", "tree-tx", "get_tx_tree_hash differs");
    if (n > 1) { size_t depth = 0; while ((size_t)2 << depth <= n) ++depth; std::vector<Hash> br(depth); tree_branch(hs.data(), n, br.data()); Hash r2; tree_hash_from_branch(br.data(), depth, hs[0], nullptr, r2); if (r2 != root) fail("K03", "branch", "branch of %zu leaves does not lead to the root", n);
      Hash bad = hs[0]; flip(&bad, 32, r); tree_hash_from_branch(br.data(), depth, bad, nullptr, r2); if (r2 == root) fail("K03", "branch-forged", "branch accepts another leaf"); }
    stat("trees"); cover(fmt("t%zu", n)); }
  // proof-of-work hashes: golden values, reused/fresh context, order, alignment, threads, software path
  int w = k % 4; int gi = (k / 4) % 6; std::string in = powInput(w, gi);
  auto path = [&](bool soft) { if (soft) setenv("RYO_USE_SOFTWARE_AES", "1", 1); else unsetenv("RYO_USE_SOFTWARE_AES"); };
  path(false);
  Hash h1 = pow(w, sharedCtx(), in); stat("pow");
  if (hex(B(h1)) != goldenPow[w][gi]) fail("K03", fmt("pow-golden-%s", powName[w]), "%s(%s) = %s, the network's value is %s", powName[w], hex(in).c_str(), hex(B(h1)).c_str(), goldenPow[w][gi]);
  int w2 = (w + 1 + r.below(3)) % 4; std::string other = r.bytes(r.range(43, 200));
  Hash o1 = pow(w2, sharedCtx(), other);
  if (pow(w, sharedCtx(), in) != h1) fail("K03", fmt("pow-context-%s", powName[w]), "reused context after %s changes the result", powName[w2]);
  { cn_context fresh; if (pow(w2, fresh, other) != o1) fail("K03", fmt("pow-fresh-%s", powName[w2]), "fresh context gives another result"); std::string mis = "abc" + other; Hash m; 
    if (w2 == 3) cn_gpu_hash_v0(fresh, mis.data() + 3, other.size(), m); else if (w2 == 0) cn_slow_hash_v0(fresh, mis.data() + 3, other.size(), m); else if (w2 == 1) cn_fast_slow_hash_v1(fresh, mis.data() + 3, other.size(), m); else cn_conceal_slow_hash_v0(fresh, mis.data() + 3, other.size(), m);
    if (m != o1) fail("K03", fmt("pow-align-%s", powName[w2]), "misaligned input gives another result"); stat("pow.fresh", 2); }
  path(true); { Hash s1 = pow(3, sharedCtx(), other); path(false); if (pow(3, sharedCtx(), other) != s1) fail("K03", "pow-software", "portable and accelerated cn_gpu differ on %s", hex(other).c_str()); stat("pow.software"); }
  if (k % 3 == 0) { // threads
    std::vector<Hash> res(4); std::vector<std::thread> th; std::vector<std::string> ins; for (int i = 0; i < 4; ++i) ins.push_back(i < 2 ? in : other);
    for (int i = 0; i < 4; ++i) th.emplace_back([&, i] { cn_context c; res[i] = pow(i < 2 ? w : w2, c, ins[i]); Hash x = pow(i < 2 ? w : w2, c, ins[i]); if (x != res[i]) memset(&res[i], 0, 32); });
    for (auto& t : th) t.join();
    for (int i = 0; i < 4; ++i) if (res[i] != (i < 2 ? h1 : o1)) fail("K03", "pow-thread", "%s differs in thread %d", powName[i < 2 ? w : w2], i);
    stat("pow.threads", 4); }
}

// ---------------------------------------------------------------- K04
static void caseK04(long k, Rng& r) {
  chacha8_key key; chacha8_iv iv; r.fill(&key, sizeof key); r.fill(&iv, sizeof iv);
  for (int i = 0; i < 25; ++i) { size_t n = i < 15 ? (size_t)((k * 15 + i) % 400) : r.below(r.chance(10) ? 70000 : 3000); std::string d = r.bytes(n), c(n, 0), e(n, 0); chacha8(d.data(), n, key, iv, &c[0]); if (c != ref::chacha8(d, key.data, iv.data)) fail("K04", "chacha8", "chacha8 of %zu bytes differs from the specification", n);
    chacha8(c.data(), n, key, iv, &e[0]); if (e != d) fail("K04", "chacha8-inverse", "decrypting %zu bytes does not restore them", n); std::string in = d; chacha8(in.data(), n, key, iv, &in[0]); if (in != c) fail("K04", "chacha8-inplace", "in-place encryption differs (%zu bytes)", n);
    if (n >= 16) { chacha8_key k2 = key; flip(&k2, 32, r); chacha8(c.data(), n, k2, iv, &e[0]); if (e == d) fail("K04", "chacha8-key", "a different key decrypts"); chacha8_iv v2 = iv; flip(&v2, 8, r); chacha8(c.data(), n, key, v2, &e[0]); if (e == d) fail("K04", "chacha8-iv", "a different iv decrypts"); }
    stat("chacha"); cover(fmt("c%zu", n)); }
  if (k % 8 == 0) { std::string pw = r.bytes(r.below(40)); chacha8_key a, b, c; cn_context ctx; generate_chacha8_key(ctx, pw, a); generate_chacha8_key(sharedCtx(), pw, b); if (memcmp(&a, &b, 32)) fail("K04", "password-key", "key derivation depends on the context"); std::string p2 = pw + (char)r.next(); if (r.coin() && !pw.empty()) { p2 = pw; flip(&p2[0], p2.size(), r); } generate_chacha8_key(ctx, p2, c); if (!memcmp(&a, &c, 32)) fail("K04", "password-collision", "two passwords give one key");
    Hash h; cn_slow_hash_v0(ctx, pw.data(), pw.size(), h); if (memcmp(&a, &h, 32)) fail("K04", "password-kdf", "password key is not the slow hash of the password"); stat("passwords"); }
  { std::set<std::string> ivs; for (int i = 0; i < 40; ++i) { chacha8_iv v = crypto::randomChachaIV(); ivs.insert(B(v)); } if (ivs.size() != 40) fail("K04", "iv-repeat", "random IVs repeat"); }
  // messages
  for (int i = 0; i < 12; ++i) {
    cn::AccountKeys a = newAcc(r), b = newAcc(r); cn::KeyPair tk; randKeys(r, tk.publicKey, tk.secretKey); size_t idx = r.coin() ? r.below(5) : (size_t)r.edgy(); size_t n = r.below(6) == 0 ? 0 : r.below(r.chance(10) ? 5000 : 200); std::string m = r.bytes(n); if (r.chance(20)) m = std::string(n, 0);
    cn::tx_extra_message e; if (!e.encrypt(idx, m, &a.address, tk)) fail("K04", "message-encrypt", "encryption failed");
    // by definition: chacha8 of message||0000 under keccak(derivation||0x80||0x00), nonce = index
    { std::string kd = ref::keccak(refDerive(a.address.spendPublicKey, tk.secretKey) + std::string("\x80\0", 2)); uint64_t nn = idx; if (e.data != ref::chacha8(m + std::string(4, 0), (const uint8_t*)kd.data(), (const uint8_t*)&nn)) fail("K04", "message-format", "ciphertext differs from the message format"); }
    std::string got = "?"; if (!e.decrypt(idx, tk.publicKey, &a.spendSecretKey, got) || got != m) fail("K04", "message-decrypt", "addressee cannot read a %zu byte message at index %zu", n, idx);
    stat("messages"); cover(fmt("m%zu/%d", std::min(n, (size_t)100), idx < 5 ? (int)idx : 9));
    // 4 zero bytes of checksum: a false positive has chance 2^-32
    if (e.decrypt(idx, tk.publicKey, &b.spendSecretKey, got)) fail("K04", "message-stranger", "a stranger reads the message");
    if (e.decrypt(idx, tk.publicKey, &a.viewSecretKey, got)) fail("K04", "message-viewkey", "the view key reads the message");
    if (e.decrypt(idx ^ (1ULL << r.below(64)), tk.publicKey, &a.spendSecretKey, got)) fail("K04", "message-position", "message readable at another position");
    if (e.decrypt(idx, tk.publicKey, nullptr, got)) fail("K04", "message-plain", "encrypted message accepted as plain text");
    { cn::tx_extra_message c = e; c.data[c.data.size() - 1 - r.below(4)] ^= 1 << r.below(8); if (c.decrypt(idx, tk.publicKey, &a.spendSecretKey, got)) fail("K04", "message-checksum", "damaged checksum accepted"); }
    { cn::tx_extra_message c = e; c.data.resize(r.below(std::min<size_t>(c.data.size(), 4))); if (c.decrypt(idx, tk.publicKey, &a.spendSecretKey, got)) fail("K04", "message-short", "truncated message accepted"); if (c.decrypt(idx, tk.publicKey, nullptr, got)) fail("K04", "message-short-plain", "truncated plain message accepted"); }
    { cn::tx_extra_message p; p.encrypt(idx, m, nullptr, tk); if (!p.decrypt(idx, tk.publicKey, nullptr, got) || got != m) fail("K04", "message-unencrypted", "plain message not restored"); }
    // through extra
    std::vector<uint8_t> ex; cn::addTransactionPublicKeyToExtra(ex, tk.publicKey); std::vector<std::string> want; size_t cnt = r.range(1, 3); for (size_t j = 0; j < cnt; ++j) { cn::tx_extra_message t; bool mine = r.coin(); std::string mm = r.bytes(r.below(300)); t.encrypt(j, mm, mine ? &a.address : &b.address, tk); cn::append_message_to_extra(ex, t); if (mine) want.push_back(mm); }
    if (cn::get_messages_from_extra(ex, tk.publicKey, &a.spendSecretKey) != want) fail("K04", "message-extra", "messages read from extra differ from those sent"); stat("messages.extra", cnt);
  }
}

int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--golden")) { cn_context c; printf("static const char* goldenPow[4][6] = {\n"); for (int w = 0; w < 4; ++w) { printf("  {"); for (int j = 0; j < 6; ++j) printf("\"%s\",\n   ", hex(B(pow(w, c, powInput(w, j)))).c_str()); printf("},\n"); } printf("};\n"); return 0; }
  return vh::run(argc, argv, [](long k, Rng& r) {
    if (opt.mode == "sign") caseK01(k, r); else if (opt.mode == "stealth") caseK02(k, r); else if (opt.mode == "hash") caseK03(k, r); else if (opt.mode == "cipher") caseK04(k, r);
  });
}
