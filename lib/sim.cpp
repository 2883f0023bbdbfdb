#include "sim.h"
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include "crypto/hash.h"
#include "CryptoNoteConfig.h"

// ---- environment ------------------------------------------------------------
namespace sim {
uint64_t g_now = 0; bool g_realRandom = false; std::function<void()> g_onWrite; std::atomic<unsigned> g_powCalls{0};
static vh::Rng g_rnd(1); static std::mutex g_rndM; static thread_local bool g_inHook = false;
void seedRandom(uint64_t s) { std::lock_guard<std::mutex> l(g_rndM); g_rnd = vh::Rng(s); }
std::string powOf(unsigned variant, const void* p, size_t n) { std::string s("pow"); s += (char)('0' + variant); s.append((const char*)p, n); return ref::keccak(s); }
static unsigned variantOf(unsigned major) { return major >= 8 ? 3 : major >= 7 ? 2 : major >= 3 ? 1 : 0; }
}
using namespace sim;
extern "C" {
time_t __real_time(time_t*);
time_t __wrap_time(time_t* t) { if (!g_now) return __real_time(t); if (t) *t = (time_t)g_now; return (time_t)g_now; }
void __real_generate_random_bytes(size_t n, void* p);
void __wrap_generate_random_bytes(size_t n, void* p) { if (g_realRandom) return __real_generate_random_bytes(n, p); std::lock_guard<std::mutex> l(g_rndM); g_rnd.fill(p, n); }
#define POW(sym, v) void __wrap_##sym(void*, const void* d, size_t n, void* h) { ++g_powCalls; std::string r = powOf(v, d, n); memcpy(h, r.data(), 32); }
POW(_ZN6crypto15cn_slow_hash_v0ERNS_10cn_contextEPKvmRNS_4HashE, 0)
POW(_ZN6crypto20cn_fast_slow_hash_v1ERNS_10cn_contextEPKvmRNS_4HashE, 1)
POW(_ZN6crypto23cn_conceal_slow_hash_v0ERNS_10cn_contextEPKvmRNS_4HashE, 2)
POW(_ZN6crypto14cn_gpu_hash_v0ERNS_10cn_contextEPKvmRNS_4HashE, 3)
bool __wrap__ZN6common13fetch_dns_txtENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERSt6vectorIS5_SaIS5_EE(void*, void*) { return false; }
#ifdef SIM_HOOK_WRITE
static void hook() { if (g_onWrite && !g_inHook) { g_inHook = true; g_onWrite(); g_inHook = false; } }
__attribute__((visibility("default"))) ssize_t write(int fd, const void* p, size_t n) { if (fd > 2) hook(); return syscall(SYS_write, fd, p, n); }
__attribute__((visibility("default"))) ssize_t writev(int fd, const struct iovec* v, int n) { if (fd > 2) hook(); return syscall(SYS_writev, fd, v, n); }
#endif
}

namespace sim {
std::unique_ptr<cn::Currency> makeCurrency(const Cfg& c, logging::ILogger& log) {
  cn::CurrencyBuilder b(log);
  b.testnet(c.testnet);
  b.upgradeHeightV2(c.v2).upgradeHeightV3(c.v3).upgradeHeightV6(c.v6).upgradeHeightV7(c.v7).upgradeHeightV8(c.v8);
  b.timestampCheckWindow(c.tsWindow).minedMoneyUnlockWindow(c.unlockWin);
  b.depositMinTerm(c.minTerm).depositMinTermV3(c.minV3).depositMaxTermV3(c.maxV3).depositHeightV3(c.dH3).depositHeightV4(c.dH4);
  b.blockWithMissingInterest(c.missing);
  b.blockGrantedFullRewardZone(c.granted).maxBlockSizeInitial(c.maxInit);
  return std::unique_ptr<cn::Currency>(new cn::Currency(b.currency()));
}

// ---- reference formulas -----------------------------------------------------
typedef unsigned __int128 u128;
uint64_t refInterest(const Cfg& c, uint64_t amount, uint32_t term, uint32_t height) {
  const uint32_t maxV1 = 1296000;
  if (term == 0 || term > maxV1) return 0;
  uint32_t lock = height == c.missing ? height : height - term;
  if (term % c.minV3 == 0 && lock > c.dH3) {
    uint64_t human = amount / COIN;
    float base = human >= 20000 ? 0.049f : human >= 10000 ? 0.039f : 0.029f;
    float months = (float)(term / c.minV3); if (months > 12) months = 12;
    float ear = base + (months - 1) * 0.001f, eir = (ear / 12) * months;
    return (uint64_t)((float)amount * eir);
  }
  if (term % 64800 == 0) {
    uint64_t a = amount / 1000000;
    static const struct { uint64_t lo, hi; double q; } tier[] = {{110001, 180000, 1.01}, {180000, 260000, 1.02}, {260000, 350000, 1.03}, {350000, 450000, 1.04}, {450000, 560000, 1.05}, {560000, 680000, 1.06}, {680000, 810000, 1.07},
      {810000, 950000, 1.08}, {950000, 1100000, 1.09}, {1100000, 1260000, 1.1}, {1260000, 1430000, 1.11}, {1430000, 1610000, 1.12}, {1610000, 1800000, 1.13}, {1800000, 2000000, 1.14}, {2000001, ~0ULL, 1.15}};
    float q = 1; for (auto& t : tier) if (a >= t.lo && (a < t.hi || t.hi == ~0ULL)) q = (float)t.q;
    float mq = (float)1.4473, quarters = (float)(term / 64800);
    float m8 = (float)(100.0 * pow(1.0 + (mq / 100.0), quarters) - 100.0), m5 = quarters * 0.5f, m7 = m8 * (1 + (m5 / 100)), rate = m7 * q;
    return (uint64_t)((float)amount * (rate / 100));
  }
  if (term % 5040 == 0) { float weeks = (float)(term / 5040), rate = (float)0.0696 + weeks * (float)0.0002; return (uint64_t)((float)amount * ((weeks * rate) / 100)); }
  // total rate 4 percent at the longest first-era term
  u128 r = (u128)amount * ((uint64_t)term * 4) / (100ULL * (c.testnet ? 360 : 262800));
  if (lock <= 12750) r *= 100;
  return r > ~0ULL ? ~0ULL : (uint64_t)r;
}
uint64_t refOld(unsigned version, uint64_t index, std::vector<uint64_t> ts, const std::vector<uint64_t>& cd, bool& ovf) {
  ovf = false;
  if (index >= 12750 && index < 13500) return 2160;
  size_t W = 720, cut = 60, n = std::min(ts.size(), W); ts.resize(n);
  if (n <= 1) return 1;
  std::sort(ts.begin(), ts.end());
  size_t lo = 0, hi = n, keep = W - 2 * cut;
  if (n > keep) { lo = (n - keep + 1) / 2; hi = lo + keep; }
  uint64_t span = std::max<uint64_t>(1, ts[hi - 1] - ts[lo]), work = cd[hi - 1] - cd[lo];
  u128 p = (u128)work * 120; if (p > ~0ULL) { ovf = true; return 0; }
  if (version < 2) { u128 q = (p + span - 1) / span; return (uint64_t)q; }   // the first version rounds up
  return (uint64_t)(p / span);
}
uint64_t refLwma3(const std::vector<uint64_t>& ts, const std::vector<uint64_t>& cd, bool& ovf) {
  ovf = false; if (ts.size() <= 10) return 100;
  size_t N = std::min<size_t>(60, ts.size() - 1); u128 L = 0; uint64_t prev = ts[0], last3 = 0;
  for (size_t i = 1; i <= N; ++i) { uint64_t t = ts[i] > prev ? ts[i] : prev + 1, st = std::min<uint64_t>(720, t - prev); prev = t; L += (u128)st * i; if (i + 3 > N) last3 += st; }
  u128 num = (u128)(cd[N] - cd[0]) * 120 * (N + 1) * 99; if (num > ~0ULL) ovf = true;
  u128 next = num / (200 * L); u128 p = cd[N] - cd[N - 1];
  u128 lo = p * 67 / 100, hi = p * 150 / 100; if (p * 150 > ~0ULL) ovf = true;
  next = std::max(lo, std::min(next, hi));
  if (last3 < 96) next = std::max(next, p * 108 / 100);
  return (uint64_t)next;
}
uint64_t refLwma1(const Cfg& c, const std::vector<uint64_t>& ts, const std::vector<uint64_t>& cd, uint64_t height, bool& ovf) {
  ovf = false; const uint64_t N = 60, T = 120;
  if (height >= c.v8 && height < c.v8 + N) return c.testnet ? 10 : 7200000;
  u128 L = 0; uint64_t prev = ts[0] - T;
  for (uint64_t i = 1; i <= N; ++i) { uint64_t t = ts[i] > prev ? ts[i] : prev + 1; L += (u128)i * std::min<uint64_t>(6 * T, t - prev); prev = t; }
  L = std::max<u128>(L, N * N * T / 20);
  u128 avg = (cd[N] - cd[0]) / N, next;
  if (avg > 2000000ULL * N * N * T) next = (avg / (200 * L)) * (N * (N + 1) * T * 99); else { if (avg * N * (N + 1) * T * 99 > ~0ULL) ovf = true; next = (avg * N * (N + 1) * T * 99) / (200 * L); }
  if (next > ~0ULL) ovf = true;
  uint64_t r = (uint64_t)next;
  for (uint64_t i = 1000000000; i > 1; i /= 10) if (r > i * 100) { r = ((r + i / 2) / i) * i; break; }
  return r;
}
uint64_t refDifficulty(const Cfg& c, const std::vector<uint64_t>& ts, const std::vector<uint64_t>& cum) {
  uint64_t size = ts.size(); bool ovf; uint64_t d;
  size_t count = versionAt(c, size) >= 4 ? 61 : 735;
  size_t off = size - std::min<uint64_t>(size, count); if (!off) off = 1;
  std::vector<uint64_t> t, w; for (; off < size; ++off) { t.push_back(ts[off]); w.push_back(cum[off]); }
  unsigned v = versionAt(c, size + 1);
  if (v >= 8) d = refLwma1(c, t, w, size, ovf); else if (v >= 4) d = refLwma3(t, w, ovf); else d = refOld(v, size, t, w, ovf);
  return std::max<uint64_t>(d, 1);
}
uint64_t refBaseReward(const Cfg& c, uint64_t generated, uint32_t height) {
  uint64_t left = SUPPLY - generated, r;
  if (height == 1) return std::min<uint64_t>(12000000ULL * COIN, left);
  if (height > c.v8) r = 6 * COIN; else r = 5 * COIN + (height / 21900) * (COIN / 4);
  return std::min<uint64_t>(std::min<uint64_t>(r, 15 * COIN), left);
}
Reward refReward(const Cfg& c, const std::vector<size_t>& last, size_t size, uint64_t generated, uint64_t fee, uint32_t height) {
  Reward r = {true, 0, 0}; uint64_t base = refBaseReward(c, generated, height);
  size_t m = std::max(median(last), c.granted);
  if (size > 2 * m) { r.ok = false; return r; }
  auto pen = [&](uint64_t a) -> uint64_t { if (size <= m) return a; u128 p = (u128)a * ((u128)size * (2 * m - size)); return (uint64_t)(p / m / m); };
  uint64_t pb = pen(base), pf = pen(fee);
  r.emission = (int64_t)(pb - (fee - pf)); r.reward = pb + pf; return r;
}

// ---- Sim --------------------------------------------------------------------
Sim::Sim(vh::Rng& r, const Cfg& c) : cfg(c), R(r) {
  cur = makeCurrency(c, log); miner.generate();
}
PublicKey Sim::newKey() { PublicKey p; SecretKey s; crypto::generate_keys(p, s); sec[p] = s; return p; }
PublicKey Sim::badKey() { for (;;) { PublicKey p; R.fill(&p, 32); ref::Pt q; if (!ref::dec(&p, q)) { badKeys.insert(p); return p; } } }
const KeyImage& Sim::imageOf(const PublicKey& p) { auto it = img.find(p); if (it != img.end()) return it->second; KeyImage k; crypto::generate_key_image(p, sec.at(p), k); return img[p] = k; }

TxP Sim::reg(const Transaction& tx, const std::string& tag, std::vector<TxI::In> in) {
  auto t = std::make_shared<TxI>(); t->tx = tx; t->blob = cn::toBinaryArray(tx); std::string h = ref::keccak(t->blob.data(), t->blob.size()); memcpy(&t->id, h.data(), 32); t->tag = tag; t->in = std::move(in);
  for (auto& o : tx.outputs) t->outs += o.amount;
  std::vector<cn::TransactionExtraField> f; cn::parseTransactionExtra(tx.extra, f); cn::TransactionExtraTTL ttl; if (cn::findTransactionExtraFieldByType(f, ttl)) t->ttl = ttl.ttl;
  t->hasPay = cn::getPaymentIdFromTxExtra(tx.extra, t->payId);
  auto it = txs.find(t->id); if (it != txs.end()) return it->second;
  txs[t->id] = t; txList.push_back(t); return t;
}
uint64_t Sim::inAmount(const TransactionPrefix& tx, uint32_t height) const {
  uint64_t s = 0;
  for (auto& i : tx.inputs) if (i.type() == typeid(KeyInput)) s += boost::get<KeyInput>(i).amount; else if (i.type() == typeid(MultisignatureInput)) { auto& m = boost::get<MultisignatureInput>(i); s += m.amount + (m.term ? refInterest(cfg, m.amount, m.term, height) : 0); }
  return s;
}
uint64_t Sim::feeOf(const TransactionPrefix& tx, uint32_t height) const {
  uint64_t in = inAmount(tx, height), out = 0; for (auto& o : tx.outputs) out += o.amount;
  if (in >= out) return in - out;
  for (auto& i : tx.inputs) if (i.type() == typeid(MultisignatureInput) && boost::get<MultisignatureInput>(i).term) return 10;
  return 0;
}
static std::vector<uint64_t> decompose(uint64_t a, uint64_t dust) {
  std::vector<uint64_t> r; uint64_t unit = 1, d = 0; bool done = false;
  while (a) { uint64_t v = (a % 10) * unit; a /= 10; unit *= 10; if (!done && d + v <= dust) d += v; else { if (!done) { if (d) r.push_back(d); done = true; } if (v) r.push_back(v); } }
  if (!done && d) r.push_back(d);
  return r;
}
bool Sim::isFusion(const TxI& t) const {
  if (t.blob.size() > cur->fusionTxMaxSize()) return false;
  std::vector<uint64_t> in; for (auto& i : t.tx.inputs) { if (i.type() != typeid(KeyInput)) return false; in.push_back(boost::get<KeyInput>(i).amount); }
  if (in.size() < cur->fusionTxMinInputCount()) return false;
  if (in.size() < t.tx.outputs.size() * cur->fusionTxMinInOutCountRatio()) return false;
  uint64_t s = 0; for (auto a : in) { if (a < cur->defaultDustThreshold()) return false; s += a; }
  auto exp = decompose(s, cur->defaultDustThreshold()); std::sort(exp.begin(), exp.end());
  std::vector<uint64_t> out; for (auto& o : t.tx.outputs) out.push_back(o.amount);
  return exp == out;
}
bool Sim::unlocked(const Ledger& L, uint64_t u, uint64_t now) const { return u < 500000000 ? L.size() >= u : now + 120 >= u; }

static bool keyOk(const PublicKey& p) { ref::Pt q; return ref::dec(&p, q); }
std::string Sim::outputsOk(const TransactionPrefix& tx, uint32_t height) const {
  auto good = [&](const PublicKey& p) { return sec.count(p) ? true : badKeys.count(p) ? false : keyOk(p); };
  for (auto& o : tx.outputs) {
    if (o.target.type() == typeid(KeyOutput)) { if (!o.amount) return "zero output"; if (!good(boost::get<KeyOutput>(o.target).key)) return "output key"; }
    else {
      if (tx.version < 2) return "multisig output in v1";
      auto& m = boost::get<MultisignatureOutput>(o.target);
      if (m.term) {
        if (height > cfg.dH4) { if (m.term < cfg.minV3 || m.term > cfg.maxV3 || m.term % cfg.minV3) return "deposit term"; }
        else if (m.term < cfg.minTerm || m.term > 1296000) return "deposit term";
        if (o.amount < COIN) return "deposit amount";
      }
      if (m.requiredSignatureCount > m.keys.size()) return "required signatures";
      for (auto& k : m.keys) if (!good(k)) return "multisig key";
    }
  }
  return "";
}
std::string Sim::semantic(const TxI& t, uint32_t height) const {
  auto& tx = t.tx;
  if (tx.inputs.empty()) return "no inputs";
  for (auto& i : tx.inputs) { if (i.type() == typeid(BaseInput)) return "base input"; if (i.type() == typeid(MultisignatureInput) && tx.version < 2) return "multisig input in v1"; }
  std::string e = outputsOk(tx, height); if (!e.empty()) return e;
  u128 in = 0, out = 0;
  for (auto& i : tx.inputs) if (i.type() == typeid(KeyInput)) in += boost::get<KeyInput>(i).amount; else { auto& m = boost::get<MultisignatureInput>(i); in += m.amount + (m.term ? (u128)m.amount * 4 / 100 : 0); }
  for (auto& o : tx.outputs) out += o.amount;
  if (in > ~0ULL) return "input overflow"; if (out > ~0ULL) return "output overflow";
  std::set<KeyImage, Less32> ki; std::set<std::pair<uint64_t, uint32_t>> ms;
  for (auto& k : t.images()) if (!ki.insert(k).second) return "same image twice";
  for (auto& m : t.msigs()) if (!ms.insert(m).second) return "same deposit twice";
  return "";
}
// out <= in as the relay gate sees it; may move the height the pool works with
static bool amountGate(const Sim& S, const TxI& t, uint32_t& height) {
  if (S.inAmount(t.tx, height) >= t.outs) return true;
  uint32_t th = height > 12750 ? 0 : 0xFFFFFFFFu;
  if (height > S.cfg.dH4 || S.inAmount(t.tx, th) < t.outs) return false;
  height = th; return true;
}
std::string Sim::inputsOk(const Ledger& L, const TxI& t, uint64_t now, uint32_t* used) const {
  uint32_t mx = 0; if (used) *used = 0;
  for (size_t n = 0; n < t.tx.inputs.size(); ++n) {
    auto& i = t.tx.inputs[n];
    if (i.type() == typeid(KeyInput)) {
      auto& k = boost::get<KeyInput>(i);
      if (k.outputIndexes.empty()) return "empty ring";
      if (L.spent.count(k.keyImage)) return "image spent";
      auto it = L.ko.find(k.amount); if (it == L.ko.end()) return "no such amount";
      uint64_t idx = 0; std::vector<PublicKey> keys; uint32_t hi = 0;
      for (size_t j = 0; j < k.outputIndexes.size(); ++j) {
        idx = (uint32_t)(idx + k.outputIndexes[j]);
        if (idx >= it->second.size()) return "no such index";
        auto& o = it->second[idx];
        if (o.height >= L.size()) return "output of the block being added";
        if (!unlocked(L, o.unlock, now)) return "output locked";
        keys.push_back(o.key); hi = o.height;
      }
      if (!t.in[n].good || t.in[n].ring != keys) return "ring signature";
      mx = std::max(mx, hi);
    } else if (i.type() == typeid(MultisignatureInput)) {
      auto& m = boost::get<MultisignatureInput>(i);
      auto it = L.mo.find(m.amount); if (it == L.mo.end() || m.outputIndex >= it->second.size()) return "no such deposit";
      auto& o = it->second[m.outputIndex];
      if (o.used) return "deposit used";
      if (o.height >= L.size()) return "deposit of the block being added";
      if (!unlocked(L, o.unlock, now)) return "deposit tx locked";
      if (m.signatureCount != o.o.requiredSignatureCount) return "signature count";
      if (m.term != o.o.term) return "term";
      if (o.o.term && (uint64_t)o.height + o.o.term > L.size()) return "deposit immature";
      size_t s = 0; for (size_t q = 0; q < o.o.keys.size() && s < t.in[n].signers.size(); ++q) if (o.o.keys[q] == t.in[n].signers[s]) ++s;
      if (s < m.signatureCount) return "multisig signatures";
    } else return "input type";
  }
  if (used) *used = mx;
  return "";
}
std::string Sim::coinbaseOk(const Block& b, uint32_t height) const {
  auto& t = b.baseTransaction;
  if (t.inputs.size() != 1) return "coinbase inputs";
  if (t.signatures.size() > 1) return "coinbase signatures";
  if (t.inputs[0].type() != typeid(BaseInput)) return "coinbase input type";
  if (boost::get<BaseInput>(t.inputs[0]).blockIndex != height) return "coinbase height";
  if (t.unlockTime != height + cfg.unlockWin) return "coinbase unlock";
  std::string e = outputsOk(t, height); if (!e.empty()) return "coinbase " + e;
  u128 s = 0; for (auto& o : t.outputs) s += o.amount; if (s > ~0ULL) return "coinbase overflow";
  return "";
}
uint64_t Sim::difficulty(const Ledger& L) const { std::vector<uint64_t> ts, cum; ts.reserve(L.size()); cum.reserve(L.size()); for (auto& b : L.b) { ts.push_back(b.ts); cum.push_back(b.cum); } return refDifficulty(cfg, ts, cum); }
uint64_t Sim::medianTs(const std::vector<uint64_t>& all) const { if (all.size() < cfg.tsWindow) return 0; return median(std::vector<uint64_t>(all.end() - cfg.tsWindow, all.end())); }

void Sim::put(Ledger& L, const Transaction& tx, const Hash& id, uint32_t block, uint16_t pos) const {
  TLoc loc; loc.block = block; loc.pos = pos;
  for (auto& i : tx.inputs)
    if (i.type() == typeid(KeyInput)) L.spent.insert(std::make_pair(boost::get<KeyInput>(i).keyImage, block));
    else if (i.type() == typeid(MultisignatureInput)) { auto& m = boost::get<MultisignatureInput>(i); auto it = L.mo.find(m.amount); if (it != L.mo.end() && m.outputIndex < it->second.size()) it->second[m.outputIndex].used = true; }
  for (size_t n = 0; n < tx.outputs.size(); ++n) {
    auto& o = tx.outputs[n];
    if (o.target.type() == typeid(KeyOutput)) { auto& v = L.ko[o.amount]; loc.gidx.push_back((uint32_t)v.size()); v.push_back(KOut{id, (uint16_t)n, boost::get<KeyOutput>(o.target).key, tx.unlockTime, block}); }
    else { auto& v = L.mo[o.amount]; loc.gidx.push_back((uint32_t)v.size()); v.push_back(MOut{id, (uint16_t)n, boost::get<MultisignatureOutput>(o.target), tx.unlockTime, block, false}); }
  }
  L.tx.insert(std::make_pair(id, loc));
}
static std::string hashingBlob(const Block& b, const std::vector<Hash>& th) {
  std::string s = ref::varint(b.majorVersion) + ref::varint(b.minorVersion) + ref::varint(b.timestamp) + std::string((const char*)&b.previousBlockHash, 32) + std::string((const char*)&b.nonce, 4);
  std::vector<std::string> v; for (auto& h : th) v.push_back(std::string((const char*)&h, 32));
  return s + ref::tree(v) + ref::varint(v.size());
}
static std::vector<Hash> treeHashes(const Block& b) { std::vector<Hash> v; BinaryArray a = cn::toBinaryArray(b.baseTransaction); std::string h = ref::keccak(a.data(), a.size()); Hash x; memcpy(&x, h.data(), 32); v.push_back(x); v.insert(v.end(), b.transactionHashes.begin(), b.transactionHashes.end()); return v; }
static bool powOk(const Block& b, uint64_t diff) { std::string s = hashingBlob(b, treeHashes(b)); std::string p = powOf(variantOf(b.majorVersion), s.data(), s.size()); Hash h; memcpy(&h, p.data(), 32); return meets(h, diff); }

std::shared_ptr<Ledger> Sim::apply(const Ledger& L0, const Block& b, const Hash& id, const std::vector<TxP>& t, uint64_t now, std::string& why) const {
  auto P = std::make_shared<Ledger>(L0); Ledger& L = *P; uint32_t h = L0.size(); why.clear();
  auto bad = [&](const std::string& s) { if (why.empty()) why = s; };
  uint32_t own = b.baseTransaction.inputs.size() == 1 && b.baseTransaction.inputs[0].type() == typeid(BaseInput) ? boost::get<BaseInput>(b.baseTransaction.inputs[0]).blockIndex : 0;
  if (b.majorVersion != versionAt(cfg, own)) bad("version");
  if (b.timestamp > now + 7200) bad("timestamp in the future");
  std::vector<uint64_t> ts; for (auto& x : L.b) ts.push_back(x.ts);
  if (ts.size() >= cfg.tsWindow && b.timestamp < medianTs(ts)) bad("timestamp below median");
  uint64_t diff = difficulty(L);
  if (!powOk(b, diff)) bad("proof of work");
  std::string e = coinbaseOk(b, h); if (!e.empty()) bad(e);
  Hash cb = treeHashes(b)[0];
  put(L, b.baseTransaction, cb, h, 0);
  size_t size = cn::toBinaryArray(b.baseTransaction).size(); uint64_t fee = 0, interest = 0; int64_t locked = 0;
  auto lockedOf = [&](const TransactionPrefix& tx) { for (auto& i : tx.inputs) if (i.type() == typeid(MultisignatureInput)) { auto& m = boost::get<MultisignatureInput>(i); if (m.term) locked -= (int64_t)m.amount; } for (auto& o : tx.outputs) if (o.target.type() == typeid(MultisignatureOutput) && boost::get<MultisignatureOutput>(o.target).term) locked += (int64_t)o.amount; };
  lockedOf(b.baseTransaction);
  for (size_t i = 0; i < t.size(); ++i) {
    auto& x = *t[i];
    if (b.majorVersion == 1 && x.tx.version > 1) bad("v2 transaction in v1 block");
    e = inputsOk(L, x, now); if (e.empty()) e = outputsOk(x.tx, h);
    if (e.empty() && L.tx.count(x.id)) e = "already on chain";
    if (!e.empty()) bad("tx " + std::to_string(i) + " " + e);
    fee += feeOf(x.tx, h); size += x.blob.size();
    for (auto& in : x.tx.inputs) if (in.type() == typeid(MultisignatureInput)) { auto& m = boost::get<MultisignatureInput>(in); if (m.term) interest += refInterest(cfg, m.amount, m.term, h); }
    lockedOf(x.tx); put(L, x.tx, x.id, h, (uint16_t)(i + 1));
  }
  if (size > maxCumulative(cfg, h)) bad("block too big");
  uint64_t gen = L.b.empty() ? 0 : L.b.back().gen;
  Reward r = refReward(cfg, lastSizes(L0), size, gen, fee, h);
  u128 cbt = 0; for (auto& o : b.baseTransaction.outputs) cbt += o.amount;
  if (!r.ok) bad("block larger than twice the median"); else if (cbt < r.reward) bad("coinbase too small"); else if (cbt > (u128)r.reward + 10) bad("coinbase too big");
  BRec n; n.id = id; n.ts = b.timestamp; n.size = size; n.diff = diff; n.cum = (L.b.empty() ? 0 : L.b.back().cum) + diff; n.gen = gen + r.emission + interest; n.ntx = (L.b.empty() ? 0 : L.b.back().ntx) + 1 + b.transactionHashes.size();
  n.locked = (L.b.empty() ? 0 : L.b.back().locked) + locked; n.interest = (L.b.empty() ? 0 : L.b.back().interest) + interest;
  L.b.push_back(n); return P;
}

bool Sim::mine(Block& b, uint64_t diff, bool enough) {
  auto th = treeHashes(b); std::string s = hashingBlob(b, th); size_t off = ref::varint(b.majorVersion).size() + ref::varint(b.minorVersion).size() + ref::varint(b.timestamp).size() + 32; unsigned v = variantOf(b.majorVersion);
  for (uint32_t k = 0; k < 40000000u; ++k) { ++b.nonce; memcpy(&s[off], &b.nonce, 4); std::string p = powOf(v, s.data(), s.size()); Hash h; memcpy(&h, p.data(), 32); if (meets(h, diff) == enough) return true; if (!enough && k > 2000) return false; }
  return false;
}
static Hash blockId(const Block& b) { std::string s = hashingBlob(b, treeHashes(b)); s = ref::varint(s.size()) + s; std::string h = ref::keccak(s); Hash r; memcpy(&r, h.data(), 32); return r; }
int Sim::addNode(const Block& b, int parent, const std::vector<TxP>& t, const std::string& tag) {
  BNode n; n.blk = b; n.blob = cn::toBinaryArray(b); n.id = blockId(b); n.parent = parent; n.txs = t; n.tag = tag;
  auto it = byId.find(n.id); if (it != byId.end()) return it->second;
  if (parent >= 0) { n.height = tree[parent].height + 1; n.st = apply(*tree[parent].st, b, n.id, t, g_now, n.why); n.bad = !n.why.empty() || tree[parent].bad; }
  tree.push_back(n); byId[n.id] = (int)tree.size() - 1; return (int)tree.size() - 1;
}
int Sim::genesis() {
  Block g = cur->genesisBlock(); BNode n; n.blk = g; n.blob = cn::toBinaryArray(g); n.id = blockId(g); n.tag = "genesis";
  Hash h; cn::get_block_hash(g, h); if (memcmp(&h, &n.id, 32)) vh::fail("K03,C01", "chain/genesis-id", "genesis id differs from the reference hash");
  Ledger L; n.st = apply(L, g, n.id, {}, g_now, n.why);
  // the genesis difficulty is 1 and its coinbase is valid by definition
  n.bad = false; tree.push_back(n); byId[n.id] = 0; return 0;
}

// ---- building ---------------------------------------------------------------
int Sim::makeBlock(int parent, const std::vector<TxP>& t, const BlkOpt& o) {
  const Ledger& L = *tree[parent].st; uint32_t h = L.size(); Block b; if (difficulty(L) > 200000) return -1;   // too slow to mine here
  b.majorVersion = (uint8_t)versionAt(cfg, h); b.minorVersion = R.chance(3) ? 1 : 0; b.nonce = (uint32_t)R.next(); b.previousBlockHash = L.b.back().id;
  std::vector<uint64_t> ts; for (auto& x : L.b) ts.push_back(x.ts);
  uint64_t med = medianTs(ts);
  b.timestamp = std::max(o.ts ? o.ts : L.b.back().ts + 1 + R.below(120), med);
  if (o.bad == "ts-future") b.timestamp = g_now + 7201 + R.below(1000); else if (o.bad == "ts-limit") b.timestamp = g_now + 7200; else if (o.bad == "ts-old") { if (!med) return -1; b.timestamp = med - 1 - R.below(50); }
  else if (o.bad == "ts-median") { if (!med) return -1; b.timestamp = med; }
  if (o.bad == "version+") { if (b.majorVersion >= 8) return -1; ++b.majorVersion; }   // 9 is not a readable block if (o.bad == "version-") --b.majorVersion;
  size_t ts0 = 0; uint64_t fee = 0; for (auto& x : t) { ts0 += x->blob.size(); fee += feeOf(x->tx, h); b.transactionHashes.push_back(x->id); }
  for (auto& x : o.extraHashes) b.transactionHashes.insert(b.transactionHashes.begin() + R.below(b.transactionHashes.size() + 1), x);
  if (o.bad == "dup-tx") { if (t.empty()) return -1; b.transactionHashes.push_back(R.pick(b.transactionHashes)); }
  uint64_t gen = L.b.back().gen; auto last = lastSizes(L);
  // coinbase
  Transaction& c = b.baseTransaction; c.version = 1; c.unlockTime = h + cfg.unlockWin; BaseInput bi; bi.blockIndex = h; c.inputs.push_back(bi);

  cn::KeyPair kp; crypto::generate_keys(kp.publicKey, kp.secretKey); cn::addTransactionPublicKeyToExtra(c.extra, kp.publicKey);
  if (R.chance(30)) { BinaryArray n(1 + R.below(30)); R.fill(n.data(), n.size()); cn::addExtraNonceToTransactionExtra(c.extra, n); }
  unsigned parts = h == 1 ? 12 : 1 + (unsigned)R.below(4); bool dep = o.fancyCoinbase && h > 1 && (b.majorVersion >= 1);
  std::vector<TransactionOutput> outs; size_t pad = 0; std::string e;
  size_t size = 0; uint64_t extraPay = R.chance(20) ? R.below(11) : 0;
  std::vector<PublicKey> keys; for (unsigned i = 0; i < parts; ++i) keys.push_back(newKey());
  std::vector<uint8_t> extra0 = c.extra; bool fit = false; size_t target = 0;
  for (int tries = 0; tries < 30 && !fit; ++tries) {
    c.extra = extra0; c.extra.insert(c.extra.end(), pad, 0);
    Reward r = refReward(cfg, last, target ? target : ts0 + 200, gen, fee, h);
    uint64_t total = (r.ok ? r.reward : 5 * COIN) + extraPay;
    if (o.bad == "cb-more") total += 11 - extraPay + R.below(1000000); else if (o.bad == "cb-less") total -= std::min(total - 1, extraPay + 1 + R.below(2)); else if (o.bad == "cb-max") total += 10 - extraPay;
    c.outputs.clear();
    if (h == 1) for (unsigned i = 0; i < parts; ++i) { TransactionOutput q; q.amount = i + 1 < parts ? 1000000ULL * COIN : total - 1000000ULL * COIN * (parts - 1); KeyOutput k; k.key = keys[i]; q.target = k; c.outputs.push_back(q); }
    else {
      uint64_t left = total;
      for (unsigned i = 0; i < parts && left; ++i) { uint64_t a = i + 1 < parts ? std::min(left, (uint64_t)COIN) : left; TransactionOutput q; q.amount = a; KeyOutput k; k.key = keys[i]; q.target = k; c.outputs.push_back(q); left -= a; }
      if (dep && !c.outputs.empty()) { auto& q = c.outputs.back(); MultisignatureOutput m; m.keys.push_back(keys[0]); m.requiredSignatureCount = 1; m.term = q.amount >= COIN && R.chance(70) ? (h > cfg.dH4 || cfg.dH3 == 0 ? cfg.minV3 : cfg.minTerm) : 0; q.target = m; c.version = 2; }
    }
    size = ts0 + cn::toBinaryArray(c).size();
    if (!target) { target = size; continue; }
    if (size == target || (r.ok && size <= std::max(median(last), cfg.granted) && target <= std::max(median(last), cfg.granted))) fit = true;
    else if (size < target) pad += target - size; else { target = size; }
    if (dep) dep = R.chance(100);
  }
  (void)e;
  if (o.bad == "cb-height") { bi.blockIndex = R.coin() ? h + 1 : h - 1; c.inputs[0] = bi; b.majorVersion = (uint8_t)versionAt(cfg, bi.blockIndex); }
  else if (o.bad == "cb-unlock") c.unlockTime += R.coin() ? 1 : -1;
  else if (o.bad == "cb-two-in") c.inputs.push_back(bi);
  else if (o.bad == "cb-noin") c.inputs.clear();
  else if (o.bad == "cb-keyin") { KeyInput k; k.amount = 5; k.outputIndexes.push_back(0); k.keyImage = imageOf(keys[0]); c.inputs[0] = k; c.signatures.resize(1); c.signatures[0].resize(1); }
  else if (o.bad == "cb-zero") { TransactionOutput q; q.amount = 0; KeyOutput k; k.key = newKey(); q.target = k; c.outputs.push_back(q); }
  else if (o.bad == "cb-badkey") { TransactionOutput q; q.amount = c.outputs.back().amount; KeyOutput k; k.key = badKey(); q.target = k; c.outputs.back() = q; }
  else if (o.bad == "cb-v1msig") { TransactionOutput q; q.amount = c.outputs.back().amount; MultisignatureOutput k; k.keys.push_back(newKey()); k.requiredSignatureCount = 1; k.term = 0; q.target = k; c.outputs.back() = q; c.version = 1; }
  else if (o.bad == "cb-depterm") { TransactionOutput q; q.amount = c.outputs.back().amount; MultisignatureOutput k; k.keys.push_back(newKey()); k.requiredSignatureCount = 1; k.term = R.coin() ? 1 : 1296001; q.target = k; c.outputs.back() = q; c.version = 2; }
  else if (o.bad == "cb-overflow") { for (int i = 0; i < 2; ++i) { TransactionOutput q; q.amount = 1ULL << 63; KeyOutput k; k.key = newKey(); q.target = k; c.outputs.push_back(q); } }
  else if (o.bad == "prev") { R.fill(&b.previousBlockHash, 32); }
  if (!mine(b, difficulty(L), o.bad != "pow")) return -1;

  return addNode(b, o.bad == "prev" ? -1 : parent, t, o.bad);
}

std::vector<TxP> Sim::pickTxs(int parent, const std::vector<TxP>& want, size_t maxSize) const {
  std::vector<TxP> r; Ledger L = *tree[parent].st; size_t s = 0; uint32_t h = L.size();
  for (auto& t : want) {
    if (L.tx.count(t->id) || s + t->blob.size() > maxSize) continue;
    if (versionAt(cfg, h) == 1 && t->tx.version > 1) continue;
    if (!inputsOk(L, *t, g_now).empty() || !outputsOk(t->tx, h).empty() || inAmount(t->tx, h) < t->outs) continue;
    put(L, t->tx, t->id, h, (uint16_t)(r.size() + 1)); r.push_back(t); s += t->blob.size();
  }
  return r;
}

static const uint64_t kDenoms[] = {100, 1000, 10000, 100000, 1000000, 2000000, 5000000, 10000000, 20000000, 50000000, 100000000, 1000000000, 10000000000ULL, 100000000000ULL, 1000000000000ULL};

TxP Sim::makeTx(const Ledger& L, const TxOpt& o) {
  const std::string& bad = o.bad; uint32_t h = L.size();
  struct Src { bool ms; uint64_t amount; uint32_t idx; };
  std::vector<Src> key, ms; uint64_t now = g_now;
  std::map<std::string, int> dummy;
  bool wantSpent = bad == "spent", wantLocked = bad == "locked", wantImm = bad == "immature";
  for (auto& a : L.ko) for (size_t i = 0; i < a.second.size(); ++i) {
    auto& x = a.second[i]; auto s = sec.find(x.key); if (s == sec.end()) continue;
    bool spent = L.spent.count(const_cast<Sim*>(this)->imageOf(x.key)) > 0, ok = unlocked(L, x.unlock, now);
    bool cb = L.tx.count(x.tx) && L.tx.at(x.tx).pos == 0;
    if (wantSpent ? !spent : spent) continue;
    if (wantLocked ? (ok || cb) : wantImm ? (ok || !cb) : !ok) continue;
    if (o.avoidImg && o.avoidImg->count(img.at(x.key))) continue;
    key.push_back(Src{false, a.first, (uint32_t)i});
  }
  bool wantEarly = bad == "early", wantUsed = bad == "double";
  bool useMs = o.msig || wantEarly || wantUsed || bad == "term" || bad == "sigcount" || bad == "interest" || bad == "msig-foreign" || bad == "msig-order" || bad == "msig-twice" || bad == "v1-msig-in";
  if (useMs) for (auto& a : L.mo) for (size_t i = 0; i < a.second.size(); ++i) {
    auto& x = a.second[i]; bool imm = x.o.term && (uint64_t)x.height + x.o.term > h;
    if (wantUsed ? !x.used : x.used) continue;
    if (wantEarly ? !imm : imm) continue;
    if (!unlocked(L, x.unlock, now)) continue;
    if (x.o.requiredSignatureCount > x.o.keys.size()) continue;
    if (bad == "msig-order" && x.o.requiredSignatureCount < 2) continue;
    if ((bad == "interest") && !x.o.term) continue;
    if (o.avoidMsig && o.avoidMsig->count(std::make_pair(a.first, (uint32_t)i))) continue;
    bool own = true; for (auto& k : x.o.keys) if (!sec.count(k)) own = false; if (!own) continue;
    ms.push_back(Src{true, a.first, (uint32_t)i});
  }
  if (useMs && ms.empty()) return nullptr;
  if (!useMs && key.empty()) return nullptr;
  Transaction tx; tx.version = 1; tx.unlockTime = 0; std::vector<TxI::In> in; std::vector<std::vector<SecretKey>> signer; std::vector<size_t> realIdx;
  std::vector<Src> chosen; size_t nin = o.inputs ? o.inputs : 1 + (R.chance(40) ? R.below(3) : 0);
  if (useMs) { R.shuffle(ms); size_t k = bad == "msig-twice" ? 1 : 1 + (R.chance(15) && ms.size() > 1 ? 1 : 0); for (size_t i = 0; i < k; ++i) chosen.push_back(ms[i]); if (bad == "msig-twice") chosen.push_back(ms[0]); if (R.chance(25) && !key.empty()) chosen.push_back(R.pick(key)); }
  else {
    R.shuffle(key);
    // prefer larger amounts a bit so that funds spread
    if (R.chance(50)) std::stable_sort(key.begin(), key.begin() + std::min<size_t>(key.size(), 6), [](const Src& a, const Src& b) { return a.amount > b.amount; });
    for (size_t i = 0; i < nin && i < key.size(); ++i) chosen.push_back(key[i]);
    if (bad == "dup-image") chosen.push_back(chosen[0]);
  }
  R.shuffle(chosen);
  uint64_t total = 0;
  for (auto& s : chosen) {
    TxI::In L1; std::vector<SecretKey> sk; size_t real = 0;
    if (!s.ms) {
      auto& v = L.ko.at(s.amount); KeyInput k; k.amount = s.amount; k.keyImage = imageOf(v[s.idx].key);
      std::set<uint32_t> ring; ring.insert(s.idx); size_t want = o.ring ? o.ring : 1 + R.below(5);
      for (int q = 0; q < 20 && ring.size() < want; ++q) { uint32_t c = (uint32_t)R.below(v.size()); if (unlocked(L, v[c].unlock, now) && v[c].height < h) ring.insert(c); }
      uint32_t prev = 0; for (auto r : ring) { if (r == s.idx) real = L1.ring.size(); k.outputIndexes.push_back(r - prev); prev = r; L1.ring.push_back(v[r].key); }
      if (R.chance(3) && !bad.size()) { /* a ring may name the same member twice */ k.outputIndexes.push_back(0); L1.ring.push_back(L1.ring.back()); }
      sk.push_back(sec.at(v[s.idx].key)); total += s.amount; tx.inputs.push_back(k);
    } else {
      auto& x = L.mo.at(s.amount)[s.idx]; MultisignatureInput m; m.amount = s.amount; m.outputIndex = s.idx; m.term = x.o.term; m.signatureCount = x.o.requiredSignatureCount;
      std::vector<size_t> who; for (size_t q = 0; q < x.o.keys.size(); ++q) who.push_back(q); R.shuffle(who); who.resize(m.signatureCount); std::sort(who.begin(), who.end());
      for (auto w : who) { L1.signers.push_back(x.o.keys[w]); sk.push_back(sec.at(x.o.keys[w])); }
      total += m.amount + (m.term ? refInterest(cfg, m.amount, m.term, h) : 0); tx.inputs.push_back(m); tx.version = 2;
    }
    in.push_back(L1); signer.push_back(sk); realIdx.push_back(real);
  }
  // outputs
  uint64_t fee = o.fee >= 0 ? (uint64_t)o.fee : R.chance(70) ? 1000 : R.chance(50) ? 0 : 1 + R.below(5000);
  if (o.ttl) fee = 0; if (fee > total) fee = 0;
  uint64_t left = total - fee; int maxOuts = 1 + (int)R.below(o.maxOuts);
  bool fusion = false;
  for (int i = 0; i < maxOuts && left; ++i) {
    uint64_t a;
    if (i + 1 == maxOuts) a = left; else { std::vector<uint64_t> c; for (auto d : kDenoms) if (d <= left) c.push_back(d); a = c.empty() ? left : c[c.size() - 1 - R.below(std::min<size_t>(c.size(), 4))]; }
    left -= a; TransactionOutput q; q.amount = a;
    bool canDep = versionAt(cfg, h) >= 2 || tx.version == 2;
    unsigned depPct = a >= COIN ? 25 : 6;
    if (o.allowNew && canDep && R.chance(depPct)) {
      MultisignatureOutput m; size_t n = 1 + R.below(3); for (size_t z = 0; z < n; ++z) m.keys.push_back(newKey()); m.requiredSignatureCount = (uint8_t)(1 + R.below(n)); m.term = 0;
      if (a >= COIN && R.chance(80)) { if (h > cfg.dH4 || cfg.dH3 == 0) m.term = cfg.minV3 * (1 + (uint32_t)(R.chance(85) ? R.below(3) : R.below(cfg.maxV3 / cfg.minV3))); else m.term = cfg.minTerm + (uint32_t)R.below(R.chance(80) ? 12 : 200); if (h > cfg.dH4 && m.term > cfg.maxV3) m.term = cfg.minV3; }
      q.target = m; tx.version = 2;
    } else { KeyOutput k; k.key = newKey(); q.target = k; }
    tx.outputs.push_back(q);
  }
  if (tx.outputs.empty()) { TransactionOutput q; q.amount = total; KeyOutput k; k.key = newKey(); q.target = k; tx.outputs.push_back(q); fee = 0; if (!total) return nullptr; }
  if (R.chance(50)) R.shuffle(tx.outputs);
  if (o.lockOuts && R.chance(10)) tx.unlockTime = R.coin() ? h + R.below(15) : g_now + R.below(2000);
  if (tx.version == 1 && R.chance(20) && versionAt(cfg, h) >= 2) tx.version = 2;
  cn::KeyPair kp; crypto::generate_keys(kp.publicKey, kp.secretKey); cn::addTransactionPublicKeyToExtra(tx.extra, kp.publicKey);
  if (R.chance(35)) { Hash pid; if (R.coin()) { memset(&pid, 0, 32); ((uint8_t*)&pid)[0] = (uint8_t)(1 + R.below(4)); } else R.fill(&pid, 32); BinaryArray n; cn::setPaymentIdToTransactionExtraNonce(n, pid); cn::addExtraNonceToTransactionExtra(tx.extra, n); }
  if (o.ttl) cn::appendTTLToExtra(tx.extra, o.ttl);
  if (o.pad) { size_t p = o.pad; while (p) { size_t k = std::min<size_t>(p, 255); BinaryArray n(k); R.fill(n.data(), k); n[0] = 0x7f; cn::addExtraNonceToTransactionExtra(tx.extra, n); p -= k; } }
  // defects in the structure
  auto firstKey = [&]() -> KeyInput* { for (auto& i : tx.inputs) if (i.type() == typeid(KeyInput)) return &boost::get<KeyInput>(i); return nullptr; };
  auto firstMs = [&]() -> MultisignatureInput* { for (auto& i : tx.inputs) if (i.type() == typeid(MultisignatureInput)) return &boost::get<MultisignatureInput>(i); return nullptr; };
  if (bad == "wrong-amount") { auto* k = firstKey(); std::vector<uint64_t> c; for (auto& a : L.ko) if (a.first != k->amount && a.second.size() > 3) c.push_back(a.first); if (c.empty()) return nullptr; uint64_t was = k->amount; std::vector<uint64_t> big; for (auto a : c) if (a > was) big.push_back(a); k->amount = R.pick(big.empty() ? c : big); }
  else if (bad == "no-index") firstKey()->outputIndexes.back() += R.coin() ? 1000000 : (uint32_t)L.ko.at(firstKey()->amount).size();
  else if (bad == "empty-ring") { for (size_t i = 0; i < tx.inputs.size(); ++i) if (tx.inputs[i].type() == typeid(KeyInput)) { boost::get<KeyInput>(tx.inputs[i]).outputIndexes.clear(); in[i].ring.clear(); break; } }
  else if (bad == "overspend") tx.outputs[R.below(tx.outputs.size())].amount += fee + 1 + R.below(R.coin() ? 1 : 1000000);
  else if (bad == "interest") { tx.outputs[0].amount += fee + 1 + R.below(R.coin() ? 1 : 1000); }
  else if (bad == "overflow-out") { for (int i = 0; i < 2; ++i) { TransactionOutput q; q.amount = 1ULL << 63; KeyOutput k; k.key = newKey(); q.target = k; tx.outputs.push_back(q); } }
  else if (bad == "zero-out") { TransactionOutput q; q.amount = 0; KeyOutput k; k.key = newKey(); q.target = k; tx.outputs.insert(tx.outputs.begin() + R.below(tx.outputs.size() + 1), q); }
  else if (bad == "bad-key-out") { KeyOutput k; k.key = badKey(); tx.outputs[R.below(tx.outputs.size())].target = k; }
  else if (bad == "term") firstMs()->term += 1;
  else if (bad == "sigcount") { auto* m = firstMs(); m->signatureCount = m->signatureCount > 1 && R.coin() ? m->signatureCount - 1 : 0; }
  else if (bad == "dep-min" || bad == "dep-term" || bad == "dep-max" || bad == "dep-req" || bad == "dep-key") {
    MultisignatureOutput m; m.keys.push_back(newKey()); m.requiredSignatureCount = 1; m.term = (h > cfg.dH4 || cfg.dH3 == 0) ? cfg.minV3 : cfg.minTerm; auto& q = tx.outputs[R.below(tx.outputs.size())];
    if (bad == "dep-min") { if (q.amount < COIN) { } else q.amount = COIN - 1; } else if (q.amount < COIN) return nullptr;
    if (bad == "dep-term") m.term = h > cfg.dH4 ? (R.coin() ? cfg.minV3 + 1 : cfg.minV3 - 1) : cfg.minTerm - 1;
    if (bad == "dep-max") m.term = h > cfg.dH4 ? cfg.maxV3 + cfg.minV3 : 1296001;
    if (bad == "dep-req") m.requiredSignatureCount = 2;
    if (bad == "dep-key") m.keys[0] = badKey();
    if (!m.term) return nullptr;
    q.target = m; tx.version = 2;
  }
  else if (bad == "v1-msig-out") { MultisignatureOutput m; m.keys.push_back(newKey()); m.requiredSignatureCount = 1; m.term = 0; tx.outputs[0].target = m; tx.version = 1; }
  else if (bad == "v1-msig-in") { tx.version = 1; for (auto& q : tx.outputs) if (q.target.type() == typeid(MultisignatureOutput)) { KeyOutput k; k.key = newKey(); q.target = k; } }
  else if (bad == "no-inputs") { tx.inputs.clear(); in.clear(); signer.clear(); }
  else if (bad == "base-input") { BaseInput b; b.blockIndex = h; size_t at = R.below(tx.inputs.size() + 1); tx.inputs.insert(tx.inputs.begin() + at, b); in.insert(in.begin() + at, TxI::In()); signer.insert(signer.begin() + at, std::vector<SecretKey>()); realIdx.insert(realIdx.begin() + at, 0); }
  else if (bad == "torsion") {
    // adds the point of order two to the image: the ring equation still holds for even challenges
    auto* k = firstKey(); if (!k) return nullptr; ref::Pt p; ref::dec(&k->keyImage, p); ref::Pt t2 = ref::ident(); t2.y = ref::P() - 1; std::string s = ref::enc(ref::padd(p, t2)); memcpy(&k->keyImage, s.data(), 32);
  }
  // signatures
  tx.signatures.assign(tx.inputs.size(), std::vector<Signature>());
  Hash ph; { TransactionPrefix pf = tx; BinaryArray a = cn::toBinaryArray(pf); std::string s = ref::keccak(a.data(), a.size()); memcpy(&ph, s.data(), 32); }
  for (size_t i = 0; i < tx.inputs.size(); ++i) {
    if (tx.inputs[i].type() == typeid(KeyInput)) {
      auto& k = boost::get<KeyInput>(tx.inputs[i]); auto& rg = in[i].ring; if (rg.empty()) continue;
      std::vector<const PublicKey*> pk; for (auto& x : rg) pk.push_back(&x);
      SecretKey s = signer[i][0]; if (bad == "wrong-signer" && in[i].good) { PublicKey p; crypto::generate_keys(p, s); in[i].good = false; }
      tx.signatures[i].resize(rg.size());
      bool tor = bad == "torsion" && &k == firstKey();
      for (int q = 0; q < (tor ? 64 : 1); ++q) { crypto::generate_ring_signature(ph, k.keyImage, pk, s, realIdx[i], tx.signatures[i].data()); if (tor && crypto::check_ring_signature(ph, k.keyImage, pk, tx.signatures[i].data())) { vh::stat("torsion.forged"); break; } }
      if (tor) in[i].good = false;
    } else if (tx.inputs[i].type() == typeid(MultisignatureInput)) {
      auto& m = boost::get<MultisignatureInput>(tx.inputs[i]); tx.signatures[i].resize(m.signatureCount); in[i].signers.resize(m.signatureCount);
      if (bad == "msig-order" && m.signatureCount >= 2 && signer[i].size() >= 2) { std::swap(signer[i][0], signer[i][1]); std::swap(in[i].signers[0], in[i].signers[1]); }
      for (size_t q = 0; q < m.signatureCount; ++q) {
        PublicKey p = in[i].signers[q]; SecretKey s = signer[i][q];
        if (bad == "msig-foreign" && q + 1 == m.signatureCount) { crypto::generate_keys(p, s); sec[p] = s; in[i].signers[q] = p; }
        crypto::generate_signature(ph, p, s, tx.signatures[i][q]);
      }
    }
  }
  if (bad == "flip-sig") { size_t i = R.below(tx.inputs.size()); for (size_t z = 0; z < tx.inputs.size() && tx.signatures[i].empty(); ++z) i = (i + 1) % tx.inputs.size(); if (tx.signatures[i].empty()) return nullptr; ((uint8_t*)&tx.signatures[i][R.below(tx.signatures[i].size())])[R.below(64)] ^= (uint8_t)(1u << R.below(8)); in[i].good = false; for (auto& p : in[i].signers) memset(&p, 0, 32); }
  else if (bad == "prefix-edit") {
    if (R.coin()) tx.unlockTime ^= 1; else { KeyOutput k; k.key = newKey(); for (auto& q : tx.outputs) if (q.target.type() == typeid(KeyOutput)) { q.target = k; break; } tx.extra.push_back(0); }
    for (auto& x : in) { x.good = false; for (auto& p : x.signers) memset(&p, 0, 32); }
  }
  (void)fusion;
  return reg(tx, bad, in);
}

// ---- the model of one node ---------------------------------------------------
NodeModel::NodeModel(Sim& s) : S(s) { main.push_back(0); st.push_back(S.tree[0].st); newLimit(); }
void NodeModel::newLimit() { limit = 2 * std::max(median(S.lastSizes(L())), S.cfg.granted); }
NodeModel::TxV NodeModel::addTx(const TxP& t, bool kept, bool viaCore, uint32_t height) {
  TxV v = {false, false, false, ""};
  auto no = [&](const std::string& w) { v.failed = true; v.why = w; return v; };
  if (viaCore) {
    if (t->blob.size() > 1000000000) return no("size");
    auto on = L().tx.find(t->id); height = on != L().tx.end() ? on->second.block : size();
    std::string e = S.semantic(*t, height); if (!e.empty()) return no(e);
    if (!amountGate(S, *t, height)) return no("amounts");
    if (on != L().tx.end() || pool.count(t->id)) { v.ret = true; v.why = "known"; return v; }
  }
  if (S.inAmount(t->tx, height) < t->outs) return no("amounts");
  uint64_t fee = S.feeOf(t->tx, height);
  if (t->ttl && !kept) { if (t->ttl <= g_now) return no("ttl over"); if (t->ttl - g_now > 43200 + 7200) return no("ttl far"); if (fee) return no("ttl with fee"); }
  if (!kept) { auto im = t->images(); auto ms = t->msigs(); for (auto& p : pool) { for (auto& k : p.second.t->images()) for (auto& m : im) if (!memcmp(&k, &m, 32)) return no("image in pool"); for (auto& k : p.second.t->msigs()) for (auto& m : ms) if (k == m) return no("deposit in pool"); } }
  PTx p; p.t = t; p.kept = kept; p.recv = g_now; p.fee = fee; p.usedHeight = 0; memset(&p.usedId, 0, 32);
  std::string e = S.inputsOk(L(), *t, g_now, &p.usedHeight); if (e.empty()) e = S.outputsOk(t->tx, size());
  p.verified = e.empty();
  if (!p.verified) { if (!kept) return no(e); p.usedHeight = 0; } else p.usedId = L().b[p.usedHeight].id;
  if (!kept && t->blob.size() > limit - 600) return no("too big");
  if (!kept && deleted.count(t->id)) { v.ret = true; v.why = "recently deleted"; return v; }
  if (pool.count(t->id)) { v.why = "in pool"; return v; }
  pool[t->id] = p; v.ret = v.added = true; return v;
}
std::string NodeModel::ready(const PTx& p) const { std::string e = S.inputsOk(L(), *p.t, g_now); if (e.empty()) e = S.outputsOk(p.t->tx, size()); return e; }
bool NodeModel::push(int n, std::string& why) {
  auto& N = S.tree[n]; std::vector<PTx> taken; uint32_t h = size();
  auto back = [&]() { for (size_t i = taken.size(); i-- > 0;) addTx(taken[i].t, true, false, h); };
  std::vector<TxP> list;
  for (auto& id : N.blk.transactionHashes) {
    auto it = pool.find(id);
    if (it == pool.end()) { back(); why = "transaction missing"; return false; }
    taken.push_back(it->second); list.push_back(it->second.t); pool.erase(it);
  }
  auto r = S.apply(L(), N.blk, N.id, list, g_now, why);
  if (!why.empty()) { back(); return false; }
  main.push_back(n); st.push_back(r); newLimit(); return true;
}
void NodeModel::pop() {
  auto& N = S.tree[main.back()]; uint32_t h = size() - 1;
  for (size_t i = N.blk.transactionHashes.size(); i-- > 0;) addTx(S.txs.at(N.blk.transactionHashes[i]), true, false, h);
  main.pop_back(); st.pop_back(); newLimit();
}
size_t NodeModel::altSize(int n) const {
  auto& N = S.tree[n]; size_t s = cn::toBinaryArray(N.blk.baseTransaction).size(); HSet seen;
  for (auto& id : N.blk.transactionHashes) { if (!L().tx.count(id) && !pool.count(id)) continue; s += S.txs.at(id)->blob.size(); }
  return s;
}
bool NodeModel::handleAlt(int n, Verdict& v) {
  auto& N = S.tree[n]; auto& cb = N.blk.baseTransaction; auto& C = S.cfg;
  auto no = [&](const char* w) { v.failed = true; v.why = w; return false; };
  uint32_t own = cb.inputs.size() == 1 && cb.inputs[0].type() == typeid(BaseInput) ? boost::get<BaseInput>(cb.inputs[0]).blockIndex : 0;
  if (!own) return no("alt: coinbase height");
  if (size() >= 10 && own < size() - 10) return no("alt: too deep");
  if (N.blk.majorVersion != versionAt(C, own)) return no("alt: version");
  if (altSize(n) > maxCumulative(C, own)) return no("alt: size");
  int p = N.parent;
  if (p < 0 || (!onMain(p) && !alt.count(p))) { v.orphan = true; v.why = "orphan"; return true; }
  std::list<int> chain; for (int a = p; alt.count(a); a = S.tree[a].parent) chain.push_front(a);
  if (!chain.empty()) { int f = chain.front(); if (!(size() > S.tree[f].height) || !onMain(S.tree[f].parent)) { v.why = "alt: dangling"; return false; } }
  // timestamps of the last window blocks of the branch
  std::vector<uint64_t> ts; for (auto it = chain.rbegin(); it != chain.rend() && ts.size() < C.tsWindow; ++it) ts.push_back(S.tree[*it].blk.timestamp);
  uint32_t start = chain.empty() ? S.tree[p].height : S.tree[chain.front()].height - 1;
  if (ts.size() < C.tsWindow) { size_t need = C.tsWindow - ts.size(); uint32_t stop = start > need ? start - (uint32_t)need : 0; uint32_t s = start; do { ts.push_back(L().b[s].ts); if (!s) break; --s; } while (s != stop); }
  if (ts.size() >= C.tsWindow && N.blk.timestamp < median(ts)) return no("alt: timestamp");
  const Ledger& PL = *S.tree[p].st; uint64_t diff = S.difficulty(PL);
  if (!powOk(N.blk, diff)) return no("alt: proof of work");
  std::string e = S.coinbaseOk(N.blk, S.tree[p].height + 1); if (!e.empty()) return no("alt: coinbase");
  uint64_t cum = (alt.count(p) ? alt.at(p) : L().b[S.tree[p].height].cum) + diff;
  alt[n] = cum; chain.push_back(n);
  if (L().b.back().cum < cum) {
    std::string w; bool r = doSwitch(chain, w);
    if (r) { v.added = v.switched = true; } else { v.failed = true; v.why = "switch: " + w; }
    return r;
  }
  v.why = "stored"; return true;
}
bool NodeModel::doSwitch(const std::list<int>& chain, std::string& why) {
  uint32_t split = S.tree[chain.front()].height; HSet have;
  for (int a : chain) for (auto& h : S.tree[a].blk.transactionHashes) have.insert(h);
  for (uint32_t i = split; i < size(); ++i) for (auto& h : S.tree[main[i]].blk.transactionHashes) if (!have.count(h)) { why = "drops a confirmed transaction"; return false; }
  std::vector<int> old(main.begin() + split, main.end());
  while (size() > split) pop();
  for (auto it = chain.begin(); it != chain.end(); ++it) {
    if (push(*it, why)) continue;
    while (size() > split) pop();
    for (int o : old) { std::string w; if (!push(o, w)) { why = "PANIC " + w; return false; } }
    for (; it != chain.end(); ++it) alt.erase(*it);
    return false;
  }
  ++switches; deepest = std::max<uint32_t>(deepest, (uint32_t)old.size());
  for (int o : old) { Verdict v; handleAlt(o, v); }
  for (int a : chain) alt.erase(a);
  return true;
}
Verdict NodeModel::deliver(int n) {
  Verdict v;
  if (onMain(n) || alt.count(n)) { v.exists = true; v.why = "known"; return v; }
  if (S.tree[n].parent == tip() && S.tree[n].parent >= 0) { if (push(n, v.why)) v.added = true; else v.failed = true; }
  else handleAlt(n, v);
  return v;
}
void NodeModel::idle() {
  if (g_now - lastCheck <= 60) return;
  lastCheck = g_now; expire();
}
void NodeModel::expire() {
  for (auto it = deleted.begin(); it != deleted.end();) if (g_now - it->second > 7ULL * 43200) it = deleted.erase(it); else ++it;
  for (auto it = pool.begin(); it != pool.end();) { bool r = g_now - it->second.recv > 43200 || (it->second.t->ttl && it->second.t->ttl <= g_now); if (r) { deleted.insert(std::make_pair(it->first, g_now)); it = pool.erase(it); ++expired; } else ++it; }
}
void NodeModel::rollback(uint32_t h) { if (h >= size()) return; while (size() > h + 1) { main.pop_back(); st.pop_back(); } newLimit(); }

// ---- the real node ------------------------------------------------------------
bool Node::start(bool load) {
  c.reset(new cn::core(*S.cur, nullptr, S.log, true, false));
  cn::CoreConfig cc; cc.configFolder = dir; cc.configFolderDefaulted = false; cc.testnet = S.cfg.testnet; cn::MinerConfig mc;
  up = c->init(cc, mc, load); return up;
}
void Node::stop(bool clean) { if (!c) return; if (up) { if (clean) c->deinit(); } up = false; c.reset(); }
}
