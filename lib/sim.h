// A node under a virtual clock with a cheap stand-in for the memory-hard proof-of-work functions, and an
// independent reference model of the ledger, the block tree and the mempool that predicts every answer.
#pragma once
#include "vh.h"
#include "refcrypto.h"
#include <list>
#include <memory>
#include <unordered_map>
#include <cmath>
#include <atomic>
#include "CryptoNoteCore/Core.h"
#include "CryptoNoteCore/CoreConfig.h"
#include "CryptoNoteCore/MinerConfig.h"
#include "CryptoNoteCore/Currency.h"
#include "CryptoNoteCore/CryptoNoteTools.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
#include "CryptoNoteCore/CryptoNoteBasicImpl.h"
#include "CryptoNoteCore/TransactionExtra.h"
#include "CryptoNoteCore/Account.h"
#include "CryptoNoteCore/VerificationContext.h"
#include "crypto/crypto.h"
#include "Logging/LoggerGroup.h"

namespace sim {
using cn::BinaryArray; using cn::Block; using cn::Transaction; using cn::TransactionPrefix;
using cn::KeyInput; using cn::MultisignatureInput; using cn::BaseInput; using cn::KeyOutput; using cn::MultisignatureOutput; using cn::TransactionOutput;
using crypto::Hash; using crypto::PublicKey; using crypto::SecretKey; using crypto::KeyImage; using crypto::Signature;

// ---- environment (sim.cpp) -------------------------------------------------
extern uint64_t g_now;                 // what time() says; 0 = real time
void seedRandom(uint64_t s);           // deterministic generate_random_bytes from here on
extern bool g_realRandom; extern std::atomic<unsigned> g_powCalls;
std::string powOf(unsigned variant, const void* p, size_t n);
extern std::function<void()> g_onWrite;

struct Less32 { template <class T> bool operator()(const T& a, const T& b) const { return memcmp(&a, &b, 32) < 0; } };
template <class V> using HMap = std::map<Hash, V, Less32>;
typedef std::set<Hash, Less32> HSet;
inline std::string hs(const Hash& h) { return vh::hex(&h, 4); }
inline bool isNull(const Hash& h) { static const Hash z = cn::NULL_HASH; return h == z; }

const uint64_t COIN = 1000000ULL, SUPPLY = 200000000ULL * COIN, FOREVER = 1000000000ULL;

struct Cfg {
  bool testnet = true;
  uint64_t v2 = 1, v3 = 12, v6 = 48, v7 = 60, v8 = 72;
  size_t tsWindow = 30; uint64_t unlockWin = 10;
  uint32_t minTerm = 5, minV3 = 30, maxV3 = 360, dH3 = 60, dH4 = 300000, missing = 0xFFFFFFFEu;
  size_t granted = 100000, maxInit = 1000000;
  std::string name;
};
inline unsigned versionAt(const Cfg& c, uint64_t h) { return h > c.v8 ? 8 : h > c.v7 ? 7 : h > c.v6 ? 4 : h > c.v3 ? 3 : h > c.v2 ? 2 : 1; }
std::unique_ptr<cn::Currency> makeCurrency(const Cfg& c, logging::ILogger& log);

// ---- reference formulas ----------------------------------------------------
inline bool meets(const Hash& h, uint64_t diff) {   // hash * diff < 2^256, little-endian 256 bit number
  uint64_t w[4]; memcpy(w, &h, 32); unsigned __int128 c = 0;
  for (int i = 0; i < 4; ++i) { c += (unsigned __int128)w[i] * diff; c >>= 64; }
  return c == 0;
}
template <class T> T median(std::vector<T> v) { if (v.empty()) return T(); std::sort(v.begin(), v.end()); size_t n = v.size() / 2; return v.size() % 2 ? v[n] : (T)(((unsigned __int128)v[n - 1] + v[n]) / 2); }
struct Retarget { uint64_t diff; bool overflow; };
uint64_t refInterest(const Cfg& c, uint64_t amount, uint32_t term, uint32_t height);
uint64_t refDifficulty(const Cfg& c, const std::vector<uint64_t>& ts, const std::vector<uint64_t>& cum);   // blocks 0..size-1
uint64_t refLwma3(const std::vector<uint64_t>& ts, const std::vector<uint64_t>& cd, bool& ovf);
uint64_t refLwma1(const Cfg& c, const std::vector<uint64_t>& ts, const std::vector<uint64_t>& cd, uint64_t height, bool& ovf);
uint64_t refOld(unsigned version, uint64_t index, std::vector<uint64_t> ts, const std::vector<uint64_t>& cd, bool& ovf);
uint64_t refBaseReward(const Cfg& c, uint64_t generated, uint32_t height);
struct Reward { bool ok; uint64_t reward; int64_t emission; };
Reward refReward(const Cfg& c, const std::vector<size_t>& last, size_t size, uint64_t generated, uint64_t fee, uint32_t height);
inline uint64_t maxCumulative(const Cfg& c, uint64_t h) { return c.maxInit + h * 102400 / 262800; }

// ---- transactions the harness knows ----------------------------------------
struct TxI {
  Transaction tx; BinaryArray blob; Hash id; std::string tag;
  struct In { std::vector<PublicKey> ring; bool good = true; std::vector<PublicKey> signers; };   // what the signatures were made for
  std::vector<In> in;
  Hash payId; bool hasPay = false; uint64_t ttl = 0; uint64_t outs = 0;
  std::vector<KeyImage> images() const { std::vector<KeyImage> r; for (auto& i : tx.inputs) if (i.type() == typeid(KeyInput)) r.push_back(boost::get<KeyInput>(i).keyImage); return r; }
  std::vector<std::pair<uint64_t, uint32_t>> msigs() const { std::vector<std::pair<uint64_t, uint32_t>> r; for (auto& i : tx.inputs) if (i.type() == typeid(MultisignatureInput)) { auto& m = boost::get<MultisignatureInput>(i); r.push_back(std::make_pair(m.amount, m.outputIndex)); } return r; }
  bool withdrawal() const { return !msigs().empty(); }
};
typedef std::shared_ptr<TxI> TxP;

// ---- ledger model ----------------------------------------------------------
struct KOut { Hash tx; uint16_t idx; PublicKey key; uint64_t unlock; uint32_t height; };
struct MOut { Hash tx; uint16_t idx; MultisignatureOutput o; uint64_t unlock; uint32_t height; bool used; };
struct BRec { Hash id; uint64_t ts; size_t size; uint64_t cum, diff, gen, ntx; int64_t locked; uint64_t interest; };
struct TLoc { uint32_t block; uint16_t pos; std::vector<uint32_t> gidx; };
struct Ledger {
  std::vector<BRec> b;
  std::map<uint64_t, std::vector<KOut>> ko;
  std::map<uint64_t, std::vector<MOut>> mo;
  std::map<KeyImage, uint32_t, Less32> spent;
  HMap<TLoc> tx;
  uint32_t size() const { return (uint32_t)b.size(); }
};
typedef std::shared_ptr<const Ledger> LP;

struct BNode { Block blk; BinaryArray blob; Hash id; int parent = -1; uint32_t height = 0; std::vector<TxP> txs; LP st; bool bad = false; std::string why, tag; };

// pool entry of the model
struct PTx { TxP t; bool kept; uint64_t recv; uint64_t fee; bool verified; uint32_t usedHeight; Hash usedId; };

struct Sim {
  Cfg cfg; vh::Rng& R; logging::LoggerGroup log; std::unique_ptr<cn::Currency> cur;
  std::map<PublicKey, SecretKey, Less32> sec; std::map<PublicKey, KeyImage, Less32> img; std::set<PublicKey, Less32> badKeys;
  HMap<TxP> txs; std::vector<BNode> tree; HMap<int> byId; std::vector<TxP> txList;
  cn::AccountBase miner;
  explicit Sim(vh::Rng& r, const Cfg& c);

  // keys
  PublicKey newKey(); PublicKey badKey();
  const KeyImage& imageOf(const PublicKey& p);
  TxP reg(const Transaction& tx, const std::string& tag, std::vector<TxI::In> in);

  // rules
  std::string semantic(const TxI& t, uint32_t height) const;
  std::string outputsOk(const TransactionPrefix& tx, uint32_t height) const;
  std::string inputsOk(const Ledger& L, const TxI& t, uint64_t now, uint32_t* used = nullptr) const;
  bool unlocked(const Ledger& L, uint64_t unlock, uint64_t now) const;
  uint64_t inAmount(const TransactionPrefix& tx, uint32_t height) const;
  uint64_t feeOf(const TransactionPrefix& tx, uint32_t height) const;
  bool isFusion(const TxI& t) const;
  std::string coinbaseOk(const Block& b, uint32_t height) const;
  uint64_t difficulty(const Ledger& L) const;
  // applies a block to a copy; why is set when a rule is broken, the ledger is advanced regardless ("as if")
  std::shared_ptr<Ledger> apply(const Ledger& L, const Block& b, const Hash& id, const std::vector<TxP>& t, uint64_t now, std::string& why) const;
  void put(Ledger& L, const Transaction& tx, const Hash& id, uint32_t block, uint16_t pos) const;
  std::vector<size_t> lastSizes(const Ledger& L) const { std::vector<size_t> v; size_t n = L.b.size(), k = n > 100 ? n - 100 : 0; for (; k < n; ++k) v.push_back(L.b[k].size); return v; }
  uint64_t medianTs(const std::vector<uint64_t>& all) const;   // 0 when not enough blocks

  // building
  struct TxOpt { int inputs = 0, ring = 0; bool msig = false, allowNew = true; int maxOuts = 4; int64_t fee = -1; std::string bad; uint32_t matureBy = 0; bool lockOuts = true; uint64_t ttl = 0; const HSet* avoidTx = nullptr; const std::set<KeyImage, Less32>* avoidImg = nullptr; const std::set<std::pair<uint64_t, uint32_t>>* avoidMsig = nullptr; size_t pad = 0; };
  TxP makeTx(const Ledger& L, const TxOpt& o);
  struct BlkOpt { std::string bad; uint64_t ts = 0; uint32_t nonce = 0; bool fancyCoinbase = false; std::vector<Hash> extraHashes; };
  int makeBlock(int parent, const std::vector<TxP>& t, const BlkOpt& o);   // returns tree index
  bool mine(Block& b, uint64_t diff, bool enough = true);
  int addNode(const Block& b, int parent, const std::vector<TxP>& t, const std::string& tag);
  int genesis();
  std::vector<int> path(int n) const { std::vector<int> p; for (; n >= 0; n = tree[n].parent) p.push_back(n); std::reverse(p.begin(), p.end()); return p; }
  std::vector<TxP> pickTxs(int parent, const std::vector<TxP>& want, size_t maxSize) const;
};

// the harness' notion of one node
struct Verdict { bool added = false, switched = false, orphan = false, exists = false, failed = false; std::string why; };
struct NodeModel {
  Sim& S; std::vector<int> main; std::map<int, uint64_t> alt;   // tree index -> cumulative difficulty
  HMap<PTx> pool; HMap<uint64_t> deleted; uint64_t lastCheck = 0; uint64_t limit = 0;
  std::vector<LP> st;           // ledger after each main block
  explicit NodeModel(Sim& s);
  const Ledger& L() const { return *st.back(); }
  uint32_t size() const { return (uint32_t)main.size(); }
  int tip() const { return main.back(); }
  bool onMain(int n) const { return S.tree[n].height < main.size() && main[S.tree[n].height] == n; }
  struct TxV { bool ret; bool added, failed; std::string why; };
  TxV addTx(const TxP& t, bool kept, bool viaCore = true, uint32_t height = 0);
  Verdict deliver(int n);
  bool push(int n, std::string& why);
  void pop();
  bool doSwitch(const std::list<int>& chain, std::string& why);
  bool handleAlt(int n, Verdict& v);
  void idle(); void expire(); void newLimit();
  unsigned switches = 0, deepest = 0, expired = 0;
  void rollback(uint32_t height);
  std::string ready(const PTx& p) const;     // "" when the transaction could go into the next block
  size_t altSize(int n) const;
};

// the real node
struct Node {
  Sim& S; std::string dir; std::unique_ptr<cn::core> c; bool up = false;
  Node(Sim& s, const std::string& d) : S(s), dir(d) {}
  bool start(bool load);
  void stop(bool clean = true);
  cn::core& operator*() { return *c; } cn::core* operator->() { return c.get(); }
};
// compares every observable of the node's ledger with the model; reports through vh::fail
void compareLedger(Sim& S, cn::core& c, const Ledger& L, const std::vector<int>& main, const char* props, const char* where, bool full = true);
void compareAlt(Sim& S, cn::core& c, const NodeModel& m, const char* props, const char* where);
void comparePool(Sim& S, cn::core& c, const NodeModel& m, const char* props, const char* where);
uint64_t digest(cn::core& c, Sim& S);
}
