// Node histories judged by the reference model (lib/sim.*). Modes: history, restart, sync, interest, difficulty, reward
#include "sim.h"
#include <thread>
#include <atomic>
#include "CryptoNoteProtocol/CryptoNoteProtocolDefinitions.h"
#include "Rpc/CoreRpcServerCommandsDefinitions.h"
#include "CryptoNoteCore/IBlock.h"
#include "CryptoNoteCore/ICore.h"
#include "CryptoNoteCore/CryptoNoteStatInfo.h"
using namespace sim;
typedef vh::Rng Rng;
static std::string P(std::string a, const std::string& b) { return b.empty() ? a : a + "," + b; }

static std::string tagProps(const std::string& t) {
  static const std::map<std::string, std::string> m = {
    {"wrong-amount", "C03,C04"}, {"no-index", "C03"}, {"immature", "C03,C04"}, {"locked", "C03"}, {"flip-sig", "C03,C05"}, {"wrong-signer", "C03"}, {"torsion", "C03,K01"}, {"dup-image", "C03,C04"}, {"spent", "C03"}, {"prefix-edit", "C03,C05"}, {"empty-ring", "C03"},
    {"overspend", "C04"}, {"overflow-out", "C04"}, {"zero-out", "C04"}, {"bad-key-out", "C04"}, {"early", "C05,C03"}, {"term", "C05,C03"}, {"sigcount", "C05,C03"}, {"double", "C05,C03"}, {"msig-foreign", "C05,C03"}, {"msig-order", "C05,C03"}, {"msig-twice", "C05,C03,C04"}, {"interest", "C05,C04"},
    {"dep-min", "C05"}, {"dep-term", "C05"}, {"dep-max", "C05"}, {"dep-req", "C05"}, {"dep-key", "C05"}, {"v1-msig-out", "C05,C03"}, {"v1-msig-in", "C05,C03"}, {"no-inputs", "C03,C04"}, {"base-input", "C03,C04"},
    {"ts-future", "C07"}, {"ts-limit", "C07"}, {"ts-old", "C07"}, {"ts-median", "C07"}, {"pow", "C07,C06"}, {"version+", "C07,C06"}, {"version-", "C07,C06"}, {"prev", "C06"}};
  auto i = m.find(t); if (i != m.end()) return i->second;
  if (t.compare(0, 3, "cb-") == 0) return "C04";
  return "";
}
static std::string txProps(const TxI& t) { std::string p = tagProps(t.tag); if (p.empty()) { p = "C09"; if (t.withdrawal()) p += ",C05"; for (auto& o : t.tx.outputs) if (o.target.type() == typeid(MultisignatureOutput)) { p += ",C05"; break; } } return p; }

static Cfg pickCfg(Rng& r) {
  Cfg c; unsigned e = (unsigned)r.below(12);
  if (e < 4) { c.v2 = 1; c.v3 = 3; c.v6 = 5; c.v7 = 7; c.v8 = 9; c.name = "A"; }
  else if (e < 6) { c.name = "B"; }
  else if (e < 8) { c.v2 = 1; c.v3 = 2; c.v6 = 3; c.v7 = 4; c.v8 = 100000000; c.name = "C"; }
  else if (e >= 10) { c.v2 = r.coin() ? 1 : 10 + r.below(4); uint64_t h = 14 + r.below(6); c.v3 = h; h += 1 + r.below(r.coin() ? 2 : 8); c.v6 = h; h += 1 + r.below(r.coin() ? 2 : 8); c.v7 = h; h += 1 + r.below(r.coin() ? 2 : 8); c.v8 = h; c.name = "E"; }
  else { c.v2 = r.coin() ? 1 : 18; c.v3 = c.v6 = c.v7 = c.v8 = 100000000; c.name = "D"; }
  c.tsWindow = r.chance(20) ? 5 : r.coin() ? 11 : 30; c.minTerm = 5; c.minV3 = 5; c.maxV3 = 60;
  if (r.chance(12)) { c.dH3 = 16 + r.below(25); c.dH4 = r.coin() ? c.dH3 : 0; c.name += "b"; }
  else if (r.chance(65)) { c.dH3 = 0; c.dH4 = 0; } else { c.dH3 = 0xFFFFFFFFu; c.dH4 = 0xFFFFFFF0u; c.name += "l"; }
  if (r.chance(30)) { c.granted = 3000 + r.below(2000); c.maxInit = 7000 + r.below(3000); c.name += "s"; }
  return c;
}

struct World {
  Rng& R; Sim S; Node N; NodeModel* M; std::string lastProps; const char* at = "";
  std::map<std::string, unsigned> w; std::function<void(uint32_t)> pre; struct Item { int node; TxP t; bool kept; }; std::vector<Item> log;   // told how low the chain can get during the coming operation
  World(Rng& r, const Cfg& c) : R(r), S(r, c), N(S, vh::newDir("node")), M(nullptr) {
    S.genesis(); M = new NodeModel(S);
    if (!N.start(false)) vh::fail("C08,C01", "node/start", "node does not start on an empty directory");
  }
  ~World() { delete M; try { N.stop(true); } catch (...) {} vh::rmTree(N.dir); }
  void check(bool full, const std::string& p, const char* where) {
    std::string pr = "C02," + p;
    compareLedger(S, *N.c, M->L(), M->main, pr.c_str(), where, full);
    if (full) { compareAlt(S, *N.c, *M, P("C02,C06", p).c_str(), where); }
    comparePool(S, *N.c, *M, P("C09,C02", p).c_str(), where);
  }
  void submitTx(const TxP& t, bool kept, const char* where) {
    log.push_back({-1, t, kept});
    cn::tx_verification_context tvc; auto v = M->addTx(t, kept); bool r = N->handle_incoming_tx(t->blob, tvc, kept);
    vh::stat(v.added ? "tx.accepted" : v.ret ? "tx.ignored" : "tx.refused"); if (!t->tag.empty()) vh::stat("tx.bad"); vh::cover("tx/" + t->tag + "/" + v.why + (kept ? "/k" : "/r"));
    std::string p = txProps(*t);
    if (tvc.m_added_to_pool != v.added) vh::fail(P("C09", p), tvc.m_added_to_pool ? "tx/accepted-" + (t->tag.empty() ? v.why : t->tag) : "tx/refused-" + t->tag, "%s: transaction '%s' kept=%d: node added=%d, model added=%d (%s)", where, t->tag.c_str(), kept, tvc.m_added_to_pool, v.added, v.why.c_str());
    if (r != v.ret || tvc.m_verification_failed != v.failed) vh::fail(P("C09", p), "tx/verdict", "%s: transaction '%s' kept=%d: node returned %d failed=%d, model %d %d (%s)", where, t->tag.c_str(), kept, r, tvc.m_verification_failed, v.ret, v.failed, v.why.c_str());
  }
  // hands a block over the way the protocol does: its transactions first
  Verdict submit(int n, const char* where, unsigned dropPct = 0) {
    BNode nd = S.tree[n];
    for (auto& t : nd.txs) { if (M->pool.count(t->id) || M->L().tx.count(t->id)) { if (!R.chance(5)) continue; } if (dropPct && R.chance(dropPct)) { vh::stat("block.tx-withheld"); continue; } submitTx(t, true, where); }
    return submitBlob(n, where);
  }
  Verdict submitBlob(int n, const char* where) {
    log.push_back({n, nullptr, false});
    BNode nd = S.tree[n]; bool forked = !M->onMain(n) && nd.parent != M->tip(); uint32_t before = M->size(); (void)before;
    if (pre) { auto pth = S.path(n); uint32_t k = 0; while (k < pth.size() && k < M->size() && pth[k] == M->main[k]) ++k; pre(k); }
    auto old = M->main; Verdict v = M->deliver(n);
    cn::block_verification_context b; memset(&b, 0, sizeof b); N->handle_incoming_block_blob(nd.blob, b, false, false);
    std::string p = tagProps(nd.tag); for (auto& t : nd.txs) if (!t->tag.empty()) p = P(tagProps(t->tag), p); if (p.empty()) p = "C01";
    std::string cls = v.switched ? "switch" : v.added ? "extend" : v.orphan ? "orphan" : v.exists ? "known" : v.failed ? "refused" : v.why == "stored" ? "stored" : "ignored";
    vh::stat("block." + cls); vh::cover("block/" + cls + "/" + nd.tag + "/" + v.why + "/" + S.cfg.name);
    if (v.switched) { p = P("C06", p); vh::stat("switch.depth", M->deepest); }
    if (v.failed) p = P("C01", p);
    if (b.m_added_to_main_chain != v.added || b.m_switched_to_alt_chain != v.switched)
      vh::fail(P("C06,C02", p), v.added ? "block/refused-" + cls : "block/accepted-" + (nd.tag.empty() ? v.why : nd.tag), "%s: block at %u '%s' (%s): node added=%d switched=%d failed=%d, model added=%d switched=%d (%s)", where, nd.height, nd.tag.c_str(), nd.why.c_str(), b.m_added_to_main_chain, b.m_switched_to_alt_chain, b.m_verification_failed, v.added, v.switched, v.why.c_str());
    if (b.m_marked_as_orphaned != v.orphan || b.m_already_exists != v.exists) vh::fail(P("C06", p), "block/class", "%s: block at %u '%s': node orphan=%d exists=%d, model %d %d (%s)", where, nd.height, nd.tag.c_str(), b.m_marked_as_orphaned, b.m_already_exists, v.orphan, v.exists, v.why.c_str());
    if (b.m_verification_failed != v.failed && v.why != "alt: dangling") vh::fail(P("C06,C07", p), "block/failed-flag", "%s: block at %u '%s': node failed=%d, model %d (%s)", where, nd.height, nd.tag.c_str(), b.m_verification_failed, v.failed, v.why.c_str());
    if (v.failed && M->main != old && !v.switched) vh::fail("", "model/internal", "model changed chain on refusal: %s", v.why.c_str());
    lastProps = p; (void)forked; check(R.chance(12) || (v.switched && R.chance(50)) || (v.failed && R.chance(40)), p, where);
    return v;
  }
  void advance(uint64_t s) { g_now += s; }
  void keepUp() { uint64_t t = M->L().b.back().ts; if (t > g_now) g_now = t; }

  std::vector<TxP> minable() { std::vector<TxP> v; for (auto& p : M->pool) if (!p.second.t->ttl) v.push_back(p.second.t); R.shuffle(v); return v; }
  // extends the tip with a valid block
  int extend(uint64_t solve = 0, bool withTxs = true) {
    int tip = M->tip(); std::vector<TxP> t;
    if (withTxs) { auto w = minable(); if (R.chance(30) && w.size() > 2) w.resize(R.below(w.size())); t = S.pickTxs(tip, w, blockRoom()); }
    Sim::BlkOpt o; uint64_t prev = M->L().b.back().ts; o.ts = M->size() == 1 ? g_now - 3000 : prev + (solve ? solve : solveTime()); o.fancyCoinbase = R.chance(5);
    if (R.chance(3)) o.bad = "ts-median";
    if (g_now < o.ts) g_now = o.ts;
    int n = S.makeBlock(tip, t, o); if (n < 0) { o.bad = ""; n = S.makeBlock(tip, t, o); } if (n < 0) return -1;
    if (S.tree[n].blk.timestamp > g_now) g_now = S.tree[n].blk.timestamp;
    if (!S.tree[n].why.empty() && S.tree[n].why != "block larger than twice the median") vh::fail("", "model/generator", "generated block should be valid: %s (cfg %s)", S.tree[n].why.c_str(), S.cfg.name.c_str());
    submit(n, "extend"); return n;
  }
  uint64_t solveTime() { unsigned k = (unsigned)R.below(10); if (k < 6) return 60 + R.below(120); if (k < 8) return 1 + R.below(60); return k == 8 ? 150 + R.below(600) : 0; }
  size_t blockRoom() { size_t lim = 2 * std::max(median(S.lastSizes(M->L())), S.cfg.granted); lim = std::min<size_t>(lim, maxCumulative(S.cfg, M->size())); return lim > 900 ? (R.chance(15) ? lim - 900 : R.below(lim - 900)) : 0; }
  HSet a; std::set<KeyImage, Less32> poolImg; std::set<std::pair<uint64_t, uint32_t>> poolMs;
  void avoid(Sim::TxOpt& o) { poolImg.clear(); poolMs.clear(); for (auto& p : M->pool) { for (auto& k : p.second.t->images()) poolImg.insert(k); for (auto& m : p.second.t->msigs()) poolMs.insert(m); } o.avoidImg = &poolImg; o.avoidMsig = &poolMs; }
  TxP newTx() {
    Sim::TxOpt o; avoid(o); o.msig = R.chance(20); if (R.chance(5)) { o.ttl = g_now + R.below(50000); if (R.chance(20)) o.ttl = g_now - R.below(3); } if (R.chance(6)) o.pad = R.below(S.cfg.granted < 10000 ? 3000 : 400); if (R.chance(8)) o.inputs = 12 + (int)R.below(4);
    TxP t = S.makeTx(M->L(), o); if (!t && o.msig) { o.msig = false; t = S.makeTx(M->L(), o); } return t;
  }
  TxP badTx() {
    static const std::vector<std::string> kinds = {"wrong-amount", "no-index", "immature", "locked", "flip-sig", "wrong-signer", "torsion", "dup-image", "overspend", "overflow-out", "zero-out", "bad-key-out", "spent", "early", "term", "sigcount", "double", "msig-foreign", "msig-order", "msig-twice", "interest", "dep-min", "dep-term", "dep-max", "dep-req", "dep-key", "v1-msig-out", "v1-msig-in", "no-inputs", "base-input", "prefix-edit", "empty-ring"};
    static const std::vector<std::string> c5 = {"early", "term", "sigcount", "double", "msig-foreign", "msig-order", "msig-twice", "interest", "dep-min", "dep-term", "dep-max", "dep-req", "dep-key", "v1-msig-out", "v1-msig-in", "flip-sig"};
    for (int i = 0; i < 6; ++i) { Sim::TxOpt o; avoid(o); o.bad = vh::opt.prop == "C05" ? R.pick(c5) : R.pick(kinds); o.fee = 1000; if (TxP t = S.makeTx(M->L(), o)) return t; }
    return nullptr;
  }
  TxP conflicting() {
    if (M->pool.empty()) return nullptr; auto it = M->pool.begin(); std::advance(it, R.below(M->pool.size()));
    // respend one of its inputs
    Sim::TxOpt o; poolImg.clear(); poolMs.clear(); auto im = it->second.t->images(); auto ms = it->second.t->msigs();
    std::set<KeyImage, Less32> all; for (auto& i : S.img) all.insert(i.second); for (auto& k : im) all.erase(k); std::set<std::pair<uint64_t, uint32_t>> am; for (auto& x : M->L().mo) for (uint32_t i = 0; i < x.second.size(); ++i) am.insert(std::make_pair(x.first, i)); for (auto& m : ms) am.erase(m);
    poolImg = all; poolMs = am; o.avoidImg = &poolImg; o.avoidMsig = &poolMs; o.msig = !ms.empty(); o.inputs = 1;
    return S.makeTx(M->L(), o);
  }
  // a block with a fault, at the tip or on a branch
  void badBlock() {
    static const std::vector<std::string> kinds = {"version+", "version-", "ts-future", "ts-limit", "ts-old", "pow", "cb-more", "cb-less", "cb-max", "cb-height", "cb-unlock", "cb-two-in", "cb-noin", "cb-keyin", "cb-zero", "cb-badkey", "cb-v1msig", "cb-depterm", "cb-overflow", "prev", "dup-tx", "missing", "bad-tx", "bad-tx", "bad-tx", "double", "onchain", "oversize", "chained", "corrupt"};
    std::string k = R.pick(kinds); Sim::BlkOpt o; int parent = R.chance(75) || M->size() < 6 ? M->tip() : M->main[M->size() - 1 - R.below(std::min<uint32_t>(5, M->size() - 2))];
    std::vector<TxP> t = S.pickTxs(parent, minable(), blockRoom()); uint64_t prev = S.tree[parent].st->b.back().ts; o.ts = prev + 1 + R.below(100); if (g_now < o.ts) g_now = o.ts;
    auto at = [&]() { return t.begin() + R.below(t.size() + 1); };
    const Ledger& L = *S.tree[parent].st;
    if (k == "missing") { Hash h; R.fill(&h, 32); o.extraHashes.push_back(h); }
    else if (k == "bad-tx") { TxP x = badTx(); if (!x) return; t.insert(at(), x); }
    else if (k == "double") { if (t.empty()) { TxP x = newTx(); if (!x || !S.inputsOk(L, *x, g_now).empty()) return; t.push_back(x); }
      // a second transaction spending the same thing, later in the block
      auto im = t[0]->images(); if (im.empty()) return; Sim::TxOpt to; std::set<KeyImage, Less32> all; for (auto& i : S.img) all.insert(i.second); all.erase(im[0]); to.avoidImg = &all; to.inputs = 1; TxP y = S.makeTx(L, to); if (!y || y->id == t[0]->id) return; t.push_back(y); }
    else if (k == "onchain") { std::vector<TxP> on; for (auto& e : L.tx) { auto i = S.txs.find(e.first); if (i != S.txs.end()) on.push_back(i->second); } if (on.empty()) return; t.insert(at(), R.pick(on)); }
    else if (k == "oversize") { size_t s = 0; for (int i = 0; i < 200 && s < 2 * std::max(median(S.lastSizes(L)), S.cfg.granted) + 500; ++i) { Sim::TxOpt to; avoid(to); to.pad = 2000 + R.below(20000); for (auto& x : t) for (auto& q : x->images()) poolImg.insert(q); TxP x = S.makeTx(L, to); if (!x) break; t.push_back(x); s += x->blob.size(); if (S.cfg.granted > 10000 && i > 3) break; } }
    else if (k == "chained") { // spends an output of the same block
      Sim::TxOpt to; avoid(to); to.lockOuts = false; to.allowNew = false; TxP x = S.makeTx(L, to); if (!x || x->tx.unlockTime) return;
      Ledger L2 = L; for (auto& y : t) S.put(L2, y->tx, y->id, L.size(), 1); S.put(L2, x->tx, x->id, L.size(), 1);
      // restrict the second to outputs of the first
      std::set<KeyImage, Less32> all; for (auto& i : S.img) all.insert(i.second); for (auto& q : x->tx.outputs) if (q.target.type() == typeid(KeyOutput)) all.erase(S.imageOf(boost::get<KeyOutput>(q.target).key));
      to.avoidImg = &all; to.inputs = 1; to.ring = 1; TxP y = S.makeTx(L2, to); if (!y) return; t.push_back(x); t.push_back(y); }
    else if (k == "dup-tx") { if (t.empty()) return; o.bad = k; }
    else if (k != "corrupt") o.bad = k;
    int n = S.makeBlock(parent, t, o); if (n < 0) return;
    if (o.extraHashes.size() || k == "dup-tx") S.tree[n].bad = true;
    if (S.tree[n].tag.empty() && S.tree[n].bad) S.tree[n].tag = k;
    if (k == "corrupt") {
      BinaryArray b = S.tree[n].blob; unsigned kind = (unsigned)R.below(4); if (kind == 0) b.resize(R.below(b.size())); else if (kind == 1) b.push_back((uint8_t)R.next()); else if (kind == 2) b.clear(); else { for (int i = 0; i < 3; ++i) b[R.below(b.size())] ^= (uint8_t)(1 + R.below(255)); }
      Block tmp; bool dec = cn::fromBinaryArray(tmp, b); if (dec) return;   // a readable block is another block: handled elsewhere
      cn::block_verification_context v; memset(&v, 0, sizeof v); bool r = N->handle_incoming_block_blob(b, v, false, false); vh::stat("block.undecodable");
      if (r || v.m_added_to_main_chain || !v.m_verification_failed) vh::fail("C01", "block/undecodable", "an undecodable block blob was not refused");
      check(R.chance(30), "C01", "corrupt"); return;
    }
    vh::stat("block.faulty"); vh::stat("fault." + k); submit(n, ("bad block " + k).c_str(), R.chance(10) ? 30 : 0);
    if (S.tree[n].bad && R.chance(30) && S.tree[n].parent >= 0) branchFrom(n, 1 + R.below(3));
  }
  // builds a branch on a node and delivers it
  void branchFrom(int n, unsigned len, bool fast = false) {
    std::vector<int> made; int cur = n;
    for (unsigned i = 0; i < len; ++i) {
      Sim::BlkOpt o; o.ts = S.tree[cur].st->b.back().ts + (fast ? 1 + R.below(40) : solveTime());
      std::vector<TxP> want = branchTxs(cur); std::vector<TxP> t = S.pickTxs(cur, want, 5000 + R.below(100000));
      if (S.cfg.granted < 10000) t = S.pickTxs(cur, want, 3000);
      if (R.chance(4)) { TxP x = badTx(); if (x) t.push_back(x); }
      if (R.chance(2)) o.bad = "cb-more"; else if (R.chance(2)) o.bad = "pow";
      int m = S.makeBlock(cur, t, o); if (m < 0) break;
      if (S.tree[m].tag.empty() && S.tree[m].bad) S.tree[m].tag = "branch";
      made.push_back(m); cur = m; if (S.tree[m].blk.timestamp > g_now) g_now = S.tree[m].blk.timestamp;
    }
    if (R.chance(25)) { // out of order and repeated
      std::vector<int> ord = made; R.shuffle(ord); for (int x : ord) submit(x, "branch shuffled");
    }
    for (int x : made) { submit(x, "branch", R.chance(3) ? 40 : 0); if (R.chance(8)) submitBlob(made[R.below(made.size())], "branch repeat"); }
  }
  // transactions of the current chain since the fork point, then pool ones
  std::vector<TxP> branchTxs(int cur) {
    std::vector<TxP> v; auto path = S.path(cur); std::set<int> on(path.begin(), path.end()); uint32_t f = 0; while (f < M->size() && on.count(M->main[f])) ++f;
    bool drop = R.chance(6);
    for (uint32_t h = f; h < M->size(); ++h) for (auto& t : S.tree[M->main[h]].txs) if (!drop || R.coin()) v.push_back(t);
    auto p = minable(); if (p.size() > 3) p.resize(R.below(4)); v.insert(v.end(), p.begin(), p.end()); return v;
  }
  void fork() {
    if (M->size() < 4) return; uint32_t d = 1 + (uint32_t)R.below(std::min<uint32_t>(M->size() - 2, R.chance(85) ? 4 : 11)); if (R.chance(vh::opt.prop == "C06" ? 14 : 6) && M->size() > 13) d = 8 + (uint32_t)R.below(4); int from = M->main[M->size() - 1 - d];
    branchFrom(from, d + (R.chance(70) ? 1 + (unsigned)R.below(2) : 0), R.coin());
  }
  void extendAlt() { if (M->alt.empty()) return; auto it = M->alt.begin(); std::advance(it, R.below(M->alt.size())); branchFrom(it->first, 1 + (unsigned)R.below(3), R.coin()); }
  void learnCoinbase(const Block& b) {
    auto& cb = b.baseTransaction; PublicKey R0 = cn::getTransactionPublicKeyFromExtra(cb.extra); crypto::KeyDerivation d; if (!crypto::generate_key_derivation(R0, S.miner.getAccountKeys().viewSecretKey, d)) return;
    for (size_t i = 0; i < cb.outputs.size(); ++i) { if (cb.outputs[i].target.type() != typeid(KeyOutput)) continue; PublicKey p; if (!crypto::derive_public_key(d, i, S.miner.getAccountKeys().address.spendPublicKey, p)) continue; if (!(p == boost::get<KeyOutput>(cb.outputs[i].target).key)) vh::fail("C10,K02", "template/payee", "template output %zu is not paid to the miner's address", i); SecretKey s; crypto::derive_secret_key(d, i, S.miner.getAccountKeys().spendSecretKey, s); S.sec[p] = s; }
  }
  void templ(bool mineIt) {
    Block b; cn::difficulty_type df = 0; uint32_t h = 0; BinaryArray ex(R.chance(30) ? 0 : R.chance(80) ? R.below(60) : 200 + R.below(55)); R.fill(ex.data(), ex.size());
    bool r = N->get_block_template(b, S.miner.getAccountKeys().address, df, h, ex); const char* pr = "C10";
    const Ledger& L = M->L();
    if (!r) vh::fail(pr, "template/none", "no template at height %u with nonce size %zu (cfg %s)", L.size(), ex.size(), S.cfg.name.c_str());
    vh::stat("template.asked"); vh::stat("template.txs", b.transactionHashes.size());
    if (h != L.size()) vh::fail(pr, "template/height", "template height %u, chain size %u", h, L.size());
    if (!(b.previousBlockHash == L.b.back().id)) vh::fail(pr, "template/parent", "template is not for the tip");
    if (df != S.difficulty(L)) vh::fail("C10,C07", "template/difficulty", "template difficulty %llu, model %llu", (unsigned long long)df, (unsigned long long)S.difficulty(L));
    std::vector<TxP> t; HSet in;
    for (auto& id : b.transactionHashes) {
      auto it = M->pool.find(id); if (it == M->pool.end()) vh::fail(pr, "template/not-in-pool", "template names a transaction that is not in the pool");
      std::string e = M->ready(it->second); if (!e.empty()) vh::fail("C10,C09", "template/not-ready", "template contains a transaction (%s) that cannot be mined: %s", it->second.t->tag.c_str(), e.c_str());
      t.push_back(it->second.t); in.insert(id);
    }
    // nothing minable is left out when there is room and no conflict
    std::map<KeyImage, int, Less32> im; std::map<std::pair<uint64_t, uint32_t>, int> mm; size_t total = 0; std::vector<TxP> ok;
    for (auto& p : M->pool) { if (p.second.t->ttl || !M->ready(p.second).empty() || S.inAmount(p.second.t->tx, L.size()) < p.second.t->outs || (b.majorVersion == 1 && p.second.t->tx.version > 1) || (p.second.verified && p.second.usedHeight >= L.size())) continue; ok.push_back(p.second.t); total += p.second.t->blob.size(); for (auto& k : p.second.t->images()) ++im[k]; for (auto& k : p.second.t->msigs()) ++mm[k]; }
    size_t med = std::max(median(S.lastSizes(L)), S.cfg.granted); med = median(S.lastSizes(L)); size_t room = std::min<size_t>(125 * std::max(med, S.cfg.granted) / 100 - 600, maxCumulative(S.cfg, L.size()));
    if (total < room && total < std::max(med, S.cfg.granted)) for (auto& x : ok) { bool cf = false; for (auto& k : x->images()) if (im[k] > 1) cf = true; for (auto& k : x->msigs()) if (mm[k] > 1) cf = true; if (!cf && !in.count(x->id)) vh::fail("C10,C09", "template/left-out", "a minable transaction (size %zu, version %u, tag %s, fee %llu, block version %u) is missing from the template although there is room (%zu of %zu)", x->blob.size(), x->tx.version, x->tag.c_str(), (unsigned long long)S.feeOf(x->tx, L.size()), b.majorVersion, total, room); }
    // extra nonce is carried
    if (!ex.empty()) { std::vector<cn::TransactionExtraField> f; cn::TransactionExtraNonce en; if (!cn::parseTransactionExtra(b.baseTransaction.extra, f) || !cn::findTransactionExtraFieldByType(f, en) || !(en.nonce == ex)) vh::fail(pr, "template/nonce", "the extra nonce is not in the template"); }
    { std::vector<TxI::In> none; }
    if (df > 200000 || !S.mine(b, df)) return;
    std::string why; Hash id; cn::get_block_hash(b, id); uint64_t save = g_now; S.apply(L, b, id, t, g_now, why); g_now = save;
    if (!why.empty()) vh::fail(pr, "template/invalid", "the node's own template is not a valid block: %s (height %u, %zu txs, cfg %s)", why.c_str(), L.size(), t.size(), S.cfg.name.c_str());
    { uint64_t pay = 0, fee = 0; size_t sz = cn::toBinaryArray(b.baseTransaction).size(); for (auto& o : b.baseTransaction.outputs) pay += o.amount; for (auto& x : t) { fee += S.feeOf(x->tx, L.size()); sz += x->blob.size(); } Reward rw = refReward(S.cfg, S.lastSizes(L), sz, L.b.back().gen, fee, L.size()); if (pay != rw.reward) vh::fail("C10,C04", "template/reward", "template pays %llu, reward plus fees is %llu", (unsigned long long)pay, (unsigned long long)rw.reward); }
    vh::cover("template/" + S.cfg.name + "/" + std::to_string(std::min<size_t>(9, t.size())) + "/" + std::to_string(ex.size() / 32) + "/" + std::to_string(std::min<size_t>(4, M->pool.size() - t.size())));
    if (mineIt) { learnCoinbase(b); int n = S.addNode(b, M->tip(), t, "template"); if (b.timestamp > g_now) g_now = b.timestamp; Verdict v = submitBlob(n, "mined template"); if (!v.added) vh::fail("C10", "template/refused", "mined template was refused: %s", v.why.c_str()); vh::stat("template.mined"); }
  }
  void restart(bool clean) {
    N.stop(clean); if (!N.start(true)) vh::fail("C08,C02", "restart/start", "node does not start from its own data");
    M->alt.clear(); M->lastCheck = 0; M->expire(); vh::stat("restarts"); check(true, "C08,C03", "restart");
  }
  void begin(unsigned n) { for (unsigned i = 0; i < n; ++i) { if (i > 11 && R.chance(60)) if (TxP t = newTx()) submitTx(t, false, "begin"); extend(); } }
  void replay() {
    std::string d = vh::newDir("fresh"); Node F(S, d); if (!F.start(false)) vh::fail("C02", "replay/start", "fresh node does not start");
    for (uint32_t h = 1; h < M->size(); ++h) { auto& nd = S.tree[M->main[h]]; for (auto& t : nd.txs) { cn::tx_verification_context tvc; F->handle_incoming_tx(t->blob, tvc, true); } cn::block_verification_context b; memset(&b, 0, sizeof b); F->handle_incoming_block_blob(nd.blob, b, false, false); if (!b.m_added_to_main_chain) vh::fail("C02,C06", "replay/refused", "a fresh node refuses main chain block %u", h); }
    uint64_t a = digest(*N.c, S), b = digest(*F.c, S); if (a != b) vh::fail("C02", "replay/digest", "the node's answers differ from those of a fresh node fed only the main chain (height %u)", M->size());
    vh::stat("replays"); F.stop(true); vh::rmTree(d);
  }
};

static void history(long, Rng& r) {
  g_now = 1700000000 + r.below(1000000); seedRandom(r.next()); Cfg c = pickCfg(r); World W(r, c); const std::string& pr = vh::opt.prop;
  unsigned powBefore = g_powCalls; W.begin(r.chance(pr == "C07" || pr == "C10" ? 20 : 6) ? 72 + (unsigned)r.below(6) : 13 + (unsigned)r.below(10)); if (g_powCalls == powBefore) vh::fail("", "harness/pow", "the proof of work stand-in is not engaged");
  // operation weights: extend, tx, badtx, conflict, fork, extendAlt, badblock, idle, template, rollback, restart, redeliver
  std::vector<unsigned> w = {14, 22, 8, 3, 5, 3, 9, 3, 4, 1, 1, 2};
  if (pr == "C01") w[6] = 40; else if (pr == "C02") { w[4] = 14; w[5] = 6; w[9] = 3; } else if (pr == "C03") { w[2] = 30; w[6] = 14; } else if (pr == "C04") { w[6] = 22; } else if (pr == "C05") { w[2] = 24; w[0] = 22; w[1] = 30; } else if (pr == "C06") { w[4] = 26; w[5] = 14; w[11] = 6; } else if (pr == "C07") { w[6] = 26; w[4] = 14; } else if (pr == "C09") { w[1] = 36; w[3] = 12; w[4] = 9; w[7] = 9; w[10] = 4; } else if (pr == "C10") { w[8] = 24; w[1] = 30; w[3] = 6; w[4] = 8; w[9] = 3; }
  unsigned sum = 0; for (auto x : w) sum += x;
  unsigned steps = 45 + (unsigned)r.below(30), rolls = 0;
  for (unsigned s = 0; s < steps; ++s) {
    unsigned x = (unsigned)r.below(sum), op = 0; while (x >= w[op]) { x -= w[op]; ++op; }
    vh::stat("ops"); W.keepUp(); if (W.S.difficulty(W.M->L()) > 200000) { vh::stat("too-hard"); break; }
    switch (op) {
      case 0: W.extend(); break;
      case 1: { unsigned k = 1 + (unsigned)r.below(3); while (k--) if (TxP t = W.newTx()) W.submitTx(t, r.chance(4), "tx"); W.check(false, "C09", "tx"); break; }
      case 2: if (TxP t = W.badTx()) { W.submitTx(t, r.chance(20), "bad tx"); W.check(r.chance(10), "C09", "bad tx"); } break;
      case 3: if (TxP t = W.conflicting()) { W.submitTx(t, r.chance(30), "conflict"); W.check(false, "C09", "conflict"); } break;
      case 4: W.fork(); break;
      case 5: W.extendAlt(); break;
      case 6: W.badBlock(); break;
      case 7: { W.advance(r.chance(25) ? 43000 + r.below(600) : 1 + r.below(4000)); W.M->idle(); W.N->on_idle(); vh::stat("idle"); W.check(false, "C09", "idle"); break; }
      case 8: W.templ(r.chance(60)); break;
      case 9: if (rolls < 2 && W.M->size() > 16) { ++rolls; uint32_t h = W.M->size() - 1 - (uint32_t)r.below(6); W.M->rollback(h); W.N->rollback_chain_to(h); vh::stat("rollbacks"); W.check(true, "C02", "rollback"); } break;
      case 10: W.restart(true); break;
      case 11: { int n = (int)r.below(W.S.tree.size()); if (n > 0) { if (r.coin()) W.submit(n, "redeliver"); else W.submitBlob(n, "redeliver"); } if (!W.S.txList.empty() && r.coin()) { W.submitTx(r.pick(W.S.txList), r.chance(30), "redeliver"); } break; }
    }
  }
  W.check(true, W.lastProps.empty() ? "C01" : W.lastProps, "end");
  if (r.chance(40)) W.replay();
  vh::stat("histories"); vh::stat("switches", W.M->switches); vh::stat("expired", W.M->expired);
  if (vh::st().samples < 3) vh::sample(vh::fmt("cfg %s: %u blocks on main, %zu in tree, %zu transactions, %u reorganisations (deepest %u), pool %zu", c.name.c_str(), W.M->size(), W.S.tree.size(), W.S.txList.size(), W.M->switches, W.M->deepest, W.M->pool.size()));
}

// ---- stop, crash, damage: what a restart makes of it --------------------------
struct Snap { std::string dir; uint32_t low; std::string what; };
struct Crash {
  World& W; Rng& R; std::vector<Snap> snaps; std::set<int> seen; uint32_t low = 1, prevLow = 1; unsigned pct = 0; std::string what; std::vector<std::string> older;
  explicit Crash(World& w) : W(w), R(w.R) {
    W.pre = [this](uint32_t l) { prevLow = low; low = l; note(); };
    g_onWrite = [this]() { vh::stat("writes"); if (pct && R.chance(pct) && snaps.size() < 14) take("before a write of " + what); };
  }
  ~Crash() { g_onWrite = nullptr; W.pre = nullptr; for (auto& s : snaps) vh::rmTree(s.dir); for (auto& o : older) vh::rmTree(o); }
  void note() { for (int n : W.M->main) seen.insert(n); for (auto& a : W.M->alt) seen.insert(a.first); }
  void take(const std::string& w) { std::string d = vh::newDir("snap"); vh::copyTree(W.N.dir, d); snaps.push_back({d, std::min(low, prevLow), w}); }
  int nodeOf(const Hash& id) { auto i = W.S.byId.find(id); return i == W.S.byId.end() ? -1 : i->second; }
  void poolSane(cn::core& c, const Ledger& L, const char* where, bool exact) {
    for (auto& d : c.getMemoryPool()) {
      if (!W.S.txs.count(d.id)) vh::fail("C08,C09", "crash/pool-unknown", "%s: the pool holds a transaction nobody sent", where);
      if (L.tx.count(d.id)) vh::fail("C08,C09", "crash/pool-on-chain", "%s: the pool of the restarted node holds a transaction of its own chain", where);
    }
    (void)exact; vh::stat("crash.pools");
  }
  void verify() {
    double dummy = 0; (void)dummy; note(); auto list = snaps; snaps.clear(); unsigned savePct = pct; pct = 0;
    for (auto& s : list) {
      vh::stat("crash.points"); vh::cover("crash/" + s.what);
      Node F(W.S, s.dir); if (!F.start(true)) vh::fail("C08", "crash/start", "after a crash %s the node does not start any more", s.what.c_str());
      uint32_t top; Hash id; F->get_blockchain_top(top, id); int n = nodeOf(id);
      if (n < 0 || !seen.count(n)) vh::fail("C08", "crash/tip", "after a crash %s the node's tip at %u is no block it ever accepted", s.what.c_str(), top);
      if (top + 2 < s.low) vh::fail("C08", "crash/lost", "after a crash %s the node is back at height %u, it had stored %u blocks", s.what.c_str(), top, s.low);
      compareLedger(W.S, *F.c, *W.S.tree[n].st, W.S.path(n), "C08,C03", ("crash " + s.what).c_str(), true);
      poolSane(*F.c, *W.S.tree[n].st, s.what.c_str(), false);
      if (n != W.M->tip()) vh::stat("crash.behind");
      if (R.chance(35)) {   // catches up like any other node
        auto b = W.M->L().b.back().cum; bool more = b > W.S.tree[n].st->b.back().cum;
        std::vector<int> feed(W.M->main.begin() + 1, W.M->main.end());
        for (int x : feed) { auto& nd = W.S.tree[x]; for (auto& t : nd.txs) { cn::tx_verification_context tvc; F->handle_incoming_tx(t->blob, tvc, true); } cn::block_verification_context bv; memset(&bv, 0, sizeof bv); F->handle_incoming_block_blob(nd.blob, bv, false, false); }
        uint32_t t2; Hash i2; F->get_blockchain_top(t2, i2); bool depthOk = true; { auto pa = W.S.path(n); uint32_t k = 0; while (k < pa.size() && k < W.M->size() && pa[k] == W.M->main[k]) ++k; depthOk = k + 9 >= pa.size(); }
        if (more && depthOk && !(i2 == W.M->L().b.back().id)) { bool same = true; (void)same; std::set<Hash, Less32> a, c; for (int x : W.S.path(n)) for (auto& t : W.S.tree[x].txs) a.insert(t->id); for (auto& e : W.M->L().tx) a.erase(e.first); if (a.empty()) vh::fail("C08,C06", "crash/catch-up", "after a crash %s the node cannot catch up: it is at %u, the chain at %u", s.what.c_str(), t2, W.M->size() - 1); }
        if (i2 == W.M->L().b.back().id) { compareLedger(W.S, *F.c, W.M->L(), W.M->main, "C08,C03", ("caught up after crash " + s.what).c_str(), true); vh::stat("crash.caught-up"); }
      }
      if (R.chance(20)) { F.stop(true); if (!F.start(true)) vh::fail("C08", "crash/second-start", "the node does not start a second time"); }
      F.stop(false); vh::rmTree(s.dir);
    }
    pct = savePct;
  }
  static std::vector<std::string> files(const std::string& d) { std::vector<std::string> v; if (DIR* x = opendir(d.c_str())) { while (dirent* e = readdir(x)) { std::string n = e->d_name; if (n[0] != '.') v.push_back(n); } closedir(x); } std::sort(v.begin(), v.end()); return v; }
  // the stopped node's directory with one or more of its cache files damaged
  void damage(unsigned rounds) {
    for (unsigned q = 0; q < rounds; ++q) {
      std::string d = vh::newDir("dam"); vh::copyTree(W.N.dir, d); std::vector<std::string> f; for (auto& n : files(d)) if (n.find("blocks.") == std::string::npos && n.find("blockindexes") == std::string::npos) f.push_back(n);
      if (f.empty()) { vh::rmTree(d); return; } std::string desc; bool poolHit = false; unsigned k = R.chance(70) ? 1 : 1 + (unsigned)R.below(f.size());
      R.shuffle(f); for (unsigned i = 0; i < k; ++i) {
        std::string n = f[i], pth = d + "/" + n, c = vh::readFile(pth); if (n.find("pool") != std::string::npos) poolHit = true;
        switch (R.below(4)) {
          case 0: unlink(pth.c_str()); desc += n + " missing; "; break;
          case 1: vh::writeFile(pth, c.substr(0, R.below(c.size() + 1))); desc += n + " truncated; "; break;
          case 2: vh::writeFile(pth, c.substr(0, c.size() - std::min<size_t>(c.size(), 1 + R.below(40)))); desc += n + " short of a few bytes; "; break;
          case 3: if (!older.empty() && vh::exists(older.back() + "/" + n)) { vh::writeFile(pth, vh::readFile(R.pick(older) + "/" + n)); desc += n + " from an earlier stop; "; } else { vh::writeFile(pth, ""); desc += n + " empty; "; } break;
        }
        if (!vh::exists(d + "/" + n)) vh::cover("damage/missing/" + n);
      }
      vh::stat("damage"); vh::cover("damage/" + desc);
      Node F(W.S, d); if (!F.start(true)) vh::fail("C08", "damage/start", "the node does not start with %s", desc.c_str());
      compareLedger(W.S, *F.c, W.M->L(), W.M->main, "C08,C03", desc.c_str(), true); poolSane(*F.c, W.M->L(), desc.c_str(), false);
      if (!poolHit) { NodeModel m = *W.M; m.alt.clear(); m.lastCheck = 0; m.expire(); comparePool(W.S, *F.c, m, "C08,C09", desc.c_str()); }
      if (R.chance(30)) { F.stop(true); if (!F.start(true)) vh::fail("C08", "damage/second-start", "the node does not start a second time after %s", desc.c_str()); compareLedger(W.S, *F.c, W.M->L(), W.M->main, "C08,C03", ("second start after " + desc).c_str(), true); }
      F.stop(false); vh::rmTree(d);
    }
  }
  void stopStart(bool dam) {
    if (R.coin()) { std::string o = vh::newDir("old"); vh::copyTree(W.N.dir, o); older.push_back(o); }
    W.pre(W.M->size()); what = "a stop"; pct = pct ? 25 : 0; W.N.stop(true); pct = 0; verify();
    if (dam) damage(3 + (unsigned)R.below(3));
    if (!W.N.start(true)) vh::fail("C08,C02", "restart/start", "node does not start from its own data");
    W.M->alt.clear(); W.M->lastCheck = 0; W.M->expire(); vh::stat("restarts"); W.check(true, "C08,C03", "restart");
  }
};
static void restartMode(long, Rng& r) {
  g_now = 1700000000 + r.below(1000000); seedRandom(r.next()); Cfg c = pickCfg(r); World W(r, c); Crash K(W);
  K.what = "the first blocks"; K.pct = 2; W.begin(13 + (unsigned)r.below(8)); K.verify();
  unsigned steps = 16 + (unsigned)r.below(10), rolls = 0;
  for (unsigned s = 0; s < steps; ++s) {
    W.keepUp(); if (W.S.difficulty(W.M->L()) > 200000) break; vh::stat("ops"); K.pct = r.chance(50) ? 20 : 0; unsigned op = (unsigned)r.below(20);
    if (op < 5) { K.what = "a block"; W.extend(); }
    else if (op < 9) { K.pct = 0; unsigned k = 1 + (unsigned)r.below(4); while (k--) { Sim::TxOpt o; W.avoid(o); o.msig = r.chance(20); if (r.chance(30)) o.pad = r.below(c.granted < 10000 ? 1500 : 12000); TxP t = W.S.makeTx(W.M->L(), o); if (t) W.submitTx(t, false, "tx"); } }
    else if (op < 14) { K.what = "a reorganisation"; K.pct = 12; W.fork(); }
    else if (op < 15) { K.what = "a bad block"; W.badBlock(); }
    else if (op < 16) { if (rolls < 2 && W.M->size() > 16) { ++rolls; K.what = "a rollback"; uint32_t h = W.M->size() - 1 - (uint32_t)r.below(6); W.pre(h + 1); W.M->rollback(h); W.N->rollback_chain_to(h); W.check(true, "C02,C08", "rollback"); vh::stat("rollbacks"); } }
    else if (op < 17) { K.what = "a save"; K.pct = 25; W.pre(W.M->size()); if (!W.N->saveBlockchain()) vh::fail("C08", "save/failed", "saving fails"); W.check(true, "C08", "save"); vh::stat("saves"); }
    else K.stopStart(r.chance(60));
    if (r.chance(15)) K.take("between operations"); K.pct = 0; K.verify();
  }
  K.pct = 25; K.stopStart(true); vh::stat("histories");
}

// ---- what peers and wallets are told about the chain --------------------------
struct SyncQ {
  World& W; Rng& R; cn::core& c; Sim& S;
  explicit SyncQ(World& w) : W(w), R(w.R), c(*w.N.c), S(w.S) {}
  const Hash& idAt(uint32_t h) { return S.tree[W.M->main[h]].id; }
  uint32_t n() { return W.M->size(); }
  Hash rnd() { Hash h; R.fill(&h, 32); return h; }
  int anyAlt() { if (W.M->alt.empty()) return -1; auto it = W.M->alt.begin(); std::advance(it, R.below(W.M->alt.size())); return it->first; }
  // what a peer may send: its own sparse chain, parts of ours, of branches, strangers; ends with genesis
  std::vector<Hash> known() {
    std::vector<Hash> v; unsigned k = (unsigned)R.below(7); uint32_t top = n() - 1;
    if (k == 0) {}
    else if (k == 1) { for (uint32_t d = 1, h = top - R.below(top + 1); ; d *= 2) { v.push_back(idAt(h)); if (h <= d) break; h -= d; } }
    else if (k == 2) { int a = anyAlt(); auto p = S.path(a < 0 ? W.M->tip() : a); std::reverse(p.begin(), p.end()); for (int x : p) if (x && (R.chance(40) || v.empty())) v.push_back(S.tree[x].id); }
    else if (k == 3) { unsigned m = (unsigned)R.below(6); while (m--) v.push_back(rnd()); }
    else if (k == 4) { unsigned m = (unsigned)R.below(12); while (m--) v.push_back(R.chance(30) ? rnd() : idAt((uint32_t)R.below(n()))); }
    else if (k == 5) { for (uint32_t i = 0; i < 1 + R.below(40) && i <= top; ++i) v.push_back(idAt(top - i)); if (R.coin()) v.insert(v.begin(), rnd()); }
    else { for (auto& t : S.tree) if (R.chance(10)) v.push_back(t.id); }
    v.push_back(idAt(0)); return v;
  }
  uint32_t firstOnMain(const std::vector<Hash>& k) { for (auto& h : k) { auto i = S.byId.find(h); if (i != S.byId.end() && W.M->onMain(i->second)) return S.tree[i->second].height; } return 0; }
  std::string blob(int x) { return std::string(S.tree[x].blob.begin(), S.tree[x].blob.end()); }
  static std::string str(const BinaryArray& b) { return std::string(b.begin(), b.end()); }
  void supplement() {
    auto k = known(); size_t maxc = R.chance(20) ? 10000 : R.chance(10) ? 1 : R.below(300); uint32_t total = 0, start = 0; auto got = c.findBlockchainSupplement(k, maxc, total, start);
    uint32_t want = firstOnMain(k); vh::stat("sync.supplements"); vh::cover("supp/" + std::to_string(k.size() > 4) + "/" + std::to_string(got.size() == maxc) + "/" + std::to_string(want == 0));
    if (total != n()) vh::fail("C11", "sync/total", "total %u, chain has %u", total, n());
    if (start != want) vh::fail("C11", "sync/start", "supplement starts at %u, the latest common block of the list is %u", start, want);
    if (got.size() != std::min<size_t>(maxc, n() - start)) vh::fail("C11", "sync/count", "%zu ids from %u of %u, asked for %zu", got.size(), start, n(), maxc);
    for (size_t i = 0; i < got.size(); ++i) if (!(got[i] == idAt(start + (uint32_t)i))) vh::fail("C11", "sync/ids", "id %zu from %u is not the main chain's", i, start);
  }
  struct Ent { Hash id; std::string blk; std::vector<std::string> tx; };
  bool ask(const std::vector<Hash>& k, uint64_t ts, bool lite, uint32_t& start, uint32_t& cur, uint32_t& full, std::vector<Ent>& out) {
    bool r;
    if (lite) { std::vector<cn::BlockShortInfo> e; r = c.queryBlocksLite(k, ts, start, cur, full, e); for (auto& x : e) { Ent y; y.id = x.blockId; y.blk = x.block; for (auto& t : x.txPrefixes) { y.tx.push_back(str(cn::toBinaryArray(t.txPrefix))); auto f = S.txs.find(t.txHash); if (f == S.txs.end() || str(cn::toBinaryArray(static_cast<const TransactionPrefix&>(f->second->tx))) != y.tx.back()) vh::fail("C11", "sync/lite-tx", "prefix and hash of a listed transaction do not belong together"); y.tx.back() = str(f->second->blob); } out.push_back(y); } }
    else { std::vector<cn::BlockFullInfo> e; r = c.queryBlocks(k, ts, start, cur, full, e); for (auto& x : e) { Ent y; y.id = x.block_id; y.blk = x.block; y.tx.assign(x.txs.begin(), x.txs.end()); out.push_back(y); } }
    return r;
  }
  void judge(const std::vector<Hash>& k, uint64_t ts, bool lite, uint32_t& start, uint32_t& full, std::vector<Ent>& e) {
    uint32_t cur = 0; start = full = 0; bool r = ask(k, ts, lite, start, cur, full, e); vh::stat("sync.queries");
    if (!r) vh::fail("C11", "sync/query-refused", "a well-formed block query is refused");
    uint32_t want = firstOnMain(k), size = n();
    if (start != want || cur != size) vh::fail("C11", "sync/query-start", "query starts at %u of %u, expected %u of %u", start, cur, want, size);
    if (full < start || full > size) vh::fail("C11", "sync/query-full", "full blocks from %u, start %u, size %u", full, start, size);
    uint32_t ids = std::min<uint32_t>(full - start, 10000), rest = ids == 10000 ? 0 : std::min<uint32_t>(size - full, std::min<uint32_t>(128, 10000 - ids));
    if (e.size() != ids + rest) vh::fail("C11", "sync/query-count", "%zu entries, expected %u ids and %u blocks (start %u full %u size %u)", e.size(), ids, rest, start, full, size);
    bool sorted = true; for (uint32_t h = start; h + 1 < size; ++h) if (S.tree[W.M->main[h + 1]].blk.timestamp < S.tree[W.M->main[h]].blk.timestamp) sorted = false;
    for (uint32_t i = 0; i < e.size(); ++i) {
      int x = W.M->main[start + i]; auto& nd = S.tree[x]; bool content = i >= ids && nd.blk.timestamp >= ts;
      if (!(e[i].id == nd.id)) vh::fail("C11", "sync/query-ids", "entry %u from %u is not the main chain's block", i, start);
      if (!content) { if (!e[i].blk.empty() || !e[i].tx.empty()) vh::fail("C11", "sync/query-content", "an entry before the asked time has content"); if (sorted && nd.blk.timestamp >= ts && i < ids) vh::fail("C11", "sync/query-skipped", "block %u at or after the asked time comes without content", nd.height); continue; }
      if (e[i].blk != blob(x)) vh::fail("C11", "sync/query-blob", "block %u is not the one on the chain", nd.height);
      if (e[i].tx.size() != nd.txs.size()) vh::fail("C11", "sync/query-txs", "block %u comes with %zu of %zu transactions", nd.height, e[i].tx.size(), nd.txs.size());
      for (size_t q = 0; q < nd.txs.size(); ++q) if (e[i].tx[q] != str(nd.txs[q]->blob)) vh::fail("C11", "sync/query-txs", "block %u transaction %zu differs", nd.height, q);
      vh::stat("sync.blocks");
    }
    vh::cover("query/" + std::to_string(lite) + "/" + std::to_string(ids ? 1 : 0) + "/" + std::to_string(rest == 128) + "/" + std::to_string(full == size));
  }
  uint64_t stamp() { uint32_t h = (uint32_t)R.below(n()); uint64_t t = S.tree[W.M->main[h]].blk.timestamp; switch (R.below(6)) { case 0: return 0; case 1: return t; case 2: return t + 7200 + R.below(3) - 1; case 3: return t + R.below(3) - 1; case 4: return g_now + R.below(100000); default: return R.below(7300); } }
  void query() { std::vector<Ent> e; uint32_t s, f; judge(known(), stamp(), R.coin(), s, f, e); }
  void refuse() {
    std::vector<Ent> e; uint32_t s = 0, cu = 0, f = 0; std::vector<Hash> k; if (R.coin()) { k = known(); k.pop_back(); k.push_back(R.coin() || n() < 2 ? rnd() : idAt(1 + (uint32_t)R.below(n() - 1))); }
    bool r = ask(k, 0, R.coin(), s, cu, f, e); vh::stat("sync.refused"); if (r) vh::fail("C11", "sync/no-genesis", "a list of %zu ids that does not end with the genesis block is answered", k.size());
  }
  // a wallet that starts from nothing (or from a branch) reaches the tip, learning each main block once
  void walk() {
    std::vector<Hash> have; int a = anyAlt(); if (R.coin()) have.push_back(idAt(0)); else { for (int x : S.path(a < 0 ? W.M->tip() : a)) { if (R.chance(10)) break; have.push_back(S.tree[x].id); } if (have.empty()) have.push_back(idAt(0)); }
    uint64_t ts = R.chance(50) ? 0 : stamp(); bool lite = R.coin();
    for (unsigned round = 0; ; ++round) {
      std::vector<Hash> k; for (size_t i = 1; i <= have.size(); i *= 2) k.push_back(have[have.size() - i]); if (!(k.back() == idAt(0))) k.push_back(idAt(0));
      std::vector<Ent> e; uint32_t s, f; judge(k, ts, lite, s, f, e); size_t before = have.size(); if (s >= have.size()) vh::fail("C11", "sync/walk", "answer starts at %u beyond the %zu known blocks", s, have.size());
      bool same = true; for (size_t i = 0; i < e.size(); ++i) { if (s + i < have.size()) { if (!(have[s + i] == e[i].id)) { have.resize(s + i); same = false; have.push_back(e[i].id); } } else { have.push_back(e[i].id); same = false; } }
      if (same) break; if (round > n() + 20) vh::fail("C11", "sync/no-progress", "no tip after %u rounds", round); (void)before;
    }
    if (have.size() != n() || !(have.back() == idAt(n() - 1))) vh::fail("C11", "sync/walk-end", "following the answers ends at %zu of %u blocks", have.size(), n());
    vh::stat("sync.walks");
  }
  void objects() {
    cn::NOTIFY_REQUEST_GET_OBJECTS_request q; cn::NOTIFY_RESPONSE_GET_OBJECTS_request a; std::vector<Hash> missing; std::vector<int> wb; std::vector<TxP> wt; unsigned m = (unsigned)R.below(20);
    while (m--) {
      unsigned k = (unsigned)R.below(6);
      if (k < 2) { int x = W.M->main[R.below(n())]; q.blocks.push_back(S.tree[x].id); wb.push_back(x); }
      else if (k == 2) { int x = (int)R.below(S.tree.size()); q.blocks.push_back(S.tree[x].id); if (W.M->onMain(x)) wb.push_back(x); else missing.push_back(S.tree[x].id); }
      else if (k == 3) { Hash h = rnd(); if (R.coin()) q.blocks.push_back(h); else q.txs.push_back(h); missing.push_back(h); }
      else if (!S.txList.empty()) { TxP t = R.pick(S.txList); q.txs.push_back(t->id); if (W.M->L().tx.count(t->id)) wt.push_back(t); else missing.push_back(t->id); }
    }
    bool r = c.handle_get_objects(q, a); vh::stat("sync.objects"); if (!r) vh::fail("C11", "objects/failed", "an object request fails");
    if (a.current_blockchain_height != n()) vh::fail("C11", "objects/height", "height %u, chain has %u", a.current_blockchain_height, n());
    if (a.blocks.size() != wb.size() || a.txs.size() != wt.size() || a.missed_ids.size() != missing.size()) vh::fail("C11", "objects/count", "%zu blocks %zu transactions %zu missed, expected %zu %zu %zu", a.blocks.size(), a.txs.size(), a.missed_ids.size(), wb.size(), wt.size(), missing.size());
    { std::vector<Hash> g(a.missed_ids.begin(), a.missed_ids.end()); std::sort(g.begin(), g.end(), Less32()); std::sort(missing.begin(), missing.end(), Less32()); for (size_t i = 0; i < g.size(); ++i) if (!(g[i] == missing[i])) vh::fail("C11", "objects/missed", "the list of missing objects is wrong"); }
    size_t i = 0; for (auto& b : a.blocks) { auto& nd = S.tree[wb[i]]; if (b.block != blob(wb[i])) vh::fail("C11", "objects/block", "block %zu of the answer is not the requested one", i); if (b.txs.size() != nd.txs.size()) vh::fail("C11", "objects/block-txs", "block comes with %zu of %zu transactions", b.txs.size(), nd.txs.size()); size_t q2 = 0; for (auto& t : b.txs) if (t != str(nd.txs[q2++]->blob)) vh::fail("C11", "objects/block-txs", "transaction %zu of a block differs", q2 - 1); ++i; }
    i = 0; for (auto& t : a.txs) if (t != str(wt[i++]->blob)) vh::fail("C11", "objects/tx", "transaction %zu of the answer is not the requested one", i - 1);
  }
  void randoms() {
    cn::COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS_request q; cn::COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS_response a; const Ledger& L = W.M->L(); std::vector<uint64_t> am; for (auto& k : L.ko) am.push_back(k.first);
    unsigned m = 1 + (unsigned)R.below(6); while (m--) q.amounts.push_back(am.empty() || R.chance(10) ? R.edgy() : R.pick(am)); q.outs_count = R.chance(20) ? 1000 : R.below(12);
    if (!c.get_random_outs_for_amounts(q, a)) vh::fail("C11", "mixins/failed", "a request for ring members fails"); vh::stat("sync.mixins");
    if (a.outs.size() != q.amounts.size()) vh::fail("C11", "mixins/amounts", "%zu answers for %zu amounts", a.outs.size(), q.amounts.size());
    for (size_t i = 0; i < a.outs.size(); ++i) {
      uint64_t am = q.amounts[i]; if (a.outs[i].amount != am) vh::fail("C11", "mixins/amounts", "answers are not in the order of the request");
      auto it = L.ko.find(am); std::set<uint32_t> ok; size_t lim = 0; if (it != L.ko.end()) { for (size_t x = it->second.size(); x-- > 0;) if (it->second[x].height + 10 <= L.size()) { lim = x + 1; break; } for (size_t x = 0; x < lim; ++x) if (S.unlocked(L, it->second[x].unlock, g_now)) ok.insert((uint32_t)x); }
      std::set<uint64_t> seen;
      for (auto& o : a.outs[i].outs) {
        if (it == L.ko.end() || o.global_amount_index >= it->second.size()) vh::fail("C11,C03", "mixins/index", "an output that does not exist is offered"); auto& ko = it->second[o.global_amount_index];
        if (!seen.insert(o.global_amount_index).second) vh::fail("C11", "mixins/repeated", "the same output is offered twice");
        if (!(o.out_key == ko.key)) vh::fail("C11,C03", "mixins/key", "output %u of amount %llu comes with a wrong key", o.global_amount_index, (unsigned long long)am);
        if (!ok.count(o.global_amount_index)) vh::fail("C11,C03", "mixins/unspendable", "output %u of amount %llu cannot be referenced yet (height %u of %u, unlock %llu)", o.global_amount_index, (unsigned long long)am, ko.height, L.size(), (unsigned long long)ko.unlock);
      }
      if (seen.size() != std::min<size_t>(q.outs_count, ok.size())) vh::fail("C11", "mixins/few", "%zu of %zu outputs offered, %zu are available", seen.size(), (size_t)q.outs_count, ok.size());
      vh::stat("sync.mixin-outs", seen.size());
    }
  }
  void pool() {
    std::vector<Hash> k, del, gone; std::set<Hash, Less32> K; HSet P; for (auto& p : W.M->pool) if (W.M->ready(p.second).empty()) P.insert(p.first);   // those that could be mined now
    for (auto& p : P) if (R.coin()) K.insert(p); for (auto& t : S.txList) if (!P.count(t->id) && R.chance(5)) { K.insert(t->id); gone.push_back(t->id); } if (R.coin()) { Hash h = rnd(); K.insert(h); gone.push_back(h); }
    k.assign(K.begin(), K.end()); R.shuffle(k); Hash tail = R.coin() ? idAt(n() - 1) : R.coin() ? rnd() : idAt((uint32_t)R.below(n())); HSet added; bool r;
    if (R.coin()) { std::vector<Transaction> a; r = c.getPoolChanges(tail, k, a, del); for (auto& t : a) added.insert(cn::getObjectHash(t)); if (added.size() != a.size()) vh::fail("C11,C09", "pool/twice", "a pool transaction is listed twice"); }
    else { std::vector<cn::TransactionPrefixInfo> a; r = c.getPoolChangesLite(tail, k, a, del); for (auto& t : a) { added.insert(t.txHash); auto f = S.txs.find(t.txHash); if (f == S.txs.end() || cn::toBinaryArray(t.txPrefix) != cn::toBinaryArray(static_cast<const TransactionPrefix&>(f->second->tx))) vh::fail("C11,C09", "pool/lite", "a pool transaction's prefix differs"); } if (added.size() != a.size()) vh::fail("C11,C09", "pool/twice", "a pool transaction is listed twice"); }
    vh::stat("sync.pool"); if (r != (tail == idAt(n() - 1))) vh::fail("C11", "pool/tail", "pool query says tail current=%d", r);
    HSet want; for (auto& p : P) if (!K.count(p)) want.insert(p); HSet d(del.begin(), del.end()), g(gone.begin(), gone.end());
    auto eq = [](const HSet& a, const HSet& b) { if (a.size() != b.size()) return false; for (auto& x : a) if (!b.count(x)) return false; return true; };
    if (!eq(added, want)) vh::fail("C11,C09", "pool/added", "%zu new pool transactions reported, %zu expected", added.size(), want.size());
    if (!eq(d, g) || d.size() != del.size()) vh::fail("C11,C09", "pool/deleted", "%zu gone pool transactions reported, %zu expected", del.size(), g.size());
  }
  void sparse() {
    int a = R.coin() ? anyAlt() : -1, from = a >= 0 ? a : R.coin() ? W.M->tip() : W.M->main[R.below(n())]; std::vector<Hash> v = a < 0 && from == W.M->tip() && R.coin() ? c.buildSparseChain() : c.buildSparseChain(S.tree[from].id); vh::stat("sync.sparse");
    auto p = S.path(from); if (v.empty() || !(v[0] == S.tree[from].id) || !(v.back() == idAt(0))) vh::fail("C11", "sparse/ends", "the sparse chain does not run from the block to genesis");
    uint32_t last = S.tree[from].height + 1; size_t maxgap = 1;
    for (size_t i = 0; i < v.size(); ++i) { auto f = S.byId.find(v[i]); if (f == S.byId.end()) vh::fail("C11", "sparse/foreign", "unknown id in the sparse chain"); uint32_t h = S.tree[f->second].height; if (h >= p.size() || p[h] != f->second) vh::fail("C11", "sparse/branch", "the sparse chain of a block contains a block of another branch (height %u)", h); if (h >= last && i) vh::fail("C11", "sparse/order", "the sparse chain is not descending"); if (i && i + 1 < v.size()) { size_t gap = last - h; if (gap > 2 * maxgap + 1) vh::fail("C11", "sparse/gap", "gap of %zu at height %u", gap, h); maxgap = std::max(maxgap, gap); } last = h; }
    if (v.size() > 80) vh::fail("C11", "sparse/long", "sparse chain of %zu ids", v.size());
  }
  void ranges() {
    uint32_t start = R.chance(15) ? n() - 1 + (uint32_t)R.below(3) : (uint32_t)R.below(n()), count = R.chance(20) ? 0xFFFFFFFFu - (uint32_t)R.below(4) : R.chance(30) ? (uint32_t)R.below(3) : (uint32_t)R.below(n() + 10); std::list<Block> b; std::list<Transaction> t; bool withTx = R.coin(); bool r = withTx ? c.get_blocks(start, count, b, t) : c.get_blocks(start, count, b); vh::stat("sync.ranges");
    size_t want = start < n() ? std::min<uint64_t>(count, n() - start) : 0; if (r != (start < n()) || b.size() != want) vh::fail("C11", "range/blocks", "blocks %u+%u of %u: answer %d with %zu, expected %zu", start, count, n(), r, b.size(), want);
    uint32_t h = start; std::vector<TxP> wt; for (auto& x : b) { int m = W.M->main[h++]; if (str(cn::toBinaryArray(x)) != blob(m)) vh::fail("C11", "range/content", "block %u differs", h - 1); for (auto& y : S.tree[m].txs) wt.push_back(y); }
    if (withTx) { if (t.size() != wt.size()) vh::fail("C11", "range/txs", "%zu transactions, expected %zu", t.size(), wt.size()); size_t i = 0; for (auto& x : t) if (!(cn::getObjectHash(x) == wt[i++]->id)) vh::fail("C11", "range/txs", "transaction %zu differs", i - 1); }
    int m = (int)R.below(S.tree.size()); auto ib = c.getBlock(S.tree[m].id); if (W.M->onMain(m)) { if (!ib || ib->getTransactionCount() != S.tree[m].txs.size()) vh::fail("C11", "range/iblock", "block %u cannot be read with its transactions", S.tree[m].height); for (size_t i = 0; i < S.tree[m].txs.size(); ++i) if (!(cn::getObjectHash(ib->getTransaction(i)) == S.tree[m].txs[i]->id)) vh::fail("C11", "range/iblock", "transaction %zu differs", i); }
  }
  void all(unsigned k) { while (k--) { switch (R.below(9)) { case 0: supplement(); break; case 1: query(); break; case 2: if (R.chance(30)) refuse(); else query(); break; case 3: if (R.chance(40)) walk(); else supplement(); break; case 4: objects(); break; case 5: randoms(); break; case 6: pool(); break; case 7: sparse(); break; default: ranges(); } } }
};
static void syncMode(long, Rng& r) {
  g_now = 1700000000 + r.below(1000000); seedRandom(r.next()); Cfg c = pickCfg(r); World W(r, c); SyncQ Q(W); Q.all(6);
  bool deep = r.chance(25); unsigned len = deep ? 135 + (unsigned)r.below(150) : 14 + (unsigned)r.below(20); W.begin(13); 
  for (unsigned i = 13; i < len; ++i) { W.keepUp(); if (W.S.difficulty(W.M->L()) > 100000) break; W.extend(deep ? 100 + r.below(40) : 0, !deep || r.chance(15)); }
  unsigned steps = 20 + (unsigned)r.below(15);
  for (unsigned s = 0; s < steps; ++s) {
    W.keepUp(); if (W.S.difficulty(W.M->L()) > 200000) break; unsigned op = (unsigned)r.below(12);
    if (op < 4) W.extend(r.chance(10) ? 7300 : 0); else if (op < 7) { unsigned k = 1 + (unsigned)r.below(4); while (k--) { TxP t = W.newTx(); if (t) W.submitTx(t, false, "tx"); } }
    else if (op < 10) W.fork(); else if (op < 11) W.extendAlt(); else W.badBlock();
    Q.all(8);
  }
  vh::stat("histories");
}

// ---- one node, several callers at once ----------------------------------------
struct Serve {
  World& W; Sim& S; cn::core& c; std::atomic<bool> stop{false}, broken{false}; std::mutex m; std::string key, what; std::vector<LP> seen; std::atomic<uint64_t> qs{0}, answers{0}, moved{0};
  Serve(World& w, cn::core& core) : W(w), S(w.S), c(core) {}
  void bad(const char* k, const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vh::vfmt(f, ap); va_end(ap); std::lock_guard<std::mutex> l(m); if (!broken) { key = k; what = s; broken = true; } }
  int node(const Hash& h) { auto i = S.byId.find(h); return i == S.byId.end() ? -1 : i->second; }
  std::vector<Hash> known(Rng& R) { std::vector<Hash> v; int x = (int)R.below(S.tree.size()); auto p = S.path(x); for (size_t d = 1, i = p.size() - 1; i > 0; ) { v.push_back(S.tree[p[i]].id); if (i <= d) break; i -= d; d *= 2; } v.push_back(S.tree[0].id); return v; }
  static std::string str(const BinaryArray& b) { return std::string(b.begin(), b.end()); }
  void query(Rng& R) {
    auto k = known(R); uint32_t start = 0, cur = 0, full = 0; bool lite = R.coin(); std::vector<Hash> ids; std::vector<std::string> blk; std::vector<std::vector<std::string>> tx; bool r;
    if (lite) { std::vector<cn::BlockShortInfo> e; r = c.queryBlocksLite(k, 0, start, cur, full, e); for (auto& x : e) { ids.push_back(x.blockId); blk.push_back(x.block); std::vector<std::string> t; for (auto& y : x.txPrefixes) { auto f = S.txs.find(y.txHash); t.push_back(f == S.txs.end() ? "" : str(f->second->blob)); } tx.push_back(t); } }
    else { std::vector<cn::BlockFullInfo> e; r = c.queryBlocks(k, 0, start, cur, full, e); for (auto& x : e) { ids.push_back(x.block_id); blk.push_back(x.block); tx.push_back(std::vector<std::string>(x.txs.begin(), x.txs.end())); } }
    if (!r) { bad("serve/query-refused", "a block query was refused while the chain was changing"); return; }
    if (start + ids.size() > cur) bad("serve/query-count", "an answer holds %zu blocks from %u of a chain of %u", ids.size(), start, cur);
    int prev = -1; for (size_t i = 0; i < ids.size(); ++i) {
      int n = node(ids[i]); if (n < 0) { bad("serve/query-foreign", "an answer contains an unknown block"); return; }
      if (S.tree[n].height != start + i) bad("serve/query-height", "entry %zu from %u is a block of height %u", i, start, S.tree[n].height);
      if (prev >= 0 && S.tree[n].parent != prev) bad("serve/query-torn", "an answer mixes two branches at height %u", S.tree[n].height); prev = n;
      if (!blk[i].empty() && n) { if (blk[i] != str(S.tree[n].blob)) bad("serve/query-blob", "a block of an answer has other bytes than its id says"); if (tx[i].size() != S.tree[n].txs.size()) bad("serve/query-txs", "a block comes with %zu of %zu transactions", tx[i].size(), S.tree[n].txs.size()); else for (size_t q = 0; q < tx[i].size(); ++q) if (tx[i][q] != str(S.tree[n].txs[q]->blob)) bad("serve/query-txs", "transaction %zu of a block differs", q); ++answers; }
    }
  }
  void supplement(Rng& R) {
    auto k = known(R); uint32_t total = 0, start = 0; auto got = c.findBlockchainSupplement(k, 1 + R.below(200), total, start); int prev = -1;
    if (start + got.size() > total) bad("serve/supplement-count", "%zu ids from %u of %u", got.size(), start, total);
    for (size_t i = 0; i < got.size(); ++i) { int n = node(got[i]); if (n < 0 || S.tree[n].height != start + i || (prev >= 0 && S.tree[n].parent != prev)) { bad("serve/supplement-torn", "a list of ids is no piece of one chain"); return; } prev = n; ++answers; }
  }
  void top() { uint32_t h = 0; Hash id; c.get_blockchain_top(h, id); int n = node(id); if (n < 0 || S.tree[n].height != h) bad("serve/top", "the reported top block has height %u, reported is %u", n < 0 ? 0 : S.tree[n].height, h); ++answers; }
  void sparse() { auto v = c.buildSparseChain(); if (v.empty()) { bad("serve/sparse", "empty sparse chain"); return; } int n = node(v[0]); if (n < 0) { bad("serve/sparse", "unknown block in the sparse chain"); return; } auto p = S.path(n); for (auto& h : v) { int x = node(h); if (x < 0 || S.tree[x].height >= p.size() || p[S.tree[x].height] != x) { bad("serve/sparse-torn", "a sparse chain mixes two branches"); return; } } ++answers; }
  void templ(Rng& R) {
    Block b; cn::difficulty_type d = 0; uint32_t h = 0; if (!c.get_block_template(b, S.miner.getAccountKeys().address, d, h, BinaryArray(R.below(20)))) { bad("serve/template-refused", "no template while the chain was changing"); return; }
    int n = node(b.previousBlockHash); if (n < 0) { bad("serve/template-parent", "a template on an unknown block"); return; } auto& P = S.tree[n];
    if (h != P.height + 1) bad("serve/template-height", "a template on a block of height %u says height %u", P.height, h);
    if (boost::get<BaseInput>(b.baseTransaction.inputs[0]).blockIndex != h) bad("serve/template-height", "the miner transaction of a template has another height");
    if (d != S.difficulty(*P.st)) bad("serve/template-difficulty", "a template on height %u asks for difficulty %llu, the chain up to there for %llu", P.height, (unsigned long long)d, (unsigned long long)S.difficulty(*P.st));
    if (b.majorVersion != versionAt(S.cfg, h)) bad("serve/template-version", "a template has version %u at height %u", b.majorVersion, h);
    std::set<KeyImage, Less32> im; for (auto& id : b.transactionHashes) { auto f = S.txs.find(id); if (f == S.txs.end()) { bad("serve/template-tx", "a template with an unknown transaction"); return; } if (P.st->tx.count(id)) bad("serve/template-tx", "a template contains a transaction which is already in its chain"); std::string e = S.inputsOk(*P.st, *f->second, g_now); if (!e.empty()) bad("serve/template-tx", "a template contains a transaction which is not valid on its chain: %s", e.c_str()); for (auto& k : f->second->images()) if (!im.insert(k).second) bad("serve/template-tx", "a template spends an output twice"); }
    ++answers; vh::stat("serve.templates");
  }
  void randoms(Rng& R) {
    cn::COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS_request q; cn::COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS_response a; auto& L = *seen[R.below(seen.size())]; if (L.ko.empty()) return; auto it = L.ko.begin(); std::advance(it, R.below(L.ko.size())); q.amounts.push_back(it->first); q.outs_count = 1 + R.below(12);
    if (!c.get_random_outs_for_amounts(q, a) || a.outs.size() != 1) { bad("serve/mixins", "a request for ring members failed"); return; }
    std::set<uint64_t> u; for (auto& o : a.outs[0].outs) if (!u.insert(o.global_amount_index).second) bad("serve/mixins", "an output is offered twice");
    for (auto& l : seen) { auto k = l->ko.find(it->first); bool ok = true; for (auto& o : a.outs[0].outs) if (k == l->ko.end() || o.global_amount_index >= k->second.size() || !(k->second[o.global_amount_index].key == o.out_key)) ok = false; if (ok) { answers += 1; return; } }
    bad("serve/mixins-torn", "the offered outputs existed together at no time");
  }
  void gidx(Rng& R) {
    if (S.txList.empty()) return; std::vector<Hash> ids; unsigned n = 1 + (unsigned)R.below(4); while (n--) ids.push_back(R.pick(S.txList)->id);
    std::list<Hash> miss; std::vector<std::pair<Transaction, std::vector<uint32_t>>> got; c.getTransactionsWithOutputGlobalIndexes(ids, miss, got);
    if (got.size() + miss.size() != ids.size()) bad("serve/gidx-count", "%zu transactions and %zu missed for %zu asked", got.size(), miss.size(), ids.size());
    for (auto& l : seen) { bool ok = true; for (auto& g : got) { auto t = l->tx.find(cn::getObjectHash(g.first)); if (t == l->tx.end() || t->second.gidx != g.second) ok = false; } for (auto& h : miss) if (l->tx.count(h)) ok = false; if (ok) { ++answers; return; } }
    bad("serve/gidx-torn", "the indexes of %zu transactions were right together at no time", got.size());
  }
  void where(Rng& R) { if (S.txList.empty()) return; TxP t = R.pick(S.txList); Hash b; uint32_t h; if (c.getBlockContainingTx(t->id, b, h)) { int n = node(b); bool in = false; if (n >= 0) for (auto& x : S.tree[n].txs) if (x->id == t->id) in = true; if (n < 0 || !in || S.tree[n].height != h) bad("serve/where", "a transaction is said to be in block %s at %u which is not so", hs(b).c_str(), h); ++answers; }
    uint32_t bh; int n = (int)R.below(S.tree.size()); if (c.getBlockHeight(S.tree[n].id, bh) && bh != S.tree[n].height) bad("serve/height", "a block of height %u is said to be at %u", S.tree[n].height, bh);
    Block blk; if (c.getBlockByHash(S.tree[n].id, blk) && str(cn::toBinaryArray(blk)) != str(S.tree[n].blob) && n) bad("serve/block", "a block by its id has other bytes"); }
  void pool(Rng& R) {
    std::vector<Hash> k, del; std::set<Hash, Less32> K; for (auto& t : S.txList) if (R.chance(30)) K.insert(t->id); k.assign(K.begin(), K.end()); Hash tail = S.tree[R.below(S.tree.size())].id; std::vector<cn::TransactionPrefixInfo> a; c.getPoolChangesLite(tail, k, a, del);
    HSet u; for (auto& t : a) { if (K.count(t.txHash)) bad("serve/pool", "a known transaction is reported as new"); if (!u.insert(t.txHash).second) bad("serve/pool", "a pool transaction is reported twice"); if (!S.txs.count(t.txHash)) bad("serve/pool", "an unknown pool transaction"); } for (auto& d : del) if (!K.count(d)) bad("serve/pool", "a transaction is reported gone which nobody asked for"); ++answers;
    for (auto& d : c.getMemoryPool()) if (!S.txs.count(d.id)) bad("serve/pool", "an unknown pool transaction"); auto v = c.getPoolTransactions(); HSet w; for (auto& t : v) if (!w.insert(cn::getObjectHash(t)).second) bad("serve/pool", "a pool transaction is listed twice");
    if (!S.txList.empty()) { Transaction t; TxP x = R.pick(S.txList); if (c.getPoolTransaction(x->id, t) && !(cn::getObjectHash(t) == x->id)) bad("serve/pool", "a pool transaction by its id is another one"); }
  }
  void misc(Rng& R) {
    cn::core_stat_info st; c.get_stat_info(st); std::list<Block> bl; c.get_alternative_blocks(bl); for (auto& b : bl) if (node(cn::get_block_hash(b)) < 0) bad("serve/alt", "an unknown alternative block"); c.get_alternative_blocks_count(); c.get_blockchain_total_transactions(); c.getNextBlockDifficulty(); c.getTotalGeneratedAmount(); c.fullDepositAmount(); uint32_t h = (uint32_t)R.below(S.tree.size()); c.depositAmountAtHeight(h); c.depositInterestAtHeight(h);
    c.getBlockIdByHeight(h); std::list<Block> b; std::list<Transaction> t; if (c.get_blocks((uint32_t)R.below(20), (uint32_t)R.below(15), b, t)) { int prev = -1; for (auto& x : b) { int n = node(cn::get_block_hash(x)); if (n < 0 || (prev >= 0 && S.tree[n].parent != prev)) { bad("serve/range-torn", "a range of blocks is no piece of one chain"); break; } prev = n; } size_t want = 0; for (auto& x : b) want += x.transactionHashes.size(); if (t.size() != want) bad("serve/range-txs", "a range of blocks with %zu transactions comes with %zu", want, t.size()); }
    uint64_t gen; c.getGeneratedTransactionsNumber(h, gen); std::vector<Block> ob; c.getOrphanBlocksByHeight(h, ob); cn::difficulty_type d; c.getBlockDifficulty(h, d); if (!S.tree.empty()) { size_t sz; c.getBlockSize(S.tree[R.below(S.tree.size())].id, sz); uint64_t g; c.getAlreadyGeneratedCoins(S.tree[R.below(S.tree.size())].id, g); } std::vector<Transaction> pt; uint64_t within = 0; c.getPoolTransactionsByTimestamp(0, ~0ULL >> 2, 10, pt, within); if (!S.txList.empty()) { TxP x = R.pick(S.txList); std::vector<Transaction> v; c.getTransactionsByPaymentId(x->payId, v); for (auto& k : x->images()) c.is_key_image_spent(k); std::list<Transaction> l; std::list<Hash> ms; std::vector<Hash> ids(1, x->id); c.getTransactions(ids, l, ms, R.coin()); if (l.size() + ms.size() != 1) bad("serve/txs", "one transaction asked for, %zu found and %zu missed", l.size(), ms.size()); }
    std::vector<Block> tb; uint32_t nb = 0; c.getBlocksByTimestamp(0, g_now + 1000, 20, tb, nb); ++answers;
  }
  void reader(uint64_t seed, int role) { Rng R(seed); unsigned n = 0; while (!stop && !broken && n < 3000) { ++n; ++qs; unsigned k = (unsigned)R.below(10);
      if (role == 0) { if (k < 8) templ(R); else top(); } else if (role == 1) { if (k < 3) query(R); else if (k < 4) sparse(); else if (k < 6) randoms(R); else if (k < 8) pool(R); else gidx(R); } else { if (k < 3) misc(R); else if (k < 5) where(R); else if (k < 6) supplement(R); else if (k < 8) top(); else query(R); }
      if (R.chance(30)) std::this_thread::yield(); } }
};
static void serveMode(long, Rng& r) {
  g_now = 1700000000 + r.below(1000000); seedRandom(r.next()); Cfg c = pickCfg(r); World W(r, c); W.begin(13); unsigned steps = 10 + (unsigned)r.below(12); size_t half = 0;
  for (unsigned s = 0; s < steps; ++s) { W.keepUp(); if (W.S.difficulty(W.M->L()) > 100000) break; unsigned op = (unsigned)r.below(12); if (s == 3) half = W.log.size();
    if (op < 4) W.extend(); else if (op < 8) { unsigned k = 1 + (unsigned)r.below(4); while (k--) { TxP t = W.newTx(); if (t && !t->ttl) W.submitTx(t, false, "tx"); } } else if (op < 10) W.fork(); else if (op < 11) W.extendAlt(); else W.badBlock(); }
  // the same deliveries again, to a second node, while others ask it
  Sim& S = W.S; if (!half) half = W.log.size() / 2; NodeModel M2(S); struct Want { bool a, b; Verdict v; std::vector<TxP> carried; }; std::vector<Want> want; std::vector<LP> seen; std::string props = "T03";
  for (size_t i = 0; i < W.log.size(); ++i) { auto& it = W.log[i]; Want w; w.a = w.b = false; if (it.node < 0) { auto v = M2.addTx(it.t, it.kept); w.a = v.added; } else { for (auto& t : S.tree[it.node].txs) if (M2.pool.count(t->id)) w.carried.push_back(t); w.v = M2.deliver(it.node); } want.push_back(w); if (i + 1 >= half) seen.push_back(M2.st.back()); }
  Node F(S, vh::newDir("serve")); if (!F.start(false)) vh::fail("T03", "serve/start", "a second node does not start"); cn::core& C = *F.c; Serve V(W, C); V.seen = seen;
  bool many = r.chance(60);
  auto feed = [&](size_t i) { auto& it = W.log[i]; if (it.node < 0) { cn::tx_verification_context t; C.handle_incoming_tx(it.t->blob, t, it.kept); if (!many && t.m_added_to_pool != want[i].a) V.bad("serve/tx", "a transaction was %s while others asked, alone it is %s", t.m_added_to_pool ? "accepted" : "refused", want[i].a ? "accepted" : "refused"); }
    else { if (many) for (auto& t : want[i].carried) { cn::tx_verification_context v; C.handle_incoming_tx(t->blob, v, true); }   // a free transaction may have kept one of these out
      cn::block_verification_context b; memset(&b, 0, sizeof b); C.handle_incoming_block_blob(S.tree[it.node].blob, b, false, false); if (b.m_added_to_main_chain != want[i].v.added || b.m_switched_to_alt_chain != want[i].v.switched) V.bad("serve/block", "a block was answered added=%d switched=%d while others asked, alone %d %d", b.m_added_to_main_chain, b.m_switched_to_alt_chain, want[i].v.added, want[i].v.switched); vh::stat(b.m_switched_to_alt_chain ? "serve.switches" : "serve.blocks"); } };
  // free transactions: wallets hand them in at the same time, some of them spend the same outputs
  HSet mined; for (auto& n : S.tree) for (auto& t : n.txs) mined.insert(t->id); std::vector<TxP> freeTx; HSet isFree; std::mutex fm; HMap<unsigned> took;
  if (many) { for (auto& it : W.log) if (it.node < 0 && !it.kept && !mined.count(it.t->id) && isFree.insert(it.t->id).second) freeTx.push_back(it.t); for (int i = 0; i < 14; ++i) { TxP t = r.chance(60) ? W.conflicting() : W.newTx(); if (t && !t->ttl && !mined.count(t->id) && isFree.insert(t->id).second) freeTx.push_back(t); } }
  auto own = [&](size_t i) { auto& it = W.log[i]; return !(many && it.node < 0 && isFree.count(it.t->id)); };
  for (size_t i = 0; i < half; ++i) if (own(i)) feed(i);
  std::vector<std::thread> th; std::vector<uint64_t> sd; for (int i = 0; i < 8; ++i) sd.push_back(r.next());
  for (int i = 0; i < 4; ++i) th.emplace_back([&, i] { V.reader(sd[i], i < 3 ? i : 1); });
  if (many) for (int i = 0; i < 3; ++i) th.emplace_back([&, i] { Rng R(sd[5 + i]); auto l = freeTx; if (i) R.shuffle(l); for (auto& t : l) { cn::tx_verification_context v; C.handle_incoming_tx(t->blob, v, false); if (v.m_added_to_pool) { std::lock_guard<std::mutex> g(fm); ++took[t->id]; vh::stat("serve.free-accepted"); } if (R.chance(30)) std::this_thread::sleep_for(std::chrono::microseconds(R.below(1500))); } });
  if (many) for (auto& w : want) w.a = false;
  { Rng R(sd[4]); for (size_t i = half; i < W.log.size() && !V.broken; ++i) { if (own(i)) feed(i); if (R.chance(40)) std::this_thread::sleep_for(std::chrono::microseconds(R.below(3000))); } }
  std::this_thread::sleep_for(std::chrono::milliseconds(2)); V.stop = true; for (auto& t : th) t.join();
  vh::stat("serve.queries", V.qs); vh::stat("serve.answers", V.answers); vh::cover(vh::fmt("serve/%s/%llu/%zu", S.cfg.name.c_str(), (unsigned long long)V.qs / 200, M2.alt.size()));
  if (V.broken) vh::fail("T03", V.key, "%s", V.what.c_str());
  compareLedger(S, C, M2.L(), M2.main, "T03", "after serving", true); compareAlt(S, C, M2, "T03", "after serving"); if (!many) comparePool(S, C, M2, "T03", "after serving");
  else { std::map<KeyImage, Hash, Less32> im; std::map<std::pair<uint64_t, uint32_t>, Hash> ms; std::map<Hash, unsigned, Less32> n; for (auto& t : C.getPoolTransactions()) { Hash id = cn::getObjectHash(t); if (++n[id] > 1) vh::fail("T03", "serve/pool-twice", "a transaction is in the pool twice"); auto f = took.find(id); if (f == took.end()) continue; TxP x = S.txs[id];
      for (auto& k : x->images()) if (!im.insert({k, id}).second) vh::fail("T03", "serve/pool-conflict", "two transactions spending the same output were both accepted from different callers"); for (auto& k : x->msigs()) if (!ms.insert({k, id}).second) vh::fail("T03", "serve/pool-conflict", "two withdrawals of the same deposit were both accepted from different callers"); }
    for (auto& e : took) if (e.second > 1 && M2.switches == 0) vh::fail("T03", "serve/tx-twice", "the same transaction was accepted as new %u times", e.second); vh::stat("serve.races"); }
  F.stop(true); vh::rmTree(F.dir);
}

// ---- pure rules against their definitions ------------------------------------
// sequences of timestamps and work as honest, drifting, colluding and hostile miners produce them
static void series(Rng& r, size_t n, std::vector<uint64_t>& ts, std::vector<uint64_t>& cd, unsigned& kind, unsigned& mag) {
  kind = (unsigned)r.below(9); mag = (unsigned)r.below(6); uint64_t t = 1500000000 + r.below(300000000), d, c = r.coin() ? 0 : r.below(1ULL << 60);
  d = mag == 0 ? 1 + r.below(5) : mag == 1 ? 1 + r.below(2000) : mag == 2 ? 1000000 + r.below(1000000000) : mag == 3 ? 1ULL << (30 + r.below(12)) : mag == 4 ? (1ULL << (40 + r.below(14))) + r.next() % (1ULL << 39) : 1 + r.next() % (1ULL << (1 + r.below(54)));
  bool vary = r.coin();
  for (size_t i = 0; i < n; ++i) {
    ts.push_back(t); c += d; cd.push_back(c);
    if (vary) { uint64_t k = 67 + r.below(84); d = std::max<uint64_t>(1, (uint64_t)((unsigned __int128)d * k / 100)); if (d > (1ULL << 55)) d = 1ULL << 55; }
    switch (kind) {
      case 0: t += 120; break; case 1: t += 1 + r.below(240); break; case 2: break; case 3: t += r.chance(50) ? 1 : 720; break; case 4: t = r.coin() ? t + r.below(2000) : t - r.below(1000); break;
      case 5: t += i % 11 == 0 ? 7200 : 0; break; case 6: t -= r.below(60); break; case 7: t += 5000 + r.below(100000); break; default: t += i + 4 > n ? 1 + r.below(60) : 100 + r.below(60); break;
    }
  }
}
static bool near(uint64_t a, uint64_t b) { uint64_t d = a > b ? a - b : b - a; return d <= std::max(a, b) / 40 + 1; }   // significant digits may round the other way
static void difficultyMode(long, Rng& r) {
  Cfg c = pickCfg(r); if (r.coin()) { c.v8 = 400 + r.below(100000); } logging::LoggerGroup log; auto cur = makeCurrency(c, log);
  for (int q = 0; q < 60; ++q) {
    std::vector<uint64_t> ts, cd; unsigned kind, mag; unsigned which = (unsigned)r.below(3); bool ovf = false;
    if (which == 0) {
      size_t n = r.chance(30) ? 1 + r.below(12) : r.chance(50) ? 61 : 1 + r.below(61); series(r, n, ts, cd, kind, mag);
      uint64_t got = cur->nextDifficultyLWMA3(ts, cd), want = std::max<uint64_t>(1, refLwma3(ts, cd, ovf)); vh::stat("retarget.lwma3");
      if (!got) vh::fail("C07", "retarget/zero", "LWMA3 yields zero for %zu blocks (kind %u, magnitude %u)", n, kind, mag);
      if (ovf ? !near(got, want) : got != want) vh::fail("C07", "retarget/lwma3", "LWMA3 yields %llu, definition %llu (%zu blocks, kind %u, magnitude %u, wide %d)", (unsigned long long)got, (unsigned long long)want, n, kind, mag, ovf);
      if (n > 10) { unsigned __int128 p = cd[n - 1] - cd[n - 2]; if ((unsigned __int128)got * 100 > p * 150 + 100 || ((unsigned __int128)got + 1) * 100 < p * 67) vh::fail("C07", "retarget/bounds", "LWMA3 moves from %llu to %llu in one block", (unsigned long long)p, (unsigned long long)got); }
      auto t2 = ts, c2 = cd; for (auto& x : c2) x += 12345; if (cur->nextDifficultyLWMA3(t2, c2) != got) vh::fail("C07", "retarget/offset", "LWMA3 depends on the absolute work"); for (auto& x : t2) x += 1000; if (cur->nextDifficultyLWMA3(t2, cd) != got) vh::fail("C07", "retarget/offset", "LWMA3 depends on the absolute time");
    } else if (which == 1) {
      series(r, 61, ts, cd, kind, mag); uint64_t h = r.chance(20) ? c.v8 - 3 + r.below(70) : c.v8 + 60 + r.below(100000);
      uint64_t got = cur->nextDifficultyLWMA1(ts, cd, h), want = std::max<uint64_t>(1, refLwma1(c, ts, cd, h, ovf)); vh::stat("retarget.lwma1");
      if (!got) vh::fail("C07", "retarget/zero", "LWMA1 yields zero (kind %u, magnitude %u, height %llu)", kind, mag, (unsigned long long)h);
      unsigned __int128 avg = (cd[60] - cd[0]) / 60; bool wide = ovf || avg > ~0ULL / (60ULL * 61 * 120 * 99);
      if (wide ? !near(got, want) : got != want) vh::fail("C07", "retarget/lwma1", "LWMA1 yields %llu, definition %llu (kind %u, magnitude %u, height %llu, wide %d)", (unsigned long long)got, (unsigned long long)want, kind, mag, (unsigned long long)h, wide);
      bool start = h >= c.v8 && h < c.v8 + 60;
      if (!start && ((unsigned __int128)got > avg * 11 + 2 || (unsigned __int128)got * 10 + 20 < avg)) vh::fail("C07", "retarget/bounds", "LWMA1 moves to %llu from an average of %llu", (unsigned long long)got, (unsigned long long)avg);
    } else {
      size_t n = r.chance(20) ? r.below(4) : r.chance(40) ? 735 : 1 + r.below(735); series(r, n, ts, cd, kind, mag); unsigned v = 1 + (unsigned)r.below(3);
      uint64_t idx = r.chance(15) ? 12745 + r.below(760) : n + r.below(100000); bool o2 = false; uint64_t want = refOld(v, idx, ts, cd, o2);
      if (o2) continue;
      uint64_t got = cur->nextDifficulty((uint8_t)v, (uint32_t)idx, ts, cd); vh::stat("retarget.window");
      if (got != std::max<uint64_t>(1, want)) vh::fail("C07", "retarget/window", "window retarget yields %llu, definition %llu (version %u, index %llu, %zu blocks, kind %u, magnitude %u)", (unsigned long long)got, (unsigned long long)want, v, (unsigned long long)idx, n, kind, mag);
    }
    vh::cover("retarget/" + std::to_string(which) + "/" + std::to_string(kind) + "/" + std::to_string(mag) + "/" + std::to_string(ts.size() / 6));
  }
  // a miner who chooses every timestamp within the rules cannot drive the difficulty to a halt or out of range
  {
    std::vector<uint64_t> ts, cd; uint64_t t = 1600000000, cum = 0, d = 1000 + r.below(1000000), lo = ~0ULL, hi = 0; unsigned style = (unsigned)r.below(4); uint64_t d0 = d;
    for (int i = 0; i < 200; ++i) {
      ts.push_back(t); cum += d; cd.push_back(cum); if (ts.size() > 61) { ts.erase(ts.begin()); cd.erase(cd.begin()); }
      if (ts.size() == 61) { d = r.coin() || style < 2 ? cur->nextDifficultyLWMA3(ts, cd) : d; lo = std::min(lo, d); hi = std::max(hi, d); if (!d) vh::fail("C07", "retarget/zero", "difficulty reaches zero in a closed loop"); }
      uint64_t st = style == 0 ? 120 : style == 1 ? 60 + r.below(121) : r.below(300); t += st ? st : 1;
      if (d > (1ULL << 54)) break;
    }
    if (style == 0 && (hi > d0 * 2 || lo * 2 < d0)) vh::fail("C07", "retarget/drift", "at exactly the target spacing the difficulty drifts from %llu to %llu..%llu", (unsigned long long)d0, (unsigned long long)lo, (unsigned long long)hi);
    vh::stat("retarget.loops");
  }
  // hash against target
  for (int q = 0; q < 40; ++q) { Hash h; r.fill(&h, 32); unsigned z = (unsigned)r.below(9); memset((char*)&h + 32 - z, r.chance(20) ? 0xff : 0, z); uint64_t d = r.edgy(); if (r.chance(30)) { // exactly at the edge: hash = floor((2^256-1)/d) and one above
      if (!d) d = 1; unsigned __int128 rem = 0; uint64_t w[4]; for (int i = 3; i >= 0; --i) { unsigned __int128 cu = (rem << 64) | ~0ULL; w[i] = (uint64_t)(cu / d); rem = cu % d; } if (r.coin()) { for (int i = 0; i < 4; ++i) if (++w[i]) break; } memcpy(&h, w, 32); vh::stat("target.edge"); }
    bool got = cn::check_hash(h, d), want = meets(h, d); vh::stat("target"); if (got != want) vh::fail("C07", "target/compare", "hash %s against difficulty %llu: node %d, definition %d", vh::phex(h).c_str(), (unsigned long long)d, got, want); }
}
static void rewardMode(long, Rng& r) {
  Cfg c = pickCfg(r); c.v8 = r.coin() ? 9 + r.below(100) : 1000 + r.below(790000); if (r.coin()) c.granted = 100000; logging::LoggerGroup log; auto cur = makeCurrency(c, log);
  for (int q = 0; q < 120; ++q) {
    uint64_t gen = r.chance(20) ? SUPPLY - r.below(20 * COIN) : r.chance(10) ? SUPPLY : r.below(SUPPLY), fee = r.chance(30) ? r.below(100) * 1000 : r.coin() ? r.edgy(47) : 0; uint32_t h = r.chance(10) ? 1 : r.chance(10) ? (uint32_t)r.below(4) : r.chance(30) ? (uint32_t)(r.below(120) * 21900 + r.below(3)) - 1 : r.chance(30) ? (uint32_t)c.v8 - 1 + (uint32_t)r.below(3) : (uint32_t)r.below(3000000);
    if (h == 1) gen = r.below(100 * COIN); if (h == ~0u) h = 0; size_t med = r.chance(20) ? 0 : r.chance(30) ? c.granted + r.below(5) - 2 : r.below(1000000), m = std::max(med, c.granted), size; unsigned k = (unsigned)r.below(6);
    size = k == 0 ? m : k == 1 ? m + r.below(3) - 1 : k == 2 ? 2 * m + r.below(3) - 1 : k == 3 ? r.below(m + 1) : m + r.below(m + 1);
    uint64_t rw = 0; int64_t em = 0; Reward want = refReward(c, std::vector<size_t>(1, med), size, gen, fee, h); if (med == 0) want = refReward(c, std::vector<size_t>(), size, gen, fee, h);
    bool ok = cur->getBlockReward(med, size, gen, fee, h, rw, em); vh::stat("reward"); vh::cover("reward/" + std::to_string(k) + "/" + (h == 1 ? "premine" : h > c.v8 ? "flat" : "steps") + "/" + (gen > SUPPLY - 20 * COIN ? "end" : "") + "/" + (fee ? "fee" : ""));
    if (ok != want.ok) vh::fail("C04", "reward/size", "size %zu with median %zu: node %d, rule %d", size, med, ok, want.ok);
    if (ok && (rw != want.reward || em != want.emission)) vh::fail("C04", "reward/value", "height %u generated %llu fee %llu size %zu median %zu: reward %llu emission %lld, schedule %llu %lld", h, (unsigned long long)gen, (unsigned long long)fee, size, med, (unsigned long long)rw, (long long)em, (unsigned long long)want.reward, (long long)want.emission);
    if (ok && fee <= SUPPLY && em > 0 && gen + (uint64_t)em > SUPPLY) vh::fail("C04", "reward/supply", "a block at supply %llu emits %lld", (unsigned long long)gen, (long long)em);
    // the miner transaction the library builds pays exactly that
    if (ok && rw && q % 4 == 0) {
      Transaction t; BinaryArray ex(r.below(40)); cn::AccountBase a; a.generate(); size_t mo = 1 + r.below(12);
      if (cur->constructMinerTx(h, med, gen, size, fee, a.getAccountKeys().address, t, ex, mo)) {
        unsigned __int128 s = 0; for (auto& o : t.outputs) s += o.amount; vh::stat("miner-tx");
        if (s != rw) vh::fail("C04,C10", "reward/miner-tx", "miner transaction pays %llu, reward %llu (height %u, %zu outputs)", (unsigned long long)s, (unsigned long long)rw, h, t.outputs.size());
        if (t.inputs.size() != 1 || t.inputs[0].type() != typeid(BaseInput) || boost::get<BaseInput>(t.inputs[0]).blockIndex != h || t.unlockTime != h + 10 || t.outputs.size() > mo) vh::fail("C04,C10", "reward/miner-tx-form", "miner transaction form: %zu inputs, unlock %llu, %zu of %zu outputs", t.inputs.size(), (unsigned long long)t.unlockTime, t.outputs.size(), mo);
        PublicKey R0 = cn::getTransactionPublicKeyFromExtra(t.extra); crypto::KeyDerivation d; crypto::generate_key_derivation(R0, a.getAccountKeys().viewSecretKey, d);
        for (size_t i = 0; i < t.outputs.size(); ++i) { PublicKey p; crypto::derive_public_key(d, i, a.getAccountKeys().address.spendPublicKey, p); if (!t.outputs[i].amount || t.outputs[i].target.type() != typeid(KeyOutput) || !(p == boost::get<KeyOutput>(t.outputs[i].target).key)) vh::fail("C04,C10,K02", "reward/payee", "output %zu of the miner transaction is not the miner's", i); }
      } else vh::fail("C04,C10", "reward/miner-tx-none", "no miner transaction for height %u, reward %llu, at most %zu outputs", h, (unsigned long long)rw, mo);
    }
  }
  // the emission curve ends exactly at the supply, whatever sizes and fees
  { uint64_t gen = SUPPLY - r.below(500 * COIN); uint32_t h = (uint32_t)r.range(2, 3000000); for (int i = 0; i < 400; ++i) { uint64_t fee = r.chance(30) ? r.below(COIN) : 0, rw; int64_t em; size_t size = r.chance(20) ? c.granted + r.below(c.granted) : 1000; if (!cur->getBlockReward(0, size, gen, fee, h, rw, em)) vh::fail("C04", "reward/end", "no reward near the end of the supply"); uint64_t before = gen; gen += em; if (gen > SUPPLY || (em < 0 && (uint64_t)-em > fee) || (em > 0 && gen < before)) vh::fail("C04", "reward/supply", "supply runs to %llu", (unsigned long long)gen); ++h; } vh::stat("reward.tails"); }
}
static void interestMode(long, Rng& r) {
  Cfg c = pickCfg(r); unsigned era = (unsigned)r.below(4); logging::LoggerGroup log;
  if (era == 0) { c.testnet = false; c.minTerm = 5040; c.minV3 = 21900; c.maxV3 = 262800; c.dH3 = 413400; c.dH4 = 1162162; c.missing = 425799; c.v2 = 1; c.v3 = 12750; c.v6 = 98160; c.v7 = 195765; c.v6 = 104200; c.v8 = 661300; c.name = "main"; }
  else if (era == 1) { c = Cfg(); c.missing = 0; c.name = "test"; }
  auto cur = era == 0 ? std::unique_ptr<cn::Currency>(new cn::Currency(cn::CurrencyBuilder(log).currency())) : era == 1 ? std::unique_ptr<cn::Currency>(new cn::Currency(cn::CurrencyBuilder(log).testnet(true).currency())) : makeCurrency(c, log);
  if (era < 2) {   // the networks' own schedule
    vh::stat("schedule"); uint64_t h[7] = {c.v2, c.v3, c.v6, c.v7, c.v8}; uint8_t v[5] = {2, 3, 4, 7, 8};
    for (int i = 0; i < 5; ++i) if (cur->upgradeHeight(v[i]) != h[i]) vh::fail("C07,C05,C04", "schedule/upgrade", "version %u starts after %u, published %llu", v[i], cur->upgradeHeight(v[i]), (unsigned long long)h[i]);
    if (cur->minedMoneyUnlockWindow() != 10 || cur->moneySupply() != SUPPLY || cur->coin() != COIN || cur->difficultyTarget() != 120) vh::fail("C04,C07", "schedule/constants", "supply, unit, spacing or maturity of the network differ from the published ones");
    if (cur->depositMinAmount() != COIN || cur->depositMinTermV3() != c.minV3 || cur->depositMaxTermV3() != c.maxV3 || cur->depositMaxTermV1() != 1296000) vh::fail("C05", "schedule/deposits", "deposit limits of the network differ from the published ones");
  }
  auto term = [&]() -> uint32_t { switch (r.below(9)) { case 0: return 5040 * (1 + (uint32_t)r.below(60)); case 1: return 64800 * (1 + (uint32_t)r.below(20)); case 2: return c.minV3 * (1 + (uint32_t)r.below(13)); case 3: return c.maxV3; case 4: return 1 + (uint32_t)r.below(400); case 5: return 1 + (uint32_t)r.below(1296000); case 6: return 1296000 + (uint32_t)r.below(3); case 7: return (uint32_t)r.edgy(32); default: return c.minTerm; } };
  auto amount = [&]() -> uint64_t { static const uint64_t edges[] = {110000, 110001, 180000, 260000, 350000, 450000, 560000, 680000, 810000, 950000, 1100000, 1260000, 1430000, 1610000, 1800000, 1999999, 2000001, 10000, 20000, 1}; switch (r.below(4)) { case 0: return edges[r.below(20)] * COIN + r.below(3) - (r.coin() ? 1 : 0); case 1: return COIN + r.below(100000) * COIN; case 2: return r.edgy(47); default: return r.below(SUPPLY); } };
  auto height = [&](uint32_t t) -> uint32_t { switch (r.below(8)) { case 0: return t + c.dH3 + (uint32_t)r.below(4) - 1; case 1: return t + 12750 + (uint32_t)r.below(3) - 1; case 2: return t + (uint32_t)r.below(30); case 3: return (uint32_t)r.below(3000000); case 4: return (uint32_t)r.edgy(32); case 5: return t + (uint32_t)r.below(1300000); case 7: return c.missing < 0x7fffffff ? c.missing : t; default: return c.dH4 + (uint32_t)r.below(3); } };
  for (int q = 0; q < 250; ++q) {
    MultisignatureInput i; i.term = term(); i.amount = amount(); i.signatureCount = 1; i.outputIndex = 0; uint32_t h = height(i.term);
        uint64_t got = cur->getInterestForInput(i, h), want = refInterest(c, i.amount, i.term, h); vh::stat("interest");
    if (got != want) vh::fail("C05,C04", "interest/value", "amount %llu term %u withdrawn at %u: interest %llu, schedule %llu (configuration %s/%u)", (unsigned long long)i.amount, i.term, h, (unsigned long long)got, (unsigned long long)want, c.name.c_str(), era);
    vh::cover("interest/" + std::to_string(era) + "/" + (i.term > 1296000 ? "long" : i.term % c.minV3 == 0 && h - i.term > c.dH3 ? "v3-" + std::to_string(std::min(13u, i.term / c.minV3)) : i.term % 64800 == 0 ? "quarter" + std::to_string(i.term / 64800) : i.term % 5040 == 0 ? "week" + std::to_string(i.term / 5040) : h - i.term <= 12750 ? "early" : "plain") + "/" + std::to_string((int)std::log10((double)i.amount + 1)));
    if (q % 5 == 0) {   // whole transactions
      Transaction t; t.version = 2; t.unlockTime = 0; uint64_t in = 0, intr = 0; unsigned n = 1 + (unsigned)r.below(4);
      for (unsigned k = 0; k < n; ++k) { if (r.coin()) { KeyInput x; x.amount = r.below(SUPPLY / 8); t.inputs.push_back(x); in += x.amount; } else { MultisignatureInput x = i; x.amount = amount() / 8; x.term = r.chance(20) ? 0 : term(); t.inputs.push_back(x); uint64_t y = x.term ? refInterest(c, x.amount, x.term, h) : 0; in += x.amount + y; intr += y; } }
      if (cur->calculateTotalTransactionInterest(t, h) != intr) vh::fail("C05,C04", "interest/total", "interest of a transaction is %llu, schedule %llu", (unsigned long long)cur->calculateTotalTransactionInterest(t, h), (unsigned long long)intr);
      if (cur->getTransactionAllInputsAmount(t, h) != in) vh::fail("C05,C04", "interest/inputs", "inputs are worth %llu, schedule %llu", (unsigned long long)cur->getTransactionAllInputsAmount(t, h), (unsigned long long)in);
      TransactionOutput o; o.amount = r.below(in + 1); o.target = KeyOutput(); t.outputs.push_back(o); uint64_t fee = 0; if (!cur->getTransactionFee(t, fee, h) || fee != in - o.amount) vh::fail("C05,C04", "interest/fee", "fee %llu, expected %llu", (unsigned long long)fee, (unsigned long long)(in - o.amount));
      vh::stat("interest.txs");
    }
  }
}

int main(int argc, char** argv) {
  return vh::run(argc, argv, [](long k, Rng& r) {
    const std::string& m = vh::opt.mode;
    if (m == "history") history(k, r);
    else if (m == "restart") restartMode(k, r);
    else if (m == "sync") syncMode(k, r);
    else if (m == "serve") serveMode(k, r);
    else if (m == "difficulty") difficultyMode(k, r);
    else if (m == "reward") rewardMode(k, r);
    else if (m == "interest") interestMode(k, r);
    else { fprintf(stderr, "unknown mode\n"); exit(2); }
  });
}
