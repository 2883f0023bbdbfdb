// Compares every observable of a node with the reference model.
#include "sim.h"
#include <iterator>
namespace sim {
static bool eq(const Hash& a, const Hash& b) { return !memcmp(&a, &b, 32); }
// the field decides which properties besides the ones of the operation are broken
static std::string with(const char* props, const std::string& key) {
  static const struct { const char* k; const char* p; } t[] = {{"generated", "C04"}, {"emitted", "C04"}, {"next-difficulty", "C07"}, {"difficulty", "C07"}, {"deposits", "C05"}, {"interest", "C05"}, {"multisig", "C05,C03"}, {"image", "C03"}, {"key-output", "C03"}, {"output-index", "C03"}, {"tip", "C01,C06"}, {"height", "C01,C06"}, {"id-at", "C06"}, {"block-content", "C06"}};
  for (auto& x : t) if (key.compare(0, strlen(x.k), x.k) == 0) return std::string(props) + "," + x.p; return props;
}
#define CHK(c, key, ...) do { if (!(c)) vh::fail(with(props, key), std::string("ledger/") + key, __VA_ARGS__); } while (0)
void compareLedger(Sim& S, cn::core& c, const Ledger& L, const std::vector<int>& main, const char* props, const char* w, bool full) {
  uint32_t top; Hash id; c.get_blockchain_top(top, id); uint32_t n = L.size();
  CHK(c.get_current_blockchain_height() == n && top == n - 1, "height", "%s: node height %u, model %u (top %u)", w, c.get_current_blockchain_height(), n, top);
  CHK(eq(id, L.b.back().id), "tip", "%s: tip %s at %u, model %s", w, hs(id).c_str(), top, hs(L.b.back().id).c_str());
  CHK(c.getTotalGeneratedAmount() == L.b.back().gen, "generated", "%s: generated total %llu, model %llu", w, (unsigned long long)c.getTotalGeneratedAmount(), (unsigned long long)L.b.back().gen);
  uint64_t nd = c.getNextBlockDifficulty(), md = S.difficulty(L);
  CHK(nd == md, "next-difficulty", "%s: next difficulty %llu, model %llu at height %u", w, (unsigned long long)nd, (unsigned long long)md, n);
  vh::stat("observed.light");
  if (!full) return;
  CHK(c.get_blockchain_total_transactions() == L.tx.size(), "tx-count", "%s: %zu transactions, model %zu", w, c.get_blockchain_total_transactions(), L.tx.size());
  CHK((int64_t)c.fullDepositAmount() == L.b.back().locked, "deposits", "%s: locked deposits %llu, model %lld", w, (unsigned long long)c.fullDepositAmount(), (long long)L.b.back().locked);
  std::list<cn::Block> bl; CHK(c.get_blocks((uint32_t)0, n, bl) && bl.size() == n, "blocks", "%s: get_blocks gave %zu of %u", w, bl.size(), n);
  auto bit = bl.begin();
  for (uint32_t h = 0; h < n; ++h, ++bit) {
    auto& r = L.b[h]; auto& N = S.tree[main[h]];
    CHK(eq(c.getBlockIdByHeight(h), r.id), "id-at-height", "%s: id at %u differs", w, h);
    CHK(cn::toBinaryArray(*bit) == N.blob, "block-content", "%s: block content at %u differs", w, h);
    uint32_t hh; CHK(c.getBlockHeight(r.id, hh) && hh == h, "height-of-id", "%s: height of block %u", w, h);
    CHK(c.have_block(r.id), "have-block", "%s: block %u not known", w, h);
    size_t sz = 0; CHK(c.getBlockSize(r.id, sz) && sz == r.size, "block-size", "%s: size of block %u is %zu, model %zu", w, h, sz, r.size);
    uint64_t g = 0, d = 0, t = 0; CHK(c.getAlreadyGeneratedCoins(r.id, g) && g == r.gen, "generated-at", "%s: generated at %u is %llu, model %llu", w, h, (unsigned long long)g, (unsigned long long)r.gen);
    CHK(c.coinsEmittedAtHeight(h) == r.gen, "emitted-at", "%s: emitted at %u", w, h);
    CHK(c.getBlockDifficulty(h, d) && d == r.diff && c.difficultyAtHeight(h) == r.diff, "difficulty-at", "%s: difficulty at %u is %llu, model %llu", w, h, (unsigned long long)d, (unsigned long long)r.diff);
    CHK(c.getBlockTimestamp(h, t) && t == r.ts, "timestamp-at", "%s: timestamp at %u", w, h);
    CHK((int64_t)c.depositAmountAtHeight(h) == r.locked, "deposits-at", "%s: deposits at %u are %llu, model %lld", w, h, (unsigned long long)c.depositAmountAtHeight(h), (long long)r.locked);
    CHK(c.depositInterestAtHeight(h) == r.interest, "interest-at", "%s: interest at %u is %llu, model %llu", w, h, (unsigned long long)c.depositInterestAtHeight(h), (unsigned long long)r.interest);
    uint64_t gt = 0; CHK(c.getGeneratedTransactionsNumber(h, gt) && gt == r.ntx, "txs-until", "%s: transactions until %u are %llu, model %llu", w, h, (unsigned long long)gt, (unsigned long long)r.ntx);
    cn::Block b; CHK(c.getBlockByHash(r.id, b) && cn::toBinaryArray(b) == N.blob, "block-by-id", "%s: block by id %u", w, h);
  }
  { uint64_t t; CHK(!c.getBlockTimestamp(n, t), "timestamp-beyond", "%s: timestamp reported for a block above the tip", w); CHK(isNull(c.getBlockIdByHeight(n)), "id-beyond", "%s: id reported above the tip", w); }
  std::map<Hash, std::vector<Hash>, Less32> pay; std::vector<Hash> all;
  for (auto& e : L.tx) {
    Hash bid; uint32_t bh; CHK(c.getBlockContainingTx(e.first, bid, bh) && bh == e.second.block && eq(bid, L.b[bh].id), "tx-location", "%s: location of a transaction", w);
    std::vector<uint32_t> gi; bool r = c.get_tx_outputs_gindexs(e.first, gi);
    CHK(e.second.gidx.empty() ? true : r && gi == e.second.gidx, "output-index", "%s: global output indexes of a transaction in block %u", w, e.second.block);
    cn::Transaction tx; CHK(c.getTransaction(e.first, tx), "tx-missing", "%s: transaction of block %u not found", w, e.second.block);
    BinaryArray a = cn::toBinaryArray(tx); std::string hh = ref::keccak(a.data(), a.size()); CHK(!memcmp(hh.data(), &e.first, 32), "tx-content", "%s: stored transaction does not hash to its id", w);
    Hash pid; if (cn::getPaymentIdFromTxExtra(tx.extra, pid)) pay[pid].push_back(e.first);
    all.push_back(e.first);
  }
  std::map<Hash, std::vector<Hash>, Less32> ppay; for (auto& d : c.getMemoryPool()) { Hash pid; if (cn::getPaymentIdFromTxExtra(d.tx.extra, pid)) ppay[pid].push_back(d.id); }
  std::set<Hash, Less32> pids; for (auto& p : pay) pids.insert(p.first); for (auto& p : ppay) pids.insert(p.first);
  for (auto& t : S.txList) if (t->hasPay) pids.insert(t->payId);
  for (auto& p : pids) {
    std::vector<Transaction> v; bool r = c.getTransactionsByPaymentId(p, v); std::multiset<Hash, Less32> got, want;
    for (auto& t : v) { Hash h; BinaryArray a = cn::toBinaryArray(t); std::string x = ref::keccak(a.data(), a.size()); memcpy(&h, x.data(), 32); got.insert(h); }
    if (pay.count(p)) want.insert(pay[p].begin(), pay[p].end()); if (ppay.count(p)) want.insert(ppay[p].begin(), ppay[p].end());
    CHK(r == !want.empty(), "payment-id-found", "%s: payment id query answered %d, %zu transactions carry it", w, (int)r, want.size());
    CHK(std::vector<Hash>(got.begin(), got.end()).size() == want.size() && std::equal(got.begin(), got.end(), want.begin(), [](const Hash& a, const Hash& b) { return eq(a, b); }), "payment-id", "%s: payment id query gave %zu, model %zu", w, got.size(), want.size());
    vh::stat("observed.payment");
  }
  for (auto& k : L.spent) CHK(c.is_key_image_spent(k.first), "image-unspent", "%s: spent key image of block %u reported unspent", w, k.second);
  for (auto& i : S.img) if (!L.spent.count(i.second)) CHK(!c.is_key_image_spent(i.second), "image-spent", "%s: unspent key image reported spent", w);
  for (auto& a : L.ko) {
    KeyInput k; k.amount = a.first; for (uint32_t i = 0; i < a.second.size(); ++i) k.outputIndexes.push_back(i ? 1 : 0);
    std::list<std::pair<Hash, size_t>> refs; bool r = c.scanOutputkeysForIndices(k, refs);
    // refuses when any referenced output is locked: ask one by one then
    if (!r || refs.size() != a.second.size()) {
      for (uint32_t i = 0; i < a.second.size(); ++i) {
        KeyInput q; q.amount = a.first; q.outputIndexes.push_back(i); refs.clear(); bool rr = c.scanOutputkeysForIndices(q, refs);
        bool un = S.unlocked(L, a.second[i].unlock, g_now); (void)un;
        CHK(rr && refs.size() == 1 && eq(refs.front().first, a.second[i].tx) && refs.front().second == a.second[i].idx, "key-output", "%s: key output %u of amount %llu", w, i, (unsigned long long)a.first);
      }
    } else { uint32_t i = 0; for (auto& q : refs) { CHK(eq(q.first, a.second[i].tx) && q.second == a.second[i].idx, "key-output", "%s: key output %u of amount %llu", w, i, (unsigned long long)a.first); ++i; } }
    KeyInput q; q.amount = a.first; q.outputIndexes.push_back((uint32_t)a.second.size()); refs.clear(); CHK(!c.scanOutputkeysForIndices(q, refs), "key-output-beyond", "%s: an output beyond the last one of amount %llu exists", w, (unsigned long long)a.first);
  }
  for (auto& a : L.mo) {
    for (uint32_t i = 0; i < a.second.size(); ++i) {
      MultisignatureOutput o; CHK(c.getOutByMSigGIndex(a.first, i, o), "multisig-output", "%s: multisig output %u of %llu missing", w, i, (unsigned long long)a.first);
      auto& x = a.second[i].o; CHK(o.term == x.term && o.requiredSignatureCount == x.requiredSignatureCount && o.keys.size() == x.keys.size() && std::equal(o.keys.begin(), o.keys.end(), x.keys.begin()), "multisig-content", "%s: multisig output %u of %llu differs", w, i, (unsigned long long)a.first);
      MultisignatureInput mi; mi.amount = a.first; mi.outputIndex = i; mi.signatureCount = x.requiredSignatureCount; mi.term = x.term; std::pair<Hash, size_t> rf;
      CHK(c.getMultisigOutputReference(mi, rf) && eq(rf.first, a.second[i].tx) && rf.second == a.second[i].idx, "multisig-ref", "%s: multisig reference %u of %llu", w, i, (unsigned long long)a.first);
    }
    MultisignatureOutput o; CHK(!c.getOutByMSigGIndex(a.first, a.second.size(), o), "multisig-beyond", "%s: a multisig output beyond the last one of %llu exists", w, (unsigned long long)a.first);
  }
  // time queries
  for (int q = 0; q < 4; ++q) {
    uint64_t a = L.b[S.R.below(n)].ts + S.R.below(3) - 1, b = L.b[S.R.below(n)].ts + S.R.below(3) - 1; if (a > b) std::swap(a, b); uint32_t lim = (uint32_t)(S.R.coin() ? n : 1 + S.R.below(n)), total = 0;
    std::vector<cn::Block> v; bool r = c.getBlocksByTimestamp(a, b, lim, v, total); std::multiset<Hash, Less32> want; for (auto& x : L.b) if (x.ts >= a && x.ts <= b) want.insert(x.id);
    CHK(r == !want.empty(), "time-query-found", "%s: timestamp query answered %d, %zu blocks in range", w, (int)r, want.size());
    if (r) { CHK(total == want.size() && v.size() == std::min<size_t>(lim, want.size()), "time-query", "%s: timestamp query gave %zu of %u, model %zu", w, v.size(), total, want.size()); for (auto& x : v) { Hash h; cn::get_block_hash(x, h); CHK(want.count(h), "time-query-member", "%s: block outside the asked time range", w); } }
  }
  { std::vector<size_t> v; uint32_t from = (uint32_t)S.R.below(n); size_t cnt = 1 + S.R.below(12); if (c.getBackwardBlocksSizes(from, v, cnt)) { std::vector<size_t> e; for (uint32_t i = from + 1 > cnt ? from + 1 - (uint32_t)cnt : 0; i <= from; ++i) e.push_back(L.b[i].size); CHK(v == e, "backward-sizes", "%s: sizes of the blocks before %u", w, from); } }
  std::vector<Hash> ask = all; if (ask.size() > 40) { S.R.shuffle(ask); ask.resize(40); }
  if (!ask.empty()) { Hash no; S.R.fill(&no, 32); ask.push_back(no); std::list<Transaction> got; std::list<Hash> miss; c.getTransactions(ask, got, miss, false); CHK(got.size() == ask.size() - 1 && miss.size() == 1 && eq(miss.front(), no), "get-transactions", "%s: asked %zu known transactions, got %zu, missed %zu", w, ask.size() - 1, got.size(), miss.size()); }
  vh::stat("observed.full"); vh::stat("observed.blocks", n); vh::stat("observed.txs", L.tx.size());
}
void compareAlt(Sim& S, cn::core& c, const NodeModel& m, const char* props, const char* w) {
  std::list<cn::Block> l; c.get_alternative_blocks(l); std::set<std::string> got, want;
  for (auto& b : l) { BinaryArray a = cn::toBinaryArray(b); got.insert(std::string(a.begin(), a.end())); }
  for (auto& a : m.alt) want.insert(std::string(S.tree[a.first].blob.begin(), S.tree[a.first].blob.end()));
  if (got != want) vh::fail(props, "alt/set", "%s: node keeps %zu alternative blocks, model %zu", w, got.size(), want.size());
  if (c.get_alternative_blocks_count() != want.size()) vh::fail(props, "alt/count", "%s: alternative count", w);
  std::map<uint32_t, HSet> at; for (auto& a : m.alt) { at[S.tree[a.first].height].insert(S.tree[a.first].id); if (!c.have_block(S.tree[a.first].id)) vh::fail(props, "alt/have", "%s: alternative block not known by id", w); }
  for (auto& x : at) { std::vector<cn::Block> v; c.getOrphanBlocksByHeight(x.first, v); HSet g; for (auto& b : v) { Hash h; cn::get_block_hash(b, h); g.insert(h); } if (g.size() != x.second.size() || !std::includes(g.begin(), g.end(), x.second.begin(), x.second.end(), Less32())) vh::fail(props, "alt/by-height", "%s: %zu alternative blocks reported at %u, model %zu", w, g.size(), x.first, x.second.size()); }
  vh::stat("observed.alt", want.size());
}
void comparePool(Sim& S, cn::core& c, const NodeModel& m, const char* props, const char* w) {
  auto l = c.getMemoryPool(); HSet got;
  for (auto& d : l) {
    got.insert(d.id); auto it = m.pool.find(d.id);
    if (it == m.pool.end()) { auto t = S.txs.find(d.id); vh::fail(props, "pool/extra", "%s: the pool holds a transaction (%s) the model does not", w, t == S.txs.end() ? "?" : t->second->tag.c_str()); }
    auto& p = it->second;
    if (d.keptByBlock != p.kept || d.fee != p.fee || d.blobSize != p.t->blob.size() || (uint64_t)d.receiveTime != p.recv) vh::fail(props, "pool/entry", "%s: pool entry differs: kept %d/%d fee %llu/%llu size %zu/%zu time %lld/%llu", w, d.keptByBlock, p.kept, (unsigned long long)d.fee, (unsigned long long)p.fee, d.blobSize, p.t->blob.size(), (long long)d.receiveTime, (unsigned long long)p.recv);
  }
  if (got.size() != l.size()) vh::fail(props, "pool/duplicate", "%s: the pool lists a transaction twice", w);
  for (auto& p : m.pool) if (!got.count(p.first)) vh::fail(props, "pool/lost", "%s: the pool lost a transaction (tag '%s', kept %d)", w, p.second.t->tag.c_str(), p.second.kept);
  if (c.get_pool_transactions_count() != m.pool.size() || c.getPoolTransactions().size() != m.pool.size()) vh::fail(props, "pool/count", "%s: pool count", w);
  vh::stat("observed.pool", m.pool.size());
}
uint64_t digest(cn::core& c, Sim& S) {
  uint32_t n = c.get_current_blockchain_height(); uint64_t d = 7; auto mix = [&](uint64_t v) { d = (d ^ v) * 0x9e3779b97f4a7c15ULL; d ^= d >> 31; };
  for (uint32_t h = 0; h < n; ++h) { Hash id = c.getBlockIdByHeight(h); mix(vh::h64(&id, 32)); size_t s = 0; uint64_t g = 0, q = 0; c.getBlockSize(id, s); c.getAlreadyGeneratedCoins(id, g); c.getBlockDifficulty(h, q); mix(s); mix(g); mix(q); mix(c.depositAmountAtHeight(h)); mix(c.depositInterestAtHeight(h)); uint64_t t = 0; c.getGeneratedTransactionsNumber(h, t); mix(t); }
  for (auto& t : S.txList) { Hash b; uint32_t h = 0; if (c.getBlockContainingTx(t->id, b, h)) { mix(h); std::vector<uint32_t> g; c.get_tx_outputs_gindexs(t->id, g); for (auto x : g) mix(x); } else mix(3); }
  for (auto& i : S.img) mix(c.is_key_image_spent(i.second));
  mix(c.getNextBlockDifficulty()); return d;
}
}
