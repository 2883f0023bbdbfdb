// A wallet's record of its outputs (TransfersContainer) against a replay of what it was told. Property W01.
#include "sim.h"
#include "Transfers/TransfersContainer.h"
#include "CryptoNoteCore/TransactionApi.h"
using namespace sim; typedef vh::Rng Rng; typedef cn::ITransfersContainer TC;
static const uint32_t UNC = 0xFFFFFFFFu;
struct OutM { uint32_t n; uint64_t amount; bool ms; uint32_t term, req, gidx; KeyImage ki; PublicKey key; };
struct InM { bool ms; KeyImage ki; uint64_t amount; uint32_t gidx; Hash src; uint32_t srcOut; bool mine; };
struct TxM { Transaction tx; std::unique_ptr<cn::ITransactionReader> rd; Hash id; PublicKey pub; std::vector<OutM> out; std::vector<InM> in; uint64_t unlock, ts = 0; uint32_t height = UNC, pos = 0; Hash pay; bool hasPay = false; unsigned seq; std::vector<std::string> msgs; };
typedef std::shared_ptr<TxM> MP;
static const char* PR = "W01";
struct Box {
  Rng& R; cn::Currency cur; std::unique_ptr<cn::TransfersContainer> c; std::vector<MP> live; uint32_t h = 0; unsigned age, seq = 0; std::vector<KeyImage> dupImages; std::vector<MP> gone;
  Box(Rng& r, cn::Currency&& k, unsigned a) : R(r), cur(std::move(k)), c(new cn::TransfersContainer(cur, a)), age(a) {}
  struct Rec { MP t; const OutM* o; MP spender; uint32_t spIn; bool visible; };
  static bool sameKi(const KeyImage& a, const KeyImage& b) { return !memcmp(&a, &b, 32); }
  // every output with its fate, from the surviving transactions alone
  std::vector<Rec> recs() {
    std::vector<Rec> v; for (auto& t : live) for (auto& o : t->out) v.push_back(Rec{t, &o, nullptr, 0, true});
    auto early = [](const Rec* a, const Rec* b) { return std::make_tuple(a->t->height, a->t->pos) < std::make_tuple(b->t->height, b->t->pos); };
    for (auto& t : live) for (uint32_t i = 0; i < t->in.size(); ++i) { auto& in = t->in[i]; Rec* best = nullptr;
      for (auto& r : v) { if (r.t->height == UNC || r.o->ms != in.ms || r.spender || r.t == t) continue; if (in.ms ? !(r.o->amount == in.amount && r.o->gidx == in.gidx) : !(sameKi(r.o->ki, in.ki) && r.o->amount == in.amount)) continue; if (!best || early(&r, best)) best = &r; }
      if (best) { best->spender = t; best->spIn = i; } }
    std::map<KeyImage, std::vector<Rec*>, Less32> by; for (auto& r : v) if (!r.o->ms) by[r.o->ki].push_back(&r);
    for (auto& g : by) { bool spent = false; Rec* first = nullptr; unsigned unc = 0; for (auto* r : g.second) { if (r->spender) spent = true; else if (r->t->height != UNC) { if (!first || early(r, first)) first = r; } else ++unc; }
      for (auto* r : g.second) r->visible = spent ? r->spender != nullptr : first ? r == first : unc == 1; }
    return v;
  }
  static uint64_t unlockAt(const Rec& r, unsigned age) { uint64_t u = std::max<uint64_t>(r.t->unlock ? r.t->unlock : r.t->height, (uint64_t)r.t->height + age + 1); if (r.o->ms && r.o->term) u = std::max<uint64_t>(u, (uint64_t)r.t->height + r.o->term); return u; }
  bool byTime(const Rec& r) const { return r.t->unlock >= 500000000; }
  uint32_t state(const Rec& r) {
    if (r.t->height == UNC) return TC::IncludeStateLocked;
    bool u = byTime(r) ? g_now + 120 >= r.t->unlock : (uint64_t)h + 1 >= r.t->unlock; if (u && r.o->ms && r.o->term) u = (uint64_t)h + 1 >= (uint64_t)r.t->height + r.o->term;
    if (!u) return TC::IncludeStateLocked; return h < r.t->height + age ? TC::IncludeStateSoftLocked : TC::IncludeStateUnlocked;
  }
  static uint32_t type(const OutM& o) { return !o.ms ? TC::IncludeTypeKey : o.term ? TC::IncludeTypeDeposit : TC::IncludeTypeMultisignature; }
  typedef std::tuple<std::string, uint32_t, uint64_t, uint32_t, int, std::string> Line;
  Line line(const Rec& r) { return Line(vh::phex(r.t->id), r.o->n, r.o->amount, r.t->height == UNC ? UNC : r.o->gidx, r.o->ms ? 2 : 1, (r.o->ms ? vh::fmt("%u/%u", r.o->req, r.o->term) : vh::phex(r.o->key)) + vh::phex(r.t->pub)); }
  static Line line(const cn::TransactionOutputInformation& o) { return Line(vh::phex(o.transactionHash), o.outputInTransaction, o.amount, o.globalOutputIndex, o.type == cn::transaction_types::OutputType::Multisignature ? 2 : o.type == cn::transaction_types::OutputType::Key ? 1 : 0, (o.type == cn::transaction_types::OutputType::Multisignature ? vh::fmt("%u/%u", o.requiredSignatures, o.term) : vh::phex(o.outputKey)) + vh::phex(o.transactionPublicKey)); }
  typedef std::multiset<Line> Lines;
  template <class V> static Lines lines(const V& v) { Lines l; for (auto& o : v) l.insert(line(o)); return l; }
  void same(const Lines& got, const Lines& want, const char* key, const char* what, const char* where) { if (got != want) vh::fail(PR, key, "%s at height %u after %s: %zu reported, %zu expected", what, h, where, got.size(), want.size()); }
  void compare(const char* where) {
    auto v = recs(); size_t n = 0; (void)n; if (c->transfersCount() != v.size()) vh::fail(PR, "count/outputs", "%zu outputs recorded, %zu expected after %s", c->transfersCount(), v.size(), where);
    if (c->transactionsCount() != live.size()) vh::fail(PR, "count/transactions", "%zu transactions recorded, %zu expected after %s", c->transactionsCount(), live.size(), where);
    static const uint32_t st[] = {TC::IncludeStateUnlocked, TC::IncludeStateLocked, TC::IncludeStateSoftLocked}; static const uint32_t ty[] = {TC::IncludeTypeKey, TC::IncludeTypeMultisignature, TC::IncludeTypeDeposit};
    std::vector<uint32_t> flags; for (auto s : st) for (auto t : ty) flags.push_back(s | t); flags.push_back(TC::IncludeDefault); flags.push_back(TC::IncludeKeyNotUnlocked); flags.push_back(TC::IncludeAllLocked); flags.push_back(TC::IncludeAllUnlocked); flags.push_back(TC::IncludeAll); { uint32_t f = 0; for (auto s : st) if (R.coin()) f |= s; for (auto t : ty) if (R.coin()) f |= t; if (R.coin()) f |= TC::IncludeStateSpent; flags.push_back(f); }
    for (auto f : flags) { uint64_t b = 0; Lines want; for (auto& r : v) if (!r.spender && r.visible && (f & state(r)) && (f & type(*r.o))) { b += r.o->amount; want.insert(line(r)); }
      if (c->balance(f) != b) vh::fail(PR, "balance", "balance(%x) at height %u after %s is %llu, the surviving transactions give %llu", f, h, where, (unsigned long long)c->balance(f), (unsigned long long)b);
      std::vector<cn::TransactionOutputInformation> o; c->getOutputs(o, f); same(lines(o), want, "outputs", "outputs", where); vh::stat("balances"); }
    uint32_t f = flags[R.below(flags.size())] | (R.coin() ? TC::IncludeStateSpent : 0); std::set<std::string> unc;
    for (auto& t : live) {
      if (t->height == UNC) unc.insert(vh::phex(t->id)); cn::TransactionInformation i; uint64_t in = 1, out = 1; if (!c->getTransactionInformation(t->id, i, &in, &out)) vh::fail(PR, "info/missing", "a recorded transaction is not found after %s", where);
      uint64_t wi = 0, wo = 0, ti = 0, to = 0; for (auto& r : v) { if (r.spender == t) wi += r.o->amount; if (r.t == t) wo += r.o->amount; } for (auto& x : t->in) ti += x.amount; for (auto& o : t->tx.outputs) to += o.amount;
      if (in != wi || out != wo) vh::fail(PR, "info/amounts", "a transaction is said to move in %llu out %llu of the wallet's, expected %llu %llu after %s", (unsigned long long)in, (unsigned long long)out, (unsigned long long)wi, (unsigned long long)wo, where);
      if (i.blockHeight != t->height || i.timestamp != t->ts || i.unlockTime != t->unlock || i.totalAmountOut != to || i.totalAmountIn != ti || !(i.publicKey == t->pub) || i.extra != t->tx.extra || !(i.paymentId == (t->hasPay ? t->pay : cn::NULL_HASH)) || i.messages != t->msgs || !(i.transactionHash == t->id)) vh::fail(PR, "info/fields", "the information about a transaction differs from what was told after %s", where);
      Lines wl, wn; for (auto& r : v) { if (r.t == t && (f & type(*r.o)) && (r.spender ? (f & TC::IncludeStateSpent) : (f & state(r)))) wl.insert(line(r)); if (r.spender == t && (f & type(*r.o))) wn.insert(line(r)); }
      same(lines(c->getTransactionOutputs(t->id, f)), wl, "tx-outputs", "outputs of a transaction", where); same(lines(c->getTransactionInputs(t->id, f & TC::IncludeTypeAll)), wn, "tx-inputs", "inputs of a transaction", where);
    }
    std::vector<Hash> u; c->getUnconfirmedTransactions(u); std::set<std::string> gu; for (auto& x : u) gu.insert(vh::phex(x)); if (gu != unc || u.size() != unc.size()) vh::fail(PR, "unconfirmed", "%zu unconfirmed transactions reported, %zu expected after %s", u.size(), unc.size(), where);
    std::multiset<std::string> gs, ws; for (auto& s : c->getSpentOutputs()) gs.insert(vh::phex(s.spendingTransactionHash) + vh::phex(s.transactionHash) + vh::fmt("%u/%u/%llu/%u/%llu", s.outputInTransaction, s.spendingBlockHeight, (unsigned long long)s.timestamp, s.inputInTransaction, (unsigned long long)s.amount)); for (auto& r : v) if (r.spender) ws.insert(vh::phex(r.spender->id) + vh::phex(r.t->id) + vh::fmt("%u/%u/%llu/%u/%llu", r.o->n, r.spender->height, (unsigned long long)r.spender->ts, r.spIn, (unsigned long long)r.o->amount));
    if (gs != ws) vh::fail(PR, "spent", "%zu spent outputs reported, %zu expected after %s", gs.size(), ws.size(), where);
    for (auto& r : v) { if (v.size() > 12 && R.chance(60)) continue; cn::TransactionOutputInformation o; TC::TransferState s; if (!c->getTransfer(r.t->id, r.o->n, o, s)) vh::fail(PR, "transfer/missing", "an output is not found by its place after %s", where);
      auto w = r.spender ? TC::TransferState::TransferSpent : r.t->height == UNC ? TC::TransferState::TransferUnconfirmed : state(r) == TC::IncludeStateUnlocked ? TC::TransferState::TransferAvailable : TC::TransferState::TransferLocked;
      if (s != w || line(o) != line(r)) vh::fail(PR, "transfer/state", "an output found by its place is in state %u with %llu, expected %u with %llu after %s", (unsigned)s, (unsigned long long)o.amount, (unsigned)w, (unsigned long long)r.o->amount, where); vh::stat("transfers"); }
    for (auto& g : gone) { if (R.chance(80)) continue; bool back = false; for (auto& t : live) if (t->id == g->id) back = true; cn::TransactionInformation i; if (!back && c->getTransactionInformation(g->id, i)) vh::fail(PR, "info/ghost", "a deleted transaction is still known after %s", where); }
    vh::stat("compared"); vh::stat("outputs", v.size());
  }
  Hash hash() { Hash x; R.fill(&x, 32); return x; } template <class T> T rnd() { T x; R.fill(&x, sizeof x); return x; }
  static std::vector<cn::TransactionOutputInformationIn> given(const TxM& t, bool conf) { std::vector<cn::TransactionOutputInformationIn> v; for (auto& o : t.out) { cn::TransactionOutputInformationIn i; i.type = o.ms ? cn::transaction_types::OutputType::Multisignature : cn::transaction_types::OutputType::Key; i.amount = o.amount; i.globalOutputIndex = conf ? o.gidx : UNC; i.outputInTransaction = o.n; i.transactionHash = t.id; i.transactionPublicKey = t.pub; if (o.ms) { i.requiredSignatures = o.req; i.term = o.term; } else { i.outputKey = o.key; } i.keyImage = o.ki; v.push_back(i); } return v; }
  uint32_t freeIdx(uint64_t amount) { uint32_t m = 0; for (auto& t : live) if (t->height != UNC) for (auto& o : t->out) if (o.amount == amount && o.gidx >= m) m = o.gidx + 1; return m + (uint32_t)R.below(3); }
  MP make(uint32_t height) {
    MP t(new TxM); t->seq = ++seq; auto v = recs(); bool conf = height != UNC; t->tx.version = 2;
    unsigned nin = (unsigned)R.below(4); std::set<const OutM*> used;
    for (unsigned i = 0; i < nin; ++i) { InM in; in.mine = false; in.gidx = 0; std::vector<Rec*> can; for (auto& r : v) if (!r.spender && r.t->height != UNC && !used.count(r.o)) { if (!r.o->ms && (!r.visible)) continue; can.push_back(&r); }
      if (R.chance(70) && !can.empty()) { Rec* r = R.pick(can); used.insert(r->o); in.ms = r->o->ms; in.ki = r->o->ki; in.amount = r->o->amount; in.gidx = r->o->gidx; in.mine = true; bool twice = false; for (auto& q : t->in) if (!q.ms && !in.ms && sameKi(q.ki, in.ki)) twice = true; if (twice) continue; }
      else { in.ms = R.chance(20); in.ki = rnd<KeyImage>(); in.amount = 1 + R.below(9); in.gidx = 5000 + (uint32_t)R.below(1000000); }
      if (in.ms) { MultisignatureInput m; m.amount = in.amount; m.outputIndex = in.gidx; m.signatureCount = 1; m.term = 0; t->tx.inputs.push_back(m); } else { KeyInput k; k.amount = in.amount; k.keyImage = in.ki; k.outputIndexes.push_back(in.gidx); t->tx.inputs.push_back(k); }
      t->in.push_back(in); }
    unsigned nout = R.below(5); std::map<uint64_t, uint32_t> idx;
    for (unsigned i = 0; i < nout; ++i) { OutM o; o.n = i; o.amount = R.chance(30) ? 1 + R.below(4) : 1 + R.below(1000); o.ms = R.chance(35); o.term = o.ms && R.chance(70) ? 1 + (uint32_t)R.below(12) : 0; o.req = 1; o.key = rnd<PublicKey>(); o.ki = rnd<KeyImage>(); if (!o.ms) { if (!dupImages.empty() && R.chance(12)) { o.ki = R.pick(dupImages); vh::stat("dup.images"); } else if (R.chance(15)) dupImages.push_back(o.ki); }
      if (!idx.count(o.amount)) idx[o.amount] = freeIdx(o.amount); o.gidx = idx[o.amount]++;
      TransactionOutput q; q.amount = o.amount; if (o.ms) { MultisignatureOutput m; m.keys.push_back(o.key); m.requiredSignatureCount = 1; m.term = o.term; q.target = m; } else { KeyOutput k; k.key = o.key; q.target = k; } t->tx.outputs.push_back(q);
      if (R.chance(70)) { bool twice = false; for (auto& x : t->out) if (!o.ms && !x.ms && sameKi(x.ki, o.ki)) twice = true; if (!twice) t->out.push_back(o); } }
    if (t->tx.inputs.empty()) { KeyInput k; k.amount = 7; k.keyImage = rnd<KeyImage>(); k.outputIndexes.push_back(1); t->tx.inputs.push_back(k); InM in; in.ms = false; in.ki = k.keyImage; in.amount = 7; in.gidx = 1; in.mine = false; t->in.push_back(in); }
    t->unlock = R.chance(60) ? 0 : R.chance(60) ? h + R.below(14) : R.chance(70) ? g_now - 500 + R.below(2000) : R.chance(70) ? 499999990 + R.below(20) : (1ULL << 32) + R.below(40);
    t->tx.unlockTime = t->unlock; t->pub = rnd<PublicKey>(); cn::addTransactionPublicKeyToExtra(t->tx.extra, t->pub); if (R.chance(25)) { t->pay = hash(); BinaryArray n; cn::setPaymentIdToTransactionExtraNonce(n, t->pay); cn::addExtraNonceToTransactionExtra(t->tx.extra, n); t->hasPay = true; }
    t->id = hash(); t->rd = cn::createTransactionPrefix(t->tx, t->id); if (R.chance(15)) t->msgs.push_back(R.bytes(R.below(9))); t->height = height; t->ts = conf ? 1000 + height : 0; return t;
  }
  // the outputs that stop (or start) being locked on the way between two heights
  Lines crossing(uint32_t lo, uint32_t hi) { Lines l; for (auto& r : recs()) { if (r.t->height == UNC || r.spender || byTime(r)) continue; uint64_t u = unlockAt(r, age); if ((u > (uint64_t)lo + 1 || lo == 0) && u <= (uint64_t)hi + 1) l.insert(line(r)); } return l; }
  bool add(MP t, uint32_t height, uint32_t pos) {
    cn::TransactionBlockInfo b; b.height = height; b.timestamp = t->ts; b.transactionIndex = pos; t->pos = pos; auto m = t->msgs; std::vector<cn::TransactionOutputInformation> un; uint32_t old = h;
    bool rel = !t->out.empty(); for (auto& i : t->in) if (i.mine) rel = true; bool got = c->addTransaction(b, *t->rd, given(*t, height != UNC), std::move(m), &un); if (got != rel) vh::fail(PR, "add/relevance", "a transaction that %s the wallet is recorded=%d", rel ? "concerns" : "does not concern", got);
    if (rel) live.push_back(t); if (height != UNC) { h = height; same(lines(un), crossing(old, h), "notice/unlock", "outputs unlocked by a new transaction", "add"); } return rel;
  }
};
static void containerCase(long, Rng& r) {
  g_now = 1700000000 + r.below(1000); Cfg cfg; logging::LoggerGroup log; auto cu = makeCurrency(cfg, log); unsigned age = (unsigned)r.below(3) ? 1 + (unsigned)r.below(10) : (unsigned)r.below(2); Box B(r, std::move(*cu), age); unsigned steps = 20 + (unsigned)r.below(60); std::string trace;
  for (unsigned s = 0; s < steps; ++s) { unsigned op = (unsigned)r.below(20); const char* what = "";
    if (op < 7) { what = "block"; uint32_t nh = B.h + (s ? (uint32_t)r.below(4) : (uint32_t)r.below(3)); unsigned n = 1 + (unsigned)r.below(3); uint32_t pos = 0; bool any = false; for (auto& t : B.live) if (t->height == nh) pos = std::max(pos, t->pos + 1); std::vector<MP> unc; for (auto& t : B.live) if (t->height == UNC) unc.push_back(t); r.shuffle(unc);
      for (unsigned i = 0; i < n; ++i, ++pos) { any = true; if (!unc.empty() && r.chance(40)) { MP t = unc.back(); unc.pop_back(); cn::TransactionBlockInfo b; b.height = nh; b.timestamp = 1000 + nh; b.transactionIndex = pos; std::vector<uint32_t> g(t->tx.outputs.size(), 77); std::map<uint64_t, uint32_t> ix; for (auto& o : t->out) { if (!ix.count(o.amount)) ix[o.amount] = B.freeIdx(o.amount); o.gidx = ix[o.amount]++; g[o.n] = o.gidx; }
            if (!B.c->markTransactionConfirmed(b, t->id, g)) vh::fail(PR, "confirm/refused", "confirming a pool transaction is refused"); t->height = nh; t->ts = 1000 + nh; t->pos = pos; vh::stat("confirmed"); if (B.c->markTransactionConfirmed(b, t->id, g)) vh::fail(PR, "confirm/twice", "confirming twice succeeds"); }
        else { MP t = B.make(nh); t->height = nh; B.add(t, nh, pos); vh::stat("added"); } }
      // the height follows at the end of the block
      if (any) { uint32_t old = B.h; auto un = B.c->advanceHeight(nh); B.h = nh; B.same(Box::lines(un), B.crossing(old, nh), "notice/unlock", "outputs unlocked by a block", what); }
    } else if (op < 10) { what = "pool"; MP t = B.make(UNC); B.add(t, UNC, 0); vh::stat("pool.added"); if (!B.live.empty() && B.live.back() == t && r.chance(20)) { bool threw = false; try { cn::TransactionBlockInfo b; b.height = UNC; b.timestamp = 0; b.transactionIndex = 0; B.c->addTransaction(b, *t->rd, Box::given(*t, false), {}, nullptr); } catch (std::invalid_argument&) { threw = true; } if (!threw) vh::fail(PR, "add/twice", "a transaction is recorded twice"); } }
    else if (op < 12) { what = "delete"; std::vector<MP> unc; for (auto& t : B.live) if (t->height == UNC) unc.push_back(t); if (unc.empty() || r.chance(15)) { Hash x = B.live.empty() || r.coin() ? B.hash() : r.pick(B.live)->id; bool is = false; for (auto& t : unc) if (t->id == x) is = true; if (!is && B.c->deleteUnconfirmedTransaction(x)) vh::fail(PR, "delete/confirmed", "a transaction that is not unconfirmed was deleted"); } else { MP t = r.pick(unc); if (!B.c->deleteUnconfirmedTransaction(t->id)) vh::fail(PR, "delete/refused", "an unconfirmed transaction could not be deleted"); B.live.erase(std::find(B.live.begin(), B.live.end(), t)); B.gone.push_back(t); vh::stat("deleted"); } }
    else if (op < 15) { what = "detach"; if (B.h == 0) continue; uint32_t to = r.chance(10) ? (uint32_t)r.below(B.h + 1) : B.h - (uint32_t)r.below(std::min<uint32_t>(B.h, 5)); std::vector<Hash> del; std::vector<cn::TransactionOutputInformation> lk;
      std::set<std::string> want; auto v = B.recs(); for (auto& t : B.live) if (t->height != UNC && t->height >= to) want.insert(vh::phex(t->id)); for (auto& q : v) if (q.spender && q.spender->height == UNC && q.t->height != UNC && q.t->height >= to) want.insert(vh::phex(q.spender->id));
      B.c->detach(to, del, lk); std::set<std::string> got; for (auto& x : del) got.insert(vh::phex(x)); if (got != want || got.size() != del.size()) vh::fail(PR, "detach/deleted", "detaching at %u reports %zu transactions deleted, expected %zu", to, del.size(), want.size());
      std::vector<MP> keep; for (auto& t : B.live) if (!want.count(vh::phex(t->id))) keep.push_back(t); else B.gone.push_back(t); B.live = keep; uint32_t old = B.h; B.h = to ? to - 1 : 0; Box::Lines w; for (auto& q : B.recs()) if (q.t->height != UNC && !q.spender && !B.byTime(q)) { uint64_t u = Box::unlockAt(q, age); if (u > (uint64_t)B.h + 1 && u <= (uint64_t)old + 1) w.insert(B.line(q)); } if (B.h <= old) B.same(Box::lines(lk), w, "notice/lock", "outputs locked again by a detachment", what); vh::stat("detached", want.size()); vh::stat("detachments");
    } else if (op < 17) { what = "advance"; uint32_t nh = B.h + (uint32_t)r.below(r.coin() ? 4 : 15); auto un = B.c->advanceHeight(nh); uint32_t old = B.h; B.h = nh; B.same(Box::lines(un), B.crossing(old, nh), "notice/unlock", "outputs unlocked by new blocks", what); vh::stat("advanced"); if (nh && r.chance(20)) { bool threw = false; try { B.c->advanceHeight(nh - 1); } catch (std::invalid_argument&) { threw = true; } if (!threw) vh::fail(PR, "advance/back", "the height went back"); } }
    else if (op < 19) { what = "save/load"; std::stringstream ss; B.c->save(ss); bool old = r.chance(30); if (old) { std::string d = ss.str(); d[0] = 0; ss.str(d); vh::stat("reloaded.v0"); } std::unique_ptr<cn::TransfersContainer> n(new cn::TransfersContainer(B.cur, age)); n->load(ss); std::stringstream s2; n->save(s2); B.c = std::move(n); vh::stat("reloaded"); }
    else { what = "time"; g_now += r.below(1200); }
    B.compare(what); vh::cover(vh::fmt("%s/%u/%zu/%u", what, std::min<unsigned>(B.h, 20), B.live.size(), age)); }
}
int main(int argc, char** argv) { return vh::run(argc, argv, [](long k, Rng& r) { containerCase(k, r); }); }
