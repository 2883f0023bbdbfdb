// A small laboratory around the real node core for demonstrations: builds blocks and transactions by hand.
// Block spacing keeps the difficulty at 1, so that no proof of work has to be searched.
#pragma once
#include <iostream>
#include <map>
#include <list>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <algorithm>
#include <unistd.h>
#include <boost/filesystem.hpp>
#include "CryptoNoteCore/Core.h"
#include "CryptoNoteCore/CoreConfig.h"
#include "CryptoNoteCore/MinerConfig.h"
#include "CryptoNoteCore/Currency.h"
#include "CryptoNoteCore/CryptoNoteTools.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
#include "CryptoNoteCore/CryptoNoteBasicImpl.h"
#include "CryptoNoteCore/TransactionExtra.h"
#include "CryptoNoteCore/VerificationContext.h"
#include "CryptoNoteCore/Account.h"
#include "CryptoNoteCore/Difficulty.h"
#include "Common/Math.h"
#include "Logging/LoggerGroup.h"
using namespace cn;
typedef std::vector<Transaction> Txs;
#define NEED(c) do { if (!(c)) { std::cerr << "SETUP FAILED line " << __LINE__ << ": " #c << std::endl; std::exit(3); } } while (0)
#define EXPECT(c, what) do { if (!(c)) { std::cerr << "BROKEN: " << what << " (line " << __LINE__ << ")" << std::endl; std::exit(1); } } while (0)
struct Less { template <class T> bool operator()(const T& a, const T& b) const { return std::memcmp(&a, &b, sizeof(T)) < 0; } };
struct Dir { std::string p; Dir() { char t[] = "/tmp/labXXXXXX"; NEED(mkdtemp(t)); p = t; } ~Dir() { boost::system::error_code e; boost::filesystem::remove_all(p, e); } };
struct Out { Transaction tx; size_t n; };
struct Lab {
  logging::LoggerGroup log; Dir dir; Currency cur; std::unique_ptr<core> node; AccountBase me; std::map<crypto::PublicKey, crypto::SecretKey, Less> sec; uint64_t t0;
  struct B { Block b; crypto::Hash id; int parent; uint32_t h; uint64_t gen; size_t size; Txs txs; };
  std::vector<B> bl;
  static Currency make(logging::ILogger& l, std::function<void(CurrencyBuilder&)> f) {
    CurrencyBuilder b(l); b.testnet(true); b.upgradeHeightV2(1); b.upgradeHeightV3(2); b.upgradeHeightV6(1000000); b.upgradeHeightV7(1000001); b.upgradeHeightV8(1000002); b.depositMinTerm(5); b.depositMinTermV3(5); b.depositMaxTermV3(60); b.depositHeightV3(0); b.depositHeightV4(0); if (f) f(b); return b.currency();
  }
  explicit Lab(std::function<void(CurrencyBuilder&)> f = nullptr) : cur(make(log, f)) { me.generate(); t0 = (uint64_t)time(nullptr) - 240 * 3000; B g; g.b = cur.genesisBlock(); get_block_hash(g.b, g.id); g.parent = -1; g.h = 0; g.gen = 0; g.size = toBinaryArray(g.b.baseTransaction).size(); for (auto& o : g.b.baseTransaction.outputs) g.gen += o.amount; start(false); NEED(node->getAlreadyGeneratedCoins(g.id, g.gen)); bl.push_back(g); }
  void start(bool load) { node.reset(new core(cur, nullptr, log, true, false)); CoreConfig c; c.configFolder = dir.p; c.configFolderDefaulted = false; c.testnet = true; MinerConfig m; NEED(node->init(c, m, load)); }
  void stop() { node->deinit(); node.reset(); }
  crypto::PublicKey key() { crypto::PublicKey p; crypto::SecretKey s; crypto::generate_keys(p, s); sec[p] = s; return p; }
  uint8_t version(uint32_t h) const { return h > cur.upgradeHeight(8) ? 8 : h > cur.upgradeHeight(7) ? 7 : h > cur.upgradeHeight(4) ? 4 : h > cur.upgradeHeight(3) ? 3 : h > cur.upgradeHeight(2) ? 2 : 1; }
  std::vector<size_t> sizes(int p) { std::vector<size_t> v; for (int i = 0; i < 100 && p >= 0; ++i, p = bl[p].parent) v.push_back(bl[p].size); return v; }
  // a block on any earlier block; spacing in seconds from the parent; edit runs before the block is finished
  int block(int parent, const Txs& txs = Txs(), uint64_t spacing = 240, std::function<void(Block&)> edit = nullptr) {
    B n; n.parent = parent; n.h = bl[parent].h + 1; n.txs = txs; Block& b = n.b; b.majorVersion = version(n.h); b.minorVersion = 0; b.nonce = 1; b.previousBlockHash = bl[parent].id; b.timestamp = parent == 0 ? t0 : bl[parent].b.timestamp + spacing;
    uint64_t fee = 0; size_t ts = 0; for (auto& t : txs) { fee += cur.getTransactionFee(t, n.h); ts += toBinaryArray(t).size(); b.transactionHashes.push_back(getObjectHash(t)); }
    std::vector<size_t> sz = sizes(parent); size_t med = common::medianValue(sz), cb = 0;
    for (int i = 0; i < 8; ++i) { NEED(cur.constructMinerTx(n.h, med, bl[parent].gen, ts + cb, fee, me.getAccountKeys().address, b.baseTransaction, BinaryArray(), 11)); size_t s = toBinaryArray(b.baseTransaction).size(); if (s == cb) break; cb = s; }
    for (auto& o : b.baseTransaction.outputs) boost::get<KeyOutput>(o.target).key = key();
    if (edit) edit(b);
    n.size = ts + toBinaryArray(b.baseTransaction).size(); uint64_t rew = 0; int64_t em = 0; NEED(cur.getBlockReward(med, n.size, bl[parent].gen, fee, n.h, rew, em)); uint64_t interest = 0; for (auto& t : txs) interest += cur.calculateTotalTransactionInterest(t, n.h); n.gen = bl[parent].gen + em + interest;
    get_block_hash(b, n.id); bl.push_back(n); return (int)bl.size() - 1;
  }
  tx_verification_context tx(const Transaction& t, bool kept = false) { tx_verification_context c; std::memset(&c, 0, sizeof c); node->handle_incoming_tx(toBinaryArray(t), c, kept); return c; }
  block_verification_context give(int i, bool withTxs = true) { if (withTxs) for (auto& t : bl[i].txs) tx(t, true); block_verification_context c; std::memset(&c, 0, sizeof c); node->handle_incoming_block_blob(toBinaryArray(bl[i].b), c, false, false); return c; }
  int next(int parent, const Txs& txs = Txs(), uint64_t spacing = 240) { int i = block(parent, txs, spacing); NEED(give(i).m_added_to_main_chain); return i; }
  int grow(int from, unsigned n) { while (n--) from = next(from); return from; }
  crypto::Hash tip() { uint32_t h; crypto::Hash id; node->get_blockchain_top(h, id); return id; }
  uint32_t height() { return node->get_current_blockchain_height(); }
  Out out(int i, size_t n = 0) { Out o; o.tx = bl[i].b.baseTransaction; o.n = n; return o; }
  Out big(int i) { Out o = out(i); for (size_t k = 0; k < o.tx.outputs.size(); ++k) if (o.tx.outputs[k].amount > o.tx.outputs[o.n].amount) o.n = k; return o; }
  uint32_t index(const Out& o) { std::vector<uint32_t> g; NEED(node->get_tx_outputs_gindexs(getObjectHash(o.tx), g)); return g[o.n]; }
  // spends outputs (key or deposit) into the given amounts; a deposit output is made for term > 0
  struct To { uint64_t amount; uint32_t term; };
  Transaction spend(const std::vector<Out>& in, const std::vector<To>& to, uint64_t unlock = 0, std::function<void(Transaction&)> edit = nullptr) {
    Transaction t; t.version = 1; t.unlockTime = unlock; KeyPair k = generateKeyPair(); addTransactionPublicKeyToExtra(t.extra, k.publicKey);
    for (auto& o : in) { auto& u = o.tx.outputs[o.n]; if (u.target.type() == typeid(KeyOutput)) { KeyInput x; x.amount = u.amount; x.outputIndexes.push_back(index(o)); auto& p = boost::get<KeyOutput>(u.target).key; crypto::generate_key_image(p, sec[p], x.keyImage); t.inputs.push_back(x); } else { auto& m = boost::get<MultisignatureOutput>(u.target); MultisignatureInput x; x.amount = u.amount; x.signatureCount = m.requiredSignatureCount; x.outputIndex = index(o); x.term = m.term; t.inputs.push_back(x); t.version = 2; } }
    for (auto& x : to) { TransactionOutput o; o.amount = x.amount; if (x.term) { MultisignatureOutput m; m.keys.push_back(key()); m.requiredSignatureCount = 1; m.term = x.term; o.target = m; t.version = 2; } else { KeyOutput q; q.key = key(); o.target = q; } t.outputs.push_back(o); }
    if (edit) edit(t);
    crypto::Hash h = getObjectHash(*static_cast<TransactionPrefix*>(&t)); t.signatures.clear();
    for (size_t i = 0; i < in.size(); ++i) { auto& u = in[i].tx.outputs[in[i].n]; std::vector<crypto::Signature> s(1); if (u.target.type() == typeid(KeyOutput)) { auto p = boost::get<KeyOutput>(u.target).key; std::vector<const crypto::PublicKey*> ring(1, &p); crypto::generate_ring_signature(h, boost::get<KeyInput>(t.inputs[i]).keyImage, ring, sec[p], 0, s.data()); } else { auto p = boost::get<MultisignatureOutput>(u.target).keys[0]; crypto::generate_signature(h, p, sec[p], s[0]); } t.signatures.push_back(s); }
    return t;
  }
  crypto::KeyImage image(const Out& o) { auto& p = boost::get<KeyOutput>(o.tx.outputs[o.n].target).key; crypto::KeyImage k; crypto::generate_key_image(p, sec[p], k); return k; }
  static uint64_t amount(const Out& o) { return o.tx.outputs[o.n].amount; }
};
