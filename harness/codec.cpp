// S01 consensus encoding, S02 hostile bytes, S03 messages on the wire, S04 values as text.
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
static const double kSlow = 12;
#else
static const double kSlow = 1;
#endif
#include "vh.h"
#include "refcrypto.h"
#include <malloc.h>
#include <new>
#include <ctime>
#include <cmath>
#include <csignal>
#include <atomic>
#include "CryptoNoteCore/CryptoNoteTools.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
#include "CryptoNoteCore/CryptoNoteBasicImpl.h"
#include "CryptoNoteCore/CryptoNoteSerialization.h"
#include "CryptoNoteCore/Currency.h"
#include "CryptoNoteCore/Account.h"
#include "CryptoNoteCore/TransactionExtra.h"
#include "CryptoNoteCore/TransactionApi.h"
#include "CryptoNoteProtocol/CryptoNoteProtocolDefinitions.h"
#include "P2p/P2pProtocolDefinitions.h"
#include "P2p/LevinProtocol.h"
#include "Rpc/CoreRpcServerCommandsDefinitions.h"
#include "Rpc/JsonRpc.h"
#include "PaymentGate/PaymentServiceJsonRpcMessages.h"
#include "Wallet/WalletRpcServerCommandsDefinitions.h"
#include "Serialization/SerializationTools.h"
#include "Serialization/BinaryInputStreamSerializer.h"
#include "HTTP/HttpParser.h"
#include "HTTP/HttpRequest.h"
#include "HTTP/HttpResponse.h"
#include "Common/Base58.h"
#include "Common/Base64.h"
#include "Common/StringTools.h"
#include "Common/MemoryInputStream.h"
#include "Common/StdInputStream.h"
#include "Mnemonics/Mnemonics.h"
#include "Logging/ConsoleLogger.h"
#include "Logging/LoggerGroup.h"
#include "System/Dispatcher.h"
#include "System/ContextGroup.h"
#include "System/TcpConnection.h"
#include "System/TcpListener.h"
#include "System/TcpConnector.h"
#include "System/TcpStream.h"
#include "System/Ipv4Address.h"
#include "System/InterruptedException.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>

// a port is drawn outside the case's generator: whether it is free must not change the case
static uint16_t anyPort() { static uint32_t x = (uint32_t)getpid() * 2654435761u; x = x * 1664525u + 1013904223u; return (uint16_t)(20000 + (x >> 8) % 12000); }
// ---- allocation monitor ----
static std::atomic<long> gLive{0}, gPeak{0};
static inline void* monAlloc(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); long l = gLive += (long)malloc_usable_size(p); long pk = gPeak; while (l > pk && !gPeak.compare_exchange_weak(pk, l)) {} return p; }
static inline void monFree(void* p) { if (p) { gLive -= (long)malloc_usable_size(p); free(p); } }
void* operator new(size_t n) { return monAlloc(n); }
void* operator new[](size_t n) { return monAlloc(n); }
void operator delete(void* p) noexcept { monFree(p); }
void operator delete[](void* p) noexcept { monFree(p); }
void operator delete(void* p, size_t) noexcept { monFree(p); }
void operator delete[](void* p, size_t) noexcept { monFree(p); }

using namespace cn; using vh::Rng; using std::string; using std::vector;
namespace {
logging::LoggerGroup gLog;
Currency* gCur;
vector<uint8_t> ba(const string& s) { return vector<uint8_t>(s.begin(), s.end()); }
string str(const vector<uint8_t>& b) { return string(b.begin(), b.end()); }
double cpu() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- random consensus objects
template <class P> P pod(Rng& r) { P p; r.fill(&p, sizeof p); return p; }
TransactionInput rndIn(Rng& r, bool big) {
  switch (r.below(5)) {
    case 0: { BaseInput b; b.blockIndex = (uint32_t)r.edgy(32); return b; }
    case 1: case 2: { MultisignatureInput m; m.amount = r.edgy(); m.signatureCount = (uint8_t)(r.chance(80) ? r.below(5) : r.edgy(8)); m.outputIndex = (uint32_t)r.edgy(32); m.term = (uint32_t)r.edgy(32); return m; }
    default: { KeyInput k; k.amount = r.edgy(); k.outputIndexes.resize(r.chance(80) ? r.below(6) : r.below(big ? 300 : 20)); for (auto& x : k.outputIndexes) x = (uint32_t)r.edgy(32); k.keyImage = pod<crypto::KeyImage>(r); return k; }
  }
}
Transaction rndTx(Rng& r, bool big = false) {
  Transaction t; t.version = (uint8_t)r.below(3); t.unlockTime = r.edgy();
  t.inputs.resize(r.below(big ? 40 : 6)); for (auto& i : t.inputs) i = rndIn(r, big);
  t.outputs.resize(r.below(big ? 40 : 6));
  for (auto& o : t.outputs) {
    o.amount = r.edgy();
    if (r.chance(60)) o.target = KeyOutput{pod<crypto::PublicKey>(r)};
    else { MultisignatureOutput m; m.keys.resize(r.below(4)); for (auto& k : m.keys) k = pod<crypto::PublicKey>(r); m.requiredSignatureCount = (uint8_t)r.edgy(8); m.term = (uint32_t)r.edgy(32); o.target = m; }
  }
  t.extra = ba(r.bytes(r.chance(70) ? r.below(80) : r.below(big ? 3000 : 300)));
  for (auto& i : t.inputs) {
    size_t n = 0; if (i.type() == typeid(KeyInput)) n = boost::get<KeyInput>(i).outputIndexes.size(); else if (i.type() == typeid(MultisignatureInput)) n = boost::get<MultisignatureInput>(i).signatureCount;
    vector<crypto::Signature> s(n); for (auto& x : s) x = pod<crypto::Signature>(r); t.signatures.push_back(s);
  }
  return t;
}
Block rndBlock(Rng& r) {
  Block b; b.majorVersion = (uint8_t)r.below(9); b.minorVersion = (uint8_t)r.edgy(8); b.timestamp = r.edgy(); b.previousBlockHash = pod<crypto::Hash>(r); b.nonce = (uint32_t)r.edgy(32);
  b.baseTransaction = rndTx(r); b.transactionHashes.resize(r.chance(80) ? r.below(9) : r.below(200)); for (auto& h : b.transactionHashes) h = pod<crypto::Hash>(r);
  return b;
}
// independent encoder of the documented consensus layout
void vi(string& o, uint64_t v) { while (v >= 0x80) { o += (char)(v | 0x80); v >>= 7; } o += (char)v; }
template <class P> void raw(string& o, const P& p) { o.append((const char*)&p, sizeof p); }
string encPrefix(const TransactionPrefix& t) {
  string o; vi(o, t.version); vi(o, t.unlockTime); vi(o, t.inputs.size());
  for (auto& i : t.inputs) {
    if (i.type() == typeid(BaseInput)) { o += (char)0xff; vi(o, boost::get<BaseInput>(i).blockIndex); }
    else if (i.type() == typeid(KeyInput)) { auto& k = boost::get<KeyInput>(i); o += (char)2; vi(o, k.amount); vi(o, k.outputIndexes.size()); for (auto x : k.outputIndexes) vi(o, x); raw(o, k.keyImage); }
    else { auto& m = boost::get<MultisignatureInput>(i); o += (char)3; vi(o, m.amount); vi(o, m.signatureCount); vi(o, m.outputIndex); vi(o, m.term); }
  }
  vi(o, t.outputs.size());
  for (auto& u : t.outputs) {
    vi(o, u.amount);
    if (u.target.type() == typeid(KeyOutput)) { o += (char)2; raw(o, boost::get<KeyOutput>(u.target).key); }
    else { auto& m = boost::get<MultisignatureOutput>(u.target); o += (char)3; vi(o, m.keys.size()); for (auto& k : m.keys) raw(o, k); vi(o, m.requiredSignatureCount); vi(o, m.term); }
  }
  vi(o, t.extra.size()); o.append((const char*)t.extra.data(), t.extra.size());
  return o;
}
string encTx(const Transaction& t) { string o = encPrefix(t); for (auto& v : t.signatures) for (auto& s : v) raw(o, s); return o; }
string encHeader(const BlockHeader& b) { string o; vi(o, b.majorVersion); vi(o, b.minorVersion); vi(o, b.timestamp); raw(o, b.previousBlockHash); raw(o, b.nonce); return o; }
string encBlock(const Block& b) { string o = encHeader(b); o += encTx(b.baseTransaction); vi(o, b.transactionHashes.size()); for (auto& h : b.transactionHashes) raw(o, h); return o; }
string hs(const crypto::Hash& h) { return string((const char*)&h, 32); }
string blockId(const Block& b) {
  string o = encHeader(b); vector<string> hh{ref::keccak(encTx(b.baseTransaction))}; for (auto& h : b.transactionHashes) hh.push_back(hs(h));
  o += ref::tree(hh); vi(o, hh.size());
  string p; vi(p, o.size()); return ref::keccak(p + o);
}
string mutate(Rng& r, string s, const vector<string>& pool) {
  int n = 1 + (r.chance(40) ? r.below(4) : 0);
  while (n--) switch (r.below(11)) {
    case 0: if (s.size()) s[r.below(s.size())] ^= (char)(1 << r.below(8)); break;
    case 1: if (s.size()) s[r.below(s.size())] = (char)r.edgy(8); break;
    case 2: if (s.size()) s.resize(r.below(s.size())); break;
    case 3: s += r.bytes(1 + r.below(4)); break;
    case 4: if (s.size()) s.insert(r.below(s.size()), r.bytes(1 + r.below(4))); break;
    case 5: if (s.size()) s.erase(r.below(s.size()), 1 + r.below(4)); break;
    case 6: { if (!s.size()) break; size_t p = r.below(s.size()); string v; vi(v, r.edgy()); s.replace(p, 1, v); break; }                        // another varint
    case 7: { if (!s.size()) break; size_t p = r.below(std::min<size_t>(s.size(), 40)); s[p] = (char)(s[p] | 0x80); s.insert(p + 1, string(r.below(9), (char)0x80) + string(1, (char)r.below(2))); break; } // overlong varint
    case 8: { if (!pool.size() || !s.size()) break; auto& o = r.pick(pool); if (!o.size()) break; size_t a = r.below(o.size()); s.replace(r.below(s.size()), r.below(16), o.substr(a, r.below(64))); break; }
    case 9: { if (s.size() < 4) break; size_t a = r.below(s.size()), l = 1 + r.below(std::min<size_t>(64, s.size() - a)); s.insert(r.below(s.size()), s.substr(a, l)); break; }
    default: { if (!s.size()) break; size_t p = r.below(std::min<size_t>(s.size(), 12)); s[p] = (char)(s[p] + (r.coin() ? 1 : -1)); }
  }
  return s;
}

// ---------------------------------------------------------------- S01
std::map<string, string>& ids() { static std::map<string, string> m; return m; }
void noteId(const char* kind, const crypto::Hash& id, const string& bytes) {
  string k = string(kind) + hs(id); auto it = ids().find(k); string d = ref::keccak(bytes) + bytes.substr(0, 64);
  if (it == ids().end()) { if (ids().size() < 400000) ids()[k] = d; } else if (it->second != d) vh::fail("S01", "id-collision", "two different accepted %ss share the identifier %s", kind, vh::phex(id).c_str());
  vh::stat("ids");
}
template <class T> size_t objSize(const T& t) { size_t n = 0; if (!getObjectBinarySize(t, n)) return ~size_t(0); return n; }
bool tryTx(const string& s, Transaction& t) { try { return fromBinaryArray(t, ba(s)); } catch (std::exception&) { return false; } }
bool tryBlock(const string& s, Block& b) { try { return fromBinaryArray(b, ba(s)); } catch (std::exception&) { return false; } }
void judgeTxBytes(const string& s, bool must, const char* how) {
  Transaction t; bool ok = tryTx(s, t);
  if (must && !ok) vh::fail("S01", "tx-refused", "a well-formed transaction (%s) is refused by the decoder: %s", how, vh::hex(s).c_str());
  vh::stat(ok ? "tx.accepted" : "tx.refused"); vh::cover(string("tx") + how + (ok ? "+" : "-") + std::to_string(t.inputs.size()) + "/" + std::to_string(t.outputs.size()));
  if (!ok) return;
  BinaryArray back; if (!toBinaryArray(t, back) || str(back) != s) vh::fail("S01", "tx-not-canonical", "a transaction (%s) decodes but encodes to other bytes: %s became %s", how, vh::hex(s).c_str(), vh::hex(str(back)).c_str());
  if (encTx(t) != s) vh::fail("S01", "tx-misread", "a transaction (%s) decodes to fields that spell other bytes: %s", how, vh::hex(s).c_str());
  if (objSize(t) != s.size()) vh::fail("S01", "tx-size", "reported size %zu of a %zu byte transaction", objSize(t), s.size());
  crypto::Hash id = getObjectHash(t), h2, ph; size_t sz = 0; getObjectHash(t, h2, sz);
  if (hs(id) != ref::keccak(s) || h2 != id || sz != s.size()) vh::fail("S01", "tx-id", "identifier of a transaction is not the hash of its bytes (or its size is wrong)");
  Transaction t3; crypto::Hash h3; bool pv = parseAndValidateTransactionFromBinaryArray(ba(s), t3, h3, ph);
  if (!pv || h3 != id || hs(ph) != ref::keccak(encPrefix(t))) vh::fail("S01", "tx-id", "parsing a transaction reports other identifiers than the hashes of its bytes");
  if (s.size() >= 2) noteId("transaction", id, s);
}
void judgeBlockBytes(const string& s, bool must, const char* how) {
  Block b; bool ok = tryBlock(s, b);
  if (must && !ok) vh::fail("S01", "block-refused", "a well-formed block (%s) is refused by the decoder: %s", how, vh::hex(s).c_str());
  vh::stat(ok ? "block.accepted" : "block.refused"); vh::cover(string("bl") + how + (ok ? "+" : "-") + std::to_string(b.transactionHashes.size()));
  if (!ok) return;
  BinaryArray back; if (!toBinaryArray(b, back) || str(back) != s) vh::fail("S01", "block-not-canonical", "a block (%s) decodes but encodes to other bytes: %s", how, vh::hex(s).c_str());
  if (encBlock(b) != s) vh::fail("S01", "block-misread", "a block (%s) decodes to fields that spell other bytes: %s", how, vh::hex(s).c_str());
  if (objSize(b) != s.size()) vh::fail("S01", "block-size", "reported size %zu of a %zu byte block", objSize(b), s.size());
  crypto::Hash id; if (!get_block_hash(b, id) || hs(id) != blockId(b)) vh::fail("S01", "block-id", "block identifier differs from the hash of its header, transaction tree and count");
  noteId("block", id, s);
}
void trailing(Rng& r, const string& s, bool tx) {
  // nothing but the whole string may decode
  for (int i = 0; i < 6; ++i) {
    string u = s; bool cut = i & 1; if (cut) u.resize(r.below(s.size())); else u += r.coin() ? string(1 + r.below(3), 0) : r.bytes(1 + r.below(40));
    Transaction t; Block b; bool ok = tx ? tryTx(u, t) : tryBlock(u, b); vh::stat("boundaries");
    if (ok && !cut) vh::fail("S01", "trailing", "a %s followed by %zu more bytes is accepted", tx ? "transaction" : "block", u.size() - s.size());
    if (ok) { string e = tx ? encTx(t) : encBlock(b); if (e != u) vh::fail("S01", "missing", "a %s with %zu bytes missing is accepted", tx ? "transaction" : "block", s.size() - u.size()); }
  }
}
void consensusCase(long, Rng& r) {
  static thread_local vector<string> pool;
  for (int n = 0; n < 6; ++n) {
    Transaction t = rndTx(r, r.chance(5)); BinaryArray b;
    if (!toBinaryArray(t, b)) vh::fail("S01", "tx-encode", "an in-memory transaction cannot be encoded");
    string s = str(b); if (s != encTx(t)) vh::fail("S01", "tx-encoding", "a transaction is not encoded in the documented layout");
    judgeTxBytes(s, true, "random"); trailing(r, s, true); if (pool.size() < 200) pool.push_back(s); else pool[r.below(200)] = s;
    // a transaction whose signature counts disagree with its inputs must not be encodable as something else
    for (int i = 0; i < 60; ++i) judgeTxBytes(mutate(r, s, pool), false, "mutated");
  }
  for (int n = 0; n < 4; ++n) {
    Block t = rndBlock(r); BinaryArray b;
    if (!toBinaryArray(t, b)) vh::fail("S01", "block-encode", "an in-memory block cannot be encoded");
    string s = str(b); if (s != encBlock(t)) vh::fail("S01", "block-encoding", "a block is not encoded in the documented layout");
    judgeBlockBytes(s, true, "random"); trailing(r, s, false);
    for (int i = 0; i < 60; ++i) judgeBlockBytes(mutate(r, s, pool), false, "mutated");
  }
  // extra: fields written are fields read
  {
    vector<TransactionExtraField> f; std::vector<uint8_t> e; crypto::PublicKey pk = pod<crypto::PublicKey>(r); crypto::Hash pid = pod<crypto::Hash>(r); uint64_t ttl = r.edgy(); bool hasTtl = r.coin(), hasPid = r.coin(); string nonce = r.bytes(r.below(200)); bool hasNonce = !hasPid && r.coin(); if (hasNonce && !nonce.empty() && nonce[0] == 0) nonce[0] = 1;
    addTransactionPublicKeyToExtra(e, pk); if (hasPid) { BinaryArray n; setPaymentIdToTransactionExtraNonce(n, pid); addExtraNonceToTransactionExtra(e, n); }
    if (hasNonce) addExtraNonceToTransactionExtra(e, ba(nonce)); if (hasTtl) appendTTLToExtra(e, ttl); TransactionExtraMergeMiningTag mm; mm.depth = r.edgy(20); mm.merkleRoot = pod<crypto::Hash>(r); bool hasMm = r.coin(); if (hasMm) appendMergeMiningTagToExtra(e, mm);
    vh::stat("extra");
    if (!parseTransactionExtra(e, f)) vh::fail("S01", "extra-refused", "an extra field the node wrote itself is not parsed: %s", vh::hex(str(e)).c_str());
    if (getTransactionPublicKeyFromExtra(e) != pk) vh::fail("S01,K02", "extra-key", "transaction public key lost from extra");
    crypto::Hash p2; bool hp = getPaymentIdFromTxExtra(e, p2); if (hp != hasPid || (hp && p2 != pid)) vh::fail("S01,R01", "extra-payment-id", "payment id in extra reads back as %s", hp ? "another" : "none");
    TransactionExtraTTL tt; bool ht = findTransactionExtraFieldByType(f, tt); if (ht != hasTtl || (ht && tt.ttl != ttl)) vh::fail("S01", "extra-ttl", "time to live in extra reads back differently");
    TransactionExtraMergeMiningTag m2; bool hm = getMergeMiningTagFromExtra(e, m2); if (hm != hasMm || (hm && (m2.depth != mm.depth || m2.merkleRoot != mm.merkleRoot))) vh::fail("S01", "extra-mm", "merge mining tag in extra reads back differently");
    TransactionExtraNonce nn; bool hn = findTransactionExtraFieldByType(f, nn); if (hasNonce && (!hn || str(nn.nonce) != nonce)) vh::fail("S01", "extra-nonce", "nonce in extra reads back differently");
    std::vector<uint8_t> e2; if (!writeTransactionExtra(e2, f) || e2 != e) vh::fail("S01", "extra-rewrite", "parsed extra fields do not write back to the same bytes");
  }
  vh::sample(vh::fmt("6 transactions, 4 blocks and ~600 mutations round-tripped; %zu identifiers recorded so far", ids().size()));
}

// ---------------------------------------------------------------- message registry
struct Filler : ISerializer {           // gives every field of any message a random value
  Rng& r; int depth = 0; bool narrow; Filler(Rng& q, bool nrw) : r(q), narrow(nrw) {}
  SerializerType type() const override { return INPUT; }
  bool beginObject(common::StringView) override { return true; }
  void endObject() override {}
  bool beginArray(size_t& n, common::StringView) override { ++depth; n = depth > 3 ? r.below(2) : r.chance(85) ? r.below(4) : depth == 1 ? r.below(40) : r.below(5); return true; }
  void endArray() override { --depth; }
  bool operator()(uint8_t& v, common::StringView) override { v = (uint8_t)r.edgy(8); return true; }
  bool operator()(int16_t& v, common::StringView) override { v = (int16_t)r.edgy(16); return true; }
  bool operator()(uint16_t& v, common::StringView) override { v = (uint16_t)r.edgy(16); return true; }
  bool operator()(int32_t& v, common::StringView) override { v = (int32_t)r.edgy(32); return true; }
  bool operator()(uint32_t& v, common::StringView) override { v = (uint32_t)r.edgy(32); return true; }
  bool operator()(int64_t& v, common::StringView) override { v = (int64_t)r.edgy(64); return true; }
  bool operator()(uint64_t& v, common::StringView) override { v = r.edgy(narrow ? 32 : 64); return true; }
  bool operator()(double& v, common::StringView) override { v = r.coin() ? (double)(int64_t)r.edgy(40) / 1000.0 : (double)r.below(1000000) / 1e9; return true; }
  bool operator()(bool& v, common::StringView) override { v = r.coin(); return true; }
  bool operator()(string& v, common::StringView) override {
    switch (r.below(6)) { case 0: v.clear(); break; case 1: v = r.bytes(r.below(40)); break; case 2: v = r.bytes(r.chance(10) ? r.below(70000) : r.below(300)); break;
      case 3: { static const char* odd[] = {"\"", "\\", "\\\"", "a\"b", "\n\r\t", "\\u0041", "\\\\", "{}", "[1,2]", "/\\/", "\x01\x02", "\xc3\xa9\xe2\x82\xac", "null", "a\\", "\"}", "\x7f\x80\xff"}; v.clear(); for (int i = r.below(4); i >= 0; --i) v += odd[r.below(16)]; break; }
      case 4: v = vh::hex(r.bytes(32)); break; default: v.clear(); for (int i = r.below(20); i > 0; --i) v += (char)(32 + r.below(95)); } return true; }
  bool binary(void* p, size_t n, common::StringView) override { r.fill(p, n); return true; }
  bool binary(string& v, common::StringView) override { v = r.bytes(r.chance(70) ? 96 * r.below(4) : r.below(300)); return true; }
};
struct Recorder : ISerializer {          // writes down every field of any message
  string o; int depth = 0;
  void nm(common::StringView n) { o.append(n.getData(), n.getSize()); o += '='; }
  SerializerType type() const override { return OUTPUT; }
  bool beginObject(common::StringView n) override { nm(n); o += '{'; return true; }
  void endObject() override { o += '}'; }
  bool beginArray(size_t& n, common::StringView m) override { nm(m); o += vh::fmt("[%zu:", n); return true; }
  void endArray() override { o += ']'; }
  template <class T> bool num(T v, common::StringView n) { nm(n); o += vh::fmt("%lld;", (long long)v); return true; }
  bool operator()(uint8_t& v, common::StringView n) override { return num(v, n); }
  bool operator()(int16_t& v, common::StringView n) override { return num(v, n); }
  bool operator()(uint16_t& v, common::StringView n) override { return num(v, n); }
  bool operator()(int32_t& v, common::StringView n) override { return num(v, n); }
  bool operator()(uint32_t& v, common::StringView n) override { return num(v, n); }
  bool operator()(int64_t& v, common::StringView n) override { return num(v, n); }
  bool operator()(uint64_t& v, common::StringView n) override { return num(v, n); }
  bool operator()(bool& v, common::StringView n) override { return num(v ? 1 : 0, n); }
  bool operator()(double& v, common::StringView n) override { nm(n); o += vh::fmt("%.9f;", v); return true; }
  bool operator()(string& v, common::StringView n) override { nm(n); o += vh::fmt("s%zu:", v.size()) + v + ";"; return true; }
  bool binary(void* p, size_t k, common::StringView n) override { nm(n); o += vh::fmt("b%zu:", k) + string((char*)p, k) + ";"; return true; }
  bool binary(string& v, common::StringView n) override { nm(n); o += vh::fmt("B%zu:", v.size()) + v + ";"; return true; }
};
template <class T> string rec(T& v) { Recorder s; serialize(v, s); return s.o; }
struct Msg {
  const char* name; int how;                                    // 1 binary, 2 JSON, 3 both
  std::function<void(Rng&, Rng*, const Msg&)> round;            // S03
  std::function<string(Rng&, bool json)> make;                  // a valid encoding
  std::function<bool(const string&, bool json)> feed;           // hostile decode
};
string around(const string& a, const string& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; size_t f = i > 40 ? i - 40 : 0; return vh::hex(a.substr(f, 90)) + " vs " + vh::hex(b.substr(f, 90)) + " text '" + a.substr(f, 60) + "' vs '" + b.substr(f, 60) + "'"; }
vector<Msg> gMsgs;
template <class T> bool fillMsg(T& v, Rng& r) {
  for (int i = 0; i < 12; ++i) { try { v = T(); Filler f(r, i > 2); serialize(v, f); rec(v); return true; } catch (std::exception&) {} }
  return false;
}
template <class T> void reg(const char* name, int how) {
  Msg m; m.name = name; m.how = how;
  m.round = [](Rng& r, Rng*, const Msg& me) {
    T v{}; if (!fillMsg(v, r)) { vh::stat("messages.unfillable"); vh::cover(string("unfillable ") + me.name); return; }
    string want = rec(v);
    if (me.how & 1) {
      string enc; try { enc = storeToBinaryKeyValue(v); } catch (std::exception& e) { vh::fail("S03", string("kv-encode ") + me.name, "%s cannot be encoded: %s", me.name, e.what()); }
      T w{}; bool ok = loadFromBinaryKeyValue(w, enc); vh::stat("messages.binary"); vh::cover(string("kv") + me.name + std::to_string(std::min<size_t>(want.size() / 32, 200)));
      if (!ok) vh::fail("S03", string("kv-refused ") + me.name, "%s: the binary encoding (%zu bytes) of a message is refused", me.name, enc.size());
      string got = rec(w); if (got != want) vh::fail("S03", string("kv-changed ") + me.name, "%s changed on the binary wire: %s", me.name, around(want, got).c_str());
      BinaryArray e2 = LevinProtocol::encode(v); T x{}; if (str(e2) != enc || !LevinProtocol::decode(e2, x) || rec(x) != want) vh::fail("S03", string("levin ") + me.name, "%s changed by the peer protocol encoding", me.name);
    }
    if (me.how & 2) {
      string enc; try { enc = storeToJson(v); } catch (std::exception& e) { vh::fail("S03", string("json-encode ") + me.name, "%s cannot be encoded as JSON: %s", me.name, e.what()); }
      T w{}; bool ok = false; string why; try { auto js = common::JsonValue::fromString(enc); loadFromJsonValue(w, js); ok = true; } catch (std::exception& e) { why = e.what(); } vh::stat("messages.json"); vh::cover(string("js") + me.name + std::to_string(std::min<size_t>(want.size() / 32, 200)));
      if (!ok) vh::fail("S03", string("json-refused ") + me.name, "%s: its JSON is refused (%s): %s", me.name, why.c_str(), enc.substr(0, 300).c_str());
      string got = rec(w); if (got != want) vh::fail("S03", string("json-changed ") + me.name, "%s changed in JSON: %s", me.name, around(want, got).c_str());
    }
  };
  m.make = [](Rng& r, bool json) { T v{}; fillMsg(v, r); try { return json ? storeToJson(v) : storeToBinaryKeyValue(v); } catch (std::exception&) { return string(); } };
  m.feed = [](const string& s, bool json) { T v{}; if (json) return loadFromJson(v, s); return LevinProtocol::decode(ba(s), v); };
  gMsgs.push_back(m);
}
#define M(T, how) reg<T>(#T, how)
void registerAll() {
#include "messages.inc"
}
void messageCase(long k, Rng& r) {
  for (size_t i = 0; i < gMsgs.size(); ++i) gMsgs[i].round(r, nullptr, gMsgs[i]);
  // JSON values on their own
  std::function<common::JsonValue(int)> gen = [&](int d) -> common::JsonValue {
    using common::JsonValue; Filler f(r, false); string s;
    switch (r.below(d > 3 ? 5 : 7)) {
      case 0: return JsonValue((JsonValue::Integer)(int64_t)r.edgy()); case 1: return JsonValue(r.coin()); case 2: { JsonValue v(nullptr); return v; }
      case 3: case 4: f(s, common::StringView("x")); return JsonValue(s);
      case 5: { JsonValue v(JsonValue::ARRAY); for (int n = r.below(4); n > 0; --n) v.pushBack(gen(d + 1)); return v; }
      default: { JsonValue v(JsonValue::OBJECT); for (int n = r.below(4); n > 0; --n) { f(s, common::StringView("x")); if (!v.contains(s)) v.insert(s, gen(d + 1)); } return v; }
    }
  };
  std::function<string(const common::JsonValue&)> dump = [&](const common::JsonValue& v) -> string {
    if (v.isInteger()) return "i" + std::to_string(v.getInteger()); if (v.isBool()) return v.getBool() ? "T" : "F"; if (v.isNil()) return "N"; if (v.isString()) return "s" + std::to_string(v.getString().size()) + ":" + v.getString();
    if (v.isArray()) { string o = "["; for (auto& x : v.getArray()) o += dump(x) + ","; return o + "]"; } string o = "{"; for (auto& x : v.getObject()) o += std::to_string(x.first.size()) + ":" + x.first + "=" + dump(x.second) + ","; return o + "}"; };
  for (int i = 0; i < 40; ++i) {
    common::JsonValue v = gen(0); string t = v.toString(); vh::stat("json.values");
    for (int sp = 0; sp < 2; ++sp) {
      common::JsonValue w; try { w = sp ? common::JsonValue::fromStringWithWhiteSpaces(t) : common::JsonValue::fromString(t); } catch (std::exception& e) { vh::fail("S03", "json-value-refused", "a JSON text the node wrote is refused (%s): %s", e.what(), t.substr(0, 400).c_str()); }
      if (dump(w) != dump(v)) vh::fail("S03", sp ? "json-value-changed-ws" : "json-value-changed", "a JSON value changed when written and read: %s", around(dump(v), dump(w)).c_str());
    }
  }
  // HTTP as text
  auto token = [&](int n) { string s; while ((int)s.size() < n) s += "abcdefghijklmnopqrstuvwxyz-0123456789"[r.below(37)]; return s; };
  auto value = [&]() { string s; for (int n = 1 + r.below(30); n > 0; --n) s += r.chance(20) ? ':' : r.chance(20) ? ' ' : (char)(33 + r.below(94)); while (s.size() && s[0] == ' ') s.erase(0, 1); return s.empty() ? string("v") : s; };
  auto body = [&]() { return r.chance(30) ? string() : r.bytes(r.chance(80) ? r.below(200) : r.below(9000)); };
  for (int i = 0; i < 20; ++i) {
    HttpRequest q; string url = "/" + token(r.below(20)); q.setUrl(url); std::map<string, string> h; for (int n = r.below(5); n > 0; --n) { string a = "x" + token(r.below(9)), b = value(); h[a] = b; q.addHeader(a, b); } string bd = body(); q.setBody(bd);
    std::stringstream ss; ss << q; string left = r.bytes(r.below(9)); ss << left; HttpRequest p; HttpParser hp; vh::stat("http.requests");
    try { hp.receiveRequest(ss, p); } catch (std::exception& e) { vh::fail("S03", "http-request-refused", "an HTTP request the node wrote is refused: %s", e.what()); }
    if (p.getUrl() != url || p.getMethod() != "POST" || p.getBody() != bd) vh::fail("S03", "http-request-changed", "an HTTP request changed on the wire (url %s vs %s, body %zu vs %zu)", url.c_str(), p.getUrl().c_str(), bd.size(), p.getBody().size());
    for (auto& x : h) { auto it = p.getHeaders().find(x.first); if (it == p.getHeaders().end() || it->second != x.second) vh::fail("S03", "http-header-changed", "HTTP header '%s: %s' was read as '%s'", x.first.c_str(), x.second.c_str(), it == p.getHeaders().end() ? "(missing)" : it->second.c_str()); }
    std::stringstream rest; rest << ss.rdbuf(); if (rest.str() != left) vh::fail("S03", "http-framing", "an HTTP request consumed %zd bytes too many", (ssize_t)left.size() - (ssize_t)rest.str().size());
    HttpResponse a; HttpResponse::HTTP_STATUS st = (HttpResponse::HTTP_STATUS)r.below(4); a.setStatus(st); for (auto& x : h) a.addHeader(x.first, x.second); if (r.coin() || st == HttpResponse::STATUS_200) a.setBody(bd); bd = a.getBody();
    std::stringstream s2; s2 << a << left; HttpResponse b; vh::stat("http.responses");
    try { hp.receiveResponse(s2, b); } catch (std::exception& e) { vh::fail("S03", "http-response-refused", "an HTTP response the node wrote is refused: %s", e.what()); }
    if (b.getStatus() != st || b.getBody() != bd) vh::fail("S03", "http-response-changed", "an HTTP response changed on the wire (status %d vs %d, body %zu vs %zu)", (int)st, (int)b.getStatus(), bd.size(), b.getBody().size());
    for (auto& x : h) { auto it = b.getHeaders().find(x.first); if (it == b.getHeaders().end() || it->second != x.second) vh::fail("S03", "http-header-changed", "HTTP header '%s: %s' was read as '%s'", x.first.c_str(), x.second.c_str(), it == b.getHeaders().end() ? "(missing)" : it->second.c_str()); }
    std::stringstream r2; r2 << s2.rdbuf(); if (r2.str() != left) vh::fail("S03", "http-framing", "an HTTP response consumed %zd bytes too many", (ssize_t)left.size() - (ssize_t)r2.str().size());
  }
  { HttpRequest p; std::stringstream ss("GET /x HTTP/1.0\r\n\r\nrest"); vh::stat("http.requests"); try { HttpParser().receiveRequest(ss, p); } catch (std::exception& e) { vh::fail("S03", "http-bare-request", "an HTTP request without headers is refused: %s", e.what()); } std::stringstream rest; rest << ss.rdbuf(); if (p.getMethod() != "GET" || p.getUrl() != "/x" || !p.getBody().empty() || rest.str() != "rest") vh::fail("S03", "http-bare-request", "an HTTP request without headers is misread"); }
  // framing over a real loopback connection, bytes arriving in arbitrary pieces
  using namespace platform_system;
  Dispatcher d; TcpListener lis; uint16_t port = 0; for (int t = 0; t < 200; ++t) { port = anyPort(); try { lis = TcpListener(d, Ipv4Address("127.0.0.1"), port); break; } catch (std::exception&) { port = 0; } }
  if (!port) { vh::stat("framing.noport"); return; }
  struct Fr { uint32_t cmd; string body; int kind; int32_t rc; }; vector<Fr> sent; for (int n = 1 + r.below(12); n > 0; --n) sent.push_back({(uint32_t)r.edgy(32), r.bytes(r.chance(15) ? r.below(200000) : r.chance(20) ? 0 : r.below(600)), (int)r.below(3), (int32_t)r.edgy(31)});
  string wire; for (auto& f : sent) { uint64_t sig = 0x0101010101012101ULL, n = f.body.size(); uint32_t fl = f.kind == 2 ? 2 : 1, ver = 1; int32_t rc = f.kind == 2 ? f.rc : 0; char need = f.kind == 1; raw(wire, sig); raw(wire, n); wire += need; raw(wire, f.cmd); raw(wire, rc); raw(wire, fl); raw(wire, ver); wire += f.body; }
  string got; vector<LevinProtocol::Command> cmds; string err; bool eof = false; size_t cut = r.chance(30) ? r.below(wire.size()) : wire.size(); uint64_t pieces = 0;
  ContextGroup g(d);
  g.spawn([&] { try { TcpConnection c = lis.accept(); LevinProtocol lp(c); for (auto& f : sent) { BinaryArray b = ba(f.body); if (f.kind == 2) lp.sendReply(f.cmd, b, f.rc); else lp.sendMessage(f.cmd, b, f.kind == 1); } LevinProtocol::Command c2; while (lp.readCommand(c2)) cmds.push_back(c2); eof = true; } catch (std::exception& e) { err = e.what(); } });
  g.spawn([&] { try { TcpConnection c = TcpConnector(d).connect(Ipv4Address("127.0.0.1"), port); vector<uint8_t> buf(70000);
      while (got.size() < wire.size()) { size_t n = c.read(buf.data(), 1 + r.below(r.coin() ? 40 : buf.size())); if (!n) break; got.append((char*)buf.data(), n); }
      size_t o = 0; while (o < cut) { size_t n = std::min<size_t>(cut - o, 1 + r.below(r.chance(60) ? 7 : r.chance(70) ? 400 : 60000)); if (cut - o > 4000 && n < 50 && r.chance(90)) n = std::min<size_t>(cut - o, 3000); o += c.write((const uint8_t*)wire.data() + o, n); ++pieces; if (r.coin()) d.yield(); } } catch (std::exception& e) { err = string("peer: ") + e.what(); g.interrupt(); } });
  g.wait();
  vh::stat("framing.frames", sent.size()); vh::stat("framing.pieces", pieces); vh::cover(vh::fmt("frames%zu/%zu", sent.size(), wire.size() / 1000));
  if (got != wire) vh::fail("S03", "framing-sent", "the bytes on the peer connection are not the documented frames of the messages sent: %s", around(wire, got).c_str());
  if (!err.empty() ) vh::fail("S03", "framing-error", "reading well-formed frames failed: %s", err.c_str());
  size_t full = 0, acc = 0; for (auto& f : sent) { acc += 33 + f.body.size(); if (acc <= cut) ++full; }
  if (!eof || cmds.size() != full) vh::fail("S03", "framing-count", "%zu of %zu complete frames were delivered", cmds.size(), full);
  for (size_t i = 0; i < cmds.size(); ++i) if (cmds[i].command != sent[i].cmd || str(cmds[i].buf) != sent[i].body || cmds[i].isResponse != (sent[i].kind == 2) || cmds[i].needReply() != (sent[i].kind == 1)) vh::fail("S03", "framing-changed", "frame %zu arrived changed", i);
  if (k % 8 == 0) vh::sample(vh::fmt("%zu message types round-tripped, %zu frames in %llu pieces", gMsgs.size(), sent.size(), (unsigned long long)pieces));
}

// ---------------------------------------------------------------- S02
struct Watch { long base; double t0; size_t n; const char* what; const string& in;
  Watch(const char* w, const string& s) : n(s.size()), what(w), in(s) { base = gLive; gPeak = base; t0 = cpu(); }
  void done() {
    double t = cpu() - t0; long pk = gPeak - base; vh::stat("hostile"); vh::cover(string(what) + std::to_string(pk > 0 ? (int)std::log2((double)pk) : 0) + "/" + std::to_string((int)std::log2((double)n + 1)));
    if (pk > 24 * 1024 * 1024L + 700L * (long)n) vh::fail("S02", string("memory ") + what, "%s: %ld bytes allocated for an input of %zu bytes: %s", what, pk, n, vh::hex(in, 60).c_str());
    if (t > (6 + n / 20000.0) * kSlow) vh::fail("S02", string("time ") + what, "%s: %.1f s for an input of %zu bytes: %s", what, t, n, vh::hex(in, 60).c_str());
  } };
void guard(const char* what, const string& in, const std::function<void()>& f) {
  Watch w(what, in);
  try { f(); vh::stat("hostile.decoded"); } catch (vh::CaseAbort&) { throw; } catch (std::exception&) { vh::stat("hostile.thrown"); } catch (...) { vh::fail("S02", string("exception ") + what, "%s: something that is no standard exception escaped", what); }
  w.done();
}
void decodeOne(Rng& r, const string& what, const string& s) {
  if (what == "tx") guard("transaction", s, [&] { Transaction t; crypto::Hash a, b; BinaryArray x = ba(s); if (parseAndValidateTransactionFromBinaryArray(x, t, a, b)) { check_outs_valid(t); check_inputs_types_supported(t); check_money_overflow(t); check_outs_overflow(t); checkMultisignatureInputsDiff(t); uint64_t m = 0; get_inputs_money_amount(t, m); getTransactionPublicKeyFromExtra(t.extra); gCur->getTransactionAllInputsAmount(t, 1); vector<TransactionExtraField> f; parseTransactionExtra(t.extra, f); for (auto& i : t.inputs) if (i.type() == typeid(KeyInput)) relative_output_offsets_to_absolute(boost::get<KeyInput>(i).outputIndexes); }
      auto p = createTransaction(x); for (size_t i = 0; i < p->getInputCount() && i < 20; ++i) p->getInputType(i); p->getTransactionData(); p->validateInputs(); p->validateOutputs(); p->validateSignatures(); p->getPaymentId(a); });
  else if (what == "block") guard("block", s, [&] { Block b; if (fromBinaryArray(b, ba(s))) { crypto::Hash h; get_block_hash(b, h); get_aux_block_header_hash(b, h); if (!b.baseTransaction.inputs.empty()) get_block_height(b); } });
  else if (what == "extra") guard("extra", s, [&] { auto e = ba(s); vector<TransactionExtraField> f; bool ok = parseTransactionExtra(e, f); if (ok) { std::vector<uint8_t> o; writeTransactionExtra(o, f); } crypto::Hash h; getPaymentIdFromTxExtra(e, h); TransactionExtraMergeMiningTag mm; getMergeMiningTagFromExtra(e, mm); getTransactionPublicKeyFromExtra(e); crypto::SecretKey sk; memset(&sk, 5, sizeof sk); crypto::PublicKey pk; memset(&pk, 0, 32); pk.data[0] = 1; get_messages_from_extra(e, pk, &sk); get_messages_from_extra(e, pk, nullptr); });
  else if (what == "http") { guard("http request", s, [&] { std::stringstream ss(s); HttpRequest q; HttpParser().receiveRequest(ss, q); }); guard("http response", s, [&] { std::stringstream ss(s); HttpResponse q; HttpParser().receiveResponse(ss, q); }); }
  else if (what == "json") { guard("json", s, [&] { common::JsonValue v = common::JsonValue::fromString(s); v.toString(); }); guard("json rpc", s, [&] { JsonRpc::JsonRpcRequest q; q.parseRequest(s); q.getId(); }); guard("json rpc response", s, [&] { JsonRpc::JsonRpcResponse q; q.parse(s); JsonRpc::JsonRpcError e; q.getError(e); }); }
  else if (what == "text") {
    guard("address", s, [&] { AccountPublicAddress a; uint64_t p; parseAccountAddressString(p, a, s); gCur->parseAccountAddressString(s, a); string d; uint64_t t; tools::base_58::decode(s, d); tools::base_58::decode_addr(s, t, d); });
    guard("mnemonic", s, [&] { mnemonics::mnemonicToPrivateKey(s); });
    guard("amount", s, [&] { uint64_t a; gCur->parseAmount(s, a); });
    guard("hex", s, [&] { crypto::Hash h; common::podFromHex(s, h); parse_hash256(s, h); parsePaymentId(s, h); std::vector<uint8_t> v; common::fromHex(s, v); std::vector<uint8_t> e; createTxExtraWithPaymentId(s, e); string x; addPaymentIdToExtra(s, x); });
    guard("base64", s, [&] { common::base64Decode(s); tools::base_64::encode(s); });
    guard("endpoint", s, [&] { uint32_t a, b; common::parseIpAddressAndPort(a, b, s); });
    guard("delimited", s, [&] { vector<uint32_t> v; common::fromDelimitedString(s, ',', v); string t = s; while (t.size()) common::extract(t, '\n'); });
  } else if (what == "levin") {
    int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) return; close(sv[0]); close(sv[1]);
    using namespace platform_system; Dispatcher d; TcpListener lis; uint16_t port = 0; for (int t = 0; t < 100; ++t) { port = anyPort(); try { lis = TcpListener(d, Ipv4Address("127.0.0.1"), port); break; } catch (std::exception&) { port = 0; } }
    if (!port) return; bool oops = false; ContextGroup g(d); Watch w("levin", s);
    g.spawn([&] { try { TcpConnection c = lis.accept(); LevinProtocol lp(c); LevinProtocol::Command cmd; while (lp.readCommand(cmd)) if (cmd.needReply()) d.yield(); } catch (std::exception&) {} catch (...) { oops = true; } });
    g.spawn([&] { try { TcpConnection c = TcpConnector(d).connect(Ipv4Address("127.0.0.1"), port); size_t o = 0; while (o < s.size()) o += c.write((const uint8_t*)s.data() + o, s.size() - o); } catch (std::exception&) { g.interrupt(); } });
    g.wait(); if (oops) vh::fail("S02", "exception levin", "something that is no standard exception escaped from the frame reader"); w.done();
  }
}
// ---- a message as a tree, so that it can be given a wrong shape and still be well-formed bytes
struct KV { uint8_t type = 0; string raw; vector<std::pair<string, KV>> kids; }; // type 12 object, 0x80|t array of t, 10 string, else a number in raw
uint64_t kvLen(const string& s, size_t& o) { if (o >= s.size()) throw 1; int n = 1 << (s[o] & 3); if (o + n > s.size()) throw 1; uint64_t v = 0; for (int i = 0; i < n; ++i) v |= (uint64_t)(uint8_t)s[o + i] << (8 * i); o += n; return v >> 2; }
string kvTake(const string& s, size_t& o, size_t n) { if (n > s.size() - o) throw 1; o += n; return s.substr(o - n, n); }
size_t kvSize(uint8_t t) { switch (t) { case 1: case 5: case 9: return 8; case 2: case 6: return 4; case 3: case 7: return 2; case 4: case 8: case 11: return 1; } return 0; }
KV kvRead(const string& s, size_t& o, uint8_t t, int d) {
  KV v; v.type = t; if (d > 40) throw 1;
  if (t & 0x80) { for (uint64_t n = kvLen(s, o); n > 0; --n) v.kids.push_back({"", kvRead(s, o, t & 0x7f, d + 1)}); }
  else if (t == 12) { for (uint64_t n = kvLen(s, o); n > 0; --n) { uint8_t l = (uint8_t)kvTake(s, o, 1)[0]; string nm = kvTake(s, o, l); uint8_t ty = (uint8_t)kvTake(s, o, 1)[0]; v.kids.push_back({nm, kvRead(s, o, ty, d + 1)}); } }
  else if (t == 10) v.raw = kvTake(s, o, kvLen(s, o)); else { if (!kvSize(t)) throw 1; v.raw = kvTake(s, o, kvSize(t)); }
  return v;
}
void kvPutLen(string& o, uint64_t n) { if (n <= 63) o += (char)(n << 2); else if (n <= 16383) { n = n << 2 | 1; o += (char)n; o += (char)(n >> 8); } else { n = n << 2 | 2; for (int i = 0; i < 4; ++i) o += (char)(n >> (8 * i)); } }
void kvWrite(string& o, const KV& v) {
  if (v.type & 0x80) { kvPutLen(o, v.kids.size()); for (auto& c : v.kids) kvWrite(o, c.second); }
  else if (v.type == 12) { kvPutLen(o, v.kids.size()); for (auto& c : v.kids) { o += (char)c.first.size(); o += c.first; o += (char)c.second.type; kvWrite(o, c.second); } }
  else if (v.type == 13) kvPutLen(o, 0);
  else if (v.type == 10) { kvPutLen(o, v.raw.size()); o += v.raw; } else { string x = v.raw; x.resize(kvSize(v.type)); o += x; }
}
common::JsonValue kvJson(const KV& v) {
  using common::JsonValue; if (v.type & 0x80) { JsonValue a(JsonValue::ARRAY); for (auto& c : v.kids) a.pushBack(kvJson(c.second)); return a; }
  if (v.type == 12) { JsonValue a(JsonValue::OBJECT); for (auto& c : v.kids) a.set(c.first, kvJson(c.second)); return a; }
  if (v.type == 10) return JsonValue(v.raw); if (v.type == 11) return JsonValue(v.raw != string(1, 0)); if (v.type == 13) { JsonValue n(nullptr); return n; }
  uint64_t x = 0; memcpy(&x, v.raw.data(), std::min<size_t>(8, v.raw.size())); return JsonValue((JsonValue::Integer)x);
}
KV jsonKv(const common::JsonValue& j) {
  KV v; if (j.isArray()) { v.type = 0x80; for (auto& c : j.getArray()) v.kids.push_back({"", jsonKv(c)}); } else if (j.isObject()) { v.type = 12; for (auto& c : j.getObject()) v.kids.push_back({c.first, jsonKv(c.second)}); }
  else if (j.isString()) { v.type = 10; v.raw = j.getString(); } else if (j.isInteger()) { v.type = 1; int64_t x = j.getInteger(); v.raw.assign((char*)&x, 8); } else if (j.isBool()) { v.type = 11; v.raw = string(1, (char)j.getBool()); } else v.type = 13; return v;
}
void kvAll(KV& v, vector<KV*>& o) { o.push_back(&v); for (auto& c : v.kids) kvAll(c.second, o); }
void kvWarp(Rng& r, KV& root) { // changes the shape at one place
  vector<KV*> a; kvAll(root, a); KV& v = *a[a.size() == 1 ? 0 : r.range(1, a.size() - 1)]; KV w;
  switch (r.below(9)) {
    case 0: { KV x = v; v = KV(); v.type = (uint8_t)(0x80 | (x.type & 0x7f)); if (x.type & 0x80) { v.type = 0x80 | 12; KV y; y.type = 12; y.kids.push_back({"a", x}); v.kids.push_back({"", y}); } else for (int n = r.below(4); n >= 0; --n) v.kids.push_back({"", x}); break; }  // a value becomes an array of such values
    case 1: { KV x = v; v = KV(); v.type = 12; v.kids.push_back({r.coin() ? "" : "a", x}); break; }                                             // ... an object
    case 2: v = KV(); v.type = 10; v.raw = r.bytes(r.below(70)); break;
    case 3: { static const uint8_t t[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 11}; v = KV(); v.type = t[r.below(10)]; uint64_t x = r.edgy(); v.raw.assign((char*)&x, kvSize(v.type)); break; }
    case 4: if (v.kids.size()) v.kids.erase(v.kids.begin() + r.below(v.kids.size())); else if (v.type == 10) v.raw.resize(r.below(v.raw.size() + 1)); break;
    case 5: if (v.kids.size()) { auto x = r.pick(v.kids); for (int n = r.below(6); n >= 0; --n) v.kids.insert(v.kids.begin() + r.below(v.kids.size() + 1), x); } else if (v.type == 10) v.raw += r.bytes(1 + r.below(40)); break;
    case 6: if (v.kids.size()) { if ((v.type & 0x7f) == 12 && !(v.type & 0x80)) v.kids[r.below(v.kids.size())].first = r.bytes(r.below(6)); else v.kids.clear(); } else if (v.type == 10 && v.raw.size()) v.raw[r.below(v.raw.size())] ^= (char)(1 << r.below(8)); break;
    case 7: { KV& o = *r.pick(a); KV x = o; if (x.kids.size() < 50) v = x; break; }                                                            // a copy of another part
    default: v = KV(); v.type = r.coin() ? 13 : 0x80 | 13; if (v.type != 13) for (int n = r.below(4); n > 0; --n) { KV e; e.type = 13; v.kids.push_back({"", e}); }
  }
}
void hostileCase(long k, Rng& r) {
  std::map<string, vector<string>> pool;
  auto put = [&](const string& w, const string& s) { auto& p = pool[w]; if (p.size() < 60) p.push_back(s); else p[r.below(60)] = s; };
  { BinaryArray b; Transaction t = rndTx(r, r.chance(10)); toBinaryArray(t, b); put("tx", str(b)); put("extra", str(t.extra)); }
  { BinaryArray b; toBinaryArray(rndBlock(r), b); put("block", str(b)); }
  { std::vector<uint8_t> e; addTransactionPublicKeyToExtra(e, pod<crypto::PublicKey>(r)); BinaryArray n; setPaymentIdToTransactionExtraNonce(n, pod<crypto::Hash>(r)); addExtraNonceToTransactionExtra(e, n); appendTTLToExtra(e, r.edgy()); TransactionExtraMergeMiningTag mm; mm.depth = 3; mm.merkleRoot = pod<crypto::Hash>(r); appendMergeMiningTagToExtra(e, mm); tx_extra_message m; m.data = r.bytes(r.below(90)); append_message_to_extra(e, m); put("extra", str(e)); }
  { AccountBase a; a.generate(); put("text", gCur->accountAddressAsString(a)); put("text", mnemonics::privateKeyToMnemonic(a.getAccountKeys().spendSecretKey)); put("text", vh::hex(r.bytes(32))); put("text", gCur->formatAmount(r.edgy())); put("text", vh::fmt("%d.%d.%d.%d:%d", (int)r.below(300), (int)r.below(256), (int)r.below(256), (int)r.below(256), (int)r.below(70000))); put("text", "1,2,,3,4294967296,x"); }
  { std::stringstream ss; HttpRequest q; q.setUrl("/json_rpc"); q.addHeader("A", "b: c"); q.setBody(r.bytes(r.below(60))); ss << q; put("http", ss.str()); HttpResponse a; a.setStatus((HttpResponse::HTTP_STATUS)r.below(4)); if (r.coin()) a.setBody(r.bytes(50)); std::stringstream s2; s2 << a; put("http", s2.str()); put("http", "GET / HTTP/1.1\r\n\r\n"); put("http", "POST /x HTTP/1.1\r\nContent-Length: 18446744073709551615\r\n\r\nabc"); put("http", "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\nabc"); }
  { string w; for (int n = 1 + r.below(3); n > 0; --n) { string bd = r.bytes(r.below(50)); uint64_t sig = 0x0101010101012101ULL, sz = r.chance(30) ? r.edgy() : r.chance(20) ? 100 * 1000 * 1000 - r.below(3) : bd.size(); uint32_t c = 2000 + r.below(10), fl = (uint32_t)r.edgy(32), v = 1; raw(w, sig); raw(w, sz); w += (char)r.edgy(8); raw(w, c); raw(w, v); raw(w, fl); raw(w, v); w += bd; } put("levin", w); }
  put("json", "{\"jsonrpc\":\"2.0\",\"id\":" + std::to_string(r.below(9)) + ",\"method\":\"getblockhash\",\"params\":[1,2.5e3,\"\\u0041\\n\",{\"a\":null,\"b\":[true,false]}],\"error\":{\"code\":-1,\"message\":\"m\"}}");
  vector<string> all; for (auto& p : pool) for (int i = 0; i < 4; ++i) all.push_back(r.pick(p.second));
  for (auto& p : pool) {
    int n = p.first == "levin" ? 3 : p.first == "text" ? 12 : 24;
    for (int i = 0; i < n; ++i) {
      string s = r.pick(p.second); if (!r.chance(5)) s = mutate(r, s, all);
      // inflate length fields: a huge varint somewhere
      if (r.chance(15) && s.size()) { string v; vi(v, r.coin() ? 128 * 1024 * 1024 - r.below(2) : r.edgy(40)); s.replace(r.below(s.size()), 1 + r.below(2), v); if (r.coin()) s.resize(std::min<size_t>(s.size(), 200)); }
      decodeOne(r, p.first, s);
    }
  }
  // messages of every type
  for (auto& m : gMsgs) for (int js = 0; js < 2; ++js) {
    if (!(m.how & (js ? 2 : 1))) continue; string s = m.make(r, js); if (s.empty()) continue;
    for (int i = 0; i < 2; ++i) {
      string t = mutate(r, s, all); if (r.chance(30) && t.size() > 12) { size_t p = r.range(9, t.size() - 1); if (!js) { static const unsigned char ty[] = {1, 2, 5, 8, 9, 10, 11, 12, 13, 0x8a, 0x8c, 0x8d, 0x85, 0xff, 0}; t[p] = (char)ty[r.below(sizeof ty)]; } else { static const char* bits[] = {"[", "]", "{", "}", "\"", "\\", ",", ":", "-", "1e999", "99999999999999999999999", "null", "true", "0.", "\"\""}; t.replace(p, 1, bits[r.below(15)]); } }
      if (!js && r.chance(20) && t.size() > 12) { uint64_t v = (r.coin() ? 128ULL * 1024 * 1024 - r.below(3) : r.edgy(60)) << 2 | r.below(4); t.replace(r.range(9, t.size() - 1), r.below(4), string((char*)&v, 1 + r.below(8))); }
      guard(m.name, t, [&] { m.feed(t, js); });
    }
    for (int i = 0; i < 3; ++i) { // well-formed, but of the wrong shape
      KV v; string t; try { if (js) v = jsonKv(common::JsonValue::fromString(s)); else { size_t o = 9; v = kvRead(s, o, 12, 0); } } catch (...) { vh::stat("hostile.untreed"); break; }
      for (int n = 1 + (r.chance(30) ? r.below(4) : 0); n > 0; --n) kvWarp(r, v); if (js) t = kvJson(v).toString(); else { t = s.substr(0, 9); kvWrite(t, v); }
      vh::stat("hostile.shapes"); guard(m.name, t, [&] { m.feed(t, js); });
    }
    // the message fed to another type's decoder
    if (r.chance(10)) { auto& o = r.pick(gMsgs); guard(o.name, s, [&] { o.feed(s, js); }); }
  }
  if (k % 8 == 0) { // nesting and repetition
    size_t n = (size_t)r.range(1000, 250000); string hdr("\x01\x11\x01\x01\x01\x01\x02\x01\x01", 9);
    auto rep = [&](const string& u) { string o; o.reserve(u.size() * n); for (size_t i = 0; i < n; ++i) o += u; return o; };
    vector<std::pair<const char*, string>> deep = {{"json", rep("[")}, {"json", rep("{\"a\":")}, {"json", rep("[{\"\":")}, {"json", rep("[") + rep("]")}, {"json", "{\"params\":" + rep("[") + rep("]") + "}"}, {"json", "\"" + rep("\\") + "\""}, {"json", rep("[1,") }, {"json", "-" + rep("9")}, {"json", "0." + rep("9") + "e9"}};
    for (auto& d : deep) { decodeOne(r, d.first, d.second); auto& m = r.pick(gMsgs); guard(m.name, d.second, [&] { m.feed(d.second, true); }); }
    vector<string> bin = {hdr + string("\x04\x01\x61\x8d\x04", 5) + rep(string("\x04", 1)), hdr + rep(string("\x04\x01\x61\x0c", 4)), hdr + string("\x04\x01\x61\x8c\x04", 5) + rep(string("\x04\x01\x61\x8c\x04", 5)), hdr + string("\x04\x01\x61\x88", 4) + rep("\xff"), hdr + rep(string("\x04\x00\x0d", 3)), hdr + string("\xff\xff\xff\xff\xff\xff\xff\xff", 8)};
    for (auto& b : bin) for (int i = 0; i < 3; ++i) { auto& m = r.pick(gMsgs); guard(m.name, b, [&] { m.feed(b, false); }); }
    decodeOne(r, "http", "POST / HTTP/1.1\r\n" + rep("a:b\r\n") + "\r\n"); decodeOne(r, "http", rep("A")); decodeOne(r, "text", rep("1").substr(0, 20000)); decodeOne(r, "text", rep("z").substr(0, 20000)); decodeOne(r, "extra", rep(string(1, 0))); decodeOne(r, "extra", rep(string("\x04\x00", 2))); decodeOne(r, "extra", rep(string("\x02\x00", 2)));
    string v; vi(v, 128 * 1024 * 1024); string t0("\x01\x00\x01\x02\x05", 5); decodeOne(r, "tx", t0 + v); decodeOne(r, "tx", string("\x01\x00", 2) + v); decodeOne(r, "tx", string("\x01\x00\x00", 3) + v); decodeOne(r, "tx", string("\x01\x00\x00\x00", 4) + v); decodeOne(r, "tx", string("\x01\x00\x00\x01\x05\x03", 6) + v);
    Block b = rndBlock(r); b.transactionHashes.clear(); string e = encBlock(b); e.resize(e.size() - 1); decodeOne(r, "block", e + v);
    vh::sample(vh::fmt("nesting %zu deep in JSON and binary messages, inflated lengths; peak heap so far %ld", n, (long)gPeak));
  }
}

// ---------------------------------------------------------------- S04
string upper(string s) { for (auto& c : s) c = (char)toupper(c); return s; }
string corrupt(Rng& r, string s, const string& alpha) {
  size_t p = r.below(s.size());
  switch (r.below(6)) { case 0: s[p] = alpha[r.below(alpha.size())]; break; case 1: s.erase(p, 1); break; case 2: s.insert(p, 1, alpha[r.below(alpha.size())]); break;
    case 3: if (p + 1 < s.size()) std::swap(s[p], s[p + 1]); break; case 4: s[p] = (char)r.next(); break; default: std::swap(s[p], s[r.below(s.size())]); }
  return s;
}
const string B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
void textCase(long k, Rng& r) {
  AccountBase acc; acc.generate(); AccountPublicAddress ad = acc.getAccountKeys().address; uint64_t prefix = gCur->publicAddressBase58Prefix();
  // addresses
  string s = gCur->accountAddressAsString(ad); AccountPublicAddress back;
  auto same = [](const AccountPublicAddress& a, const AccountPublicAddress& b) { return !memcmp(&a, &b, sizeof a); };
  if (!gCur->parseAccountAddressString(s, back) || !same(ad, back)) vh::fail("S04", "address-roundtrip", "address %s does not read back", s.c_str());
  if (getAccountAddressAsStr(prefix, ad) != s) vh::fail("S04", "address-roundtrip", "two spellings of one address");
  vh::stat("address.valid");
  for (int i = 0; i < 60; ++i) {
    string c = corrupt(r, s, B58); if (c == s) continue; AccountPublicAddress x; bool ok = gCur->parseAccountAddressString(c, x); vh::stat("address.corrupt"); vh::cover("addr" + std::to_string(c.size()) + ":" + c.substr(0, 3));
    if (ok) vh::fail("S04", same(x, ad) ? "address-alias" : "address-corrupt", "corrupted address %s (of %s) is accepted%s", c.c_str(), s.c_str(), same(x, ad) ? " as the same address" : "");
  }
  { // addresses made by hand: any tag, any length, any key bytes
    auto build = [&](uint64_t tag, string data, bool okSum) { string b; vi(b, tag); b += data; string h = ref::keccak(b); if (!okSum) h[r.below(4)] ^= 1; return tools::base_58::encode(b + h.substr(0, 4)); };
    string keys((const char*)&ad, 64);
    AccountPublicAddress x; vh::stat("address.crafted", 6);
    if (!gCur->parseAccountAddressString(build(prefix, keys, true), x) || !same(x, ad)) vh::fail("S04", "address-crafted", "an address spelled as documented is refused");
    if (build(prefix, keys, true) != s) vh::fail("S04", "address-format", "an address is not spelled as documented");
    if (gCur->parseAccountAddressString(build(prefix ^ (1 + r.below(200)), keys, true), x)) vh::fail("S04", "address-foreign", "an address of another network is accepted");
    if (gCur->parseAccountAddressString(build(prefix, keys, false), x)) vh::fail("S04", "address-checksum", "an address with a wrong checksum is accepted");
    if (gCur->parseAccountAddressString(build(prefix, keys + r.bytes(1 + r.below(9)), true), x)) vh::fail("S04", "address-long", "an address with extra bytes is accepted");
    if (gCur->parseAccountAddressString(build(prefix, keys.substr(0, 63 - r.below(30)), true), x)) vh::fail("S04", "address-short", "an address with missing bytes is accepted");
    string junk = r.coin() ? r.bytes(32) + keys.substr(32) : keys.substr(0, 32) + r.bytes(32); crypto::PublicKey p1, p2; memcpy(&p1, junk.data(), 32); memcpy(&p2, junk.data() + 32, 32); auto valid = [](const crypto::PublicKey& p) { ref::Pt q; return ref::dec(&p, q); };
    bool want = valid(p1) && valid(p2), got = gCur->parseAccountAddressString(build(prefix, junk, true), x); vh::stat(want ? "address.curve" : "address.offcurve");
    if (want != got) vh::fail("S04", "address-keys", "an address whose keys are %s curve points is %s", want ? "" : "not", got ? "accepted" : "refused");
  }
  { // Base58 of anything
    string d = r.bytes(r.below(70)), e = tools::base_58::encode(d), b; vh::stat("base58"); if (!tools::base_58::decode(e, b) || b != d) vh::fail("S04", "base58-roundtrip", "Base58 of %s reads back as %s", vh::hex(d).c_str(), vh::hex(b).c_str());
    for (int i = 0; i < 10 && e.size(); ++i) { string c = corrupt(r, e, B58), o; if (tools::base_58::decode(c, o) && tools::base_58::encode(o) != c) vh::fail("S04", "base58-alias", "Base58 text %s reads as bytes that are spelled %s", c.c_str(), tools::base_58::encode(o).c_str()); }
    uint64_t tag = r.edgy(), t2; string d2; if (!tools::base_58::decode_addr(tools::base_58::encode_addr(tag, d), t2, d2) || t2 != tag || d2 != d) vh::fail("S04", "base58-addr", "tagged Base58 does not read back");
  }
  // mnemonic seeds
  for (int i = 0; i < 4; ++i) {
    crypto::SecretKey sk = pod<crypto::SecretKey>(r); if (i == 0) sk = acc.getAccountKeys().spendSecretKey; if (i == 1) { memset(&sk, 0, 32); for (int j = 0; j < 8; ++j) { uint32_t v = (uint32_t)r.edgy(32); memcpy(sk.data + 4 * j, &v, 4); } }
    string m = mnemonics::privateKeyToMnemonic(sk); crypto::SecretKey b = mnemonics::mnemonicToPrivateKey(m); vh::stat("mnemonic.valid");
    if (memcmp(&b, &sk, 32)) vh::fail("S04", "mnemonic-roundtrip", "a key's seed words read back as another key: %s", m.c_str());
    vector<string> w; { std::istringstream is(m); string x; while (is >> x) w.push_back(x); }
    if (w.size() != 25) vh::fail("S04", "mnemonic-length", "%zu seed words", w.size());
    auto join = [](const vector<string>& v) { string o; for (auto& x : v) o += (o.empty() ? "" : " ") + x; return o; };
    string caps = m; if (r.coin()) { for (int n = 1 + r.below(2); n > 0; --n) { auto& c = caps[r.below(caps.size())]; c = (char)toupper(c); } } else if (r.coin()) caps = upper(caps); else for (auto& c : caps) if (r.coin()) c = (char)toupper(c);
    b = mnemonics::mnemonicToPrivateKey(caps); crypto::SecretKey none = crypto::SecretKey(); vh::stat("mnemonic.case");
    if (memcmp(&b, &sk, 32) && memcmp(&b, &none, 32)) vh::fail("S04", "mnemonic-case", "capitalised seed words denote another key: %s", caps.c_str());
    for (int j = 0; j < 12; ++j) {
      auto c = w; size_t p = r.below(25); string how;
      switch (r.below(5)) { case 0: c.erase(c.begin() + p); how = "missing"; break; case 1: c.insert(c.begin() + p, w[r.below(25)]); how = "extra"; break; case 2: { size_t q = r.below(25); std::swap(c[p], c[q]); how = "swapped"; break; } case 3: c[p] = c[p] + "x"; how = "misspelt"; break; default: c[p] = r.coin() ? "notaword" : c[p].substr(1); how = "misspelt"; }
      if (c == w) continue; crypto::SecretKey x = mnemonics::mnemonicToPrivateKey(join(c)); vh::stat("mnemonic.corrupt"); vh::cover("mn" + how + std::to_string(p));
      bool accepted = memcmp(&x, &none, 32) != 0;
      if (accepted && (how == "missing" || how == "extra")) vh::fail("S04", "mnemonic-accepted", "seed words with a %s word are accepted: %s", how.c_str(), join(c).c_str());
      // one of 24 swaps passes the checksum: then it must denote exactly what it says
      if (accepted && mnemonics::privateKeyToMnemonic(x) != join(c)) vh::fail("S04", "mnemonic-misread", "accepted seed words denote a key that is spelled otherwise: %s", join(c).c_str());
      if (accepted) vh::stat("mnemonic.swap-undetected"); else vh::stat("mnemonic.swap-or-corrupt-refused");
    }
  }
  // hex
  for (int i = 0; i < 20; ++i) {
    crypto::Hash h = pod<crypto::Hash>(r), g; string t = common::podToHex(h); vh::stat("hex"); if (t != vh::phex(h)) vh::fail("S04", "hex-format", "hex of a hash is %s", t.c_str());
    string u = r.coin() ? t : upper(t); if (!common::podFromHex(u, g) || g != h || !parse_hash256(t, g) || g != h || !parsePaymentId(u, g) || g != h) vh::fail("S04", "hex-roundtrip", "hash %s does not read back", t.c_str());
    string c = corrupt(r, t, "0123456789abcdefABCDEFgG \xff"); if (c == t) continue; bool ok = common::podFromHex(c, g), wf = c.size() == 64; for (char x : c) if (!isxdigit((unsigned char)x)) wf = false;
    bool okp = parsePaymentId(c, g); vh::stat(wf ? "hex.other" : "hex.malformed"); std::vector<uint8_t> v; bool okv = common::fromHex(c, v);
    if (!wf && (ok || okp)) vh::fail("S04", "hex-malformed", "malformed key text '%s' is accepted", c.c_str());
    if (wf) { string lo = c; for (auto& x : lo) x = (char)tolower(x); if (!ok || !okp || vh::phex(g) != lo) vh::fail("S04", "hex-misread", "key text %s is %s", c.c_str(), ok ? "misread" : "refused"); }
    bool wfv = c.size() % 2 == 0; for (char x : c) if (!isxdigit((unsigned char)x)) wfv = false; if (wfv != okv) vh::fail("S04", "hex-bytes", "hex text '%s' is %s", c.c_str(), okv ? "accepted" : "refused");
    std::vector<uint8_t> e; crypto::Hash q; if (!createTxExtraWithPaymentId(t, e) || !getPaymentIdFromTxExtra(e, q) || q != h) vh::fail("S04", "payment-id", "payment id %s is lost when put into a transaction", t.c_str());
  }
  // amounts
  size_t dec = gCur->numberOfDecimalPlaces(); auto fmtRef = [&](uint64_t a) { string o = std::to_string(a); while (o.size() <= dec) o = "0" + o; o.insert(o.size() - dec, "."); return o; };
  for (int i = 0; i < 60; ++i) {
    uint64_t a = r.edgy(), b = ~a; string t = gCur->formatAmount(a); vh::stat("amount"); if (t != fmtRef(a)) vh::fail("S04", "amount-format", "amount %llu is written %s", (unsigned long long)a, t.c_str());
    if (!gCur->parseAmount(t, b) || b != a) vh::fail("S04", "amount-roundtrip", "amount %s reads back as %llu", t.c_str(), (unsigned long long)b);
    int64_t sa = (int64_t)r.edgy(); if (sa != INT64_MIN) { string st = gCur->formatAmount(sa); string wantS = (sa < 0 ? "-" : "") + fmtRef((uint64_t)(sa < 0 ? -sa : sa)); if (st != wantS) vh::fail("S04", "amount-format", "signed amount %lld is written %s", (long long)sa, st.c_str()); }
    string c = r.chance(60) ? corrupt(r, t, "0123456789. -+eE") : string(); if (c.empty()) { for (int n = r.below(30); n > 0; --n) c += "0123456789."[r.below(r.chance(20) ? 11 : 10)]; if (r.coin() && c.size()) c.insert(r.below(c.size()), "."); if (r.chance(20)) c = " " + c + " "; }
    // what the text says
    string q = c; while (q.size() && isspace((unsigned char)q[0])) q.erase(0, 1); while (q.size() && isspace((unsigned char)q.back())) q.pop_back();
    bool wf = true; unsigned __int128 val = 0; bool big = false; size_t pt = q.find('.'), digits = 0; string ip = q.substr(0, pt), fp = pt == string::npos ? "" : q.substr(pt + 1);
    while (fp.size() > dec && fp.back() == '0') fp.pop_back(); if (fp.size() > dec) wf = false; while (fp.size() < dec) fp += '0';
    for (char x : ip + fp) { if (x < '0' || x > '9') { wf = false; break; } val = val * 10 + (x - '0'); if (val > ~0ULL) big = true; if (big) val = 0; } for (char x : q) if (isdigit((unsigned char)x)) ++digits; if (!digits) wf = false;
    uint64_t g = 12345; bool ok = gCur->parseAmount(c, g), want = wf && !big; vh::stat(want ? "amount.text.ok" : "amount.text.bad"); vh::cover(vh::fmt("am%zu/%zu/%d%d", ip.size(), pt == string::npos ? 99 : q.size() - pt, want, big));
    if (ok != want || (ok && g != (uint64_t)val)) vh::fail("S04", "amount-text", "amount text '%s' is %s %llu", c.c_str(), ok ? "read as" : "refused", (unsigned long long)g);
  }
  // denominations
  for (int i = 0; i < 30; ++i) {
    uint64_t a = r.edgy(), dust = r.coin() ? r.edgy(20) : r.edgy(); vector<uint64_t> v; decomposeAmount(a, dust, v); unsigned __int128 sum = 0; for (auto x : v) sum += x; vh::stat("decompose"); if (sum != a) vh::fail("S04", "decompose-sum", "denominations of %llu (dust %llu) sum to another amount", (unsigned long long)a, (unsigned long long)dust);
    unsigned __int128 sum2 = 0; int dusts = 0; uint64_t du = 0; vector<uint64_t> ch; decompose_amount_into_digits(a, dust, [&](uint64_t c) { sum2 += c; ch.push_back(c); }, [&](uint64_t d) { sum2 += d; ++dusts; du = d; });
    if (sum2 != a || dusts > 1 || du > dust) vh::fail("S04", "decompose-digits", "splitting %llu with dust threshold %llu yields another sum, or dust %llu", (unsigned long long)a, (unsigned long long)dust, (unsigned long long)du);
    for (auto c : ch) { uint64_t d = c; while (d && d % 10 == 0) d /= 10; if (d == 0 || d > 9) vh::fail("S04", "decompose-round", "splitting %llu yields %llu, no round denomination", (unsigned long long)a, (unsigned long long)c); if (!is_valid_decomposed_amount(c)) vh::fail("S04", "decompose-valid", "denomination %llu is not recognised as one", (unsigned long long)c); }
    uint64_t any = r.edgy(), d = any; while (d && d % 10 == 0) d /= 10; if (is_valid_decomposed_amount(any) != (d >= 1 && d <= 9)) vh::fail("S04", "decompose-valid", "%llu is %s as a denomination", (unsigned long long)any, is_valid_decomposed_amount(any) ? "recognised" : "not recognised");
  }
  // Base64, endpoints, lists
  for (int i = 0; i < 20; ++i) {
    string d = r.bytes(r.below(50)), e = tools::base_64::encode(d), w; static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    for (size_t p = 0; p < d.size(); p += 3) { uint32_t v = 0; int n = (int)std::min<size_t>(3, d.size() - p); for (int j = 0; j < 3; ++j) v = v << 8 | (j < n ? (uint8_t)d[p + j] : 0); for (int j = 0; j < 4; ++j) w += j <= n ? A[v >> (18 - 6 * j) & 63] : '='; }
    vh::stat("base64"); if (e != w) vh::fail("S04", "base64", "Base64 of %s is %s", vh::hex(d).c_str(), e.c_str()); if (common::base64Decode(w) != d) vh::fail("S04", "base64-decode", "Base64 %s is read as %s", w.c_str(), vh::hex(common::base64Decode(w)).c_str());
    uint8_t ip[4]; r.fill(ip, 4); uint32_t port = (uint32_t)r.below(65536), ipn, a2, p2 = 7; memcpy(&ipn, ip, 4); string t = vh::fmt("%d.%d.%d.%d", ip[0], ip[1], ip[2], ip[3]); vh::stat("endpoint");
    if (common::ipAddressToString(ipn) != t) vh::fail("S04", "ip-text", "address %s is written %s", t.c_str(), common::ipAddressToString(ipn).c_str());
    string u = t + ":" + std::to_string(port); if (!common::parseIpAddressAndPort(a2, p2, u) || a2 != ipn || p2 != port) vh::fail("S04", "endpoint", "endpoint %s is not read as itself", u.c_str());
    static const char* bad[] = {"%d.%d.%d.%d", "%d.%d.%d:%d", "%d.%d.%d.256:%d", "%d.%d.%d.1:%d9999", "%d.%d.%d.1:%dx", "%d.%d.-1.%d:5", "%d.%d.%d.%d:", "a%d.%d.%d.%d:5"}; string bt = vh::fmt(bad[r.below(8)], ip[0], ip[1], ip[2], (int)(port % 250 + 10));
    if (common::parseIpAddressAndPort(a2, p2, bt)) vh::fail("S04", "endpoint-malformed", "malformed endpoint '%s' is accepted as %s:%u", bt.c_str(), common::ipAddressToString(a2).c_str(), p2);
    vector<string> parts; string all; for (int n = 1 + r.below(5); n > 0; --n) { string p; for (int j = r.below(6); j > 0; --j) p += (char)('a' + r.below(26)); parts.push_back(p); all += (all.empty() && parts.size() == 1 ? "" : ";") + p; }
    size_t off = 0; string mut = all; for (auto& p : parts) { string x = common::extract(all, ';', off), y = common::extract(mut, ';'); vh::stat("extract"); if (x != p || y != p) vh::fail("S04", "extract", "part '%s' of '%s' is extracted as '%s' / '%s'", p.c_str(), all.c_str(), x.c_str(), y.c_str()); }
    uint64_t num = r.edgy(), nb = 0; if (!common::fromString(common::toString(num), nb) || nb != num) vh::fail("S04", "number", "number %llu does not read back", (unsigned long long)num);
  }
  if (k % 16 == 0) vh::sample(vh::fmt("address %s, seed words, hex, amounts, endpoints", s.substr(0, 20).c_str()));
}
}
int main(int argc, char** argv) {
  return vh::run(argc, argv, [](long k, Rng& r) {
    if (vh::opt.mode == "consensus") consensusCase(k, r); else if (vh::opt.mode == "messages") messageCase(k, r); else if (vh::opt.mode == "hostile") hostileCase(k, r); else textCase(k, r);
  }, [] { signal(SIGPIPE, SIG_IGN); CurrencyBuilder b(gLog); gCur = new Currency(b.currency()); registerAll(); });
}
