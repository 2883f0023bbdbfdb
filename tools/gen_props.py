#!/usr/bin/env python3
"""Writes properties.jsonl (one source for titles/statements/anchors)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

BC = "src/CryptoNoteCore/Blockchain.cpp"
TP = "src/CryptoNoteCore/TransactionPool.cpp"
CO = "src/CryptoNoteCore/Core.cpp"
CU = "src/CryptoNoteCore/Currency.cpp"

p("C01", "A rejected block leaves no trace in the node",
  "Whenever the node refuses a block, for whatever reason and wherever in the block the fault lies, its ledger afterwards is exactly what it was before: same tip and height, same spent key images and deposits, same output indexes, coin supply and deposit totals, and the transactions the block named that were waiting in the pool are still there. Later valid blocks and transactions are accepted or refused exactly as if the bad block had never arrived.",
  ["histories", "inputs"], "every history of valid and invalid blocks (bad reward, bad signature, double spend, missing tx, oversize, wrong version or time, corrupted tx) interleaved with transactions",
  "Tests submit a few hand-made invalid blocks and check only the verdict; a leak of one key image or output index shows only for a particular failure point followed by a particular later block.",
  [BC, TP, CO], [("pushBlock / pushTransaction / popTransactions rollback", BC), ("loadTransactions / saveTransactions", BC)],
  ["Core observables before and after each rejected block", "digest equality with a twin node that never saw the block"],
  [("main chain", "accepted blocks", "Blockchain::m_blocks"), ("spent set", "spent key images", "Blockchain::m_spent_key_images"), ("outputs", "global output index per amount", "Blockchain::m_outputs, m_multisignatureOutputs")])

p("C02", "Ledger state depends only on the main chain, not on how it was reached",
  "After any sequence of forks, reorganisations, rollbacks and duplicate or out-of-order deliveries, every answer the node gives about its ledger (blocks by height and hash, transaction location, spent outputs, global output indexes, coin supply, deposit and interest totals, block sizes, difficulty, payment-id and timestamp indexes) equals the answer of a fresh node that was fed only the final main chain in order.",
  ["histories", "schedules"], "every history of block deliveries: forks of any depth, deep and repeated reorganisations, failed switches, transactions shared between branches",
  "Reorganisation tests follow a handful of scripted shapes and check the tip; an index left stale by one undo path needs a specific content mix on both branches.",
  [BC, "src/CryptoNoteCore/DepositIndex.cpp", "src/CryptoNoteCore/BlockIndex.cpp", "src/CryptoNoteCore/BlockchainIndices.cpp"],
  [("switch_to_alternative_blockchain / rollback_blockchain_switching", BC), ("popBlock / popTransaction", BC), ("DepositIndex::popBlock", "src/CryptoNoteCore/DepositIndex.cpp")],
  ["full observable digest after each step vs fresh replay"])

p("C03", "No output is ever spent twice and every input spends a real, mature output",
  "On the accepted chain every key image occurs at most once and every deposit output is consumed at most once; every input refers to existing earlier outputs of the claimed amount that were unlocked at that point, and carries valid signatures for them. A block or transaction violating any of these, in any position and across any mix of pool, block, fork and restart, is refused.",
  ["histories", "inputs"], "every history of honest and adversarial transactions: same image twice in a tx, in a block, across blocks, across forks, wrong amount or index, immature or locked outputs, forged or misplaced signatures",
  "The test generator holds a fixed list of double-spend shapes; combinations of fork, restart and position are unbounded.",
  [BC, CO, TP], [("checkTransactionInputs / check_tx_input", BC), ("pushTransaction spent-set insertion", BC), ("check_tx_semantic", CO)],
  ["verdicts of handle_incoming_tx / block", "offline replay of accepted chain by an independent ledger checker"])

p("C04", "Coins are created only by the block reward and by deposit interest",
  "For every accepted block the miner transaction pays exactly the emission scheduled for that height (with the size penalty) plus the fees of the block's transactions, every other transaction pays out no more than it takes in plus earned deposit interest, and the node's running supply figure equals the sum of all coins so created. No accepted history exceeds the maximum supply and no arithmetic wraps.",
  ["histories", "inputs", "configurations"], "every accepted block sequence and every attempted over- or under-paying miner or ordinary transaction, including values near 2^64",
  "Unit tests check the reward function at sample heights; conservation over whole histories with fees, penalties, deposits and overflow attempts is never summed up.",
  [CU, BC, CO], [("getBlockReward / penalties", CU), ("validate_miner_transaction", BC), ("check_inputs_overflow / outs overflow", "src/CryptoNoteCore/CryptoNoteFormatUtils.cpp")],
  ["block acceptance verdict", "coins-generated figure vs an independent sum"])

p("C05", "Deposits pay exactly the contracted interest, once, and never before term",
  "A deposit output can be created only with an amount and term the rules allow; it can be withdrawn only at or after its term has run, only by its owner, only once, and the withdrawal is worth exactly principal plus the interest that the published schedule gives for that amount, term and creation height. The node's figures for total locked deposits and paid interest at any height equal the sum over the chain's blocks.",
  ["histories", "inputs"], "every amount, term and height across the interest-rule changes, every withdrawal attempt before, at and after maturity, and every reorganisation across these events",
  "Tests sample a few (amount, term) pairs and scripted withdrawals; rounding, rule-boundary and reorganisation behaviour is a space of inputs and histories.",
  [CU, BC, "src/CryptoNoteCore/DepositIndex.cpp", CO], [("calculateInterest and validateOutput", CU), ("validateInput for multisignature", BC), ("DepositIndex", "src/CryptoNoteCore/DepositIndex.cpp")],
  ["verdicts on withdrawals", "deposit totals by height vs naive sum"])

p("C06", "The node always follows the valid chain with the most cumulative work",
  "At every moment the main chain is a valid chain whose cumulative difficulty is maximal among the valid chains whose blocks the node has received; on equal work the earlier chain is kept, and no invalid branch is ever adopted however much work it claims. Two nodes given the same blocks in any two parent-first orders end with the same amount of work.",
  ["histories", "schedules"], "every set of block trees and every delivery order, including branches that turn out invalid midway",
  "Scripted reorg tests fix one delivery order; the rule quantifies over all orders and tree shapes.",
  [BC], [("handle_alternative_block / fork choice", BC), ("switch_to_alternative_blockchain", BC)],
  ["tip and cumulative difficulty after each delivery vs reference fork-choice model"])

p("C07", "Difficulty and time rules follow the branch and resist manipulation",
  "A block is accepted only if its proof of work meets the difficulty that the retarget rule yields from the preceding blocks of its own chain, and its timestamp lies between the median of the recent blocks and the allowed future limit. The rule is deterministic, never yields zero, never overflows, and moves within bounded factors for any sequence of timestamps.",
  ["inputs", "histories"], "every sequence of timestamps and cumulative difficulties, including out-of-order, equal and extreme stamps",
  "Difficulty tests run fixed data files; adversarial timestamp sequences and window boundaries are not enumerated.",
  [CU, BC], [("nextDifficulty (all versions)", CU), ("check_block_timestamp / median", BC), ("checkProofOfWork", CU)],
  ["difficulty value vs reference implementation", "acceptance at and around the boundary stamps"])

p("C08", "A node restarted at any point recovers exactly its stored chain",
  "Stopping the node (cleanly or by a crash at any write) and starting it again yields a ledger that equals a replay of a prefix of the blocks it had accepted, and after a clean stop all of them; missing, truncated or outdated cache files are detected and rebuilt, never silently believed. In particular no coin spent before the restart becomes spendable after it.",
  ["crash_points", "fault_sequences", "histories"], "every crash point between file writes, every missing, stale or truncated storage file, after every chain history",
  "Tests start from an empty directory or one clean save; crash and corruption points are a fault space.",
  [BC, "src/CryptoNoteCore/SwappedVector.h", "src/CryptoNoteCore/BlockchainIndices.cpp"],
  [("init / loadCache / rebuildCache / storeCache", BC), ("SwappedVector on-disk layout", "src/CryptoNoteCore/SwappedVector.h")],
  ["digest after reopen of a faulted copy of the data directory vs replay of its stored blocks"])

p("C09", "The mempool only ever holds transactions that could be mined together",
  "At every moment the transactions waiting in the pool are pairwise free of conflicts, none of their inputs is spent on the main chain, none is itself on the main chain, and the pool's own bookkeeping (counts, sizes, fees, key-image lookups, payment-id and timestamp queries) agrees with its contents. Accepting, mining, reorganising, expiring, saving and reloading neither loses a still-valid transaction nor resurrects an invalid one.",
  ["histories", "schedules"], "every history of submissions, conflicting submissions, blocks, reorganisations, expiry, save and reload",
  "Pool tests check single operations on an idle pool; stale entries arise from combinations with blocks and reorganisations.",
  [TP, CO, BC], [("add_tx / take_tx / have_tx_keyimg_as_spent", TP), ("on_blockchain_inc / dec, remove_stuck_transactions", TP), ("saveTransactions on pop", BC)],
  ["pool snapshot after each step vs independent conflict and chain check"])

p("C10", "A block template offered to miners is always a valid next block",
  "Whatever is in the pool, the block template returned for any address and extra nonce size builds on the current tip, respects the size limit, contains only minable transactions without conflicts, pays exactly reward plus fees, and is accepted by the node once its proof of work is found.",
  ["histories", "inputs"], "every pool content (conflicting double spends via reorg, large, fee-less, fusion, deposit transactions), chain state and nonce length",
  "Template tests use an empty or nearly empty pool; the size-penalty search and selection logic depend on arbitrary mixes.",
  [CO, TP, CU], [("get_block_template", CO), ("fill_block_template", TP), ("constructMinerTx", CU)],
  ["submission verdict of every template produced", "fees, size and tx-list checks"])

p("C11", "Sync answers let any peer or wallet catch up without gaps",
  "For any list of known block ids ending in genesis, the node's replies to chain-supplement, block-range, lightweight and pool-difference queries start at the highest common block, list consecutive main-chain blocks in order with exactly their transactions, and report height and missing items truthfully. Repeating the query from the last item received always makes progress and ends at the tip.",
  ["inputs", "histories"], "every sparse id list (own branch, foreign branch, unknown ids, truncated), every start, count and timestamp limit, on every chain shape",
  "A few unit tests stub the core; off-by-one at range ends and after reorgs needs systematic query generation.",
  [BC, CO], [("findBlockchainSupplement / buildSparseChain", BC), ("queryBlocks / queryBlocksLite / getPoolChanges", CO), ("handleGetObjects", BC)],
  ["replies vs the known main chain of the generator"])

p("C12", "Honest nodes converge to one chain whatever peers send",
  "Nodes connected through the peer protocol, whose messages may be delayed, duplicated, reordered across connections or interleaved with malformed and lying peers' messages, end on the best valid chain known to any of them once messages are delivered, and their pools receive relayed valid transactions. A malformed or dishonest message never crashes a node, never changes its chain to an invalid one and only ever costs the sender its connection.",
  ["schedules", "fault_sequences", "inputs"], "every interleaving of protocol messages among several nodes with adversarial injections",
  "Protocol handlers are barely covered by tests; convergence is a property of schedules over several nodes.",
  ["src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp", CO, BC], [("handle_* of the protocol handler", "src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp"), ("request_missing_objects state machine", "src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp")],
  ["messages exchanged between handler instances over an in-memory network", "tips after quiescence"])

p("K01", "Only the key owner can sign, and signing twice is always linkable",
  "A ring signature or plain signature produced with a secret key verifies, and stops verifying if any bit of message, key image, ring member, order or signature changes; no signature verifies for a ring lacking the signer's key. The key image is a function of the one-time key alone, equal images mean the same output, and images outside the prime-order subgroup are refused.",
  ["inputs"], "all keys, messages, ring sizes, signer positions and mutations",
  "Crypto tests replay a fixed vector file; rejection must hold for every mutation and ring shape.",
  ["src/crypto/crypto.cpp", "src/crypto/crypto-ops.c"], [("generate/check_ring_signature", "src/crypto/crypto.cpp"), ("generate_key_image", "src/crypto/crypto.cpp"), ("scalarmultKey domain check", "src/crypto/crypto.cpp")],
  ["verdict on each honest and mutated signature"])

p("K02", "An output belongs to exactly the address it was sent to",
  "For every sender key, recipient address, output position and output type, the recipient (and the recipient's view key alone) recognises the output and only its spend key yields the matching one-time secret and key image; any other wallet does not recognise it, and the same holds for deposits and for deterministic transaction keys. Every transaction the library builds passes the node's own checks and its id covers every byte that matters.",
  ["inputs"], "all key pairs, addresses, output indexes, output kinds and transaction shapes",
  "Tests use a couple of fixed accounts; recognition must be exact for all.",
  ["src/crypto/crypto.cpp", "src/CryptoNoteCore/CryptoNoteFormatUtils.cpp", "src/CryptoNoteCore/TransactionUtils.cpp", "src/CryptoNoteCore/Transaction.cpp"],
  [("derive/underive_public_key", "src/crypto/crypto.cpp"), ("constructTransaction / lookup_acc_outs", "src/CryptoNoteCore/CryptoNoteFormatUtils.cpp"), ("TransactionImpl signing", "src/CryptoNoteCore/Transaction.cpp")],
  ["outputs found by scanning with each account"])

p("K03", "Hashing is deterministic and independent of CPU path and thread",
  "Each proof-of-work and ordinary hash and the transaction-tree hash give the same result for the same bytes on every code path (accelerated or portable), in every thread, with a fresh or reused context, and in any order of calls; the tree hash agrees with its definition for every leaf count and its branch proofs verify.",
  ["inputs", "schedules", "configurations"], "all input lengths and contents, all algorithm versions, concurrent and context-reusing callers",
  "Vector tests fix a few inputs on one thread and one code path.",
  ["src/crypto/pow_hash/cn_slow_hash.hpp", "src/crypto/cryptonight.cpp", "src/crypto/tree-hash.c", "src/crypto/hash.c"],
  [("hardware and software scratchpad paths", "src/crypto/pow_hash"), ("tree_hash / tree_branch", "src/crypto/tree-hash.c")],
  ["hash values across paths, contexts and threads"])

p("K04", "Encrypted data opens only with the right key and never silently corrupts",
  "Whatever the wallet encrypts (wallet containers and key records) decrypts to the same bytes with the same password or key and is detected as wrong with any other; an encrypted transaction message is readable by its addressee at its position, is unreadable and reported absent for anyone else, and survives any message length and content.",
  ["inputs"], "all passwords, nonces, lengths, contents, keys, message counts and positions",
  "Tests use one short message and one password.",
  ["src/crypto/chacha8.c", "src/crypto/chacha8.h", "src/CryptoNoteCore/TransactionExtra.cpp"], [("tx_extra_message encrypt/decrypt", "src/CryptoNoteCore/TransactionExtra.cpp"), ("chacha8", "src/crypto/chacha8.c")],
  ["round-trip and wrong-key outcomes"])

p("S01", "Consensus encoding is canonical and identifiers bind content",
  "Every transaction and block the node decodes re-encodes to exactly the bytes received, every in-memory transaction and block survives encode and decode unchanged, trailing or missing bytes are refused, and two different accepted byte strings never share an identifier. Reported sizes equal encoded sizes.",
  ["inputs"], "all byte strings and all well-formed transactions and blocks, including every field mutation",
  "Tests round-trip a few samples; canonicality is a statement about all byte strings.",
  ["src/CryptoNoteCore/CryptoNoteSerialization.cpp", "src/CryptoNoteCore/CryptoNoteTools.h", "src/Serialization", "src/Common/StreamTools.cpp"],
  [("serialize() overloads", "src/CryptoNoteCore/CryptoNoteSerialization.cpp"), ("readVarint canonicality", "src/Common/StreamTools.cpp")],
  ["decode/encode outcomes on generated and mutated bytes"])

p("S02", "Hostile bytes never crash, corrupt memory or exhaust the process",
  "Any byte string fed to any decoder that faces the network, the disk or a user (blocks and transactions, peer messages, JSON, HTTP, transaction extra, addresses, wallet and cache files, text conversions) is either decoded or cleanly refused: no memory error, undefined behaviour, unbounded recursion, hang, or memory use out of proportion to the input.",
  ["inputs"], "all byte strings, biased to mutated valid ones and to extreme length and nesting fields",
  "Tests feed valid inputs and a few truncations without sanitizers.",
  ["src/Serialization", "src/Common/JsonValue.cpp", "src/HTTP/HttpParser.cpp", "src/CryptoNoteCore/TransactionExtra.cpp", "src/Common/Base58.cpp", "src/CryptoNoteCore/CryptoNoteSerialization.cpp"],
  [("binary, key-value and JSON input serializers", "src/Serialization"), ("HttpParser", "src/HTTP/HttpParser.cpp"), ("parseTransactionExtra", "src/CryptoNoteCore/TransactionExtra.cpp")],
  ["sanitizer reports, peak allocation and outcome per input"])

p("S03", "Peer and RPC messages survive the wire unchanged",
  "Every message type exchanged between peers or with RPC clients, with any field values, decodes to an equal message after being encoded by the matching serializer (binary key-value or JSON), for every string content and container size; framing delivers exactly the messages sent, in order, for any fragmentation of the byte stream.",
  ["inputs", "schedules"], "all field values and container sizes of all message types, all stream fragmentations",
  "Serializer tests cover a few types with small values.",
  ["src/Serialization/KVBinaryOutputStreamSerializer.cpp", "src/Serialization/JsonOutputStreamSerializer.cpp", "src/Common/JsonValue.cpp", "src/P2p/LevinProtocol.cpp", "src/P2p/P2pProtocolDefinitions.h", "src/Rpc/CoreRpcServerCommandsDefinitions.h"],
  [("KV binary storage", "src/Serialization"), ("JSON storage", "src/Common/JsonValue.cpp"), ("Levin framing", "src/P2p/LevinProtocol.cpp")],
  ["decoded messages vs originals"])

p("S04", "Addresses, keys, payment ids and amounts keep their meaning as text",
  "Converting an address, key, payment id, mnemonic seed or amount to text and back yields the original for every value; a text with a changed, missing, extra or swapped character or word either is refused or denotes exactly what it says, never a different address accepted by accident. Splitting an amount into denominations always sums back to it.",
  ["inputs"], "all values and all single-symbol corruptions",
  "Tests convert a handful of samples.",
  ["src/Common/Base58.cpp", "src/CryptoNoteCore/CryptoNoteBasicImpl.cpp", "src/Mnemonics/Mnemonics.cpp", CU, "src/Common/StringTools.cpp"],
  [("Base58 encode_addr/decode_addr", "src/Common/Base58.cpp"), ("mnemonic encode/decode", "src/Mnemonics/Mnemonics.cpp"), ("formatAmount/parseAmount, decomposeAmount", CU)],
  ["round-trip and corruption outcomes"])

p("W01", "A wallet's transfer records equal a replay of what it was told",
  "After any sequence of confirmed and pool transactions, confirmations, deletions, chain detachments, height advances and save/load, the wallet's record of available, locked, soft-locked, spent and unconfirmed outputs and every balance, listing and unlock notice derived from it equal those computed from scratch from the surviving transactions.",
  ["histories"], "every sequence of container operations including detach at every height",
  "Unit tests check single operations; the state is a function of arbitrary histories.",
  ["src/Transfers/TransfersContainer.cpp"], [("addTransaction / markTransactionConfirmed / deleteUnconfirmedTransaction / detach / advanceHeight", "src/Transfers/TransfersContainer.cpp")],
  ["balances and listings after each operation vs naive model"])

p("W02", "A synchronised wallet shows exactly what the chain holds for it",
  "Once a wallet has caught up with its node, its actual, pending and deposit balances, its transaction list with states, amounts and fees, and its per-address figures equal those obtained by scanning the node's chain and pool with the wallet's keys, after any history of blocks, reorganisations, pool changes and node errors. Progress notifications never skip or repeat blocks.",
  ["histories", "schedules", "fault_sequences"], "every chain and pool history with reorganisations, pauses, restarts and query failures while several addresses are tracked",
  "Wallet tests drive short linear histories with sleeps.",
  ["src/Wallet/WalletGreen.cpp", "src/Transfers/TransfersConsumer.cpp", "src/Transfers/BlockchainSynchronizer.cpp", "src/Transfers/SynchronizationState.cpp", "src/Transfers/TransfersSynchronizer.cpp"],
  [("onNewBlocks / onPoolUpdated / onBlockchainDetach", "src/Transfers/TransfersConsumer.cpp"), ("checkInterval / detach", "src/Transfers/SynchronizationState.cpp"), ("transaction/transfer bookkeeping", "src/Wallet/WalletGreen.cpp")],
  ["wallet API figures at quiescence vs scan of the node's chain"])

p("W03", "Sending money moves exactly what was asked, or nothing",
  "Every transfer, deposit, withdrawal or consolidation a wallet creates is accepted by the network rules, pays each recipient exactly the requested amount and the stated fee, returns all change to the wallet, and uses only unspent, unlocked outputs of the chosen source addresses; if it fails at any stage (insufficient funds, node refusal, cancellation) the balances return to what they were and the funds stay spendable.",
  ["histories", "inputs", "fault_sequences"], "all amounts, recipients, fees, mixins, source sets and node failures, in sequences of sends",
  "Tests send a few fixed amounts through a stub and mostly check the happy path.",
  ["src/Wallet/WalletGreen.cpp", "src/WalletLegacy/WalletTransactionSender.cpp"], [("doTransfer / prepareTransaction / sendTransaction", "src/Wallet/WalletGreen.cpp"), ("selectTransfers / change", "src/Wallet/WalletGreen.cpp")],
  ["transactions reaching the node and balances before and after"])

p("W04", "A wallet file never loses funds, opens only with its password",
  "Saving a wallet and loading it again restores the same addresses, keys, balances, transactions, deposits and settings; a wrong password is refused; and a save interrupted at any point or a truncated or damaged file leads either to the previous or the new complete state or to a clean error from which the keys are not lost, never to a crash or to silently wrong data.",
  ["crash_points", "fault_sequences", "inputs"], "every wallet content, password, interruption point, truncation and corruption",
  "Tests save and load a clean file once.",
  ["src/Wallet/WalletGreen.cpp", "src/Wallet/WalletSerializationV2.cpp", "src/Common/FileMappedVector.h", "src/WalletLegacy/WalletLegacySerializer.cpp"],
  [("save / load / changePassword", "src/Wallet/WalletGreen.cpp"), ("container storage", "src/Common/FileMappedVector.h"), ("cache serializer", "src/Wallet/WalletSerializationV2.cpp")],
  ["wallet state after reload of intact, truncated, corrupted and crash-snapshotted files"])

p("W05", "The single-address wallet tracks, spends and restores its funds correctly",
  "For any history of blocks, reorganisations, sends, failed sends, deposits and save/load cycles, the single-address wallet's actual, pending and deposit balances equal a scan of the chain and pool with its keys plus its own unsent operations, its history lists each of its transactions once with the right state, and reloading its saved form under the right password reproduces it.",
  ["histories", "fault_sequences"], "all histories of chain and wallet operations",
  "Wallet tests check fixed scripts.",
  ["src/WalletLegacy/WalletLegacy.cpp", "src/WalletLegacy/WalletUserTransactionsCache.cpp", "src/WalletLegacy/WalletTransactionSender.cpp", "src/WalletLegacy/WalletUnconfirmedTransactions.cpp"],
  [("user transaction cache", "src/WalletLegacy/WalletUserTransactionsCache.cpp"), ("WalletTransactionSender", "src/WalletLegacy/WalletTransactionSender.cpp")],
  ["wallet API figures at quiescence vs chain scan"])

p("T01", "Cooperative tasks are run, woken and cancelled exactly once",
  "Every task spawned on the event dispatcher, from its own thread or another, runs exactly once; every waiter of an event, latch, lock, timer or connection is woken exactly when its condition holds, in order, and none is lost or woken twice; interrupting a task takes effect exactly once at its current or next wait, and no task starves or outlives its group.",
  ["schedules"], "every interleaving of spawn, yield, wait, set, clear, timer expiry, interrupt and cross-thread posting",
  "Tests exercise each primitive alone in one fixed order.",
  ["src/Platform/Linux/System/Dispatcher.cpp", "src/System", "src/Platform/Linux/System/Timer.cpp"],
  [("Dispatcher dispatch / yield / remoteSpawn / interrupt", "src/Platform/Linux/System/Dispatcher.cpp"), ("Event, EventLock, ContextGroup, RemoteContext, Timer", "src/System")],
  ["event log of every task's steps checked offline"])

p("T02", "Thread-shared queues, observers and logs lose and duplicate nothing",
  "Under any number of producer and consumer threads, every item put into a blocking queue or message queue is taken exactly once in order per producer, closing wakes every waiter and accepts nothing afterwards; every observer registered throughout a notification gets it exactly once, and registering, removing and notifying concurrently is free of data races. Log lines from many threads arrive whole.",
  ["schedules"], "all thread interleavings of push, pop, close, add, remove, notify and log",
  "Tests use two threads and sleep-based timing without race detection.",
  ["src/Common/BlockingQueue.h", "src/Common/ObserverManager.h", "src/CryptoNoteCore/MessageQueue.h", "src/Logging"],
  [("BlockingQueue", "src/Common/BlockingQueue.h"), ("ObserverManager", "src/Common/ObserverManager.h"), ("LoggerGroup / LoggerManager", "src/Logging")],
  ["per-item histories checked offline plus ThreadSanitizer"])

p("T03", "The node core serves concurrent threads without races or torn answers",
  "While blocks and transactions arrive, reorganisations happen and other threads query blocks, templates, outputs, pool and indexes, no data race or deadlock occurs, every answer is consistent with one main chain that existed during the call, and the final ledger equals a sequential replay.",
  ["schedules"], "all interleavings of block/transaction submission with queries from several threads",
  "Core tests are single-threaded.",
  [CO, BC, TP], [("m_blockchain_lock / pool lock discipline", BC), ("Core::lockBlockchain queries", CO)],
  ["answers recorded with call and return order, plus ThreadSanitizer"])

p("P01", "Peer lists stay bounded, unique and free of forbidden addresses",
  "After any sequence of handshakes, gossip from lying peers, promotions, failures, saves and reloads, each peer list holds each address at most once, an address is in the trusted or the untrusted list but not both, list sizes stay within their limits dropping the longest-unseen, forbidden address ranges never enter, and gossip never displaces or alters trusted entries.",
  ["histories", "inputs"], "all sequences of peer-list operations and gossip contents",
  "Tests insert a few peers.",
  ["src/P2p/PeerListManager.cpp", "src/P2p/NetNode.cpp"], [("append_with_peer_white/gray, merge_peerlist, trim", "src/P2p/PeerListManager.cpp")],
  ["list contents after each operation vs model"])

p("R01", "RPC answers agree with the ledger",
  "Every answer of the node's RPC and in-process interfaces about blocks, transactions, outputs, heights, deposits, pool and difficulty equals what the ledger itself holds at that moment, for every valid parameter; invalid parameters give an error, never a wrong answer, crash or out-of-range access; and transactions or blocks submitted through RPC are judged exactly as by the node.",
  ["inputs", "histories"], "all parameter values (heights beyond the tip, unknown hashes, empty and huge ranges) on all chain states",
  "RPC handlers have almost no tests.",
  ["src/Rpc/RpcServer.cpp", "src/InProcessNode/InProcessNode.cpp", "src/BlockchainExplorer/BlockchainExplorerDataBuilder.cpp"],
  [("RpcServer handlers", "src/Rpc/RpcServer.cpp"), ("InProcessNode queries", "src/InProcessNode/InProcessNode.cpp"), ("BlockchainExplorerDataBuilder", "src/BlockchainExplorer/BlockchainExplorerDataBuilder.cpp")],
  ["JSON/binary replies vs values computed from the chain"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
