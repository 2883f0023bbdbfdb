# What each check runs. floors: the least the monitors must have observed for a "held" verdict.
R = lambda harness, profile, mode, cases, thorough=None, **k: dict(harness=harness, profile=profile, mode=mode, cases=cases, thorough=thorough or cases * 10, **k)
SAN_A = 'AddressSanitizer reports of the code under test count as violations'

PROPS['K01'] = dict(
    runs=[R('crypto', 'fast', 'sign', 480, 6000, floors={'ring.valid': 400, 'ring.mutations': 5000, 'sig.mutations': 2500, 'proof.mutations': 2000, 'torsion': 2500}),
          R('crypto', 'ubsan', 'sign', 24, 160, only='thorough')],
    evals=['ring.mutations', 'ring.valid', 'sig.mutations', 'sig.valid', 'proof.mutations', 'check_key.valid', 'check_key.invalid'],
    rule='distinct (ring size, signer position, kind of mutation) judged against independent Edwards25519 arithmetic',
    assumptions=['the harness\' own big-integer curve arithmetic and Keccak are correct (they are checked against each other and the node on honest signatures)'])
PROPS['K02'] = dict(
    runs=[R('crypto', 'fast', 'stealth', 2400, 30000, floors={'outputs.owned': 8000, 'tx.api': 2000, 'deposits': 1500, 'strangers': 2000}),
          R('crypto', 'ubsan', 'stealth', 80, 800, only='thorough')],
    evals=['outputs.owned', 'strangers', 'deposits', 'tx.api', 'id.mutations'],
    rule='distinct (recipients, outputs, position, kind) constellations whose ownership was decided for every account',
    assumptions=['discrete logarithm based coincidences do not occur by chance'])
PROPS['K03'] = dict(
    runs=[R('crypto', 'fast', 'hash', 320, 4000, floors={'keccak': 15000, 'trees': 1500, 'pow': 300, 'pow.software': 300, 'pow.threads': 300}),
          R('crypto', 'ubsan', 'hash', 16, 100, only='thorough')],
    evals=['keccak', 'trees', 'pow', 'pow.software', 'pow.fresh', 'pow.threads'],
    rule='distinct (input length mod rate, tree size, proof-of-work variant and length) values compared',
    assumptions=['the recorded proof-of-work values of the pinned tree are the consensus values'])
PROPS['K04'] = dict(
    runs=[R('crypto', 'fast', 'cipher', 1600, 20000, floors={'chacha': 30000, 'messages': 15000, 'passwords': 150}),
          R('crypto', 'ubsan', 'cipher', 60, 600)],
    evals=['chacha', 'messages', 'messages.extra', 'passwords'],
    rule='distinct (length, position, alignment) combinations encrypted and opened with right and wrong keys',
    assumptions=['the 4-byte message checksum collides with chance 2^-32'])

HIST = dict(C01='a rejected block', C02='a history', C03='an attempted double or invalid spend', C04='an attempted coin creation', C05='a deposit operation', C06='a fork', C07='a block with its time and work', C09='a pool operation', C10='a template')
HF = {  # floors at the quick tier (about a third of what the unchanged tree shows)
 'C01': {'block.refused': 1500, 'observed.full': 1500}, 'C02': {'block.switch': 200, 'replays': 30, 'rollbacks': 60}, 'C03': {'tx.bad': 600, 'block.faulty': 400}, 'C04': {'block.faulty': 600, 'observed.full': 1000},
 'C05': {'tx.bad': 500, 'observed.full': 1000}, 'C06': {'block.switch': 400, 'block.stored': 800}, 'C07': {'block.faulty': 500, 'block.stored': 300}, 'C09': {'tx.accepted': 3000, 'restarts': 60, 'expired': 20}, 'C10': {'template.asked': 800, 'template.mined': 300}}
for _i in HIST:
    PROPS[_i] = dict(runs=[R('chain', 'fast', 'history', 280, 6000, floors=HF[_i]), R('chain', 'ubsan', 'history', 120, 600, only='thorough')],
        evals=['block.refused', 'block.extend', 'block.stored', 'block.switch', 'tx.accepted', 'tx.refused', 'observed.full', 'observed.light', 'template.asked'],
        rule='distinct (verdict, kind of fault, reason, rule era) of blocks, transactions and templates judged by the reference ledger; the target is ' + HIST[_i],
        assumptions=['proof of work functions are replaced by a cheap keyed hash behind the same entry points (their own values are decided by K03)', 'no checkpoints fall into the simulated heights'])

PROPS['C04']['runs'].append(R('chain', 'fast', 'reward', 400, 8000, floors={'reward': 10000, 'miner-tx': 2000}))
PROPS['C05']['runs'].append(R('chain', 'fast', 'interest', 400, 8000, floors={'interest': 30000, 'interest.txs': 5000}))
PROPS['C07']['runs'].append(R('chain', 'fast', 'difficulty', 400, 8000, floors={'retarget.lwma1': 2500, 'retarget.lwma3': 2500, 'retarget.window': 2000, 'target': 5000}))
for _i, _e in (('C04', ['reward', 'miner-tx']), ('C05', ['interest', 'interest.txs']), ('C07', ['retarget.lwma1', 'retarget.lwma3', 'retarget.window', 'target'])):
    PROPS[_i]['evals'] = PROPS[_i]['evals'] + _e
PROPS['C08'] = dict(runs=[R('chain', 'fast', 'restart', 200, 4000, floors={'crash.points': 1500, 'damage': 700, 'restarts': 300, 'saves': 60}), R('chain', 'ubsan', 'restart', 80, 400, only='thorough')],
    evals=['crash.points', 'damage', 'restarts', 'crash.caught-up', 'saves'],
    rule='distinct (write at which the process was killed, kind of damage to a file, outcome) of restarts compared with the reference ledger',
    assumptions=['a crash keeps every completed write in order (no reordering below the file system)'])
PROPS['C11'] = dict(runs=[R('chain', 'fast', 'sync', 280, 5000, floors={'sync.queries': 1200, 'sync.supplements': 700, 'sync.walks': 180, 'sync.objects': 450, 'sync.mixins': 450, 'sync.pool': 450, 'sync.sparse': 450, 'sync.ranges': 450, 'sync.mixin-outs': 3000}), R('chain', 'ubsan', 'sync', 80, 400, only='thorough')],
    evals=['sync.queries', 'sync.supplements', 'sync.walks', 'sync.objects', 'sync.mixins', 'sync.pool', 'sync.sparse', 'sync.ranges', 'sync.refused'],
    rule='distinct (query, overlap with the chain, page position) constellations whose answer was compared with the reference chain',
    assumptions=['the answers are judged on a quiet node; concurrent queries belong to T03'])

PROPS['S01'] = dict(runs=[R('codec', 'fast', 'consensus', 1200, 20000, floors={'tx.accepted': 40000, 'tx.refused': 150000, 'block.accepted': 30000, 'block.refused': 100000, 'ids': 80000, 'boundaries': 30000, 'extra': 600}), R('codec', 'ubsan', 'consensus', 60, 400, only='thorough')],
    evals=['tx.accepted', 'tx.refused', 'block.accepted', 'block.refused', 'boundaries', 'extra', 'ids'],
    rule='distinct (kind of object, shape, mutation, verdict) whose bytes were judged by an independent encoder and decoder of the documented format',
    assumptions=['the reference encoder follows the documented CryptoNote encoding', 'hash collisions do not occur by chance'])
PROPS['S02'] = dict(runs=[R('codec', 'fast', 'hostile', 96, 1600, floors={'hostile': 60000, 'hostile.shapes': 30000, 'hostile.thrown': 3000}), R('codec', 'ubsan', 'hostile', 24, 240, floors={'hostile': 12000, 'hostile.shapes': 6000, 'hostile.thrown': 800})],
    evals=['hostile', 'hostile.shapes'],
    rule='distinct (decoder, order of magnitude of input and of heap used) observed under AddressSanitizer, UndefinedBehaviorSanitizer and the allocation and time monitor',
    assumptions=['memory above 24 MB + 700 bytes per input byte counts as out of proportion', 'inputs of network size up to a few hundred kilobytes are representative'])
PROPS['S03'] = dict(runs=[R('codec', 'fast', 'messages', 1600, 24000, floors={'messages.binary': 80000, 'messages.json': 150000, 'json.values': 40000, 'http.requests': 20000, 'http.responses': 20000, 'framing.frames': 6000, 'framing.pieces': 20000}), R('codec', 'ubsan', 'messages', 60, 600, only='thorough')],
    evals=['messages.binary', 'messages.json', 'json.values', 'http.requests', 'http.responses', 'framing.frames'],
    rule='distinct (message type, encoding, sizes) that were encoded, decoded and compared field by field, and frame sequences over a real loopback connection',
    assumptions=['a message field absent from a serializer on both sides is not part of the message'])
PROPS['S04'] = dict(runs=[R('codec', 'fast', 'text', 4000, 60000, floors={'address.valid': 2000, 'address.corrupt': 120000, 'address.crafted': 10000, 'amount': 100000, 'amount.text.ok': 50000, 'mnemonic.valid': 8000, 'mnemonic.corrupt': 90000, 'decompose': 60000, 'hex': 40000, 'base64': 40000, 'endpoint': 40000}), R('codec', 'ubsan', 'text', 120, 1200, only='thorough')],
    evals=['address.valid', 'address.corrupt', 'address.crafted', 'amount', 'amount.text.ok', 'amount.text.bad', 'mnemonic.valid', 'mnemonic.corrupt', 'decompose', 'hex', 'base64', 'base58', 'endpoint', 'extract'],
    rule='distinct (kind of text, length, kind of change) converted and judged',
    assumptions=['address checksums collide by chance with probability 2^-32 per trial'])

PROPS['T01'] = dict(runs=[R('sys', 'fast', 'tasks', 800, 12000, floors={'tasks': 9000, 'thrown.due': 1500, 'thrown.event': 150, 'event.woken': 500, 'late.spawned': 200, 'posted.ran': 4000, 'remotes': 500, 'locks': 500, 'timeouts.expired': 300}),
                          R('sys', 'fast', 'net', 320, 5000, floors={'net.streams': 500, 'net.read.interrupted': 60, 'net.gave-up': 50, 'net.peer.reset': 100, 'net.texts': 150}),
                          R('sys', 'ub', 'tasks', 160, 2000), R('sys', 'ub', 'net', 48, 600)],
    evals=['tasks', 'event.woken', 'thrown.due', 'thrown.event', 'thrown.io', 'sleeps', 'locks', 'remotes', 'posted.ran', 'net.streams', 'net.gave-up'],
    rule='distinct (events, groups, posting threads, tasks) programs whose every wake-up, interrupt and byte was judged by a model of the task scheduler',
    assumptions=['the operating system delivers loopback bytes and timer expirations', 'waits for groups are only nested without cycles'])
PROPS['T02'] = dict(runs=[R('sys', 'tsan', 'queues', 320, 4000, floors={'queue.items': 8000, 'observer.notified': 10000, 'log.lines': 5000}), R('sys', 'fast', 'queues', 1600, 20000, floors={'queue.items': 40000, 'log.lines': 25000}),
                          R('sys', 'fast', 'mqueue', 800, 8000, floors={'messages': 8000, 'stops': 250}), R('sys', 'ub', 'mqueue', 160, 1600)],
    evals=['queue.items', 'observer.notified', 'log.lines', 'messages'],
    rule='distinct (capacity, producers, consumers, way of closing; observers; loggers) constellations run by real threads',
    assumptions=['ThreadSanitizer observes the interleavings that occurred; it does not enumerate them'])
PROPS['T03'] = dict(runs=[R('chain', 'tsan', 'serve', 48, 800, floors={'serve.answers': 6000, 'serve.templates': 300, 'serve.switches': 6, 'serve.blocks': 300}), R('chain', 'fast', 'serve', 280, 4000, floors={'serve.answers': 40000, 'serve.templates': 2500, 'serve.switches': 80, 'serve.races': 40, 'serve.free-accepted': 100})],
    evals=['serve.answers', 'serve.templates', 'serve.switches', 'serve.blocks', 'serve.races'],
    rule='distinct (rule era, number of questions, branches) histories delivered while other threads asked; every answer had to be true at one moment',
    assumptions=['the callers are those the programs have: the network task, miner threads, wallets in process and the console', 'ThreadSanitizer observes the interleavings that occurred; it does not enumerate them'])
PROPS['W01'] = dict(runs=[R('container', 'fast', 'w', 1600, 24000, floors={'balances': 400000, 'compared': 25000, 'detached': 9000, 'deleted': 600, 'confirmed': 2000, 'reloaded': 2600, 'reloaded.v0': 800, 'dup.images': 2600, 'transfers': 200000}), R('container', 'ubsan', 'w', 64, 800)],
    evals=['balances', 'compared', 'transfers', 'confirmed', 'detached', 'deleted', 'reloaded', 'dup.images'],
    rule='distinct (operation, kinds of outputs, lock, re-spending) steps after which every query was compared with a reference that keeps the whole list of transactions',
    assumptions=['transactions reach the wallet\'s records in the order the chain and the pool give them, as the synchronizer does'])
