#!/usr/bin/env python3
"""Decides one property: builds its harnesses from /repo's working tree, runs them as watched shards, judges the reports.
exit 0 held, 1 violation (line VIOLATION property=.. replay=..), 2 inconclusive."""
import argparse, json, os, re, subprocess, sys, threading, time, signal, queue
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import vbuild
PROPS = {}
exec(open(os.path.join(HERE, 'props.py')).read())

ap = argparse.ArgumentParser()
ap.add_argument('--prop', required=True)
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
ap.add_argument('--replay')
ap.add_argument('--scale', type=float, default=1.0)
ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
ap.add_argument('-v', action='store_true')
A = ap.parse_args()
T0 = time.time()
P = PROPS[A.prop]
os.chdir(VERIF)

ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1:malloc_context_size=12:max_allocation_size_mb=3000:handle_abort=1:alloc_dealloc_mismatch=0'
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=77'
ENV['TSAN_OPTIONS'] = 'exitcode=0:halt_on_error=0:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1:report_thread_leaks=0:suppressions=' + os.path.join(VERIF, 'tools', 'tsan.supp')
for k in ('ASAN_SYMBOLIZER_PATH',):
    ENV.pop(k, None)


def die_build():
    print('INCONCLUSIVE property=%s build failed' % A.prop)
    sys.exit(2)


bins = {}
profs = {}
for r in P['runs']:
    if A.tier == 'quick' and r.get('only') == 'thorough':
        continue
    profs.setdefault(r['profile'], []).append(r['harness'])
for prof, hs in profs.items():
    hs = sorted(set(hs))
    o = vbuild.build(prof, hs)
    if o is None:
        die_build()
    for h, p in zip(hs, o):
        bins[(prof, h)] = p
T1 = time.time()

known = json.load(open(os.path.join(VERIF, 'known_findings.json')))
KF = [k for k in known.get('findings', []) if k['property'] == A.prop]

viols = {}      # key -> dict(detail, cmd, out)
stats = {}
cover = set()
samples = []
notes = []
others = {}
incon = []
lock = threading.Lock()


def frame(text):
    """first frame inside /repo/src of a sanitizer report: names the failing site"""
    for m in re.finditer(r'#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(?::(\d+))?(?::\d+)?\s*$', text, re.M):
        if '/repo/' in m.group(2) or m.group(2).startswith(vbuild.REPO):
            fn = re.sub(r'\(.*', '', m.group(1))
            return fn[-80:]
    return '?'


def classify(rc, err):
    m = re.search(r'ERROR: (AddressSanitizer|LeakSanitizer|MemorySanitizer): (\S+)', err)
    if m:
        return 'asan/%s@%s' % (m.group(2).rstrip(':'), frame(err[m.start():]))
    m = re.search(r'runtime error: (.*)', err)
    if m:
        loc = re.search(r'(\S+?):(\d+):\d+: runtime error', err)
        fn = os.path.basename(loc.group(1)) if loc else '?'
        return 'ubsan/%s@%s' % (re.sub(r'[^a-z ]', '', re.sub(r"'.*?'", '', m.group(1)))[:60].strip().replace(' ', '-'), fn)
    if 'terminate called' in err:
        m = re.search(r"terminate called.*?(?:instance of '(.*?)')?", err)
        w = re.search(r'what\(\):\s*(.*)', err)
        return 'terminate/%s' % (w.group(1)[:60] if w else 'unknown')
    if rc < 0:
        return 'signal/%s' % signal.Signals(-rc).name
    return 'exit/%d' % rc


TSAN_RE = re.compile(r'WARNING: ThreadSanitizer: (.*?) \(pid=\d+\)(.*?)(?=^=+$)', re.S | re.M)


def tsan_reports(err):
    out = []
    for m in TSAN_RE.finditer(err):
        kind = m.group(1).strip().replace(' ', '-')
        fr = []
        for part in re.split(r'\n\s*\n', m.group(2)):
            if re.search(r'(Read|Write|write|read|Mutex|Previous|Cycle|acquired)', part):
                f = frame(part)
                if f != '?':
                    fr.append(f)
        out.append(('tsan/%s@%s' % (kind, '|'.join(sorted(set(fr[:2])) or ['?'])), m.group(0)[:6000]))
    return out


def run_one(cmd, timeout, cwd):
    pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=cwd, start_new_session=True)
    res = {}

    def killer():
        res['timeout'] = True
        try:
            os.killpg(pr.pid, signal.SIGKILL)
        except OSError:
            pass
    t = threading.Timer(timeout, killer)
    t.start()
    out, err = pr.communicate()
    t.cancel()
    try:
        os.killpg(pr.pid, signal.SIGKILL)
    except OSError:
        pass
    return pr.returncode, out.decode('utf8', 'replace'), err.decode('utf8', 'replace'), res.get('timeout', False)


def add_viol(key, detail, cmd, extra=''):
    with lock:
        v = viols.setdefault(key, {'detail': detail, 'cmd': cmd, 'extra': extra[-12000:], 'count': 0})
        v['count'] += 1


def parse(out, cmd, args):
    last = None
    done = False
    for l in out.split('\n'):
        if l.startswith('CASE '):
            last = int(l[5:])
        elif l.startswith('VIOL '):
            k, _, d = l[5:].partition(' | ')
            m = re.match(r'case (-?\d+)', d)
            add_viol(k, d, args + ['--case', m.group(1) if m else str(last)])
        elif l.startswith('OTHER '):
            k, _, d = l[6:].partition(' | ')
            with lock:
                others.setdefault(k, d)
        elif l.startswith('STAT '):
            n, v = l[5:].rsplit(' ', 1)
            with lock:
                if n.startswith('max'):
                    stats[n] = max(stats.get(n, 0), int(v))
                else:
                    stats[n] = stats.get(n, 0) + int(v)
        elif l.startswith('COVER '):
            with lock:
                for h in l[6:].split():
                    if len(cover) < 3000000:
                        cover.add(h)
        elif l.startswith('SAMPLE '):
            with lock:
                if len(samples) < 12:
                    samples.append(l[7:])
        elif l == 'DONE':
            done = True
    return last, done


def shard(r, i, n, cases):
    args = [bins[(r['profile'], r['harness'])], '--prop', A.prop, '--mode', r.get('mode', ''), '--tier', A.tier, '--seed', str(A.seed), '--cases', str(cases)]
    base = args + ['--shard', '%d/%d' % (i, n)]
    start = 0
    tmo = r.get('timeout', 330 if A.tier == 'quick' else 3600)
    for attempt in range(4):
        cmd = base + ['--from', str(start)]
        rc, out, err, to = run_one(cmd, tmo, VERIF)
        if r['profile'] == 'tsan':
            for k, d in tsan_reports(err):
                add_viol(k, d.replace('\n', ' ')[:600], args, d)
        last, done = parse(out, cmd, args)
        if A.v and err:
            sys.stderr.write(err[-3000:])
        if done and rc == 0:
            return
        if to:
            if last is None:
                with lock:
                    incon.append('shard %d of %s timed out before its first case' % (i, r['harness']))
                return
            rc2, out2, err2, to2 = run_one(args + ['--case', str(last)], r.get('hang', 150), VERIF)
            if to2:
                add_viol('hang/%s' % r['harness'], 'case %d does not finish' % last, args + ['--case', str(last)], out2[-3000:])
            elif rc2 != 0:
                add_viol('crash/' + classify(rc2, err2), 'case %d' % last, args + ['--case', str(last)], err2[-9000:])
            else:
                with lock:
                    incon.append('shard %d of %s: time limit (case %d finished alone)' % (i, r['harness'], last))
                return
        elif rc == 3 or (rc == -9 and 'AddressSanitizer' not in err):
            with lock:
                incon.append('shard %d of %s: exit %d %s' % (i, r['harness'], rc, err[-300:]))
            return
        else:
            # a crash: it counts, and the cases after it are still run
            add_viol('crash/' + classify(rc, err), 'case %s: %s' % (last, err[:400].replace('\n', ' ')), args + ['--case', str(last)], err[:12000])
        if last is None:
            return
        start = last + 1


jobs = queue.Queue()
tot = 0
for r in P['runs']:
    if A.tier == 'quick' and r.get('only') == 'thorough':
        continue
    c = r['cases'] if A.tier == 'quick' else r.get('thorough', r['cases'] * 10)
    c = max(1, int(c * A.scale))
    n = min(r.get('shards', A.jobs), c)
    for i in range(n):
        jobs.put((r, i, n, c))


def worker():
    while True:
        try:
            j = jobs.get_nowait()
        except queue.Empty:
            return
        try:
            shard(*j)
        except Exception as e:  # machinery failure, not a verdict
            with lock:
                incon.append('machinery: %r' % e)


if A.replay:
    d = json.load(open(A.replay))
    cmd = d['cmd']
    print('replaying', ' '.join(cmd))
    rc, out, err, to = run_one(cmd, 600, VERIF)
    print(out[-6000:]); print(err[-6000:])
    bad = to or rc != 0 or re.search(r'^VIOL ', out, re.M) or 'WARNING: ThreadSanitizer' in err
    sys.exit(1 if bad else 0)

ws = [threading.Thread(target=worker) for _ in range(A.jobs)]
[w.start() for w in ws]
[w.join() for w in ws]

# judgement
real = {}
seen_kf = {}
for k, v in viols.items():
    hit = None
    for f in KF:
        if re.fullmatch(f['key'], k) and (not f.get('detail') or re.search(f['detail'], v['detail'])):
            hit = f
    if hit:
        seen_kf[hit['key']] = k
    else:
        real[k] = v
for f in KF:
    print('KNOWN-FINDING: property=%s %s%s' % (A.prop, f['what'], '' if f['key'] in seen_kf else ' (not met by this run)'))

floors = {}
for r in P['runs']:
    for s, m in (r.get('floors') or {}).items():
        floors[s] = m
short = []
if A.scale >= 1.0 and not real:
    for s, m in floors.items():
        if stats.get(s, 0) < m:
            short.append('%s=%d < %d' % (s, stats.get(s, 0), m))

evals = sum(stats.get(s, 0) for s in P.get('evals', ['cases']))
ev = {'property': A.prop, 'tier': A.tier, 'seed': A.seed, 'level': P.get('level', 'exploration'),
      'coverage': {'evaluations': int(evals), 'distinct_nontrivial': len(cover), 'rule': P['rule'],
                   'samples': samples[:10] or ['(none recorded)'], 'observed': {k: stats[k] for k in sorted(stats)},
                   'floors': floors, 'build_s': round(T1 - T0, 1), 'known_findings_met': sorted(seen_kf),
                   'other_properties_alarms': sorted(others)[:20], 'inconclusive': incon[:10]},
      'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - T0, 1), 'violations': len(real)}
os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
json.dump(ev, open(os.path.join(VERIF, 'evidence', A.prop + '.json'), 'w'), indent=1, sort_keys=True)

print('property=%s tier=%s seed=%d cases=%d distinct=%d build=%.0fs total=%.0fs' % (A.prop, A.tier, A.seed, stats.get('cases', 0), len(cover), T1 - T0, time.time() - T0))
if A.v:
    for k in sorted(stats):
        print('   ', k, stats[k])
    for k in sorted(others):
        print('   OTHER', k, others[k][:600])
if real:
    rd = os.path.join(VERIF, 'replays')
    os.makedirs(rd, exist_ok=True)
    for n, (k, v) in enumerate(sorted(real.items())):
        p = os.path.join(rd, '%s-%s.json' % (A.prop, re.sub(r'[^A-Za-z0-9]+', '_', k)[:60]))
        json.dump({'property': A.prop, 'key': k, 'detail': v['detail'], 'cmd': v['cmd'], 'log': v['extra']}, open(p, 'w'), indent=1)
        if n < 10:
            print('  %s (x%d): %s' % (k, v['count'], v['detail'][:700]))
            print('VIOLATION property=%s replay=%s' % (A.prop, p))
    sys.exit(1)
if incon or short:
    print('INCONCLUSIVE property=%s %s' % (A.prop, '; '.join((incon + short)[:8])))
    sys.exit(2)
print('HELD property=%s on everything explored' % A.prop)
sys.exit(0)
