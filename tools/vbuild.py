#!/usr/bin/env python3
"""Builds harnesses of /verif/harness against /repo's current working tree with ninja.
usage: vbuild.py PROFILE HARNESS [HARNESS...]   (prints the binary paths)
Every source below the library directories is globbed, so that new or split files are picked up."""
import os, sys, subprocess, glob, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))

# library -> list of directories below src
LIBS = {
    'Common': ['Common'], 'crypto': ['crypto'], 'CryptoNoteCore': ['CryptoNoteCore'],
    'Http': ['HTTP'], 'InProcessNode': ['InProcessNode'], 'Logging': ['Logging'], 'Mnemonics': ['Mnemonics'],
    'NodeRpcProxy': ['NodeRpcProxy'], 'Rpc': ['Rpc'], 'P2P': ['CryptoNoteProtocol', 'P2p'],
    'Serialization': ['Serialization'], 'System': ['System', 'Platform/Linux/System'], 'Transfers': ['Transfers'],
    'Wallet': ['Wallet', 'WalletLegacy'], 'PaymentGate': ['PaymentGate'], 'JsonRpcServer': ['JsonRpcServer'],
    'BlockchainExplorer': ['BlockchainExplorer'],
}
CORE = ['CryptoNoteCore', 'crypto', 'Common', 'Serialization', 'System', 'Logging']

PROFILES = {
    'plain': ('gcc', 'g++', '-O1 -g0', ''),
    'fast': ('gcc', 'g++', '-O2 -g0', ''),
    'asan': ('gcc', 'g++', '-O1 -g1 -fno-omit-frame-pointer -fsanitize=address', '-fsanitize=address'),
    'ubsan': ('gcc', 'g++', '-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=alignment,vptr,shift-base -fno-sanitize-recover=all', '-fsanitize=address,undefined'),
    # without AddressSanitizer, which does not follow exceptions thrown on the stacks the dispatcher makes for its tasks
    'ub': ('gcc', 'g++', '-O1 -g1 -fno-omit-frame-pointer -fsanitize=undefined -fno-sanitize=alignment,vptr,shift-base -fno-sanitize-recover=all', '-fsanitize=undefined'),
    'tsan': ('gcc', 'g++', '-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread', '-fsanitize=thread'),
}
COMMON = '-march=x86-64 -maes -pthread -D_DEFAULT_SOURCE -D_GNU_SOURCE -DHAVE_ROTR -DMINIUPNP_STATICLIB -DNDEBUG -DCONCEAL_VERIF -w'

# harness -> libs (link order irrelevant: one group), extra link flags, extra sources
HARNESS = {}
exec(open(os.path.join(VERIF, 'tools', 'harnesses.py')).read())


def srcs(dirs):
    out = []
    for d in dirs:
        for root, _, files in os.walk(os.path.join(REPO, 'src', d)):
            for f in sorted(files):
                if f.endswith(('.cpp', '.c', '.cc', '.cxx')):
                    out.append(os.path.join(root, f))
    return sorted(out)


def esc(p):
    return p.replace('$', '$$').replace(' ', '$ ').replace(':', '$:')


def generate(profile, names):
    cc, cxx, opt, ld = PROFILES[profile]
    bdir = os.path.join(BUILD, profile)
    gen = os.path.join(bdir, 'gen')
    os.makedirs(gen, exist_ok=True)
    vh = os.path.join(gen, 'version.h')
    text = open(os.path.join(REPO, 'src', 'version.h.in')).read()
    text = text.replace('@COMMIT@', 'verif').replace('@VERSION@', '6.0.0').replace('@VERSION_BUILD_NO@', '1')
    if not os.path.exists(vh) or open(vh).read() != text:
        open(vh, 'w').write(text)
    inc = ' '.join('-I' + os.path.join(REPO, p) for p in
                   ['include', 'src', 'external', 'src/Platform/Linux', 'external/parallel_hashmap', 'external/miniupnpc', 'external/miniupnpc/include', 'version'])
    inc = '-I%s %s -I%s' % (gen, inc, os.path.join(VERIF, 'lib'))
    L = ['ninja_required_version = 1.3',
         'cflags = %s %s %s' % (opt, COMMON, inc),
         'rule cxx', '  command = %s -std=c++11 $cflags $xflags -MMD -MF $out.d -c $in -o $out' % cxx, '  depfile = $out.d', '  deps = gcc', '  description = CXX $out',
         'rule cc', '  command = %s $cflags $xflags -MMD -MF $out.d -c $in -o $out' % cc, '  depfile = $out.d', '  deps = gcc', '  description = CC $out',
         'rule ar', '  command = rm -f $out && ar rcs $out $in', '  description = AR $out',
         'rule link', '  command = %s %s -pthread -o $out $in -Wl,--start-group $libs -Wl,--end-group $xlibs -lboost_filesystem -lboost_thread -lboost_date_time -lboost_chrono -lboost_regex -lboost_serialization -lboost_program_options -lboost_system -lresolv -lrt -ldl' % (cxx, ld), '  description = LINK $out']
    libs = []
    for n in names:
        for l in HARNESS[n]['libs']:
            if l not in libs:
                libs.append(l)
    first = []
    for l in libs:
        objs = []
        if l == 'upnp':
            files = [os.path.join(REPO, 'external/miniupnpc/src', f) for f in
                     ('connecthostport.c', 'igd_desc_parse.c', 'minisoap.c', 'miniupnpc.c', 'miniwget.c', 'minixml.c', 'addr_is_reserved.c',
                      'portlistingparse.c', 'receivedata.c', 'upnpcommands.c', 'upnpdev.c', 'upnperrors.c', 'upnpreplyparse.c', 'minissdpc.c')]
            files = [f for f in files if os.path.exists(f)]
        else:
            files = srcs(LIBS[l])
        for s in files:
            rel = os.path.relpath(s, REPO).replace('..', '_')
            o = os.path.join(bdir, 'obj', rel + '.o')
            L.append('build %s: %s %s' % (esc(o), 'cc' if s.endswith('.c') else 'cxx', esc(s)))
            xf = ''
            if l == 'crypto':
                xf = '-O2 '   # as in the official build: the hashes are too slow otherwise
            if l == 'upnp':
                xf = '-DMINIUPNPC_SET_SOCKET_TIMEOUT -DMINIUPNPC_VERSION_STRING=\\"x\\" -DOS_STRING=\\"x\\" -DMINIUPNPC_GET_SRC_ADDR'
            if xf:
                L.append('  xflags = ' + xf)
            objs.append(o)
        a = os.path.join(bdir, 'lib%s.a' % l)
        L.append('build %s: ar %s' % (esc(a), ' '.join(map(esc, objs))))
    outs = []
    for n in names:
        h = HARNESS[n]
        objs = []
        for s in [h.get('main', n + '.cpp'), os.path.join(VERIF, 'lib', 'vh.cpp')] + h.get('extra', []):
            sp = s if s.startswith('/') else os.path.join(VERIF, 'harness', s)
            o = os.path.join(bdir, 'obj', '_h', n, os.path.basename(s) + '.o')
            first.append('build %s: cxx %s' % (esc(o), esc(sp)))
            first.append('  xflags = ' + h.get('cxxflags', ''))
            objs.append(o)
        out = os.path.join(bdir, 'bin', n)
        al = [os.path.join(bdir, 'lib%s.a' % l) for l in h['libs']]
        L.append('build %s: link %s | %s' % (esc(out), ' '.join(map(esc, objs)), ' '.join(map(esc, al))))
        L.append('  libs = ' + ' '.join(al))
        L.append('  xlibs = ' + h.get('ldflags', ''))
        outs.append(out)
    i = [k for k, x in enumerate(L) if x.startswith('build ')][0]
    L[i:i] = first   # harness objects first: they are the slow ones
    nf = os.path.join(bdir, 'build-%s.ninja' % hashlib.sha1(' '.join(names).encode()).hexdigest()[:8])
    open(nf, 'w').write('builddir = %s\n' % bdir + '\n'.join(L) + '\n')
    return nf, outs


def build(profile, names, quiet=True):
    nf, outs = generate(profile, names)
    r = subprocess.run(['ninja', '-f', nf] + outs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-8000:])
        return None
    return outs


if __name__ == '__main__':
    o = build(sys.argv[1], sys.argv[2:])
    if o is None:
        sys.exit(2)
    print('\n'.join(o))
