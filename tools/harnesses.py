WRAPS = ['_ZN6crypto14cn_gpu_hash_v0ERNS_10cn_contextEPKvmRNS_4HashE', '_ZN6crypto15cn_slow_hash_v0ERNS_10cn_contextEPKvmRNS_4HashE',
         '_ZN6crypto20cn_fast_slow_hash_v1ERNS_10cn_contextEPKvmRNS_4HashE', '_ZN6crypto23cn_conceal_slow_hash_v0ERNS_10cn_contextEPKvmRNS_4HashE',
         '_ZN6common13fetch_dns_txtENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERSt6vectorIS5_SaIS5_EE', 'time', 'generate_random_bytes']
SIM = ' '.join('-Wl,--wrap=' + w for w in WRAPS)
SIMSRC = [os.path.join(VERIF, 'lib', 'sim.cpp'), os.path.join(VERIF, 'lib', 'simcmp.cpp')]
HARNESS.update({
    'crypto': {'libs': CORE},
    'codec': {'libs': ['PaymentGate', 'Rpc', 'P2P', 'JsonRpcServer', 'Http', 'Mnemonics', 'Wallet', 'Transfers'] + CORE},
    'sys': {'libs': ['System', 'Logging', 'Common']},
    'chain': {'libs': CORE + ['BlockchainExplorer'], 'extra': SIMSRC, 'ldflags': SIM, 'cxxflags': '-DSIM_HOOK_WRITE'},
})
HARNESS['container'] = {'libs': ['Transfers', 'BlockchainExplorer'] + CORE, 'extra': SIMSRC, 'ldflags': SIM}
