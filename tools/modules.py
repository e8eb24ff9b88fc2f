"""Harness modules: sources under harness/, library files that may be left out of the link."""
NOECC = ['ecc.c', 'ies.c']
MODULES = {
    'hash': {'src': ['hash.cpp'], 'skip': NOECC},
    'mac': {'src': ['mac.cpp'], 'skip': NOECC},
    'stream': {'src': ['stream.cpp'], 'skip': NOECC},
    'cipher': {'src': ['cipher.cpp'], 'skip': NOECC},
    'modes': {'src': ['modes.cpp'], 'skip': NOECC},
    'aead': {'src': ['aead.cpp'], 'skip': ['ecc.c']},
    'kdf': {'src': ['kdf.cpp'], 'skip': NOECC},
    'drbg': {'src': ['drbg.cpp'], 'skip': NOECC},
    'encoding': {'src': ['encoding.cpp'], 'skip': NOECC},
    'mpi': {'src': ['mpi.cpp'], 'skip': NOECC},
    'numth': {'src': ['numth.cpp'], 'skip': NOECC},
    'wei': {'src': ['wei.cpp'], 'skip': ['ies.c']},
    'ecdsa': {'src': ['ecdsa.cpp'], 'skip': ['ies.c']},
    'schnorr': {'src': ['schnorr.cpp'], 'skip': ['ies.c'], 'wrap': ['torsion__hmac_drbg_rng', 'torsion__hmac_drbg_generate']},
    'eddsa': {'src': ['eddsa.cpp'], 'skip': ['ies.c'], 'wrap': ['torsion__hmac_drbg_rng', 'torsion__hmac_drbg_generate']},
    'edwards': {'src': ['edwards.cpp'], 'skip': ['ies.c']},
    'ecdh': {'src': ['ecdh.cpp'], 'skip': ['ies.c']},
    'ristretto': {'src': ['ristretto.cpp'], 'skip': ['ies.c']},
    'maps': {'src': ['maps.cpp'], 'skip': ['ies.c']},
    'rsa': {'src': ['rsa.cpp'], 'skip': NOECC},
    'dsa': {'src': ['dsa.cpp'], 'skip': NOECC},
    'keys': {'src': ['keys.cpp'], 'skip': NOECC},
    'rand': {'src': ['rand.cpp'], 'skip': NOECC, 'wrap': ['syscall', 'open', 'open64', 'close', 'read', 'poll', 'fstat', 'fcntl', 'getpid', 'getrandom', 'getentropy',
                      'torsion__hwrand', 'torsion__has_sysrand', 'torsion__has_rdrand', 'torsion__rdrand32']},
    'api': {'src': ['api.cpp', 'api_sym.cpp', 'api_ecc.cpp', 'api_pk.cpp', 'api_mpi.cpp'], 'libs': ['-lpthread'], 'clang': True},
    'threads': {'src': ['threads.cpp', 'api_sym.cpp', 'api_ecc.cpp', 'api_pk.cpp', 'api_mpi.cpp', 'api.cpp'], 'defs': ['-DAPI_THREADS'], 'libs': ['-lpthread']},
    'oom': {'src': ['oom.cpp', 'api_sym.cpp', 'api_ecc.cpp', 'api_pk.cpp', 'api_mpi.cpp', 'api.cpp'], 'defs': ['-DAPI_ENTRIES'], 'libs': ['-lpthread'],
            'wrap': ['malloc', 'calloc', 'realloc', 'free']},
    'residue': {'src': ['residue.cpp'], 'wrap': ['free', 'realloc']},
    'ct': {'src': ['ct.cpp'], 'libs': ['-lpthread']},
}

# the same harnesses with their memory balance watched (C29)
for m in ('aead', 'kdf', 'encoding', 'mpi', 'numth', 'wei', 'ecdsa', 'schnorr', 'eddsa', 'edwards', 'ecdh', 'ristretto', 'maps', 'rsa', 'dsa', 'keys'):
    MODULES['own_' + m] = dict(MODULES[m], src=MODULES[m]['src'] + ['balance.cpp'], wrap=['malloc', 'calloc', 'realloc', 'free'])
