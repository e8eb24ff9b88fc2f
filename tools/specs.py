"""Per property: which modules decide it, how distinct evaluations are counted, minimum observed events."""
SPECS = {
    'C01': {'modules': ['hash'], 'cpu': 90,
            'rule': 'one (algorithm, parameters, message, fragmentation) digest produced by the library and compared with an independent implementation',
            'min_events': {'digest': 5000, 'fragmented': 1000, 'counter_carry': 100, 'blake2_keyed': 100, 'long_messages': 1}},
    'C02': {'modules': ['mac'],
            'mult': 4,
            'rule': 'one MAC computed by the library for a distinct (algorithm, key, message, fragmentation) and compared with the definition',
            'min_events': {'hmac': 5000, 'hmac_long_key': 500, 'poly1305': 5000, 'poly1305_steered': 2000, 'poly1305_near_modulus': 20, 'siphash': 5000}},
    'C06': {'modules': ['stream'],
            'mult': 4,
            'rule': 'one (cipher, key, nonce, counter, data, fragmentation) stream compared with the reference key stream',
            'min_events': {'salsa20': 2000, 'chacha20': 2000, 'counter_carry': 200, 'in_place': 1000, 'arc4': 500, 'seek': 500}},
    'C03': {'modules': ['cipher'],
            'mult': 2,
            'rule': 'one (cipher, key, block) encrypted and decrypted by the library and compared with an independent implementation',
            'min_events': {'blocks': 50000, 'keys': 5000, 'key_lengths': 1000, 'pad_accept': 500, 'pad_reject': 500}},
    'C04': {'modules': ['modes'],
            'mult': 5,
            'rule': 'one (cipher, mode, direction, key, IV, data, fragmentation, padding) stream compared with the mode definition',
            'min_events': {'accepted': 5000, 'rejected': 1000, 'roundtrips': 5000, 'in_place': 500, 'ecb_stolen': 1000, 'stolen_direct': 1000}},
    'C05': {'modules': ['aead'],
            'rule': 'one sealed message compared with the scheme definition, or one modified (ciphertext, tag, AAD, IV, key) opening attempt judged',
            'min_events': {'sealed_and_opened': 2000, 'tampered': 20000, 'chachapoly': 3000, 'secretbox': 1000, 'gcm_counter_wrap': 200, 'direct_in_place': 1000}},
    'C07': {'modules': ['kdf'],
            'rule': 'one (function, hash, password, salt, cost, length) derivation compared with an independent computation',
            'min_events': {'bcrypt': 100, 'bcrypt_text': 50, 'bcrypt_malformed': 5000, 'bcrypt_pbkdf': 40, 'eb2k': 5000, 'hkdf': 3000, 'pbkdf2': 3000, 'pgpdf': 5000, 'scrypt': 500}},
    'C08': {'modules': ['drbg'],
            'rule': 'one history of init/reseed/generate calls replayed on a model; every output compared',
            'min_events': {'hmac_drbg': 2000, 'hash_drbg': 3000, 'ctr_drbg': 2000, 'ctr_drbg_df': 2000, 'reseeds': 2000, 'additional_input': 5000}},
    'C09': {'modules': ['encoding'], 'mult': 4,
            'rule': 'one string encoded or decoded by the library and judged by an independent strict codec',
            'min_events': {'decode_accept': 100000, 'decode_reject': 100000, 'base58': 5000, 'bech32': 5000, 'cash32': 5000, 'convert_bits': 3000}},
    'C10': {'modules': ['mpi'], 'mult': 4,
            'rule': 'one big-integer call with its operands and aliasing pattern, compared with GMP',
            'min_events': {'binary': 50000, 'quorem': 20000, 'exact': 10000, 'word': 30000, 'shifts': 20000, 'roots': 3000, 'convert': 10000, 'mpn': 30000, 'history_steps': 50000, 'alias4': 5000}},
    'C11': {'modules': ['numth'], 'mult': 4,
            'rule': 'one number-theoretic call with its operands, compared with GMP or with the defining equation; one primality decision compared with GMP (40 rounds)',
            'min_events': {'gcd': 20000, 'gcdext': 20000, 'invertible': 10000, 'not_invertible': 1000, 'symbols': 20000, 'powm': 8000, 'sec_powm': 4000, 'sqrtm_root': 2000,
                           'sqrtm_none': 500, 'sequences': 8000, 'prime': 1000, 'composite': 3000, 'randprime': 100, 'nextprime': 100, 'probable': 5000, 'lucas_pseudoprime': 50, 'strong_pseudoprime': 50, 'degenerate_modulus': 500}},
    'C12': {'modules': ['wei'], 'mult': 0.6,
            'rule': 'one key or point operation (curve, operands, encoding, blinding) compared with the affine group law over GMP integers',
            'min_events': {'results': 20000, 'refused': 5000, 'decode_accept': 1500, 'decode_reject': 5000, 'double': 300, 'cancel': 300, 'sum_passes_infinity': 100,
                           'grind_through_infinity': 100, 'blinded_context': 10000, 'randomize': 1000, 'targets': 1000}},
    'C13': {'modules': ['ecdsa'], 'mult': 0.7,
            'rule': 'one (curve, key, digest, signature) signed, verified, recovered or (de)serialised and compared with the SEC 1 / RFC 6979 definition on the group-law model',
            'min_events': {'signed': 2000, 'verify_accept': 3000, 'verify_reject': 3000, 'recovered': 3000, 'recover_refused': 2000, 'recovered_high_x': 300, 'sum_is_infinity': 100,
                           'der_accept': 2000, 'der_reject': 5000, 'lax_accept': 3000, 'nonce_retry': 500}},
    'C14': {'modules': ['schnorr'], 'mult': 0.8,
            'rule': 'one signature produced or judged, one batch judged, or one x-only key operation compared with the scheme definition on the group-law model',
            'min_events': {'legacy_signed': 500, 'bip340_signed': 500, 'verify_accept': 1000, 'verify_reject': 3000, 'r_is_infinity': 200, 'wrong_root': 200, 'batch_accept': 300, 'batch_reject': 500,
                           'cancelling_s': 100, 'xonly_result': 5000, 'xonly_refused': 3000, 'grinds': 500}},
    'C15': {'modules': ['eddsa'],
            'rule': 'one signature produced, one signature judged by the cofactorless and cofactored forms, or one batch judged, compared with the EdDSA equations on the Edwards model',
            'min_events': {'signed': 1500, 'verify_accept': 1000, 'verify_reject': 1000, 'cofactored_only': 200, 'torsion_items': 1000, 'unreduced_s': 100, 'alternative_encoding': 100, 'batch_accept': 200,
                           'batch_reject': 300, 'cancelling_s': 50, 'with_context': 300}},
    'C16': {'modules': ['edwards'],
            'rule': 'one scalar, key, point or conversion call compared with integer arithmetic and the affine Edwards group law',
            'min_events': {'scalar_ops': 10000, 'unreduced_scalar': 500, 'keys': 800, 'decode_accept': 2000, 'decode_reject': 2000, 'small_order': 300, 'converted': 1000, 'import_accept': 1000, 'import_reject': 500,
                           'results': 5000, 'refused': 500, 'unreduced_multiplier': 500, 'derive_identity': 100}},
    'C17': {'modules': ['ecdh'],
            'rule': 'one key agreement, key or point call compared with the RFC 7748 ladder and the curve equations over GMP integers',
            'min_events': {'derive': 3000, 'derive_zero': 200, 'twist_input': 1000, 'unreduced_input': 300, 'agreements': 500, 'converted': 1000, 'with_torsion': 500, 'small_order': 100,
                           'import_accept': 1000, 'import_reject': 1000, 'crossform': 500, 'keys': 500}},
    'C18': {'modules': ['ristretto'],
            'rule': 'one scalar, encoding or element call compared with the affine Ristretto formulas on the Edwards model',
            'min_events': {'scalar_result': 10000, 'scalar_refused': 1000, 'decode_accept': 1500, 'decode_reject': 2000, 'results': 5000, 'refused': 1000, 'grinds': 200}},
    'C19': {'modules': ['maps'],
            'rule': 'one uniform or hash map evaluated forwards, or inverted for every hint, and compared with the published map over GMP integers',
            'min_events': {'forward': 3000, 'hashed': 3000, 'inverse': 5000, 'inverse_none': 3000, 'hash_inverse': 2000, 'special_u': 200, 'exceptional_u': 100, 'same_halves': 200, 'opposite_halves': 200, 'stray_bits': 200}},
    'C20': {'modules': ['rsa'], 'mult': 3,
            'rule': 'one signature, ciphertext or veil produced, or one (possibly crafted) signature or ciphertext judged, compared with the RFC 8017 encodings over GMP integers',
            'min_events': {'signed': 500, 'verify_accept': 500, 'verify_reject': 1500, 'crafted15': 500, 'pss_signed': 400, 'pss_accept': 500, 'pss_reject': 500, 'pss_byte_boundary': 100, 'encrypted': 300,
                           'decrypt_accept': 300, 'decrypt_reject': 300, 'key_accept': 100, 'key_fallback': 200, 'oaep_encrypted': 200, 'oaep_accept': 200, 'oaep_reject': 300, 'veiled': 500, 'veil_refused': 200, 'badkey_refused': 2000, 'large_legal': 20, 'large_private': 2, 'large_refused': 10}},
    'C21': {'modules': ['dsa'], 'mult': 4,
            'rule': 'one signature produced or judged, one shared secret derived or one signature encoding converted, compared with FIPS 186 over GMP integers',
            'min_events': {'signed': 500, 'accept': 1500, 'reject': 700, 'nonce_retry': 20, 'unreduced_r': 10, 'unreduced_s': 10, 'derived': 200, 'derive_refused': 150, 'outside_subgroup': 40, 'sig_exported': 1000,
                           'sig_imported': 500, 'sig_import_refused': 200, 'degenerate_returned': 40, 'r_always_zero': 10}},
    'C22': {'modules': ['keys'], 'cpu': 90,
            'rule': 'one key or parameter encoding judged, converted or completed, or one key generated, compared with a strict DER reader and the key equations over GMP integers',
            'min_events': {'rsa_priv_accept': 700, 'rsa_priv_refused': 700, 'rsa_priv_malformed': 500, 'rsa_altered': 500, 'rsa_limit_key': 80, 'rsa_pub_accept': 400, 'rsa_pub_refused': 400, 'huge_modulus': 5,
                           'recovered_ned': 80, 'recovered_blum': 8, 'bad_import_refused': 50, 'bad_import_repaired': 50, 'rsa_generated': 40, 'generate_refused': 60, 'params_accept': 500, 'pub_accept': 500,
                           'priv_accept': 250, 'priv_refused': 250, 'dsa_recovered': 500, 'dsa_created': 60, 'dsa_generated': 12, 'dsa_generate_refused': 40}},
    'C26': {'modules': ['rand'], 'mult': 6, 'configs': ['san64', 'san32', 'fast64', 'fast32', 'lock64'],
            'rule': 'one request or history of requests under one fault script of the simulated system calls, or one real fork or thread group; outputs judged against the bytes the system delivered',
            'min_events': {'entropy_direct': 5000, 'entropy_fallback': 5000, 'entropy_failed': 1000, 'short_uuid': 500, 'history_outputs': 5000, 'history_refused': 500, 'seedings': 2000, 'process_changes': 3000,
                           'seed_bits': 500, 'uniform_draws': 100000, 'balance_draws': 20000, 'fork_outputs': 500, 'thread_outputs': 3000}},
    'C23': {'modules': ['api'], 'runner': 'memory', 'cpu': 30,
            'stages': [{'modules': ['api'], 'configs': ['san64', 'san32', 'msan64', 'msan32'], 'mult': 6, 'thorough': 20},
                       {'modules': ['hash', 'mac', 'stream', 'cipher', 'modes', 'aead', 'kdf', 'drbg', 'encoding', 'mpi', 'numth', 'wei', 'ecdsa', 'schnorr', 'eddsa', 'edwards', 'ecdh',
                                    'ristretto', 'maps', 'rsa', 'dsa', 'keys', 'rand'], 'configs': ['san64'], 'mult': 0.5, 'shards': 1, 'thorough': 10}],
            'rule': 'one case of calls with exactly sized buffers executed under the memory monitors (distinct by transcript or operands); second stage: oracle evaluations of the other harnesses under ASan+UBSan',
            'min_events': {'calls': 100000, 'calls_accepted': 50000}},
    'C29': {'modules': ['oom'], 'runner': 'memory', 'cpu': 60, 'judged': r'.*:(leak|misuse|wrong-after-failure|hang|crash|leak-on-failure|misuse-on-failure)(:.*)?',
            'stages': [{'modules': ['oom'], 'configs': ['san64', 'san32', 'fast64'], 'mult': 1, 'thorough': 12},
                       {'modules': ['own_kdf', 'own_encoding', 'own_mpi', 'own_numth', 'own_rsa', 'own_dsa', 'own_keys'], 'configs': ['fast64', 'fast32'], 'mult': 0.15, 'shards': 1, 'thorough': 16},
                       {'modules': ['own_wei', 'own_ecdsa', 'own_schnorr', 'own_eddsa', 'own_edwards', 'own_ecdh', 'own_ristretto', 'own_maps', 'own_aead'], 'configs': ['fast64'],
                        'mult': 0.03, 'shards': 1, 'thorough': 16}],
            'rule': 'one case whose memory balance was compared before and after, or one execution of a case with a chosen allocation failing (distinct by case and allocation); second stage: oracle evaluations of the other harnesses, the memory balance of whose cases was watched',
            'min_events': {'cases_balanced': 20000, 'calls_refused': 5000, 'failures_single': 5000, 'failures_persistent': 2000, 'aborted': 2000, 'refused': 1000, 'refused_by_scrypt_derive': 200,
                           'refused_by_base58_decode': 200, 'refused_by_base58_encode': 200, 'refused_by_sign_pss': 20, 'refused_by_verify': 10}},
    'C27': {'modules': ['threads'], 'configs': ['tsan64', 'tsan32', 'tsanlock', 'fast64', 'lock64'], 'shards': 2, 'cpu': 200,
            'rule': 'one case executed in one thread concurrently with the others and compared with its sequential transcript (distinct by case and thread)',
            'min_events': {'threads': 1000, 'thread_calls': 20000, 'first_use': 200, 'shared_buffers': 1000, 'shared_ciphers': 200, 'shared_integers': 100, 'generator_outputs': 1000}},
    'C28': {'modules': ['api'], 'runner': 'transcripts', 'configs': ['fast64', 'fast32', 'clang64', 'clang32', 'asm32', 'port64', 'plain'], 'mult': 0.7, 'thorough': 20,
            'rule': 'one case (a fixed sequence of calls) whose full transcript of results was compared between builds; distinct by transcript',
            'min_events': {'cases_compared': 10000, 'configurations': 5, 'calls': 200000}},
    'C24': {'modules': ['ct'], 'runner': 'taint', 'configs': ['fast64', 'fast32', 'clang64', 'clang32', 'asm32'], 'thorough': 10,
            'rule': 'one operation executed with its secret inputs marked undefined (distinct by operation, curve or hash, build and secret value) and its memcheck error count compared before and after',
            'min_events': {'control_branch': 5, 'control_address': 5, 'observed': 5000, 'signatures_valid': 200, 'agreements': 20}},
    'C25': {'modules': ['residue'], 'runner': 'residue', 'configs': ['fast64', 'fast32', 'clang64', 'plain'], 'thorough': 20,
            'rule': 'one operation run on a painted stack with its heap releases recorded, then searched for the secrets it handled; distinct by operation, parameters and secret values',
            'min_events': {'control_seen': 12, 'operation_watched': 5000, 'stack_secret_searched': 8000, 'heap_secret_searched': 2000, 'heap_blocks_scanned': 20000,
                           'signature': 400, 'agreement': 200, 'rsa_done': 1000, 'dsa_done': 800, 'derived': 1500, 'opened': 100, 'encrypted': 100}},
}
