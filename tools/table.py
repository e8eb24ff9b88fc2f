# One row per property: the text of properties.jsonl and the check entry of MANIFEST.json.

NOTE = ('Held on the executions of the run, counted in the evidence file; trusts %s, the compilers and the '
        'sanitizer runtimes, and the harness generators. Not a proof.')
DIFF = 'differential reference-model monitor over recorded calls, ASan+UBSan builds of both back ends'

PROPS = [
 dict(id='C01', title='Hash functions return the specified digest for any message and any chunking',
  statement='For every supported hash function and every message, the digest equals the one its public specification defines, no matter how the message is cut into update calls (including empty ones), and generic and algorithm-specific entry points agree. Reported output and block sizes match the specification, keyed and variable-length variants honour key and length, and the non-cryptographic 32-bit hash and tweak agree with their reference too.',
  over=['inputs', 'histories', 'configurations'],
  quant='all 32 hash identifiers plus keyed BLAKE2, SHAKE output lengths and MurmurHash3; all messages; all partitions into updates; both back ends',
  why='The suite replays a few dozen fixed vectors, in one or two update calls; buffer-boundary, length-counter and multi-block interactions are quantified over all lengths and partitions.',
  files=['src/hash.c', 'src/util.c', 'include/torsion/hash.h'],
  mech=[('block buffering and length padding of each hash', 'src/hash.c *_update/*_final'), ('dispatch on the hash id', 'src/hash.c hash_init/update/final'), ('murmur3_sum/tweak', 'src/util.c')],
  observe=['hash_final output', 'per-algorithm *_final output', 'hash_output_size/hash_block_size'],
  technique=DIFF, note=NOTE % 'OpenSSL, libgcrypt, nettle and small in-harness references as oracles'),
 dict(id='C02', title='MACs (HMAC, Poly1305, SipHash) match their definition for any key and chunking',
  statement='For every key and message, HMAC over each hash, Poly1305 and the SipHash variants return the value their definition gives, for keys of any length, any split of the message into updates, and arithmetic corner cases of the modular reduction. Range-reduced SipHash output always lies below the requested bound.',
  over=['inputs', 'histories', 'configurations'],
  quant='all keys, messages and partitions; accumulator values at and around the modulus; both back ends',
  why='Tests use fixed vectors; carries in the 130-bit accumulator, over-long HMAC keys and partial-block states need specific values.',
  files=['src/mac.c', 'src/hash.c', 'include/torsion/mac.h'],
  mech=[('poly1305 32/64-bit reduction', 'src/mac.c'), ('siphash_sum/mod/128/256', 'src/mac.c'), ('hmac_init key folding', 'src/hash.c')],
  observe=['poly1305_final', 'hmac_final', 'siphash_* return values'],
  technique=DIFF, note=NOTE % 'OpenSSL and integer models of Poly1305 and SipHash as oracles'),
 dict(id='C03', title='Block ciphers match their specification and decryption inverts encryption',
  statement='For every block cipher and legal key, encrypting a block yields the ciphertext of the published algorithm and decrypting it returns the original block, also when input and output are the same buffer. Keys of illegal length are refused, and reported key and block sizes are right.',
  over=['inputs', 'configurations'],
  quant='24 cipher identifiers, all key lengths and keys, all blocks',
  why='Fixed vectors touch a small part of the S-box tables and key-schedule branches (weak keys, short keys, effective-bit variants).',
  files=['src/cipher.c', 'include/torsion/cipher.h'],
  mech=[('key schedules and rounds', 'src/cipher.c'), ('cipher_init length rules', 'src/cipher.c')],
  observe=['cipher_encrypt/cipher_decrypt output', 'cipher_init return', 'cipher_key_size/cipher_block_size'],
  technique=DIFF, note=NOTE % 'OpenSSL, libgcrypt and nettle as oracles'),
 dict(id='C04', title='Cipher modes and streams are correct for any chunking, and padding is strict',
  statement='Encrypting any data under any cipher and mode (ECB, CBC, CTS, XTS, CTR, CFB, OFB) gives the ciphertext the mode defines however the data is split across calls, and decrypting it with the same key and IV returns the data. Every call writes no more than the announced upper bound; ill-formed padding or lengths are refused on decryption, never accepted with wrong plaintext.',
  over=['inputs', 'histories', 'configurations'],
  quant='all cipher/mode pairs, IVs (including counter wrap), data lengths, partitions, padding settings, malformed final blocks',
  why='Partition state (held-back last block, stolen ciphertext, key-stream position, counter carry) is only sampled at a handful of sizes by tests.',
  files=['src/cipher.c', 'include/torsion/cipher.h'],
  mech=[('cipher_stream_update/final block buffering', 'src/cipher.c'), ('pkcs7 padding', 'src/cipher.c'), ('ctr/xts tweak increments', 'src/cipher.c')],
  observe=['cipher_stream_* and cipher_static_* output and return', '*_update_size/*_final_size bounds'],
  technique=DIFF, note=NOTE % 'in-harness mode references over OpenSSL/libgcrypt block ciphers'),
 dict(id='C05', title='Authenticated encryption rejects any altered message and matches its definition',
  statement='For GCM, CCM, EAX, ChaCha20-Poly1305 and secretbox, sealing gives the ciphertext and tag the scheme defines for any nonce, associated data and chunking, and opening accepts exactly that result. Any change to the ciphertext, tag, tag length, associated data, nonce or key makes opening fail.',
  over=['inputs', 'histories', 'configurations'],
  quant='all keys, nonces, associated data, messages, tag lengths, partitions, and single/multi-bit modifications of each part',
  why='Tests check fixed vectors and at most one tampered byte; acceptance of forgeries is a for-all statement over modifications and state histories.',
  files=['src/cipher.c', 'src/aead.c', 'src/ies.c', 'src/mac.c'],
  mech=[('tag comparison', 'src/cipher.c cipher_stream_final; src/aead.c aead_verify; src/ies.c secretbox_open'), ('length blocks', 'src/cipher.c ghash/ccm/eax; src/aead.c')],
  observe=['final return value', 'ciphertext and tag', 'plaintext recovered'],
  technique=DIFF + '; tamper enumeration', note=NOTE % 'OpenSSL and in-harness GCM/CCM/EAX/secretbox references'),
 dict(id='C06', title='Stream ciphers produce the specified key stream at every offset and chunking',
  statement='ChaCha20, XChaCha20, Salsa20, XSalsa20 and ARC4 XOR the specified key stream for every key and nonce length they accept, starting at any counter, for any split of the data into calls, in place or not. Applying the stream twice restores the data, counter carries included.',
  over=['inputs', 'histories', 'configurations'],
  quant='key/nonce lengths, start counters around 2^32 and 2^64, data lengths, partitions, aliasing',
  why='Counter carry and partial-block reuse occur at offsets that the fixed vectors never reach.',
  files=['src/stream.c', 'include/torsion/stream.h'],
  mech=[('counter increment and block position', 'src/stream.c'), ('HChaCha20/HSalsa20 derivation', 'src/stream.c')],
  observe=['*_crypt output', '*_derive output'],
  technique=DIFF, note=NOTE % 'OpenSSL and in-harness references'),
 dict(id='C07', title='Key derivation functions match their definition for every parameter set',
  statement='bcrypt, bcrypt-pbkdf, EB2K, HKDF, PBKDF2, OpenPGP string-to-key and scrypt return the output their definition gives for every accepted combination of password, salt, cost and output length, and refuse parameters outside their domain without hanging. A stored bcrypt hash verifies exactly for the password it was made from.',
  over=['inputs', 'configurations'],
  quant='passwords and salts of any length incl. empty, costs, output lengths not multiple of the block, invalid parameters',
  why='Output truncation, key folding, lane mixing and parameter validation are quantified over lengths and costs; tests use a few vectors.',
  files=['src/kdf.c', 'include/torsion/kdf.h'],
  mech=[('parameter guards and block iteration', 'src/kdf.c')],
  observe=['derived bytes', 'return value', 'termination'],
  technique=DIFF + '; hang watchdog', note=NOTE % 'OpenSSL, libcrypt and in-harness references'),
 dict(id='C08', title='Deterministic random generators follow SP 800-90A for any call history',
  statement='For every instantiation, the HMAC-, Hash- and CTR-DRBG outputs are those SP 800-90A prescribes for the same history of instantiate, reseed and generate calls, with any entropy, nonce, personalisation and additional-input lengths. The same seed and history always give the same bytes, and the next call continues from the updated state.',
  over=['inputs', 'histories', 'configurations'],
  quant='hash/cipher choices, seed and additional-input lengths, sequences of generate/reseed with mixed sizes',
  why='State evolution over long mixed histories (reseed after additional input, counter carry, partial blocks) is not in the fixed CAVP vectors.',
  files=['src/drbg.c', 'include/torsion/drbg.h'],
  mech=[('state update functions', 'src/drbg.c')],
  observe=['generated bytes per call'],
  technique='history monitor: each call replayed on an executable SP 800-90A model, ASan+UBSan builds', note=NOTE % 'an in-harness SP 800-90A model over OpenSSL HMAC/hash/AES'),
 dict(id='C09', title='Text encodings round-trip, and decoders accept only well-formed text',
  statement='For hex, base32, base58, base64, bech32 and cashaddr, decoding an encoded value returns the value, encoders emit exactly the specified text, and decoders and testers accept exactly the strings the format allows. Output lengths equal the announced sizes, nothing is written beyond them, and every single-character corruption of a checksummed string is refused.',
  over=['inputs', 'configurations'],
  quant='all byte strings and lengths, all candidate text strings incl. mutations of valid ones, all padding/case/prefix options',
  why='Strictness is a statement about all malformed strings; tests list a few dozen.',
  files=['src/encoding.c', 'include/torsion/encoding.h'],
  mech=[('alphabet tables, padding and checksum rules', 'src/encoding.c')],
  observe=['encoded text', 'decode return and bytes', '*_test return', '*_size'],
  technique=DIFF, note=NOTE % 'in-harness encoders/decoders written from the format definitions'),
 dict(id='C10', title='Big-integer arithmetic equals integer arithmetic for all operands and aliasing',
  statement='Every big-integer operation (add, subtract, multiply, square, divide with each rounding, shifts, bitwise logic, powers, roots, comparison, import/export and text conversion) returns the mathematically exact result for operands of any size and sign, also when output and input are the same variable. Read-only operands are never changed.',
  over=['inputs', 'configurations'],
  quant='operands from one limb to thousands of bits with random, sparse, all-ones and boundary limbs; all signs; all aliasing patterns; 64- and 32-bit limbs',
  why='Division correction steps, carries and normalisation paths trigger on vanishing fractions of inputs; tests are random at few sizes.',
  files=['src/mpi.c', 'include/torsion/mpi.h'],
  mech=[('limb kernels and quotient estimation', 'src/mpi.c mpn_*'), ('sign and size normalisation', 'src/mpi.c mpz_*')],
  observe=['results of mpz_*/mpn_* calls', 'operands after the call'],
  technique=DIFF, note=NOTE % 'GMP as the integer model'),
 dict(id='C11', title='Number theory (inverse, power, roots, symbols, primality) is exact',
  statement='Modular inverse, modular exponentiation, modular square root, gcd and extended gcd, Jacobi/Kronecker symbols and integer-power tests return exact results, and report failure exactly when no result exists. Primality tests accept every prime and reject every composite tried, including strong pseudoprimes, and generated primes are prime with the requested size.',
  over=['inputs', 'configurations'],
  quant='moduli even/odd/prime/composite, exponents incl. zero and negative, Carmichael numbers and pseudoprimes, boundary limbs',
  why='Failure cases (no inverse, no root, even modulus) and rare reduction branches are not enumerable by tests.',
  files=['src/mpi.c', 'include/torsion/mpi.h'],
  mech=[('binary/extended gcd, Montgomery and Barrett reduction', 'src/mpi.c'), ('Miller-Rabin and Lucas', 'src/mpi.c')],
  observe=['results and return values of mpz_*'],
  technique=DIFF, note=NOTE % 'GMP as the number-theory model'),
 dict(id='C12', title='Weierstrass key and point operations follow the group law on every curve',
  statement='On each supported prime curve, public-key creation, addition, combination, negation, tweaking, format conversion and shared-secret derivation return exactly the point the group law defines, including doubling, cancellation and the point at infinity. Private keys outside [1, n-1] and encodings that are not a point of the curve in canonical form are refused, and results do not depend on blinding.',
  over=['inputs', 'histories', 'configurations'],
  quant='P192, P224, P256, P384, P521, secp256k1; scalars 0, 1, n-1, n, sparse and random; points with special coordinates; malformed encodings; any randomisation',
  why='Exceptional cases of the addition formulas and rare field carries occur for specific operands only.',
  files=['src/ecc.c', 'src/fields/*.h', 'include/torsion/ecc.h'],
  mech=[('complete/unified addition and scalar multiplication', 'src/ecc.c wge_*/jge_*/wei_*'), ('field back ends', 'src/fields'), ('point and scalar import checks', 'src/ecc.c')],
  observe=['ecdsa_pubkey_* and ecdsa_privkey_* output and return', 'ecdsa_derive', 'field-element operations where reachable'],
  technique=DIFF, note=NOTE % 'a GMP affine-group model of each curve'),
 dict(id='C13', title='ECDSA signs deterministically and verifies exactly the valid signatures',
  statement='For every valid key and message digest, signing yields the deterministic low-S signature fixed by the key and digest, which verifies and from which the recorded recovery parameter recovers the signing key. Verification and recovery accept a (digest, signature, key) triple exactly when the signature equation holds with in-range low-S values, and DER import/export and normalisation are exact and strict.',
  over=['inputs', 'configurations'],
  quant='six curves, digests of any length, signatures with r,s at 0, n-1, n, boundary and mutated values, wrapped r, malformed DER',
  why='Forgery rejection and boundary values (r+n, high s, infinity) are for-all statements; tests use fixed vectors.',
  files=['src/ecc.c', 'src/asn1.c', 'src/drbg.c'],
  mech=[('nonce derivation, range checks and equation', 'src/ecc.c ecdsa_*'), ('DER reader/writer', 'src/asn1.c')],
  observe=['ecdsa_sign/verify/recover/sig_* output and return'],
  technique=DIFF, note=NOTE % 'a GMP/OpenSSL ECDSA model'),
 dict(id='C14', title='Schnorr signatures (legacy and BIP340) verify exactly when valid, also in batch',
  statement='Signing yields the signature the scheme defines and verification accepts a triple exactly when the scheme\'s equation, range and parity rules hold. Batch verification accepts a batch exactly when every member verifies on its own, for any batch and scratch size, and x-only key operations agree with the group law.',
  over=['inputs', 'histories', 'configurations'],
  quant='keys, messages of any length, auxiliary data or none, mutated signatures, batches with one bad member at any position, scratch sizes',
  why='Tests check fixed vectors and small batches; parity, range and chunk-boundary failures need specific values.',
  files=['src/ecc.c'],
  mech=[('challenge hashing and parity rules', 'src/ecc.c bipschnorr_*/bip340_*'), ('multi-scalar multiplication', 'src/ecc.c wei_jmul_multi_var')],
  observe=['*_sign, *_verify, *_verify_batch, bip340_pubkey_* results'],
  technique=DIFF, note=NOTE % 'a GMP Schnorr model'),
 dict(id='C15', title='EdDSA signs per RFC 8032 and verifies exactly valid signatures, also in batch',
  statement='For Ed25519, Ed448 and Ed1174, signing (pure, context and pre-hashed) yields the signature RFC 8032 defines, and verification accepts exactly when the group equation holds with canonical encodings and in-range scalars. Cofactored single and batch verification agree with each other for every batch and scratch size, mixed-order points included.',
  over=['inputs', 'histories', 'configurations'],
  quant='keys, messages, contexts 0..255 bytes, pre-hash flags, non-canonical and small-order points, s >= n, batches with bad members',
  why='Torsion components, non-canonical encodings and context handling are a for-all statement over adversarial signatures.',
  files=['src/ecc.c'],
  mech=[('domain separation and challenge hash', 'src/ecc.c eddsa_hash_*'), ('decoding checks', 'src/ecc.c xge_import'), ('batch equation', 'src/ecc.c eddsa_verify_batch')],
  observe=['eddsa_sign*/verify*/verify_batch results'],
  technique=DIFF, note=NOTE % 'a GMP Edwards model and OpenSSL Ed25519/Ed448'),
 dict(id='C16', title='Edwards keys, scalars and point operations follow the group law',
  statement='For each Edwards curve, scalar arithmetic, public keys from scalars, point addition, combination, negation, tweaking, torsion and small-order classification, key expansion and secret derivation return exactly what the group and scalar ring define, for reduced and unreduced scalars. Conversions to and from the Montgomery form agree with the birational map, and malformed encodings are refused.',
  over=['inputs', 'configurations'],
  quant='Ed25519, Ed448, Ed1174; all scalar byte strings; prime-order, small-order and mixed points; malformed encodings',
  why='Torsion and boundary scalars are specific values tests rarely include.',
  files=['src/ecc.c', 'src/fields/*.h'],
  mech=[('unified Edwards addition', 'src/ecc.c xge_*'), ('scalar reduction', 'src/ecc.c sc_*'), ('isogeny/birational maps', 'src/ecc.c')],
  observe=['eddsa_scalar_*, eddsa_pubkey_*, eddsa_derive results'],
  technique=DIFF, note=NOTE % 'a GMP Edwards model'),
 dict(id='C17', title='Montgomery Diffie-Hellman matches RFC 7748 and both sides agree',
  statement='For X25519 and X448, the public key and shared secret are the RFC 7748 ladder result for every private key and every peer value, including twist and non-canonical ones, and derivation reports failure exactly when the result is the all-zero point. Two parties always derive the same secret, and key validation, torsion tests and Edwards conversion agree with the curve equation.',
  over=['inputs', 'configurations'],
  quant='all private keys and 32/56-byte peer values: small-order, twist, non-canonical, special field values',
  why='Field carries and degenerate ladder states occur at specific peer values.',
  files=['src/ecc.c', 'src/fields/*.h'],
  mech=[('x-only ladder', 'src/ecc.c mont_mul'), ('clamping', 'src/ecc.c mont_clamp')],
  observe=['ecdh_* results'],
  technique=DIFF, note=NOTE % 'a GMP x-only ladder model and OpenSSL X25519/X448'),
 dict(id='C18', title='Ristretto gives a canonical prime-order group',
  statement='Ristretto encodings are canonical: exactly one string decodes to each group element, every other string is refused, and encoding, addition, negation, combination, tweaking, derivation and hash-to-group agree with the quotient group of the Edwards curve. Grinding returns a key or tweak whose public key satisfies the requested predicate.',
  over=['inputs', 'configurations'],
  quant='all 32/56-byte strings; points shifted by torsion; scalars at boundaries; both cofactors',
  why='Uniqueness of encodings under torsion is a for-all statement; tests replay published vectors.',
  files=['src/ecc.c'],
  mech=[('ristretto encode/decode', 'src/ecc.c rge_*'), ('ristretto elligator', 'src/ecc.c ristretto_*')],
  observe=['ristretto_* results'],
  technique=DIFF, note=NOTE % 'a GMP Ristretto model written from the specification'),
 dict(id='C19', title='Uniform and hash maps to curves invert exactly and match their definition',
  statement='Mapping uniform bytes to a point always yields a point of the curve, equal to the one its map (SSWU, SvdW or Elligator 2) defines, and whenever the inverse map reports success for a hint, mapping its output forward returns the original point. The two-element hash maps and their inverses compose to the identity for any entropy and subgroup choice.',
  over=['inputs', 'configurations'],
  quant='every curve family; all field bytes incl. exceptional values; all hints and subgroups',
  why='Exceptional field values and the sixteen hint/subgroup combinations per point are rarely sampled.',
  files=['src/ecc.c'],
  mech=[('SSWU/SvdW/Elligator2 and inverses', 'src/ecc.c wei_sswu*, wei_svdw*, mont_elligator2/invert2, edwards_*')],
  observe=['*_pubkey_from_uniform/to_uniform/from_hash/to_hash results'],
  technique='metamorphic and reference-model monitor, ASan+UBSan builds of both back ends', note=NOTE % 'GMP models of the maps'),
 dict(id='C20', title='RSA operations are inverse, standard-conformant and reject every forgery',
  statement='For every valid RSA key, PKCS#1 v1.5 and PSS signatures verify and are accepted by an independent implementation, PKCS#1 v1.5 and OAEP decrypt what was encrypted, veiling is invertible, and outputs match PKCS#1. Any malformed padding, altered signature, ciphertext, label, salt length or digest, or out-of-range integer is refused, and so is every operation with an invalid key.',
  over=['inputs', 'configurations'],
  quant='key sizes incl. non-multiple-of-8 moduli, exponents, hash choices, message lengths up to the limit, hand-made malformed encodings',
  why='Padding strictness is a for-all statement over encoded messages that only someone holding the key can construct.',
  files=['src/rsa.c', 'include/torsion/rsa.h'],
  mech=[('padding checks', 'src/rsa.c'), ('blinded CRT with recheck', 'src/rsa.c')],
  observe=['rsa_* output and return values'],
  technique=DIFF + '; forged-encoding enumeration', note=NOTE % 'OpenSSL RSA and a GMP RSA/padding model'),
 dict(id='C21', title='DSA operations are standard-conformant and reject every forgery',
  statement='For every valid DSA group and key, signatures verify, are accepted by an independent implementation, and are fixed by key and digest; verification accepts exactly when the DSA equation holds with values in range. Diffie-Hellman over the group agrees on both sides and signature DER import/export is exact.',
  over=['inputs', 'configurations'],
  quant='groups 1024/160, 2048/224, 2048/256, 3072/256 and small valid ones; digests of any length; boundary and mutated r,s; malformed DER',
  why='Range checks and digest truncation corner cases are not enumerable by tests.',
  files=['src/dsa.c', 'include/torsion/dsa.h'],
  mech=[('range checks and equation', 'src/dsa.c')],
  observe=['dsa_* output and return values'],
  technique=DIFF, note=NOTE % 'OpenSSL DSA and a GMP DSA model'),
 dict(id='C22', title='RSA and DSA keys import, export, generate and validate exactly',
  statement='Exporting and re-importing any RSA or DSA key or parameter set gives the identical key, parsers accept exactly well-formed DER, and validation accepts consistent keys and refuses any key with a component altered, out of range or out of bounds. Generated keys and parameters are consistent, have the requested size and prime components, and an independent implementation accepts them.',
  over=['inputs', 'configurations'],
  quant='key sizes and exponents, missing CRT components, mutated DER, components perturbed one by one',
  why='Tests validate a few keys; refusal of every altered component or DER deviation is a for-all statement.',
  files=['src/rsa.c', 'src/dsa.c', 'src/asn1.c'],
  mech=[('key consistency checks', 'src/rsa.c rsa_*_verify; src/dsa.c'), ('DER integer and sequence readers', 'src/asn1.c'), ('prime generation', 'src/mpi.c')],
  observe=['rsa_*/dsa_* import/export/verify/generate results'],
  technique=DIFF, note=NOTE % 'OpenSSL and a GMP key model'),
 dict(id='C23', title='No hostile input causes memory errors, undefined behaviour, aborts or hangs',
  statement='For any byte strings, lengths and parameters passed within the documented buffer sizes, no public operation reads or writes outside its buffers, reads uninitialised memory, executes undefined behaviour, aborts or fails to terminate. Input buffers are never modified and outputs never exceed the documented size.',
  over=['inputs', 'histories', 'configurations'],
  quant='all public entry points fed random, truncated, mutated and adversarial inputs with exactly sized buffers; both back ends; ASan, UBSan, MSan',
  why='Safety over all inputs cannot be sampled by conformance vectors, and the suite is not run under sanitizers with exact-size buffers.',
  files=['src/*.c', 'src/fields/*.h', 'src/entropy/*.c'],
  mech=[('length guards before every copy', 'src'), ('internal assertions', 'src/internal.h')],
  observe=['sanitizer reports', 'guard regions', 'return codes', 'input buffers after the call'],
  technique='ASan+UBSan and MSan execution of a whole-API hostile workload with exact-size buffers and input-immutability monitor', note=NOTE % 'clang sanitizers'),
 dict(id='C24', title='Secret-dependent operations have no secret-dependent branches or addresses',
  statement='Signing, public key creation, key agreement and secret tweaks on every elliptic curve, memory comparison, the hashes without data tables, HMAC, Poly1305, ChaCha20, Salsa20, the sealed box, the hash-based generators and the mpn_sec_* / mpz_powm_sec arithmetic never branch on, or index memory by, secret bytes, in any optimised build. Outside: the accept/reject decision of rejection sampling (key generation, nonce retry), hashes and ciphers defined by lookup tables, and RSA and DSA.',
  over=['inputs', 'configurations'],
  quant='all curves and secret operations; release builds of both back ends',
  why='The existing constant-time test covers a few operations on four curves; timing behaviour is invisible to functional tests.',
  files=['src/ecc.c', 'src/fields/*.h', 'src/util.c', 'src/mac.c', 'src/stream.c', 'src/hash.c', 'src/mpi.c'],
  mech=[('conditional selects and constant-time table lookups', 'src/ecc.c'), ('mpn_sec_*', 'src/mpi.c')],
  observe=['valgrind memcheck reports on tainted secrets'],
  technique='dynamic taint monitor: secrets marked undefined under valgrind memcheck on release builds', note=NOTE % 'valgrind memcheck and the choice of tainted buffers'),
 dict(id='C25', title='Secrets do not remain in freed heap memory or on the dead stack',
  statement='After ECDSA, BIP-Schnorr, BIP340, X25519/X448, Ristretto and DSA operations return, the private key and the signing nonce are not left readable on the stack area they used; the same holds for keys and messages of sealed boxes and one-shot ciphers and for passwords and blocks of scrypt and bcrypt. RSA and DSA private-key operations and scrypt release no heap block that still holds the key, its factors, the nonce or a derived block.',
  over=['inputs', 'configurations'],
  quant='signing, decryption, key agreement and key derivation operations with random secrets, searched for as 16-byte windows in four byte orders; release builds of two compilers and both back ends',
  why='Functional tests cannot see dead memory.',
  files=['src/util.c', 'src/ecc.c', 'src/rsa.c', 'src/dsa.c', 'src/kdf.c', 'src/mpi.c'],
  mech=[('explicit cleansing before return and before free', 'src')],
  observe=['content of heap blocks at free', 'content of the operation\'s stack area after return'],
  technique='heap-free and dead-stack residue monitor on release builds', note=NOTE % 'the interposed allocator and painted-stack scanner'),
 dict(id='C26', title='System randomness never fails open, repeats across fork or threads, or biases',
  statement='Random output is produced only after full seeding: on any sequence of operating-system failures the call either fails with zeroed output or returns bytes derived from genuine entropy. Parent, children and threads never share output, interrupted or short reads are completed, bounded integers stay below their bound without modulo bias, and the caller\'s errno is preserved.',
  over=['fault_sequences', 'schedules', 'histories', 'inputs'],
  quant='fault sequences over getrandom/open/read/poll/fstat, fork trees, thread counts, request sizes, uniform bounds',
  why='Tests call the generator a few times on a healthy system.',
  files=['src/rand.c', 'src/entropy/sys.c', 'src/entropy/hw.c', 'include/torsion/rand.h'],
  mech=[('fallback chain and zero on failure', 'src/entropy/sys.c'), ('pid check and re-seed', 'src/rand.c'), ('rejection sampling', 'src/rand.c')],
  observe=['interposed system calls', 'output bytes', 'return values', 'errno'],
  level='fault_enumeration',
  technique='system-call fault injection with a history monitor; fork/thread uniqueness monitor', note=NOTE % 'the interposed system-call layer'),
 dict(id='C27', title='Shared contexts are safe for concurrent read-only use',
  statement='Any number of threads may use one curve context, cipher context or key concurrently for operations that take it read-only, and create and destroy their own, without data races and with the same results as sequential execution.',
  over=['schedules', 'histories'],
  quant='2-8 threads over shared curves of every family, keys and ciphers, mixed operations; thread-local generator state',
  why='The suite is single threaded apart from one generator test.',
  files=['src/ecc.c', 'src/rand.c', 'src/cipher.c', 'src/rsa.c', 'src/hash.c'],
  mech=[('contexts immutable after creation', 'src/ecc.c'), ('thread-local generator', 'src/rand.c')],
  observe=['TSan reports', 'per-thread results against the sequential transcript'],
  technique='ThreadSanitizer plus sequential-equivalence monitor over recorded per-thread results', note=NOTE % 'ThreadSanitizer and the schedules the run produced'),
 dict(id='C28', title='All back ends compute the same function',
  statement='The 64-bit, 32-bit, assembly and portable builds, compiled by either compiler at any optimisation level, return bit-identical results for the same sequence of calls. Outside: generators that draw random integers limb by limb (mpz_urandom*, prime, RSA and DSA generation), whose consumption of the random source depends on the limb size.',
  over=['configurations', 'inputs', 'histories'],
  quant='the whole deterministic public API over structured and random inputs, in seven build configurations',
  why='Each test configuration is compared with the vectors only, never with the others on fresh inputs.',
  files=['src/fields/*.h', 'src/mac.c', 'src/mpi.c', 'src/ecc.c', 'src/cipher.c', 'src/hash.c', 'src/stream.c'],
  mech=[('32/64-bit field code and inline assembly', 'src/fields; src/mpi.c'), ('int128 fallbacks', 'src/mac.c')],
  observe=['transcripts of outputs of the same call sequence'],
  technique='transcript comparison monitor across build configurations', note=NOTE % 'at least one configuration being right for each disagreement'),
 dict(id='C29', title='Memory is returned, and failed allocations are handled',
  statement='Every operation gives back all memory it took, whether it succeeds or refuses its input; contexts, scratch spaces and integers are released completely by their destroy, clear and cleanse functions. When an allocation fails, the operation reports failure (or the process is aborted deliberately): it never crashes, loses memory, releases memory twice or reports success with another result.',
  over=['inputs', 'faults', 'histories'],
  quant='the whole public API over valid, altered and malformed inputs; failure of any one allocation, or of all from some point on',
  why='No test lets an allocation fail or counts what is still held after a refusal.',
  files=['src/encoding.c', 'src/kdf.c', 'src/rsa.c', 'src/dsa.c', 'src/mpi.c', 'src/ecc.c'],
  mech=[('error paths releasing buffers', 'src/encoding.c; src/kdf.c; src/rsa.c'), ('integer life cycle', 'src/mpi.c: mpz_init*, mpz_clear, mpz_cleanse, mpz_realloc'), ('context and scratch life cycle', 'src/ecc.c: *_create, *_destroy')],
  observe=['every allocation and release of the library', 'results and exit state of executions with injected allocation failures'],
  technique='allocator monitor with fault injection in forked executions, under ASan+UBSan and optimised builds', note=NOTE % 'the C library allocator being the only source of memory'),
]

NOT_APPLICABLE = []
HOOKS = {'guard': 'none', 'enable': 'No hooks: the checks observe the library through its public and linkable interface, so nothing in /repo is guarded.', 'source_commits': []}
NOTES = 'Known findings and repairs: known_findings.json. Design, seeded bugs and which check caught them: DESIGN.md.'
