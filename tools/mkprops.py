#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json, os
R="Reference_Implementation_KEM/"; A="AVX_Implementation_KEM/"; UR="Variants/uSaber-90s/ref/"; UA="Variants/uSaber-90s/avx2/"
X="Variants/SaberX4_avx2/"; M0="Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/"; M4="Cortex-M_Implementation_KEM/Cortex-M4/src/"
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

NOCORRUPT="The test programs and the known-answer files only decapsulate ciphertexts that a matching encapsulation has just produced; no test ever presents a modified or foreign ciphertext, so the rejecting branch of decapsulation is never taken."
prop("C01","Decapsulation accepts exactly honest ciphertexts and rejects all others",
 "For every secret key and every ciphertext, of every parameter set of the portable and the AVX2 implementations (standard, 90s and uniform variants), decapsulation returns the hash of (pre-key, hash of ciphertext) when re-encrypting the decrypted message reproduces every byte of the ciphertext, and otherwise the hash of (secret rejection value, hash of ciphertext). The call returns success in both cases and a change of any single ciphertext bit is noticed.",
 ["inputs","configurations"],"all secret keys, all ciphertexts, all behaviours of the hash/PRF functions, every parameter set and variant",
 NOCORRUPT,[R+"kem.c",R+"SABER_indcpa.c",R+"verify.c",A+"kem.c",A+"SABER_indcpa.c",UR+"kem.c",UA+"kem.c"],
 [("re-encryption and comparison","kem.c crypto_kem_dec"),("constant-time compare and select","verify.c verify, cmov"),("decryption","SABER_indcpa.c indcpa_kem_dec"),("re-encryption","SABER_indcpa.c indcpa_kem_enc")],
 ["shared secret and return value of crypto_kem_dec"])
prop("C02","Key generation produces exactly the specified key pair for all randomness",
 "For every output of the random source, in every parameter set and variant of the portable and AVX2 implementations, key generation returns the public key and secret key that the Saber specification prescribes: rounded product of the transposed public matrix with the secret, packed with the matrix seed; and the packed secret, the public key, its hash and a fresh rejection value.",
 ["inputs","configurations"],"all random-source outputs, all behaviours of the hash/PRF functions, every parameter set and variant",
 "Known-answer tests sample 100 seeds per configuration; arithmetic faults that need particular coefficient patterns, and faults in one configuration's rarely used branch, are not reached.",
 [R+"kem.c",R+"SABER_indcpa.c",R+"poly.c",R+"poly_mul.c",R+"cbd.c",R+"pack_unpack.c",A+"SABER_indcpa.c",A+"polymul/toom-cook_4way.c",UR+"SABER_indcpa.c",UA+"SABER_indcpa.c"],
 [("key generation","SABER_indcpa.c indcpa_kem_keypair"),("key assembly","kem.c crypto_kem_keypair"),("matrix expansion and secret sampling","poly.c GenMatrix, GenSecret (AVX: SABER_indcpa.c)"),("multiplication","poly_mul.c / polymul/")],
 ["pk and sk written by crypto_kem_keypair"])
prop("C03","Encapsulation produces exactly the specified ciphertext and shared secret",
 "For every public key and every output of the random source, in every parameter set and variant of the portable and AVX2 implementations, encapsulation writes the ciphertext and the shared secret that the Saber specification prescribes for that public key and that randomness, and returns success.",
 ["inputs","configurations"],"all public-key byte strings (also ones no key generation produced), all random-source outputs, all behaviours of the hash/PRF functions",
 "Known-answer tests sample 100 honest public keys per configuration; malformed or adversarial public keys are never used.",
 [R+"kem.c",R+"SABER_indcpa.c",R+"poly.c",R+"pack_unpack.c",A+"SABER_indcpa.c",A+"pack_unpack.c",UR+"kem.c",UA+"kem.c"],
 [("encapsulation","kem.c crypto_kem_enc"),("encryption","SABER_indcpa.c indcpa_kem_enc")],
 ["ct and ss written by crypto_kem_enc"])
prop("C04","Batched key generation and encapsulation equal four single runs",
 "For all randomness and all public keys, the four-way batched implementation generates in each of its four slots exactly the key pair, ciphertext and shared secret that single-instance Saber yields from that slot's own inputs. No slot's output depends on another slot's inputs.",
 ["inputs"],"all random-source outputs, all four public keys, all behaviours of the hash functions",
 "The batched variant has no known-answer test at all; its only test checks that its own encapsulation and decapsulation agree.",
 [X+"kem4x.c",X+"kem.c",X+"SABER_indcpa.c",X+"pack_unpack.c",X+"fips202x4.c"],
 [("four-way key generation and encapsulation","kem4x.c crypto_kem_keypair4x, crypto_kem_enc4x"),("four-way arithmetic and packing","SABER_indcpa.c, pack_unpack.c *X4")],
 ["pk, sk, ct, ss of each slot"])
prop("C05","Batched decapsulation decides each of its four slots on its own",
 "For all secret keys and all ciphertexts, each slot of the four-way batched decapsulation returns exactly what single-instance Saber decapsulation returns for that slot's key and ciphertext: the accepting key if and only if that slot's ciphertext re-encrypts to itself, the rejecting key otherwise. A bad ciphertext in one slot never changes another slot's result.",
 ["inputs"],"all four secret keys and ciphertexts, all behaviours of the hash functions",
 NOCORRUPT+" Mixed batches of good and bad ciphertexts are never tried.",
 [X+"kem4x.c",X+"kem.c",X+"SABER_indcpa.c",X+"verify.c",X+"pack_unpack.c"],
 [("four-way decapsulation","kem4x.c crypto_kem_dec4x"),("four-way decryption","SABER_indcpa.c indcpa_kem_dec")],
 ["ss of each slot"])
prop("C06","Cortex-M4 code implements the same Saber as the reference, all levels",
 "For all inputs and all randomness, key generation, encapsulation and decapsulation of both Cortex-M4 implementations, at all three security levels and with the secret key stored either in full or compressed, return what the Saber specification prescribes, including rejection of every ciphertext that does not re-encrypt to itself.",
 ["inputs","configurations"],"all keys, ciphertexts, randomness and hash behaviours; both multipliers; three levels; both secret-key formats",
 "The Cortex-M4 code is never executed by the test suite, and part of it (the files that need the pqm4 headers) is not even compiled.",
 [M4+"saber/m4-striding/kem.c",M4+"saber/m4-striding/SABER_indcpa.c",M4+"saber/m4-striding/poly.c",M4+"saber/m4-striding/pack_unpack.c",M4+"saber/m4-striding/cbd.c",M4+"saber/m4-tc4kara/poly.c"],
 [("KEM","kem.c"),("on-the-fly matrix products and in-place compare","poly.c MatrixVectorMulKeyPair, MatrixVectorMulEnc, InnerProdEnc, InnerProdDec"),("packing and compare-packing","pack_unpack.c POLp2BS_cmp, POLT2BS_cmp")],
 ["pk, sk, ct, ss of crypto_kem_*"])
prop("C07","Cortex-M4 assembly multiplies polynomials correctly for all operands",
 "For all pairs of coefficient vectors, both Cortex-M4 multipliers (the assembly and the code around it) return, modulo the larger Saber modulus, the product in the ring of polynomials modulo x^256+1, or add it to the given accumulator, and preserve the registers and memory that the calling convention says they must preserve.",
 ["inputs"],"all operand and accumulator values",
 "The assembly is assembled but never executed by the test suite.",
 [M4+"saber/m4-striding/kara.s",M4+"saber/m4-striding/tc.s",M4+"saber/m4-striding/poly_mul.c",M4+"saber/m4-tc4kara/mult_toom4_256_16.s",M4+"saber/m4-tc4kara/asm_funcs.S",M4+"saber/m4-tc4kara/poly_mul.c"],
 [("striding Toom-Cook/Karatsuba","m4-striding/poly_mul.c, kara.s"),("Toom-Cook 4 + Karatsuba","m4-tc4kara/asm_funcs.S, mult_toom4_256_16.s")],
 ["result array of the multiplication"])
prop("C08","Cortex-M0 code implements its version of Saber for all inputs",
 "For all inputs and all randomness, the Cortex-M0 implementation's key generation, encapsulation and decapsulation compute the Saber KEM in the rounding convention that code base uses: an honest ciphertext decapsulates to the encapsulated secret whenever decryption is correct, and every ciphertext that does not re-encrypt to itself is rejected with the secret rejection value. They write nothing but their output buffers.",
 ["inputs"],"all keys, ciphertexts, randomness and hash behaviours",
 "The Cortex-M0 firmware is built but never executed by the test suite.",
 [M0+"src/kem.c",M0+"src/SABER_indcpa.c",M0+"src/encode.c",M0+"src/poly.c",M0+"src/poly_mul.c",M0+"src/pack_unpack.c",M0+"src/cbd.c"],
 [("KEM","src/kem.c"),("streaming matrix generation","src/SABER_indcpa.c GenMatrix_poly"),("message decoding","src/encode.c ExtractKeyBits")],
 ["pk, sk, ct, ss of crypto_kem_*"])
prop("C09","Ring multiplication is exact for every pair of operands",
 "In every host implementation, multiplying two polynomials, a matrix with a vector (plain and transposed) or two vectors gives the exact product modulo x^256+1 and the modulus, for every choice of 16-bit coefficients that the interface accepts, and accumulates onto what was there before where the interface says so.",
 ["inputs","configurations"],"all coefficient values of both operands and of the accumulator",
 "Tests only multiply by secrets with tiny coefficients and pseudo-random matrices; extreme coefficients never occur.",
 [R+"poly_mul.c",R+"poly.c",UR+"poly_mul.c",A+"polymul/toom-cook_4way.c",A+"polymul/scm_avx.c",A+"polymul/matrix.c",X+"polymul/toom-cook_4way.c",M0+"src/poly_mul.c"],
 [("Toom-Cook 4 / Karatsuba","poly_mul.c poly_mul_acc"),("AVX2 Toom-Cook","polymul/toom-cook_4way.c TC_eval, toom_cook_4way_avx_n1, TC_interpol"),("matrix products","poly.c MatrixVectorMul, InnerProd; SABER_indcpa.c matrix_vector_mul, vector_vector_mul")],
 ["result arrays"])
prop("C10","Packing and unpacking are exact inverses and never mix coefficients",
 "In every implementation, packing writes exactly the specified little-endian bit string of the low bits of each coefficient and ignores the higher bits, unpacking returns exactly those bits (the Cortex-M4 code: modulo the corresponding power of two), and unpacking after packing gives back every coefficient value. No byte outside the documented output length is written and every byte inside it is.",
 ["inputs","configurations"],"all coefficient values and all byte strings, every declared packing width",
 "Known-answer tests exercise only reduced coefficients and only the widths a given parameter set uses.",
 [R+"pack_unpack.c",UR+"pack_unpack.c",A+"pack_unpack.c",UA+"pack_unpack.c",X+"pack_unpack.c",M0+"src/pack_unpack.c",M4+"saber/m4-striding/pack_unpack.c"],
 [("bit packing","pack_unpack.c")],["byte arrays and coefficient arrays"])
prop("C11","Secret sampling maps random bits to coefficients exactly as specified",
 "For every byte string, the secret sampler of each implementation turns each group of bits into the difference of two bit counts (or, in the uniform variant, into the specified two-bit signed value), in the specified order, for every parameter set; every coefficient depends only on its own group of bits.",
 ["inputs","configurations"],"all byte strings, all parameter sets",
 "Tests check whole keys for 100 seeds, not the sampler for all groups of bits.",
 [R+"cbd.c",UR+"cbd.c",A+"cbd.c",UA+"cbd.c",X+"cbd.c",M0+"src/cbd.c",M4+"saber/m4-striding/cbd.c"],
 [("sampler","cbd.c cbd")],["coefficient array"])
prop("C12","SHAKE and SHA-3 are correct for all contents, including the batched code",
 "Every implementation's SHAKE-128/256 and SHA3-256/512 functions, one-shot and block-wise, single and four-way batched, return the FIPS 202 value for all message contents and for message and output lengths up to several blocks including every block boundary; the permutation is Keccak-f[1600] for all states. Each batch slot depends on its own input only.",
 ["inputs","configurations"],"all message contents; all lengths up to the stated bound; all 1600-bit states",
 "Only the handful of lengths the KEM uses occur in tests; the batched functions and the Cortex-M0 assembly permutation have no test against known values at all.",
 [R+"fips202.c",A+"fips202.c",UR+"fips202.c",UA+"fips202.c",X+"fips202.c",X+"fips202x4.c",X+"keccak4x/KeccakP-1600-times4-SIMD256.c",M0+"src/fips202.c",M0+"src/asm_KeccakF-1600.S"],
 [("sponge","fips202.c, fips202x4.c"),("permutation","fips202.c KeccakF1600_StatePermute, KeccakP-1600-times4-SIMD256.c, asm_KeccakF-1600.S")],
 ["digest / output bytes"])
prop("C13","AES-256-CTR and SHA-2 of the 90s variant are correct for all inputs",
 "The 90s variant's AES-256 counter-mode generator returns, for every key, every nonce and every output length up to the stated bound, the AES-256-CTR key stream, and its SHA-256 and SHA-512 return the FIPS 180-4 digest for every message up to the stated length, across all padding boundaries.",
 ["inputs","configurations"],"all keys, nonces and message contents; all lengths up to the stated bounds",
 "Only the lengths that the KEM uses occur in tests, with a constant nonce and block counters that never carry beyond the low byte.",
 [UR+"aes256ctr.c",UR+"symmetric-aes.c",UR+"sha256.c",UR+"sha512.c",UA+"crypto_stream_aes256ctr.c",UA+"symmetric-aes.c"],
 [("bitsliced AES-CTR","aes256ctr.c"),("AES-NI CTR","crypto_stream_aes256ctr.c"),("SHA-2","sha256.c, sha512.c")],
 ["key stream, digest"])
prop("C14","No branch or memory address depends on secret data",
 "In every implementation, the sequence of instructions executed and of memory addresses accessed by key generation, encapsulation and decapsulation, and by the hash, AES, sampling, comparison and selection functions they use, is the same for all secret keys, randomness, messages and ciphertext contents; it depends only on lengths and the parameter set.",
 ["inputs","configurations"],"all secret inputs, all randomness, all ciphertexts",
 "Functional tests observe results, not control flow or addresses.",
 [R+"kem.c",R+"verify.c",R+"cbd.c",R+"poly_mul.c",A+"kem.c",X+"kem4x.c",UR+"aes256ctr.c",M0+"src/encode.c",M4+"saber/m4-striding/pack_unpack.c"],
 [("constant-time compare/select","verify.c"),("table-free sampling and arithmetic","cbd.c, poly_mul.c"),("bitsliced AES","aes256ctr.c")],
 ["branch conditions and addresses during symbolic execution"])
prop("C15","Every API call stays inside its buffers at any alignment and input",
 "For every input and for caller buffers of exactly the documented sizes at any alignment, key generation, encapsulation and decapsulation of every implementation read only initialised memory that belongs to them, write exactly their documented output bytes completely, never modify their inputs, and return success.",
 ["inputs","configurations"],"all inputs, buffers of exactly the documented size with no alignment beyond one byte",
 "Tests use over-aligned stack arrays next to other arrays, so a stray access or an alignment assumption goes unnoticed.",
 [R+"kem.c",R+"pack_unpack.c",A+"SABER_indcpa.c",A+"pack_unpack.c",X+"fips202x4.c",X+"pack_unpack.c",M0+"src/SABER_indcpa.c",M4+"saber/m4-striding/poly.c"],
 [("buffer sizes","SABER_params.h, api.h"),("vector loads and stores","SABER_indcpa.c, pack_unpack.c")],
 ["every load and store during symbolic execution"])
prop("C16","Results never depend on earlier calls or on left-over state",
 "Whatever calls were made before and whatever they left in static storage, the results of key generation, encapsulation and decapsulation of every implementation are determined by the call's own arguments and the random bytes it draws.",
 ["histories","inputs","configurations"],"all values of the implementation's mutable static storage at the time of the call",
 "Tests make the same few calls in the same order, always from a correctly initialised state.",
 [A+"SABER_indcpa.c",UA+"SABER_indcpa.c",X+"SABER_indcpa.c",M0+"src/SABER_indcpa.c",M0+"src/poly_mul.c",R+"poly_mul.c"],
 [("global vector constants","SABER_indcpa.c load_values and masks"),("static generator state","Cortex-M0 SABER_indcpa.c GenMatrix_poly")],
 ["outputs of the API calls"])
prop("C17","Byte comparison and conditional move honour their contract for all inputs",
 "In every implementation, the comparison returns 0 exactly when all bytes are equal and 1 otherwise, and the conditional move replaces all bytes when its flag is 1, leaves them unchanged when it is 0, and touches no other byte, for all contents and all lengths up to the stated bound.",
 ["inputs","configurations"],"all byte contents, all lengths up to the bound, both flag values",
 "Tests only ever compare equal strings and never select.",
 [R+"verify.c",A+"verify.c",UR+"verify.c",UA+"verify.c",X+"verify.c",M0+"src/verify.c",M4+"saber/m4-striding/verify.c"],
 [("compare and select","verify.c verify, cmov")],["return value, destination bytes"])
prop("C18","The deterministic generators follow their standard for every request pattern",
 "For every seed, personalisation string and sequence of request lengths up to the stated bound, the bundled random generator returns the CTR-DRBG output stream and performs the state update after every request, and the seed expander returns successive bytes of one key stream however the requests are split, and refuses exactly the requests that are malformed or exceed what is left, without consuming anything.",
 ["inputs","histories"],"all seeds and states, all sequences of request lengths up to the bound, all behaviours of the block cipher",
 "Tests only request 32 and 48 bytes and never use the seed expander or its error returns.",
 [R+"rng.c",A+"rng.c",UR+"rng.c",UA+"rng.c",X+"rng.c"],
 [("CTR-DRBG","rng.c randombytes_init, randombytes, AES256_CTR_DRBG_Update"),("seed expander","rng.c seedexpander_init, seedexpander")],
 ["output bytes, return codes, generator state"])
prop("C19","Decryption recovers the message whenever the noise is within the bound",
 "For every parameter set and every implementation, for all message bits and all values of the two inner products whose difference is within the decryption noise bound of the parameter set, decoding the ciphertext component gives back exactly the encrypted message bits.",
 ["inputs","configurations"],"all inner-product values, all noise values within the bound, all message bits",
 "Roundtrip tests see only the typical small noise, never the values at the edge of the bound.",
 [R+"SABER_indcpa.c",R+"SABER_params.h",A+"SABER_indcpa.c",UR+"SABER_params.h",M0+"src/encode.c",M4+"saber/m4-striding/poly.c"],
 [("rounding constants h1, h2 and shifts","SABER_indcpa.c indcpa_kem_enc, indcpa_kem_dec")],["message bits"])
prop("C20","Cortex-M0 random bytes carry the full output of the hardware generator",
 "The Cortex-M0 random byte function fills exactly the requested number of bytes for every length up to the stated bound, and every generated byte is a full, distinct byte of the hardware generator's output words, so that different hardware outputs give different byte strings.",
 ["inputs"],"all hardware output words, all lengths up to the bound",
 "The firmware is never executed by the test suite.",
 [M0+"src/prng.c"],[("word to byte conversion","src/prng.c randombytes")],["buffer contents"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P))
