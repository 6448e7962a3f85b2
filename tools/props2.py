prop("C05", "Hash-to-point is rejection sampling of 16-bit words at every degree",
     "For every stream (SHAKE256, Keccak-256 counter, BLAKE2s counter, hash chain) and every degree, the point of a nonce "
     "and a message is made of the successive big-endian 16-bit words of the stream that are below 61445, each reduced "
     "modulo 12289, in order, until the degree is reached; no word is skipped, repeated or reordered. The constant-time "
     "C variant gives the same point as the plain one, and the C stream continues right after the last word used.",
     ["inputs"], "all nonces, messages, degrees 2 to 1024 (C), all four streams (Python)",
     "a fixed vector only visits typical words: a wrong threshold or reduction shows on one word in thousands",
     [N + "common.c", R + "falcon.py"],
     [("hash_to_point_vartime / hash_to_point_ct / keccak_hash_to_point_vartime", N + "common.c"),
      ("hash_to_point", R + "falcon.py")],
     "exhaustive TLC model of the squeeze-out of rejected samples for all rejection patterns; messages searched so that "
     "their streams visit every edge word, every point recomputed by TLC from the message bytes up")
prop("C06", "Public-key encodings are exact, canonical and bounded",
     "Encoding a vector of residues modulo 12289 (14 bits per value, or 16 in the alternative format) and decoding it "
     "gives it back, and decoding accepts only strings that encoding produces: values at or above 12289 and non-zero "
     "padding bits are refused, as are keys of a wrong length or header byte. Encoders refuse out-of-range values and "
     "buffers that are too small, and neither encoders nor decoders touch memory outside the stated lengths.",
     ["inputs"], "all vectors, byte strings, degrees and buffer sizes; C and Python",
     "the tests encode a few valid keys and never present non-canonical ones",
     [N + "codec.c", R + "falcon_codec.py", R + "falcon.py"],
     [("modq_encode/decode, modq_encode16/decode16", N + "codec.c"), ("PublicKey.from_bytes", R + "falcon.py")],
     "TLC checks canonicity for every byte string up to 2 bytes at small degrees and the round trip for every value; "
     "valid, damaged and non-canonical strings replayed on the code and judged by the same specification")
prop("C07", "Private-key coefficient encodings are exact and canonical",
     "Encoding signed coefficients with a fixed number of bits and decoding them gives the same vector for every width "
     "and degree; decoding refuses the unused most negative value and non-zero padding bits. Encoders refuse values "
     "outside the symmetric range and buffers that are too small, and write nothing outside the encoding.",
     ["inputs"], "all vectors, widths, degrees, byte strings and buffer sizes; C and Python",
     "the tests only see coefficients of a few generated keys, which are far from the edges",
     [N + "codec.c", R + "falcon_codec.py"],
     [("trim_i8_encode/decode, trim_i16_encode/decode", N + "codec.c"), ("trim_i8_encode/decode", R + "falcon_codec.py")],
     "TLC checks canonicity and round trip exhaustively at small sizes; seeded edge-biased vectors and damaged strings "
     "replayed on the code and judged by the same specification")
prop("C08", "Signature encodings are exact, canonical and bounded",
     "The compressed (sign, 7 low bits, unary high bits) encoding and the alternative 16-bit encoding of a signature "
     "vector both round-trip, and no two byte strings decode to the same vector: minus zero, values above the maximum, "
     "words at or above 12289, truncated input and non-zero trailing bits or bytes are refused. Out-of-range values and "
     "outputs that do not fit are refused without touching memory beyond the stated length; C and Python agree.",
     ["inputs"], "all vectors, byte strings, degrees and buffer sizes",
     "the tests decode only what the signer just encoded; malleability needs inputs a signer never produces",
     [N + "codec.c", R + "encoding.py"],
     [("comp_encode/comp_decode, comp_encode16/comp_decode16", N + "codec.c"), ("compress/decompress", R + "encoding.py")],
     "TLC checks canonicity for every string up to 2 bytes and the round trip for every value; structured mutants "
     "replayed on the code and judged by the same specification")
prop("C09", "FALCON signed messages: accepted exactly when valid",
     "Opening a signed message succeeds exactly when its length fields, header bytes and encodings are well formed, the "
     "public key is well formed, and the squared norm of (c - s2*h mod q, s2) is at most 34034726; the message returned is "
     "then exactly the one enclosed. Every other input of any length is refused without touching memory outside the "
     "given buffers.",
     ["inputs"], "all signed messages and public keys, norms on both sides of the bound and around powers of two",
     "genuine signatures have norms far from the bound and are always well formed",
     [N + "nist.c", N + "vrfy.c", N + "codec.c"],
     [("crypto_sign_open", N + "nist.c"), ("verify_raw, is_short", N + "vrfy.c")],
     "TLC model of the framing over every short string; signatures crafted to a chosen norm under a chosen key, real "
     "signatures and damaged ones opened by the real code, the verdict recomputed by TLC from the bytes")
prop("C10", "Signed messages with 16-bit encodings: accepted exactly when valid",
     "The interface that carries signatures as 16-bit words and public keys in transformed 16-bit form accepts exactly the "
     "well-formed signed messages whose squared norm is within the bound, and returns exactly the enclosed message. Words "
     "outside the field, wrong headers, wrong lengths and any other malformed input are refused without touching memory "
     "outside the buffers.",
     ["inputs"], "all signed messages and public keys",
     "the tests only open signatures the signer produced a moment before",
     [N + "nist16.c", N + "vrfy.c", N + "codec.c"],
     [("crypto_sign_open of the 16-bit interface", N + "nist16.c"), ("comp_decode16, modq_decode16", N + "codec.c")],
     "as C09, with the 16-bit formats of the specification")
prop("C11", "The Keccak (ETHFALCON) builds use the Keccak generator and nothing else",
     "Built for Ethereum, both C interfaces hash messages to points with the Keccak-256 counter generator: a signed "
     "message is accepted exactly when it is valid for that point, and is not accepted merely because it is valid for the "
     "SHAKE256 point (nor the other way round). A message that does not fit in the generator's 4096-byte input with its "
     "nonce is refused by signing and by opening; no part of a message is ever left out of the hash.",
     ["inputs"], "all signed messages, keys and message lengths, in particular around 4056 bytes",
     "the known-answer tests stop at 3300-byte messages",
     [N + "nist.c", N + "nist16.c", N + "keccak_prng.c", N + "common.c"],
     [("#ifdef ETHFALCON branches of crypto_sign and crypto_sign_open", N + "nist.c")],
     "as C09 with the Keccak point; message lengths around the capacity, crafted signatures of the empty message around "
     "long ones, and cross-generator signatures, judged by TLC")
prop("C12", "EPERVIER signed messages: key recovery accepts exactly when valid",
     "Opening an EPERVIER signed message succeeds exactly when it is well formed at its full length, its second vector is "
     "invertible, the norm of its two vectors is within the bound, and the key recovered from them, the message and the "
     "nonce equals the given public key; the message returned is the one enclosed. Converting a public key in place "
     "accepts exactly the well-formed ones and leaves them valid.",
     ["inputs"], "all signed messages and public keys, including non-invertible vectors and norms around the bound",
     "no stable test runs this interface, and random signatures are always invertible and far from the bound",
     [N + "epervier16.c", N + "vrfy.c"],
     [("sign_open_epervier", N + "epervier16.c"), ("verify_recover_epervier, is_invertible", N + "vrfy.c")],
     "as C09; vectors with a zero in the transformed domain are built for the invertibility clause")
prop("C13", "Every C signature is valid, bound to its nonce, and a function of its inputs",
     "Signing with a well-formed private key always succeeds and gives a signed message that holds the nonce drawn, the "
     "message unchanged and a signature of bounded length that is valid under the matching public key (for EPERVIER also "
     "with the correct hint). Randomness is requested exactly as 40 nonce bytes and 48 seed bytes, equal randomness gives "
     "the same signature vector in both encodings, and malformed private keys are refused.",
     ["inputs", "histories"], "all keys, messages, randomness; in-place and separate buffers; malformed private keys",
     "the known-answer files fix one randomness per message and never give the signer a bad key",
     [N + "nist.c", N + "nist16.c", N + "epervier16.c", N + "sign.c", N + "keygen.c"],
     [("crypto_sign", N + "nist.c"), ("sign_dyn", N + "sign.c"), ("complete_private, compute_public", N + "vrfy.c")],
     "recorded signing sessions, each judged by TLC against the specification's validity predicate; determinism is a "
     "history clause of the trace specification")
prop("C17", "The seeded random generators follow the AES-256 CTR DRBG exactly",
     "After seeding with any 48 bytes (and any personalisation), every sequence of requests to the C and the Python "
     "deterministic generators returns exactly the AES-256 counter DRBG output, including counter carries across all 16 "
     "bytes and re-keying after each request. The C seed expander outputs one continuous stream whatever the request sizes, "
     "and refuses requests beyond its announced length without consuming anything.",
     ["inputs", "histories"], "all seeds, personalisations and request sequences; several generators interleaved",
     "known answers are made with a few seeds whose counters never carry past one byte",
     [N + "katrng.c", R + "drbg/aes256_ctr_drbg.py"],
     [("randombytes, AES256_CTR_DRBG_Update, seedexpander", N + "katrng.c"), ("AES256_CTR_DRBG", R + "drbg/aes256_ctr_drbg.py")],
     "seeds solved so that the counter starts just below a carry at every byte; sessions recorded and judged by TLC "
     "against Drbg.tla on top of Aes.tla")
prop("C18", "The buffered ChaCha20 generators give one continuous stream",
     "The C generator's 8-bit, 64-bit and bulk requests, in any order and size, consume one buffered ChaCha20 stream: every "
     "byte is handed out at most once, in order, and only the documented bytes at the end of a buffer are dropped for a "
     "64-bit request. The Python generator behaves the same for its requests; the block counter carries over 32 bits.",
     ["inputs", "histories"], "all seeds and request sequences, several buffers long",
     "signing only ever uses two request kinds, so positions other than multiples of them are never visited",
     [N + "rng.c", R + "rng.py"],
     [("prng_get_u64, prng_get_u8, prng_get_bytes, prng_refill", N + "rng.c"), ("ChaCha20.randombytes", R + "rng.py")],
     "exhaustive TLC model of the buffer for all call sequences; its behaviours replayed across real buffer ends; all "
     "bytes compared by TLC with ChaCha.tla")
prop("C14", "Arithmetic in the ring Z_q[x]/(x^n+1) is exact at every degree",
     "For every degree from 2 to 1024 and all inputs, the C core's transform, public-key computation, completion of a "
     "private key, raw verification, key recovery, invertibility test, zero count and hint give exactly the result defined "
     "by arithmetic in Z_12289[x]/(x^n+1). Non-invertible divisors and completions that do not fit are reported as such, "
     "and nothing outside the buffers is written.",
     ["inputs"], "all polynomials at all degrees; all divisors; edge residues; vectors vanishing at chosen points",
     "the tests use degree 512 with random polynomials: no zero ever appears in the transformed domain",
     [N + "vrfy.c"],
     [("mq_NTT, mq_iNTT, mq_div_12289, compute_public, complete_private, verify_raw, verify_recover, is_invertible",
       N + "vrfy.c")],
     "TLC checks that the transform of the specification turns the schoolbook product into a pointwise one on a basis; "
     "recorded calls at all degrees judged by TLC against the ring definitions")
prop("C15", "The signature norm test is exact for all vectors",
     "At every degree the full and the half norm test of the C core accept exactly the vectors whose squared norm, "
     "computed without any loss, is at most the bound of that degree. Overflow of the accumulator, one coefficient of any "
     "size, and partial norms up to 2^32-1 never make a long vector look short.",
     ["inputs"], "all pairs of 16-bit vectors at all degrees, and all 32-bit partial norms",
     "honest signatures never come near the bound or near 2^31",
     [N + "common.c", N + "vrfy.c"],
     [("is_short, is_short_half, l2bound", N + "common.c")],
     "a TLC model proves the saturating accumulator exact for all sequences at a small word size; vectors built to hit "
     "chosen norms (bounds, powers of two) judged by TLC with unbounded arithmetic")
prop("C16", "Key generation gives NTRU bases that come from the seed",
     "For every seed and degree, C and Python key generation return f, g, F, G with fG - gF = 12289 exactly over the "
     "integers, coefficients within their encodings (C), squared norm of (f, g) at most 16822, and the public key h = g/f; "
     "f and g are successive table draws from the SHAKE256 stream of the seed, and the same seed gives the same key. "
     "Python's integer building blocks (Karatsuba product, field norm, lift, gcd, NTRU solver) are exact.",
     ["inputs", "histories"], "all seeds and degrees 2 to 1024; keys through the signed-message interface too",
     "the known-answer files fix a few dozen keys of degree 512",
     [N + "keygen.c", R + "ntrugen.py", N + "nist.c", N + "nist16.c"],
     [("poly_small_mkgauss, solve_NTRU, keygen", N + "keygen.c"), ("ntru_gen, ntru_solve, gen_poly", R + "ntrugen.py")],
     "recorded generations judged by TLC: NTRU equation over the integers, norms, public key, and the position of (f, g) "
     "in the stream recomputed from the seed with the table sampler of Gauss.tla")
prop("C19", "Python Falcon: sign gives valid signatures, verify accepts exactly those",
     "At every degree and with every hash-to-point generator, Python's verify returns True exactly when the salt and the "
     "zero-padded encoding decode to a vector whose recomputed pair has a squared norm within the degree's bound, and False "
     "(or ValueError) otherwise, whatever the bytes. sign returns a signature of the fixed length with the right header and "
     "the salt drawn, valid under h = g/f, and equal randomness gives equal signatures.",
     ["inputs", "histories"], "all signatures, keys, messages, randomness, degrees 2 to 1024, four generators",
     "the Python signature tests need a package that is not installed, and only check honest signatures",
     [R + "falcon.py", R + "encoding.py", R + "ffsampling.py", R + "samplerz.py"],
     [("PublicKey.verify, SecretKey.sign, sample_preimage_with_prng", R + "falcon.py"), ("compress, decompress", R + "encoding.py")],
     "signatures crafted to land on and around the bound with keys solved for them, honest signatures and structural damage, "
     "each judged by TLC against PySigned.tla; ring arithmetic package replaced by an exact stand-in")
prop("C20", "Python key recovery gives the signer's address or nothing",
     "In recovery and EPERVIER mode, recover returns an address exactly when both vectors decode, are short together, and "
     "the hint is the reduced inverse of the transform of the second; the address is that of the key that makes the "
     "signature valid, and verify is True exactly when it equals the given one (also for address 0). Signatures made by "
     "sign recover the signer's address, and the compact packing of 16 values per word is exact.",
     ["inputs", "histories"], "all signatures, messages, addresses, degrees 2 to 1024, four generators",
     "the tests verify one honest signature per mode",
     [R + "falcon_recovery.py", R + "falcon_epervier.py", R + "common.py", R + "keccak.py"],
     [("RecoveryModePublicKey.recover / verify, RecoveryModeSecretKey.sign", R + "falcon_recovery.py"),
      ("EpervierPublicKey.recover / verify, EpervierSecretKey.sign", R + "falcon_epervier.py"), ("falcon_compact", R + "common.py")],
     "a TLC model proves recovery and verification equivalent for all small vectors; crafted, honest and damaged signatures "
     "judged by TLC, addresses recomputed with Keccak.tla")
prop("C21", "C and Python agree: same randomness, same signature; each accepts the other's",
     "With the same key, message and randomness the C interfaces (both encodings, SHAKE256 and Keccak) and Python draw the "
     "same nonce and produce the same signature vector, except that Python draws again when the vector does not fit its fixed "
     "length; so do both C signing engines at every degree, where each rejected attempt is followed by one with fresh randomness. Each verifies the other's signatures after the change of framing and refuses damaged ones, Python reads C "
     "public keys, and from one seed both generate the same key pair unless C refuses the candidate Python accepts.",
     ["inputs", "histories"], "all keys, messages and randomness: interfaces at degree 512, signing engines at degrees 2 to 1024, key generation at degrees 4 to 512",
     "the only cross-check is one known-answer vector",
     [R + "falcon.py", R + "samplerz.py", R + "ffsampling.py", R + "rng.py", N + "sign.c", N + "nist.c"],
     [("SecretKey.sign", R + "falcon.py"), ("sampler, gaussian0_sampler, BerExp", N + "sign.c"), ("ChaCha20.randombytes", R + "rng.py")],
     "a TLC model proves both buffered generators equal for all request histories at the real buffer size; sessions of both "
     "implementations in one trace, a history clause of the specification demanding equal vectors")
S = "src/"
prop("C22", "On-chain verification accepts exactly the valid signatures of the key",
     "The falcon and ethfalcon contracts accept a signature (salt, s2) of a message under a key exactly when the salt has 40 "
     "bytes, s2 has 512 reduced values, and the norm of (c - s2*h, s2), all 1024 coefficients counted, is within the bound, c "
     "being the hash-to-point of salt and message. The packed interface answers the magic value exactly for those signatures "
     "of exactly the right length under the key stored at the pointer returned by setKey, whatever keys were stored before.",
     ["inputs", "histories"], "all salts, messages, vectors, keys, byte strings and registration histories",
     "the Solidity tests verify a few honest vectors and cannot run in the stable suite",
     [S + "ZKNOX_falcon.sol", S + "ZKNOX_ethfalcon.sol", S + "ZKNOX_falcon_core.sol", S + "ZKNOX_NTT_falcon.sol", S + "ZKNOX_HashToPoint.sol"],
     [("ZKNOX_falcon.setKey / verify", S + "ZKNOX_falcon.sol"), ("ZKNOX_ethfalcon.setKey / verify", S + "ZKNOX_ethfalcon.sol"),
      ("falcon_core, falcon_normalize", S + "ZKNOX_falcon_core.sol")],
     "signatures of chosen norm around the bound, forgeries and damaged encodings sent as message calls to the compiled contracts; "
     "TLC decides every answer from Keccak, NTT and norm specifications and keeps the registry of stored keys")
prop("C23", "On-chain key recovery returns the signer's address or fails",
     "The epervier contracts return an address for (salt, message, s1, s2, hint) exactly when both vectors have 512 reduced "
     "values, the salt has 40 bytes, their norm (all coefficients counted) is within the bound and the reduced hint is the inverse "
     "of the product of the transform of s2; otherwise they revert. The address is that of the only key under which the "
     "signature is valid, packed and hashed as in the Python reference.",
     ["inputs"], "all salts, messages, vectors and hints", "the Solidity tests recover a few honest vectors and cannot run in the stable suite",
     [S + "ZKNOX_epervier.sol", S + "ZKNOX_ethepervier.sol", S + "ZKNOX_NTT_falcon.sol", S + "ZKNOX_HashToPoint.sol"],
     [("ZKNOX_epervier.recover", S + "ZKNOX_epervier.sol"), ("ZKNOX_ethepervier.recover", S + "ZKNOX_ethepervier.sol")],
     "crafted, singular and damaged inputs sent to the compiled contracts; TLC decides acceptance and recomputes every address")
prop("C24", "On-chain hashing equals the standards",
     "The Solidity SHAKE256 produces exactly the bytes of FIPS 202 for every split of the input into updates and of the output "
     "into squeezes, also with several contexts in use, and its permutation is Keccak-f[1600] on every state. The three "
     "hash-to-point functions give, for every salt and message, the successive 16-bit samples below 61445, reduced, of "
     "SHAKE256, of the Keccak counter generator, and of the Keccak chain: the points the off-chain signers use.",
     ["inputs", "histories"], "all states, salts, messages and call sequences of the stated order",
     "the Solidity tests compare fixed vectors with one update and cannot run in the stable suite",
     [S + "ZKNOX_shake.sol", S + "ZKNOX_HashToPoint.sol"],
     [("shakeUpdate/Pad/Squeeze/Digest, f1600", S + "ZKNOX_shake.sol"), ("hashToPointEVM / NIST / TETRATION, splitToHex", S + "ZKNOX_HashToPoint.sol")],
     "behaviours of the sponge model and seeded sequences replayed on the compiled functions; inputs searched for edge samples; "
     "every byte and point recomputed by TLC")
prop("C25", "On-chain transforms and packing are exact; locked configurations stay",
     "On reduced vectors the on-chain transforms, inverses, products and vector operations give the mathematical result for every "
     "power-of-two length they serve and for the modulus, tables and factor in force, and operands of different lengths are "
     "refused. The tables deployed are those of the powers of the root, packing and unpacking are exact inverses, the range "
     "check is exact, and after make_immutable no call changes the configuration, which until then is the last one set.",
     ["inputs", "histories"], "all reduced vectors and configuration histories; several primes including Falcon's and Dilithium's",
     "the Solidity tests transform two fixed vectors and cannot run in the stable suite",
     [S + "ZKNOX_NTT.sol", S + "ZKNOX_NTT_falcon.sol", S + "ZKNOX_falcon_utils.sol", S + "ZKNOX_falcon_deploy.sol", S + "ZKNOX_common.sol", S + "ZKNOX_falcon_core.sol"],
     [("ZKNOX_NTT: update, make_immutable, stateful and stateless transforms", S + "ZKNOX_NTT.sol"),
      ("_ZKNOX_NTTFW_vectorized, _ZKNOX_NTTINV_vectorized", S + "ZKNOX_NTT_falcon.sol"), ("Deploy, DeployPolynomial", S + "ZKNOX_falcon_deploy.sol")],
     "TLC proves the tree transform equal to evaluation and product for every vector at small sizes, and enumerates configuration "
     "histories; histories and seeded vectors replayed on the compiled contract and judged by the same transform")
prop("C26", "On-chain decoders accept exactly the canonical encodings",
     "The Solidity decoders of compressed keys and signatures return the encoded values and accept only canonical encodings: no "
     "minus zero, no magnitude above 2047, no value at or above 12289, no truncated input, no non-zero bit after the end. A "
     "signed message is taken apart exactly when its key, lengths and headers are right and its signature fills it, and it then "
     "verifies on chain exactly when it is valid.",
     ["inputs"], "all byte strings, offsets and message lengths", "the Solidity tests decode honest known-answer vectors and cannot run in the stable suite",
     [S + "ZKNOX_falcon_encodings.sol", S + "ZKNOX_falcon_utils.sol"],
     [("_decompress_sig, decompress_KAT", S + "ZKNOX_falcon_encodings.sol"), ("_ZKNOX_NTT_Decompress", S + "ZKNOX_falcon_utils.sol")],
     "TLC checks canonicity for all short strings; canonical, edge-length and damaged strings given to the compiled decoders and "
     "judged by the codec and validity specifications")
prop("C27", "Go binding and geth precompile: right verdicts, safe memory, fresh randomness",
     "VerifySignature answers true exactly when the signed message is valid under the key and carries the given message, for byte "
     "slices of any content and length (empty ones and messages of any size included); SignMessage with a well-formed key of the "
     "right length returns a signed message that is valid and holds the message, and refuses other keys; GenerateKeypair returns "
     "matching keys. No input crashes the process or touches memory outside its buffers. Keys and nonces never repeat, within a "
     "process, across processes, or between callers at work at the same time, and concurrent verifications do not disturb each "
     "other. The precompile refuses input that does not decode to three byte strings and otherwise returns a 32-byte 1 when the "
     "signature is valid for the message and 0 when it is not.",
     ["inputs", "schedules", "histories"], "all byte slices, all overlaps of calls, all sequences of processes",
     "one test signs and verifies one message of 16 bytes in one goroutine; the precompile is only parsed",
     ["falcon/falcon.go", "geth/contracts.go", N + "nist.c", N + "katrng.c"],
     [("GenerateKeypair, SignMessage, VerifySignature", "falcon/falcon.go"), ("falconvrfy.Run", "geth/contracts.go"),
      ("the global generator DRBG_ctx", N + "katrng.c")],
     "TLC explores every interleaving of callers of the shared generator; its rounds are replayed in real processes, with callers "
     "made to meet inside the generator and memory checked, and TLC judges every result and every repetition")
prop("C28", "Emulated floating point is exact binary64 with one rounding",
     "The integer emulation of floating point under key generation and signing returns, for every pair of zero or normal operands "
     "whose result does not overflow, the binary64 value nearest to the exact result of the addition, subtraction, product, "
     "quotient, square, inverse, square root or conversion, ties to even, with results below the normal range replaced by a zero "
     "of the right sign; comparisons are those of the numbers, and rounding, flooring and truncation to integers are exact. The "
     "scaled exponential is within 2^-50 on its range. Tables of roots and powers, and the constants of each degree in C and "
     "Python (deviations, smoothing parameters, norm bounds), are the values they stand for.",
     ["inputs"], "all pairs of 64-bit operands in the documented range", "the known-answer tests see the arithmetic through a sampler "
     "that hides errors in the last places", [N + "fpr.h", N + "fpr.c", "pythonref/falcon.py"],
     [("fpr_add, fpr_mul, fpr_div, fpr_sqrt, fpr_scaled, fpr_expm_p63, fpr_gm_tab", N + "fpr.c"),
      ("FPR, fpr_rint, fpr_floor, fpr_trunc, fpr_lt", N + "fpr.h"), ("Params", "pythonref/falcon.py")],
     "TLC proves the guard-and-sticky algorithms correctly rounded for every pair of values at small precision; operations on "
     "operands built to meet ties, cancellations and the edges of the range judged exactly at 53 bits, tables and constants "
     "recomputed from series")
prop("C29", "Fourier-domain and number-field arithmetic is exact up to rounding",
     "At every degree from 2 to 1024, transforming a real polynomial gives its values at the primitive 2n-th roots of unity (one "
     "of each conjugate pair in C, all in Python), the inverse undoes it, and every operation on transformed polynomials (sum, "
     "product, adjoint, quotient, norms, splitting, merging, LDL of a Gram matrix) is the operation of R[x]/(x^n+1). Trees have one "
     "leaf per coefficient, their product is the volume of the lattice, reduction along them returns lattice points unchanged and "
     "stays within half the leaves; normalised leaves are deviations the sampler takes. Over the integers, products, conjugates, "
     "norms, lifts, extended gcds are exact at any size; reduction keeps f G - g F, ends and leaves quotients of at most one half; "
     "the NTRU equation is solved exactly when the norms are coprime; the Gram-Schmidt norm is that of the longer basis vector.",
     ["inputs"], "all polynomials at all degrees, integers of any size", "tests only see this arithmetic through whole signatures at "
     "two degrees, and the Python side not at all", [N + "fft.c", R + "fft.py", R + "ffsampling.py", R + "ntrugen.py"],
     [("FFT, iFFT, poly_*_fft, poly_LDL_fft, poly_LDLmv_fft", N + "fft.c"), ("fft, ifft, split_fft, merge_fft", R + "fft.py"),
      ("gram, ldl, ffldl, ffldl_fft, ffnp, ffnp_fft", R + "ffsampling.py"),
      ("karamul, field_norm, lift, reduce, xgcd, ntru_solve, gs_norm", R + "ntrugen.py")],
     "TLC proves the tower identities for every pair of small polynomials; real results judged against integer polynomial "
     "arithmetic and 200-bit reals computed by TLC")
prop("C30", "The Gaussian samplers follow the exact distribution, byte for byte",
     "For every centre, every deviation key generation can produce and every sequence of random bytes, the C and the Python integer "
     "samplers return the value the specification defines: nine bytes choose from the half-Gaussian table of deviation 1.8205 "
     "rounded to 72 bits, one byte gives the side, and the candidate is accepted exactly when the following bytes are below "
     "2^64 (sigma_min/sigma) exp(-x), comparing from the top and reading no more bytes than needed; otherwise the next bytes are used.",
     ["inputs"], "all byte sequences, all centres", "a sampler that is slightly wrong signs valid signatures for ever; no test looks at "
     "the distribution", [N + "sign.c", R + "samplerz.py"],
     [("gaussian0_sampler, BerExp, sampler", N + "sign.c"), ("basesampler, berexp, samplerz", R + "samplerz.py")],
     "TLC derives the table from the exponential and the acceptance thresholds from 200-bit reals, and replays each draw; byte "
     "sequences are built to sit on table and acceptance thresholds; the limb-wise and bytewise comparisons checked exhaustively "
     "at toy width")
prop("C31", "The command line tool signs, stores, verifies and sends what it was asked to",
     "For every sequence of commands, key version and message: the two key files written together belong to one key and name its "
     "version; a signature made with a private key is accepted for that message, and only for messages, keys and signature files "
     "for which the version's rules hold; signing is deterministic and its salt differs between messages, versions and private keys "
     "and needs the private key to be computed; a transaction signature covers nonce, recipient, data and value; the on-chain "
     "commands call the contract with the parts of the signature in the file and show the contract's answer; the signer bridge "
     "prints a key of its seed and a signature of its message that the contracts accept.",
     ["inputs", "histories"], "all command sequences over key and signature files, all messages", "no test runs the tool",
     [R + "sign_cli.py", R + "sig_sol.py"],
     [("generate_keys, save/load, signature, verify_signature, transaction_hash, cast calls", R + "sign_cli.py"),
      ("the printed tuple", R + "sig_sol.py")],
     "exhaustive TLC model of the files, keys and the absorption of the signing randomness; its behaviours replayed on the real "
     "tool with a stub in place of cast that runs the contract; every file, salt and answer judged by TLC")
prop("C32", "Signing is Klein's sampler on the key's lattice, draw for draw",
     "For every key, every hashed message and every source of randomness, at every degree from 2 to 1024, a signature is the target "
     "less the lattice point that Klein's sampler picks on the basis (g, -f), (G, -F) of the key: its vectors are taken in "
     "bit-reversed order, each coordinate is one draw of the integer sampler around the projection of what is left of the target, "
     "with deviation sigma over the length of the orthogonalised vector, with the bytes next in the stream; attempts that are too "
     "long are repeated with the next seed of the stream, and none other. Expanded keys, plain keys, native and emulated floating "
     "point and Python agree with this one definition.",
     ["inputs"], "all keys, all targets, all random streams", "tests compare whole signatures of two degrees with stored ones, only "
     "through one of the two C engines, and never the Python one; a sampler with a slightly wrong deviation, order or conditional "
     "centre yields valid signatures that leak the key", [N + "sign.c", N + "fft.c", R + "ffsampling.py", R + "falcon.py"],
     [("ffSampling_fft, ffSampling_fft_dyntree, do_sign_tree, do_sign_dyn, expand_privkey, ffLDL", N + "sign.c"),
      ("ffldl_fft, ffsampling_fft", R + "ffsampling.py"), ("sample_preimage, normalize_tree", R + "falcon.py")],
     "TLC proves the recursion over the tower equal to Gram-Schmidt on the whole lattice for every small basis at degrees 2 and 4, then "
     "computes every draw of recorded signatures with 200-bit reals from the key, the hash and the seed, and compares the result")
prop("C33", "Known-answer files and generated test contracts hold valid vectors",
     "For every request file and the response file that belongs to it, the generator of ETHFALCON responses writes one vector per "
     "request, with its number, seed, message and keys unchanged and a signed message that opens to this message under this public "
     "key by the rules of the Keccak build, with its true length; the same files give the same responses, and vectors that do not "
     "belong together are refused. Readers find exactly the vectors of a file however lines are spaced and ended. Public keys are "
     "written, and private keys read, exactly as the C code writes them. The generated Solidity tests hold points, signatures, "
     "keys and addresses that satisfy the contracts they are for.",
     ["inputs"], "all request files with messages of at least one byte, all keys", "nothing runs the generators; the vectors they wrote once are "
     "the tests", [R + "scripts/generate_kat_rsp.py", R + "falcon_codec.py", R + "generate_falcon_test_vectors.py",
                   R + "generate_epervier_test_vectors.py"],
     [("parse_kat_req, parse_kat_rsp, encode_public_key, decode_secret_key_nist, sign_message, generate_rsp", R + "scripts/generate_kat_rsp.py"),
      ("trim_i8_decode, complete_private", R + "falcon_codec.py"), ("falcon_compact", R + "common.py")],
     "a line-by-line reader proved equal to the definition of blocks on every small file by TLC; files generated from real keys are "
     "read back by the specification, and each signed message opened by it")
prop("C34", "The recursive on-chain verifier accepts exactly the valid signatures",
     "For every message, salt, signature vector and public key, the verifier kept in external/ answers the zero address exactly when "
     "the vector and the key have 512 coefficients, every coefficient of the vector is at most q in absolute value, and the vector "
     "and c - s1 h have together a squared norm of at most 34034726, c being the chained Keccak point of message and salt; it reverts "
     "otherwise. It says so for a public key given by coefficients or transformed. Its transform takes every polynomial of degree 2 "
     "to 512 to its values at the roots of x^n + 1 in its own order, its inverse brings them back, and its products, sums, "
     "differences and negatives are those of the ring. The forgery script prints one signature that this verifier accepts for two messages.",
     ["inputs"], "all vectors, keys, messages, salts", "no test imports these contracts",
     ["external/ETHFalcon_Recursive.sol", "external/NTT_Recursive.sol", R + "forgery.py"],
     [("verify, verify_nttpub", "external/ETHFalcon_Recursive.sol"),
      ("nTT, iNTT, mergeNTT, splitNTT, mulZQ, subZQ", "external/NTT_Recursive.sol")],
     "the recursive transform against its definition for every vector modulo 17 and a basis modulo 12289 by TLC; recorded message "
     "calls with signatures built at the bound and algebra at every degree, judged by TLC")
prop("C35", "Parameter sets are those of the definition",
     "For every degree from 2 to 1024, the standard deviations, the squared norm bound and the signature length the Python code "
     "works with are those the definition gives for q = 12289, 2^64 signatures and the tail cut 1.1, and the derivation script "
     "computes, for every degree and aimed security level, these values, the rejection rate, the smallest block sizes of key "
     "recovery and forgery and their hardness as their formulas state; levels that would need a larger deviation than the integer "
     "sampler takes are refused.",
     ["inputs"], "all degrees from 2 to 1024, all aimed levels", "no test runs the derivation, and two of ten sets are ever used by tests",
     [R + "scripts/parameters.py", R + "falcon.py"],
     [("FalconParam, smooth, dimensionsforfree", R + "scripts/parameters.py"), ("Params", R + "falcon.py")],
     "the definition in 200-bit fixed point; TLC shows the bounds used by the whole specification to be its values, and judges "
     "recorded parameter sets")
