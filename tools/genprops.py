#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
J = "java/io/nayuki/bitcoin/crypto/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe)}})
I = ["inputs"]; IC = ["inputs", "configurations"]

p("C01", "C++ 256-bit integer arithmetic is exact modulo 2^256",
  "In both the portable and the x86-64 assembly build, every Uint256 operation (addition and subtraction with enable flag and returned carry/borrow, one-bit shifts with shifted-out bit, conditional replace/swap, the six comparisons, conversion from and to 32 big-endian bytes, construction from 64 hexadecimal digits) gives exactly the mathematical result for unsigned 256-bit integers, and an operation whose enable flag is 0 leaves the object's value unchanged.",
  IC, "all pairs of 256-bit values, both enable values, both build configurations, operands aliasing each other",
  "Tests sample a few dozen of 2^512 operand pairs; a carry lost between two particular words, or a comparison wrong only when words tie, needs operands that the samples do not contain.",
  ["cpp/Uint256.cpp", "cpp/AsmX8664.s"],
  [("word-by-word carry chains", "cpp/Uint256.cpp: add, subtract, shiftLeft1, shiftRight1"), ("mask selection", "cpp/Uint256.cpp: replace, swap"), ("assembly kernels", "cpp/AsmX8664.s: asm_Uint256_*")], ["Uint256 public operations"])
p("C02", "C++ prime-field arithmetic is exact and canonical",
  "For canonical operands, FieldInt addition, subtraction, doubling, squaring, multiplication and conditional replace give the residue modulo p = 2^256 - 2^32 - 977 of the mathematical result, and construction from a Uint256 reduces it modulo p. Every result is canonical (less than p), so equality of representations is equality of field elements. This holds in both the portable and the assembly build.",
  IC, "all pairs of canonical field elements, both build configurations",
  "The final conditional subtractions of the reduction are needed only for inputs of density around 2^-190 or 2^-32; random tests never reach them.",
  ["cpp/FieldInt.cpp", "cpp/AsmX8664.s"],
  [("Barrett reduction of the 512-bit product", "cpp/FieldInt.cpp: multiply; cpp/AsmX8664.s: asm_FieldInt_multiply256x256eq512, asm_FieldInt_multiplyBarrettStep0/1"), ("conditional subtraction of the modulus", "cpp/FieldInt.cpp: add, subtract, multiply2")], ["FieldInt public operations"])
p("C03", "C++ modular reciprocal is exact for every residue",
  "For an odd modulus that is prime and has its top bit set, Uint256::reciprocal replaces every value x less than the modulus by the inverse of x modulo the modulus, and by 0 when x is 0. FieldInt::reciprocal does the same for the field prime.",
  IC, "all residues; field prime and group order; both build configurations",
  "The fixed-iteration Euclid loop takes a different data path for every value; a wrong halving or an iteration count that is too small shows only for rare values.",
  ["cpp/Uint256.cpp", "cpp/FieldInt.cpp"],
  [("branch-free binary extended Euclid with a fixed number of rounds", "cpp/Uint256.cpp: reciprocal")], ["Uint256::reciprocal", "FieldInt::reciprocal"])
p("C04", "C++ point addition and doubling implement the full group law",
  "CurvePoint::add and CurvePoint::twice return a projective representation of the secp256k1 group sum for all pairs of points: any projective representatives, the point at infinity on either side, equal points, opposite points, and an argument that is the same object as the target.",
  I, "all pairs of valid points in all projective representations",
  "The special cases (infinity, equal, opposite) are selected by masks, and each can be wrong for only some representations; tests use a few representatives.",
  ["cpp/CurvePoint.cpp"],
  [("complete projective formulas with masked special cases", "cpp/CurvePoint.cpp: add, twice")], ["CurvePoint::add", "CurvePoint::twice"])
p("C05", "C++ scalar multiplication returns n times the point",
  "CurvePoint::multiply returns n times the point for every unsigned 256-bit n (not reduced, including 0, the group order and all larger values), and privateExponentToPublicPoint returns the normalised point n times G for every n from 1 to the group order minus 1.",
  I, "all 2^256 scalars and all points",
  "A table entry or digit position that is wrong affects only scalars with a particular digit; tests use a small sample of scalars.",
  ["cpp/CurvePoint.cpp"],
  [("fixed 4-bit window table and constant-time lookup", "cpp/CurvePoint.cpp: multiply")], ["CurvePoint::multiply", "CurvePoint::privateExponentToPublicPoint"])
p("C06", "C++ point predicates, normalisation and serialisation are exact",
  "normalize maps every representation of a finite point to (x/z, y/z, 1) and every representation of infinity to the one canonical (0, 1, 0); isOnCurve, isZero and == and != agree with the mathematical predicates on normalised points; toCompressedPoint writes 02 or 03 by the parity of y followed by the 32 big-endian bytes of x.",
  I, "all field triples and all pairs of them",
  "Predicates can be wrong for z = 0 or for one coordinate only; the tests check a few points.",
  ["cpp/CurvePoint.cpp"],
  [("masked normalisation through the reciprocal of z", "cpp/CurvePoint.cpp: normalize"), ("predicates", "cpp/CurvePoint.cpp: isOnCurve, isZero, operator==, toCompressedPoint")], ["CurvePoint public operations"])
p("C07", "C++ ECDSA verification accepts exactly the valid signatures",
  "Ecdsa::verify returns true exactly when the public point is normalised, finite, on the curve and of the group order, r and s both lie in 1..n-1, and the x coordinate of (z/s)G + (r/s)Q, reduced modulo n, equals r, where z is the hash read as a big-endian integer. High-s signatures that satisfy the equation are accepted.",
  I, "all points, hashes, r and s",
  "Each range or curve check is one conjunct; dropping one changes the verdict only for adversarial inputs of negligible density (for example x >= n).",
  ["cpp/Ecdsa.cpp"],
  [("range checks, curve checks, double scalar multiplication", "cpp/Ecdsa.cpp: verify")], ["Ecdsa::verify"])
p("C08", "C++ ECDSA signing outputs the low-s signature for the given nonce",
  "For every private key and nonce in 1..n-1 and every hash, Ecdsa::sign sets r = x(kG) mod n and s to the smaller of t and n - t with t = (z + r d)/k mod n, and returns true; it returns false without modifying the output r and s exactly when r or t is 0. Every hash value is handled, including those not less than n.",
  I, "all keys and nonces in range, all 2^256 hashes",
  "The intermediate sum exceeds 2^256 or the order only for rare combinations; tests sample hashes that are far from the boundary.",
  ["cpp/Ecdsa.cpp"],
  [("modular arithmetic over the order, low-s selection", "cpp/Ecdsa.cpp: sign, multiplyModOrder")], ["Ecdsa::sign"])
p("C09", "Deterministic signing nonce is the specified HMAC of key and hash",
  "Deterministic signing in C++ and Java uses as nonce the HMAC-SHA256 keyed by the 32 big-endian bytes of the private key over the 32 message-hash bytes in the documented order, read as a big-endian integer; a nonce outside 1..n-1 makes signing fail rather than be used. Distinct key/message pairs thus never share a nonce by construction of the nonce input (no byte of key or hash is dropped or replaced).",
  I, "all private keys and message hashes",
  "A nonce that drops or repeats a byte of its input still gives valid signatures, so signature tests pass while nonces collide for related messages.",
  ["cpp/Ecdsa.cpp", J + "Ecdsa.java"],
  [("HMAC construction of the nonce", "cpp/Ecdsa.cpp: signWithHmacNonce; " + J + "Ecdsa.java: signWithHmacNonce")], ["Ecdsa::signWithHmacNonce", "Ecdsa.signWithHmacNonce"])
p("C10", "SHA-256 equals FIPS 180-4 for every message and chunking",
  "The C++ and Java SHA-256 (one-shot, double, and in C++ the incremental append interface with any split of the message) return the FIPS 180-4 digest for every byte string; the digest object prints and parses as the byte-reversed hexadecimal form and compares by value.",
  ["inputs", "histories"], "all messages of every length, all splits into append calls",
  "Tests use fixed messages and a limited set of chunkings; padding boundary lengths and long messages (length field carry) are infinite in number.",
  ["cpp/Sha256.cpp", "cpp/Sha256Hash.cpp", "cpp/Utils.cpp", J + "Sha256.java", J + "Sha256Hash.java"],
  [("compression function", "cpp/Sha256.cpp: compress; Sha256.java: compress"), ("padding and block buffering", "cpp/Sha256.cpp: append, getHash; Sha256.java: getHash")], ["Sha256::getHash", "Sha256::append", "Sha256.getHash"])
p("C11", "SHA-512 equals FIPS 180-4 for every message",
  "The C++ and Java SHA-512 functions return the FIPS 180-4 digest for every byte string.",
  I, "all messages of every length", "Tests use fixed messages; the padding boundaries and the compression function's data paths are sampled only.",
  ["cpp/Sha512.cpp", J + "Sha512.java"],
  [("compression function and padding", "cpp/Sha512.cpp; " + J + "Sha512.java")], ["Sha512::getHash", "Sha512.getHash"])
p("C12", "RIPEMD-160 equals its specification for every message",
  "The C++ and Java RIPEMD-160 functions return the specified digest for every byte string.",
  I, "all messages of every length", "Tests use fixed messages only.",
  ["cpp/Ripemd160.cpp", J + "Ripemd160.java"],
  [("compression function and padding", "cpp/Ripemd160.cpp; " + J + "Ripemd160.java")], ["Ripemd160::getHash", "Ripemd160.getHash"])
p("C13", "Keccak-256 equals original Keccak for every message",
  "The C++ and Java Keccak-256 functions return, for every byte string, the digest of the original Keccak submission with rate 1088 and padding bit pattern 01 .. 80.",
  I, "all messages of every length", "Tests use fixed messages only; a message that ends exactly one byte before the rate is one boundary among many.",
  ["cpp/Keccak256.cpp", J + "Keccak256.java"],
  [("permutation, absorption and padding", "cpp/Keccak256.cpp; " + J + "Keccak256.java")], ["Keccak256::getHash", "Keccak256.getHash"])
p("C14", "HMAC equals RFC 2104 for every key and message",
  "HMAC-SHA-256 and HMAC-SHA-512 (C++ and Java) equal RFC 2104 for every key, shorter than, equal to, or longer than the block, and every message.",
  I, "all keys and messages of every length", "Key lengths at and around the block size are boundary cases; tests sample some of them.",
  ["cpp/Sha256.cpp", "cpp/Sha512.cpp", J + "Sha256.java", J + "Sha512.java"],
  [("key padding and the two hash passes", "cpp/Sha256.cpp: getHmac; cpp/Sha512.cpp: getHmac; Sha256.java, Sha512.java: getHmac")], ["getHmac"])
p("C15", "C++ Base58Check encoding is exact",
  "The C++ encoder turns every byte payload into the Base58Check string of the payload followed by the first four bytes of its double SHA-256: one leading 1 per leading zero byte, then the base-58 digits of the value, NUL-terminated and nothing more.",
  I, "all payloads up to the encoder's size limit", "The number of leading zeros and the digit count vary with the data; tests sample a few payloads.",
  ["cpp/Base58Check.cpp"], [("big-integer division by 58", "cpp/Base58Check.cpp: bytesToBase58, bytesToBase58Check")], ["Base58Check::pubkeyHashToBase58Check", "Base58Check::privateKeyToBase58Check", "Base58Check::extendedPrivateKeyToBase58Check"])
p("C16", "C++ Base58Check import accepts exactly well-formed strings",
  "Each C++ import function (address hash, private key with compression flag, extended private key) returns true exactly for strings that encode the right payload length with a correct checksum and well-formed flag bytes, and then yields the encoded fields; for every other string it returns false. On false the caller's output objects are unchanged.",
  I, "all NUL-terminated strings, of any length and content", "Rejection has many independent reasons; tests sample a few malformed strings.",
  ["cpp/Base58Check.cpp"], [("decoding with overflow, alphabet and leading-zero checks", "cpp/Base58Check.cpp: base58CheckToBytes and the three FromBase58Check functions")], ["Base58Check::*FromBase58Check"])
p("C17", "C++ Base58Check payload layouts match the Bitcoin formats",
  "An address payload is version, 20-byte hash; a private key payload is version, 32 big-endian bytes and 01 exactly when compressed; an extended private key payload is 0488ADE4, depth, parent fingerprint, big-endian index, chain code, 00, key, each at its specified offset, when encoding and when decoding.",
  I, "all field values", "Fields that are equal or zero in test vectors hide swapped or truncated fields.",
  ["cpp/Base58Check.cpp"], [("payload assembly", "cpp/Base58Check.cpp")], ["Base58Check public functions"])
p("C18", "BIP32 private child derivation follows the specification",
  "ExtendedPrivateKey child derivation computes HMAC-SHA512 keyed by the parent chain code over 00||key||index for index >= 2^31 and serP(key*G)||index otherwise; the child key is the left half plus the parent key modulo n, the chain code is the right half, the depth byte grows by one (modulo 256) and the fingerprint is the first four bytes of the parent key's HASH160. The outcome is reported as invalid when the left half is not less than n or the sum is zero.",
  I, "all parent keys, chain codes and 2^32 indices", "Left halves not less than n and zero sums occur with probability 2^-127; tests never see them.",
  ["cpp/ExtendedPrivateKey.cpp"], [("derivation", "cpp/ExtendedPrivateKey.cpp: getChildKey")], ["ExtendedPrivateKey::getChildKey"])
p("C19", "C++ secret-handling operations are constant-time",
  "In the C++ arithmetic, curve and signing code that documents itself as constant-time (Uint256, FieldInt, CurvePoint, hash compression, Ecdsa::sign), no secret value decides a branch, a loop bound, a memory address or a variable-latency instruction, in both build configurations including the assembly.",
  IC, "all secret values; both build configurations", "Timing behaviour is invisible to functional tests: an early exit gives the same result.",
  ["cpp/Uint256.cpp", "cpp/FieldInt.cpp", "cpp/CurvePoint.cpp", "cpp/Ecdsa.cpp", "cpp/AsmX8664.s"],
  [("mask arithmetic instead of branches", "throughout the constant-time functions")], ["constant-time functions"])
p("C20", "Assembly routines respect the ABI and touch only their operands",
  "On every path each assembly routine preserves the callee-saved registers, stack pointer and direction flag, reads and writes only inside the arrays its C++ declaration passes, and does not rely on the undefined upper half of 32-bit argument registers or on more alignment than the C++ types guarantee.",
  I, "all call contexts: register contents, upper argument bits, object addresses aligned to 4 bytes", "A clobbered callee-saved register or an alignment fault shows only with particular compiler output or object placement.",
  ["cpp/AsmX8664.s", "cpp/AsmX8664.hpp"], [("hand-written routines", "cpp/AsmX8664.s")], ["asm_* routines"])
p("C21", "C++ library code has no memory error or undefined behaviour",
  "For all arguments that satisfy the documented preconditions, the C++ library makes no out-of-bounds access, reads no uninitialised object, and executes no signed overflow, oversized shift, misaligned wide access or other undefined operation.",
  I, "all arguments within the documented preconditions", "A sanitizer reports only what a test executes; rare data-dependent indices stay unexecuted.",
  ["cpp/Uint256.cpp", "cpp/FieldInt.cpp", "cpp/CurvePoint.cpp", "cpp/Ecdsa.cpp", "cpp/Base58Check.cpp", "cpp/Sha256.cpp", "cpp/Sha512.cpp", "cpp/Ripemd160.cpp", "cpp/Keccak256.cpp", "cpp/ExtendedPrivateKey.cpp", "cpp/Utils.cpp"],
  [("fixed-size arrays and bounded loops", "all C++ library files")], ["all public functions"])
p("C22", "No operation keeps hidden mutable state: all are reentrant",
  "No C++ or Java library operation writes static storage after initialisation or modifies an object other than its target and declared outputs, so concurrent calls on distinct objects never interfere and every call's result depends on its arguments only.",
  ["schedules", "histories"], "all interleavings and call histories on distinct objects", "Tests are single-threaded and call each function from a fresh state.",
  ["cpp", J[:-1]], [("locals and explicit outputs only", "all library files")], ["all public functions"])
p("C23", "C++ constants do not depend on initialisation order",
  "Each static constant of the C++ library gets the same value, and its initialisation succeeds, whatever other translation units have or have not been initialised before it; no constant is computed from an object that its own translation unit initialises later.",
  ["configurations"], "all link orders of the translation units", "The test build has one link order.",
  ["cpp/CurvePoint.cpp", "cpp/FieldInt.cpp", "cpp/Uint256.cpp", "cpp/Ecdsa.cpp"], [("constants defined from literals within the same file", "cpp/CurvePoint.cpp, cpp/Uint256.cpp, cpp/FieldInt.cpp")], ["static constants"])
p("C24", "Assertions have no side effects",
  "Compiling the C++ library with assertions disabled, or running the Java library without -ea, does not change any result: no assertion condition modifies program state or is needed for a later computation.",
  ["configurations", "inputs"], "both assertion settings, all inputs", "Tests run with assertions enabled only.",
  ["cpp", J[:-1]], [("pure assertion conditions", "all assert statements")], ["all functions with assertions"])
p("C25", "Java 256-bit integer arithmetic is exact modulo 2^256",
  "Every Int256Math operation (add, uintAdd/uintSubtract with enable flag and carry, shifts, comparison, equality, conditional replace/swap, reciprocal, byte and 64-digit hexadecimal conversions) gives the mathematical result for unsigned 256-bit integers at any offset of the backing array, and modifies only its documented output range and scratch range.",
  I, "all operand values, offsets and enable flags", "Tests sample few operand pairs out of 2^512.",
  [J + "Int256Math.java"], [("word-by-word carry chains on int arrays", J + "Int256Math.java")], ["Int256Math static methods"])
p("C26", "Java prime-field arithmetic is exact and canonical",
  "The Java field operations (add, subtract, multiply2, square, multiply, reciprocal modulo p) return the canonical residue of the mathematical result for all canonical operands, also when output and operand ranges coincide, and modify only their documented output and scratch ranges.",
  I, "all canonical operand pairs, offsets and allowed aliasings", "Final reduction corner cases have density 2^-32 or less.",
  [J + "Int256Math.java"], [("reduction by conditional subtraction", J + "Int256Math.java: field*")], ["Int256Math field* methods"])
p("C27", "Java curve operations implement the group law and n times P",
  "CurvePointMath addition, doubling, normalisation, scalar multiplication and the on-curve, zero and equality predicates agree with the secp256k1 group for all points in all projective representations and all 256-bit scalars.",
  I, "all points, representations and scalars", "Special cases and table digits are sampled only.",
  [J + "CurvePointMath.java"], [("projective formulas, masked special cases, window table", J + "CurvePointMath.java")], ["CurvePointMath static methods"])
p("C28", "Java ECDSA signs and verifies exactly as specified",
  "Ecdsa.verify accepts exactly the signatures that satisfy the ECDSA equation with r, s in 1..n-1 and a valid public point, and Ecdsa.sign returns the low-s signature for the given nonce for every key, nonce and hash, and false without touching the outputs exactly when the nonce is outside 1..n-1 or r or s would be zero.",
  I, "all keys, nonces, hashes, points and signatures", "Boundary combinations are of negligible density.",
  [J + "Ecdsa.java"], [("sign, verify, multiplyModOrder", J + "Ecdsa.java")], ["Ecdsa.sign", "Ecdsa.verify"])
p("C29", "Java Base58Check accepts and returns exactly the encoded data",
  "Java bytesToBase58 gives the Base58Check string of every byte array, and base58ToBytes returns the payload exactly when the string is over the alphabet, decodes canonically and its checksum matches; for every other string it throws IllegalArgumentException and no other exception.",
  I, "all byte arrays and strings", "Rejection cases (too short, bad characters, bad checksum) are sampled.",
  [J + "Base58Check.java"], [("conversion and checksum comparison", J + "Base58Check.java")], ["Base58Check.bytesToBase58", "Base58Check.base58ToBytes"])
p("C30", "Java Bech32/segwit codec follows BIP173 exactly",
  "The Java Bech32 decoder accepts exactly the strings BIP173 defines as valid (length, one case only, separator position, alphabet, checksum; for segwit version 0 to 16, program length 2 to 40, zero padding of at most 4 bits) and throws IllegalArgumentException for all others; the encoder's output is always accepted and decodes to the same data.",
  I, "all strings; all human-readable parts and data", "The checks are independent conjuncts; a vector set exercises a few orderings of characters.",
  [J + "Bech32.java"], [("case, length, checksum and padding checks", J + "Bech32.java")], ["Bech32 public methods"])
p("C31", "Java secret-handling operations are constant-time",
  "In the Java arithmetic, curve and signing code, no secret value decides a branch, a loop bound, an array index or a variable-latency operation.",
  I, "all secret values", "An early exit gives the same result.",
  [J + "Int256Math.java", J + "CurvePointMath.java", J + "Ecdsa.java"], [("mask arithmetic instead of branches", "Int256Math, CurvePointMath, Ecdsa.sign")], ["constant-time methods"])
p("C32", "Java objects are immutable and never alias caller arrays",
  "The Java API neither modifies an input array or byte[] argument that is not documented as output, nor keeps or returns a reference to internal arrays, so a hash object's value never changes after construction; equals, hashCode and compareTo are consistent with the byte value.",
  ["histories", "inputs"], "all histories of calls and of mutations of arrays by the caller", "Aliasing shows only when the caller later mutates an array.",
  [J + "Sha256Hash.java", J + "Sha256.java", J + "Sha512.java", J + "Ripemd160.java", J + "Keccak256.java", J + "Base58Check.java", J + "Bech32.java", J + "Ecdsa.java", J + "Utils.java"],
  [("defensive copies", "Sha256Hash constructors and toBytes")], ["Sha256Hash", "public static methods"])
p("C33", "Java API rejects invalid arguments before acting",
  "Each Java public entry point that documents a precondition on nullness, array length, index range or scalar range rejects every violating call with NullPointerException, IllegalArgumentException or IndexOutOfBoundsException as documented, before it changes any state.",
  I, "all argument values", "Only a few invalid calls are tested.",
  [J + "Sha256Hash.java", J + "Ecdsa.java", J + "Int256Math.java", J + "Utils.java"], [("explicit checks at method entry", "public methods")], ["public methods"])
p("C34", "Optimised machine code stays constant-time",
  "The machine code an optimising compiler or the Java JIT emits for the constant-time functions has no secret-dependent branch or address.",
  ["configurations", "inputs"], "all compilers, optimisation levels and JIT states", "Tests observe results, not timing.",
  ["cpp", J[:-1]], [("mask arithmetic", "constant-time functions")], ["emitted code"])
p("C35", "Only key holders can produce signatures that verify",
  "Every signature the library produces verifies under the matching public key, and without the private key no signature that verifies can be produced.",
  I, "all keys, messages, adversaries", "Unforgeability quantifies over adversaries.",
  ["cpp/Ecdsa.cpp", J + "Ecdsa.java"], [("ECDSA", "Ecdsa")], ["sign, verify"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
