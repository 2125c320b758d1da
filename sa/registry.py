"""What each check runs, and how its evidence and the manifest describe it."""
LLVM = ["clang 18 front end and llvm-link/mem2reg (C++ to LLVM IR)", "sa/llvmir.py and sa/cinterp.py (IR to value graphs)",
        "sa/terms.py (normalisation)"]
ASM = ["GNU as/objdump (assembly source to instruction listing)", "sa/x86.py (instruction semantics)"]
JAVA = ["javac (Java to bytecode)", "sa/classfile.py and sa/jinterp.py (bytecode to value graphs)", "sa/terms.py (normalisation)"]
VG = ("Abstract interpretation of the current source's IR/bytecode/disassembly into value graphs (gated SSA, loops with fixed trip "
      "counts unrolled over abstract values, calls replaced by contracts that are obligations of their own); each observable output "
      "is compared with the specification's graph. ")
DEC = ("A pair is discharged when the normal forms coincide (global value numbering with bit-vector rewriting) or the polynomial "
       "domain proves the identity; it is refuted only when the normal forms differ and random interpretation of the two graphs "
       "finds an input that separates them; anything else is reported as undecided.")

MODN = ["sa/modn.py, sa/poly.py, sa/pts.py (modular polynomial and coefficient domains)"]
MOD = ("Sub-graphs that compute a canonical residue modulo the group order are recognised, proved in the polynomial domain and replaced by "
       "polynomials over their leaves, so any order of reductions gives the same normal form. ")

CHECKS = {
    "C01": dict(parts=[("cpparith", "c01")], level="proof", trusted=LLVM + ASM, min_obs=40, tech="value-graph equivalence with polynomial and order domains over LLVM IR and disassembly",
                rule=VG + "Uint256 operations over unconstrained 256-bit symbols, in the portable and the assembly configuration. " + DEC),
    "C02": dict(parts=[("cpparith", "c02")], level="proof", trusted=LLVM + ASM + ["sa/poly.py (polynomial domain)"], min_obs=60, tech="value graphs with a polynomial domain modulo p over LLVM IR and disassembly",
                rule=VG + "FieldInt operations: result congruent modulo p as a polynomial in operand words, and bounded below p, by case split on the code's own comparisons. " + DEC),
    "C03": dict(parts=[("recip", "c03")], level="proof", trusted=LLVM + ASM + ["sa/linear.py, sa/gcdloop.py (linear domain with parities, Fourier-Motzkin elimination)"], min_obs=60, tech="loop-header abstraction with linear/parity invariants over LLVM IR",
                rule=VG + "Uint256::reciprocal: the loop-carried cells become free symbols at the loop header; congruence, range, gcd and progress invariants are shown for the initial state and every transition by partition in a linear domain, for every odd modulus and every value coprime to it (and 0); the halvings suffice to end with the inverse. The unrolled graph serves to separate a wrong result. " + DEC),
    "C04": dict(parts=[("cppcurve", "c04")], level="proof", trusted=LLVM + ASM + ["sa/poly.py, sa/fp.py (polynomial and rational-function domains)"], min_obs=100, tech="value graphs with rational functions over F_p and case partition, over LLVM IR",
                rule=VG + "CurvePoint::add and twice over field contracts; for each case of the group law (infinity, equal, opposite, distinct, y zero; all representatives) every condition of the code is decided and the result cross-multiplied against the affine law modulo the curve equation. The field and integer contracts are obligations of the same check. " + DEC),
    "C05": dict(parts=[("cppcurve", "c05")], level="proof", trusted=LLVM + ASM + ["sa/pts.py (coefficient domain)", "sa/poly.py, sa/fp.py"], min_obs=120, tech="value graphs with a coefficient domain (multilinear polynomials over scalar bits modulo the group order) over LLVM IR",
                rule=VG + "CurvePoint::multiply over the contracts of add/twice/replace: every point value is a coefficient times the base point, the coefficient a multilinear polynomial over the 256 scalar bits modulo n; the result's coefficient must be the scalar. The group law, predicates, field and integer contracts are obligations of the same check. " + DEC),
    "C06": dict(parts=[("cppcurve", "c06")], level="proof", trusted=LLVM + ASM + ["sa/poly.py, sa/fp.py"], min_obs=120, tech="value graphs with rational functions over F_p and case partition, over LLVM IR",
                rule=VG + "normalize, isOnCurve, isZero, ==, != over field contracts, per case of the input (finite, infinity; on/off the curve; equal/different coordinates), toCompressedPoint byte by byte. " + DEC),
    "C07": dict(parts=[("cppecdsa", "c07")], level="proof", trusted=LLVM + ASM + MODN, min_obs=120, tech="value graphs with a modular (group order) polynomial domain over LLVM IR and disassembly",
                rule=VG + "Ecdsa::verify over the contracts of the curve, integer and modular operations, compared with the verification equation for every point, hash, r and s; multiplyModOrder bit by bit as a polynomial modulo n. " + MOD + DEC),
    "C08": dict(parts=[("cppecdsa", "c08")], level="proof", trusted=LLVM + ASM + MODN, min_obs=120, tech="value graphs with a modular (group order) polynomial domain over LLVM IR and disassembly",
                rule=VG + "Ecdsa::sign over the contracts of the curve, integer and modular operations: success bit, r and s (unchanged outputs on failure) as functions of key, nonce and hash. " + MOD + DEC),
    "C09": dict(parts=[("cppecdsa", "c09"), ("javaecdsa", "c09")], level="proof", trusted=LLVM + ASM + JAVA + MODN, min_obs=40, tech="value-graph equivalence over LLVM IR and JVM bytecode with hash functions uninterpreted",
                rule=VG + "signWithHmacNonce over the contracts of HMAC and sign: the nonce passed on is exactly the HMAC of key bytes and hash bytes; sign (obligation of the same check) rejects nonces outside 1..n-1. " + MOD + DEC),
    "C18": dict(parts=[("cppecdsa", "c18")], level="proof", trusted=LLVM + ASM + MODN, min_obs=100, tech="value graphs with hash functions uninterpreted and a modular polynomial domain over LLVM IR",
                rule=VG + "ExtendedPrivateKey construction and getChildKey over the contracts of HMAC, hashes, curve and integers, for every parent, index and HMAC value (below and not below n decided apart); every field of the result and the zero key on failure. " + MOD + DEC),
    "C28": dict(parts=[("javaecdsa", "c28")], level="proof", trusted=JAVA + MODN, min_obs=100, tech="value graphs with a modular (group order) polynomial domain over JVM bytecode",
                rule=VG + "Java Ecdsa.sign, verify and multiplyModOrder over the contracts of CurvePointMath and Int256Math, which are obligations of the same check. " + MOD + DEC),
    "C19": dict(parts=[("ct", "c19")], level="proof", trusted=LLVM + ASM, min_obs=140, tech="secrecy dataflow (information-flow abstract interpretation) over LLVM IR and disassembly",
                rule="Abstract interpretation of each operation documented as constant-time, from the current source's IR and disassembly, in the domain {known constant, secret}: public loop bounds and addresses stay exact, every word computed from a secret is a secret; calls are replaced by summaries that are obligations of their own. Any secret that reaches a branch, switch, conditional expression, memory address, division or content-scanning library call is a violation at that instruction. For Ecdsa::sign a tested condition is allowed only if one of its outcomes forces the result 'false'."),
    "C31": dict(parts=[("ct", "c31")], level="proof", trusted=JAVA, min_obs=80, tech="secrecy dataflow (information-flow abstract interpretation) over JVM bytecode",
                rule="Abstract interpretation of each arithmetic, curve, hash and signing method from the current source's bytecode in the domain {known constant, secret}, with calls replaced by summaries that are obligations of their own. Any secret that reaches a branch, switch, array index, division or content-scanning library call is a violation at that instruction, except conditions one outcome of which always throws (argument validation) and, in Ecdsa.sign, conditions one outcome of which forces the result 'false'."),
    "C23": dict(parts=[("staticinit", "c23")], level="proof", trusted=LLVM + ASM, min_obs=1, tech="abstract interpretation of the static initialisers over every initialisation state of the other translation units",
                rule="For each translation unit's static initialiser (llvm.global_ctors of the linked IR): (1) with every dynamically initialised global replaced by a free symbol, no constant the unit initialises may mention such a symbol; (2) for every subset of the other units already initialised (the finite domain {zero, initialised} per unit), with assertions compiled in and out, the initialiser completes and each of its constants gets the same value. By induction over the link order every order gives the same constants."),
    "C21": dict(parts=[("cppub", "c21")], level="proof", trusted=LLVM, min_obs=60, tech="abstract interpretation of guard-instrumented LLVM IR with object bounds and initialisation tracking",
                bounds="calls of the contexts of C02 to C09, C14 to C16, C18 and of the hash checks: field, curve and signature operations for all operands, hash and Base58 functions for the length classes of those checks",
                rule="The library is compiled without assertions and with the front end's undefined-behaviour guards (signed overflow, shift range, array index, division, invalid bool/enum load, missing return); every guard is a branch to a trap in the IR. All public functions are analysed in the value-graph domain in the contexts of the functional checks. Obligation per library function: no path condition of an analysed call reaches one of its guards; every load and store lies inside its object, reads only bytes written before, and writes no constant object; copied ranges do not overlap. The compiler's type-based rule finds no cast to a more strictly aligned type. A reachable event is refuted when its path condition has a satisfying valuation."),
    "C22": dict(parts=[("purity", "c22")], level="proof", trusted=LLVM[:1] + JAVA[:1] + ["sa/llvmir.py, sa/classfile.py, sa/effects.py (effect and alias summaries)"], min_obs=100, tech="interprocedural side-effect (mod/ref) and alias analysis over LLVM IR and JVM bytecode",
                rule="A flow-insensitive interprocedural mod/ref and points-to analysis summarises every function of the library (each configuration, assertions in and out; every Java method). Rules: no function reachable after initialisation writes a global, static or thread-local object; nothing is written through a const reference, const pointer or const 'this'; a Java operation writes only the parameters it documents as outputs; no call to a routine with hidden state; every static object read is one nobody writes after initialisation."),
    "C24": dict(parts=[("purity", "c24")], level="proof", trusted=LLVM[:1] + JAVA[:1] + ["sa/llvmir.py, sa/classfile.py, sa/effects.py (effect summaries)", "dead-code elimination and graph isomorphism in sa/checks/purity.py"], min_obs=100, tech="effect analysis of assertion regions and isomorphism of the assertion-on and assertion-off IR after dead-code elimination",
                rule="C++: the IR of each function with assertions and the IR without are reduced (assertion-failure edges cut, computations without influence on memory, results or remaining branches removed by control-dependence-based dead-code elimination using the effect summaries) and must be isomorphic. Java: between each test of $assertionsDisabled and its join no instruction or callee may modify an object that exists outside the assertion, a static field, or a local variable read later."),
    "C32": dict(parts=[("immut", "c32")], level="proof", trusted=JAVA + ["sa/classfile.py, sa/effects.py (effect and alias summaries)"], min_obs=60, tech="interprocedural alias and mod/ref analysis over JVM bytecode, with value graphs for the digest object",
                rule="Interprocedural points-to summaries of every Java method. Rules: no array field is reachable from outside the package; a reference field of an object is assigned only during construction and no operation writes through it; no operation modifies an array it does not document as output, stores a reference to a caller's array in any object that outlives the call, or returns an array that an argument, a static or an existing object still holds. Digest object: its constructors and toBytes interpreted over free bytes, identity of the arrays involved compared; equals, hashCode, compareTo and toString as value graphs over two free digests."),
    "C33": dict(parts=[("guards", "c33")], level="proof", trusted=JAVA, min_obs=300, tech="path-condition analysis in value graphs over JVM bytecode, with a linear domain for the reciprocal's loop",
                rule="Each violating class of arguments of each Java entry point that documents or checks a precondition (null references, array and string lengths as a symbol or enumerated, characters, scalar ranges, modulus and value of the reciprocal), in every combination: the call's value graph has no normal return, every exception reached is of the documented class, and no array passed in differs when it is raised. Reciprocal of a value not coprime to the modulus: loop invariants give gcd(value, modulus) in one cell after the loop, for which the exception condition is shown true. " + DEC),
    "C20": dict(parts=[("asmabi", "c20")], level="proof", trusted=ASM, min_obs=80, tech="abstract interpretation of the disassembly (register, memory-region and flag domains) against the calling convention",
                rule="Each routine of AsmX8664.s, from the current source's disassembly, over free operand contents: arrays of exactly the extent its C++ declaration gives, registers and upper argument halves that the convention leaves undefined as free symbols. Rules: every access inside the operands or the routine's own stack; read-only operands unwritten; callee-saved registers, stack pointer, return address and direction flag preserved on return; no aligned SSE access to operands; no result or stored word mentions an undefined register part or flag."),
    "C15": dict(parts=[("base58", "c15")], level="proof", trusted=LLVM, min_obs=200, tech="value-graph equivalence per case (leading zeros, digit count) with interval decisions and long-division normal forms over LLVM IR",
                rule=VG + "The three Base58Check encoders, fully inlined, per case (kind of payload, number of leading zero bytes z, number of base-58 digits d; the cases partition all payload and checksum values): every output character must have the normal form ALPHABET[(X / 58^k) mod 58] behind z characters 1 and before the NUL, where X is the payload followed by the checksum, and the checksum is the result of Sha256::getDoubleHash on exactly the payload bytes. Branches are decided by intervals derived from z and d; inputs must stay unchanged. " + DEC),
    "C16": dict(parts=[("base58", "c16")], level="proof", trusted=LLVM, min_obs=150, tech="value-graph equivalence per string length with multiply-chain normal forms and conjunction/selection simplification over LLVM IR",
                rule=VG + "The three import functions, fully inlined, per string length (0 to 8 above the longest accepted length with every character free and nonzero; longer strings by a symbolic length): return value and every output object must have the normal form of the specification graph: all digits in the alphabet, no overflow of the multiply-add steps, number of leading 1s equal to number of leading zero bytes, checksum equal to the double hash of the payload (Sha256::getDoubleHash as an uninterpreted function of exactly the payload bytes, premise C10), compression marker, and for extended keys header, zero byte and key range; outputs keep their old value otherwise. Optional null outputs included. " + DEC),
    "C17": dict(parts=[("base58", "c17")], level="proof", trusted=LLVM, min_obs=30, tech="value-graph equivalence over LLVM IR, payload bytes captured at the checksum computation",
                rule=VG + "Encoding: the bytes passed to the checksum computation, for free field values, must be the specified layout, and the printed digits must come from the same bytes. Decoding: for every accepted string length, each output field must be the specified slice of the decoded number (normal form, every character free). " + DEC),
    "C10": dict(parts=[("cpphash", "c10"), ("javahash", "c10")], level="proof", trusted=LLVM + JAVA, tech="value-graph equivalence over LLVM IR and JVM bytecode", rule=VG + "SHA-256 compression for a free block and state; padding and block walk per message-length class with free bytes; append/finish as a transfer function per buffer fill. " + DEC),
    "C11": dict(parts=[("cpphash", "c11"), ("javahash", "c11")], level="proof", trusted=LLVM + JAVA, tech="value-graph equivalence over LLVM IR and JVM bytecode", rule=VG + "SHA-512 compression for a free block and state; padding per length class. " + DEC),
    "C12": dict(parts=[("cpphash", "c12"), ("javahash", "c12")], level="proof", trusted=LLVM + JAVA, tech="value-graph equivalence over LLVM IR and JVM bytecode", rule=VG + "RIPEMD-160 compression for a free block and state; padding per length class. " + DEC),
    "C13": dict(parts=[("cpphash", "c13"), ("javahash", "c13")], level="proof", trusted=LLVM + JAVA, tech="value-graph equivalence over LLVM IR and JVM bytecode", rule=VG + "Keccak-f permutation per round and absorb/pad/squeeze per length class. " + DEC),
    "C14": dict(parts=[("cpphash", "c14"), ("javahash", "c14")], level="proof", trusted=LLVM + JAVA, tech="value-graph equivalence over LLVM IR and JVM bytecode", rule=VG + "HMAC pad and key paths per key-length class over hash contracts. " + DEC),
    "C29": dict(parts=[("base58j", "c29"), ("javahash", "c10")], level="proof", trusted=JAVA, min_obs=120, tech="value-graph equivalence per length and shape with interval decisions and long-division / digit-sum normal forms over JVM bytecode",
                bounds="payloads of 0 to 36 and 78 bytes; strings of 0 to 45, 50 to 52, 111 and 112 characters (thorough: 0 to 60 and 78; 0 to 80, 111 and 112); other lengths are not analysed",
                rule=VG + "bytesToBase58 per payload length and case (leading zero bytes z, number of digits d; the cases partition all payload and checksum values): every character must have the normal form ALPHABET[(X / 58^k) mod 58] behind z characters 1, X being payload followed by the first four bytes of Sha256.getDoubleHash of exactly the payload. base58ToBytes per string length and case (number of leading 1s, byte count and top bit of the value): accepted exactly when there are at least four bytes and the last four equal the double hash's first four, the result is the bytes before them (one zero byte per leading 1), otherwise only IllegalArgumentException is thrown; for each position a character outside the alphabet must end in IllegalArgumentException. " + DEC),
    "C30": dict(parts=[("bech32", "c30")], level="proof", trusted=JAVA, min_obs=60, tech="value-graph equivalence per length and separator position with character-set and GF(2)-linear normal forms over JVM bytecode",
                bounds="strings of 0 to 18, 39, 42, 62, 74 and 88 to 90 characters with every separator position up to 18 and 14 of them beyond (thorough: 0 to 90, every position), longer ones at 91 to 96, 100, 128, 180 and 256; human-readable parts of 1 to 83 characters with seven data lengths each beyond 6 (thorough: all); remainder for 9 to 79 and six larger numbers of values (thorough: 9 to 173)",
                rule=VG + "polymod equals, bit by bit, the GF(2)-linear BIP173 remainder; at other places it stands for that remainder. bech32ToBitGroups per length, position of the last separator (or none) and letter case: the acceptance condition must have the specified normal form (per character the set of accepted characters, jointly remainder 1), the human-readable part and the data must have the specified normal form over those sets, every other string ends in IllegalArgumentException; strings with letters of both cases and overlong ones are rejected. bitGroupsToBech32 per part and data length gives the specified characters and rejects unsuitable characters and lengths. segwitToBech32 for 2 to 40 program bytes and bech32ToSegwit for 0 to 83 groups: regrouping, padding, version and length rules. In the specification itself appending the checksum gives remainder 1. " + DEC),
    "C25": dict(parts=[("javaarith", "c25")], level="proof", trusted=JAVA, min_obs=40, tech="value-graph equivalence with polynomial and order domains over JVM bytecode",
                rule=VG + "Int256Math operations over unconstrained word symbols for every way operands and output may coincide; guard words around every range must be unchanged. " + DEC),
    "C26": dict(parts=[("javaarith", "c26")], level="proof", trusted=JAVA + ["sa/poly.py (polynomial domain)"], min_obs=60, tech="value graphs with a polynomial domain modulo p over JVM bytecode",
                rule=VG + "Int256Math field operations for every aliasing of operands and output: congruent modulo p as polynomials in operand words and bounded below p; only output and documented scratch words change. The integer contracts are obligations of the same check. " + DEC),
    "C27": dict(parts=[("javacurve", "c27")], level="proof", trusted=JAVA + ["sa/poly.py, sa/fp.py, sa/pts.py"], min_obs=100, tech="value graphs with rational functions over F_p, case partition and a coefficient domain, over JVM bytecode",
                rule=VG + "CurvePointMath add/twice per case of the group law, normalize/isOnCurve/isZero per case of the input, multiply in the coefficient domain (multilinear polynomials over the scalar bits modulo n); results must not depend on scratch contents and guard words around every range stay unchanged. Field and integer contracts are obligations of the same check. " + DEC),
}

NA = {
    "C34": "Depends on the code generator of the compiler or JIT the user runs; nothing in /repo's source determines it (the source-level clauses are C19 and C31, the hand-written assembly is covered by C19 and C20).",
    "C35": "Unforgeability is a computational-hardness conjecture, not a property of the program text; the functional clauses (signatures verify) follow from C07, C08 and C28.",
}
