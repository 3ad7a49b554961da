#!/usr/bin/env python3
# writes /verif/properties.jsonl
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                          **({"observe_at": list(observe)} if observe else {}), "hook_needed": None}})

SP = "lib/high/Keccak/KeccakSponge.inc"
prop("P01", "Every input byte is absorbed once, in order, however calls are split",
     "In the sponge-based functions (Keccak sponge, TurboSHAKE, FIPS 202 hashing, cSHAKE/KMAC/TupleHash, duplex objects, the sponge-based PRG and Xoodyak) each byte given to the input functions enters the permutation state exactly once and in order, at the position given by the number of bytes entered so far modulo the rate, with one permutation exactly when a block is full. Output bytes are likewise taken from consecutive positions of the outer part of the state, each exactly once. Hence any division of a message or of an output over calls gives the same result.",
     ["inputs", "histories", "configurations"], "every rate accepted by initialization, every sequence of calls, every input and output length, block-at-a-time and fast-loop code paths",
     "The tests feed a few rates and a pseudo-random set of splits; rates not multiple of the lane size, fast loops entered with odd lengths and long histories are not reached.",
     [SP, "lib/high/Keccak/KeccakDuplex.inc", "lib/high/Keccak/PRG/KeccakPRG.inc", "lib/high/Keccak/FIPS202/KeccakHash.c", "lib/high/Keccak/SP800-185/SP800-185.inc", "lib/high/TurboSHAKE/TurboSHAKE.c"],
     [("byte queue index and block loop", SP + " SpongeAbsorb/SpongeSqueeze"), ("input/output indices of the duplex", "lib/high/Keccak/KeccakDuplex.inc"), ("PRG feed/fetch over the duplex", "lib/high/Keccak/PRG/KeccakPRG.inc")],
     [("byteIOIndex", "bytes of the current block already absorbed or squeezed", "lib/high/Keccak/KeccakSponge.h")])
prop("P02", "High-level functions stay inside the caller's buffers and their own objects",
     "For all argument values their interface allows, the high-level functions read only the stated number of input bytes, write only the stated number of output bytes, and never access their instances, local buffers or tables outside their bounds. Bit lengths that are not multiples of eight round up to the containing byte and no further.",
     ["inputs", "histories", "configurations"], "every call with valid pointers and any lengths, in every reachable instance state, for every available parallelism",
     "Tests use a few hundred lengths and exact-size buffers are not guarded; a one-byte overread or a boundary that only occurs at a particular (length, index) pair is invisible.",
     ["lib/high"], [("length bookkeeping in every absorb/squeeze loop", "lib/high/**/*.c, *.inc")])
prop("P03", "Low-level C implementations stay inside the state and the caller's buffers",
     "Every C implementation of the permutation interface accesses exactly the state bytes and caller bytes designated by its offset, length and lane-count arguments, for all arguments within the interface's documented limits, and its block-processing loops stop before the remaining input is shorter than one block. This includes implementations no default target selects.",
     ["inputs", "configurations"], "every offset/length/lane count allowed by the interface documentation, every C implementation and unrolling variant in the build description",
     "Low-level tests run only the implementations of the built targets, with in-bounds arenas that hide overreads.",
     ["lib/low", "doc/SnP-documentation.h", "doc/PlSnP-documentation.h"], [("offset/length splitting into partial lanes", "lib/low/common/SnP-Relaned.h and each implementation")])
prop("P04", "The capacity part of the state is never exposed or overwritten",
     "No high-level sponge or duplex function reads state bytes beyond the rate into an output, or adds or overwrites input there, other than the prescribed padding and mode bits. This holds for every rate and every sequence of calls.",
     ["inputs", "histories"], "every accepted rate, every call sequence and length",
     "A leak of capacity bytes needs a particular index/length combination and yields plausible-looking output.",
     [SP, "lib/high/Keccak/KeccakDuplex.inc", "lib/high/Keccak/PRG/KeccakPRG.inc", "lib/high/Xoodyak/Cyclist.inc"], [("outputs limited to the rate", SP), ("rate checks of the duplex", "lib/high/Keccak/KeccakDuplex.inc")])
prop("P05", "Calls out of phase are refused without any effect",
     "In every mode with phases, an input call made after output has begun, or an output call made before the input was finalized where finalization is required, returns an error and leaves the instance and the output buffer unchanged; likewise after the object has reached its final phase.",
     ["histories"], "every history of calls on one object", "The tests call functions in the right order; error paths and their absence of side effects are hardly exercised.",
     [SP, "lib/high/Keccak/SP800-185/SP800-185.inc", "lib/high/KangarooTwelve/KangarooTwelve.c", "lib/high/TurboSHAKE/TurboSHAKE.c", "lib/high/Kravatte/Kravatte.c", "lib/high/Xoofff/Xoofff.c"],
     [("phase / squeezing fields", "lib/high/common/Phases.h"), ("phase checks on entry", "each Update/Final/Squeeze")])
prop("P06", "Invalid parameters are refused exactly, without any effect",
     "Functions that document a valid range for rate, capacity, suffix, sizes or lengths return success for every value in the range (given successful callees) and an error for every value outside it. A refused call changes neither the instance nor any output buffer.",
     ["inputs"], "all values of all scalar parameters", "Tests try a handful of valid values and almost no invalid ones.",
     [SP, "lib/high/Keccak/KeccakDuplex.inc", "lib/high/Keccak/PRG/KeccakPRG.inc", "lib/high/Keccak/FIPS202/KeccakHash.c", "lib/high/Keccak/SP800-185/SP800-185.inc", "lib/high/KangarooTwelve/KangarooTwelve.c"],
     [("range checks at entry", "Initialize functions and one-shot functions")])
prop("P07", "Unverified plaintext is never released",
     "The Unwrap functions of SANE and SANSE and the WBC-AE deciphering functions (on Kravatte and on Xoofff) return success only if every byte of the tag computed with the full tag length (for WBC-AE: every byte of the redundancy) compared equal to the one received. When it does not compare equal, they return an error and every plaintext byte they wrote has been cleared.",
     ["inputs", "histories"], "all plaintext, associated-data and tag lengths and values, every session history", "Tests check only that correct ciphertexts decrypt; forged tags differing in one chosen byte and the state of the buffer afterwards are not checked.",
     ["lib/high/Kravatte/KravatteModes.c", "lib/high/Xoofff/XoofffModes.c"], [("tag comparison and wipe", "SANE/SANSE Unwrap, WBC-AE Decipher")])
prop("P22", "SANE and SANSE process exactly the prescribed strings and sessions",
     "In the SANE and SANSE modes on Kravatte and on Xoofff, initialization compresses exactly the key and (for SANE) the nonce; each wrap or unwrap call then compresses exactly the strings its specification prescribes (associated data, ciphertext or plaintext with their domain bits and the alternating session bit), each once, complete and in the prescribed order, omitting exactly those the specification omits; tag and key stream come from the history prescribed for them, at the prescribed output offset, with the full tag length. Wrapping and unwrapping the same messages leave equal histories, so a session of any length stays in step.",
     ["inputs", "histories"], "all sessions of wrap and unwrap calls, all bit lengths of plaintext and associated data including empty ones", "The test vectors fold a fixed set of lengths into one checksum with fresh sessions of a few messages; the combination of empty and non-empty strings over long sessions and bit lengths is sampled.",
     ["lib/high/Kravatte/KravatteModes.c", "lib/high/Xoofff/XoofffModes.c"], [("string sequence of Initialize, Wrap and Unwrap", "SANE and SANSE functions"), ("session bit", "the member e")],
     [("e", "session bit, alternating per message", "KravatteModes.h, XoofffModes.h")])
prop("P08", "A failure of an inner step is always reported",
     "Whenever a status-returning function of the library (sponge, duplex, TurboSHAKE or Farfalle functions) that a function of a layer above (FIPS 202 hashing, SP 800-185, KangarooTwelve, the PRG, the Kravatte and Xoofff modes) relies on reports failure, the calling function reports failure to its own caller as well; success is never returned after an inner failure.",
     ["fault_sequences", "inputs"], "every call to a status-returning library function from a status-returning library function", "Inner failures do not occur in tests.",
     ["lib/high"], [("return-code propagation", "every caller of a status-returning function")])
prop("P09", "Each function uses its own fixed rate, capacity, suffix and domain separators",
     "Every named function uses the rate, capacity, output length, domain-separation suffix and framing constants that its standard assigns to it, on every path including parallel ones; two different functions never present the same suffix with the same rate unless the standard says so.",
     ["inputs", "configurations"], "all paths of all named functions in all configurations", "Known-answer tests reach one path of each function with a few lengths on few configurations.",
     ["lib/high/Keccak/FIPS202", "lib/high/Keccak/SP800-185", "lib/high/KangarooTwelve/KangarooTwelve.c", "lib/high/TurboSHAKE"], [("initialization constants", "the one-shot and Initialize functions")])
prop("P10", "Every permutation call uses the mandated number of rounds",
     "Each mode invokes the permutation with the number of rounds its specification mandates (24 for Keccak functions, 12 for TurboSHAKE and KangarooTwelve, 6 for Kravatte and Xoofff, 12 for Xoodyak), on serial, fast-loop and parallel paths of every configuration. (What the low-level permutation entry points do with the number they are given or named for is outside this property.)",
     ["configurations", "inputs"], "every mode, path, configuration and implementation", "Tests run few configurations and sizes; parallel and fast paths are only entered for some lengths.",
     ["lib/high"], [("round-specific entry points", "SnP and PlSnP headers")])
prop("P11", "No branch, address or length depends on secret data in C code",
     "In the portable and SIMD C code of the library, control flow, memory addresses, copy lengths and variable-time operations depend only on lengths, parameters and public control state, never on the contents of messages, keys, outputs, tags or permutation states. The single accept/reject decision of authenticated decryption is the only exception, and the comparison leading to it takes constant time.",
     ["inputs", "configurations"], "all data values, all C implementations", "Timing behaviour is not tested at all.",
     ["lib/high", "lib/low"], [("bitslice-style permutation code, mask arithmetic", "lib/low"), ("constant-time tag comparison", "lib/high/Kravatte/KravatteModes.c, lib/high/Xoofff/XoofffModes.c")])
prop("P12", "The library keeps no hidden state and has no side effects",
     "Apart from the objects passed by the caller, library functions write no memory that outlives the call: no writable static data, no heap, no files, no environment, so that operations on distinct objects never influence each other, in any order or concurrency. The intermediate-value tracing build of the reference code is excepted.",
     ["schedules", "histories", "configurations"], "all interleavings of operations on distinct objects, all C and assembly implementations", "Tests are single-threaded and use one object at a time.",
     ["lib"], [("all working storage in instances or on the stack", "lib")])
prop("P13", "Read-only inputs are never modified and no caller pointer is retained",
     "Memory passed through a read-only pointer parameter is never written, not even temporarily, and no function keeps a caller's pointer beyond its return.",
     ["inputs", "schedules"], "every call of every C function with a read-only parameter", "Tests do not compare inputs after the call; a temporary write that is undone is invisible to any test but breaks shared or read-only buffers.",
     ["lib"], [("const-qualified parameters", "all public headers")])
prop("P18", "Xoodyak performs exactly the prescribed Up and Down steps",
     "Every Xoodyak operation, in hash and in keyed mode and at any point of a session, is the sequence of steps its specification prescribes: absorbed data enter in blocks of the absorb rate, each padded once directly after the block, the first under the operation's colour and the others under colour zero; the key block is key, identifier and identifier length; the counter follows one byte per block; squeezing, encryption and decryption take at most the rate from the start of the state after each permutation, under their own colours; encryption and decryption put the plaintext of each block into the state; the ratchet puts the bytes it squeezed back. A permutation is made exactly between blocks and where two steps of the same kind would meet.",
     ["inputs", "histories", "configurations"], "all sequences of operations with all lengths (key and identifier of at most 43 bytes together, as documented), block-at-a-time and full-block code paths",
     "Tests use a fixed scenario per test vector; lengths at block boundaries combined with the state left by the previous operation are not all reached.",
     ["lib/high/Xoodyak/Cyclist.inc", "lib/high/Xoodyak/Xoodyak.c", "lib/low/Xoodoo/plain/Xoodyak-full-blocks.c"], [("Up/Down bookkeeping (phase, colours)", "lib/high/Xoodyak/Cyclist.inc"), ("full-block loops", "lib/low/Xoodoo/*/Xoodyak-full-blocks.c")],
     [("phase", "whether the last step was Up or Down", "lib/high/Xoodyak/Cyclist.h")])
prop("P15", "Farfalle masks, permutes and accumulates every block exactly once, in order",
     "In Kravatte and Xoofff every block of input, whether taken one at a time or in groups of any available parallelism, is masked with its own roll of the mask, permuted once and added once to the accumulator, the mask being rolled once per block and once more where a string ends; the last block is padded with exactly one bit after its last bit. Every block of output is derived once, in order, from its own roll of the output state, masked with the mask of the whole input; the last one is truncated to the requested number of bits. This holds for every division of input and output over calls and for every combination of parallel and fast-loop code.",
     ["inputs", "histories", "configurations"], "all keys, strings and output lengths in bits, all splits and flags, serial, n-way and fast-loop paths", "Tests use some pseudo-random lengths on the parallelism of the built target; the coincidence of a partly filled queue with the 16-, 8-, 4- and 2-way loops, and splits inside a group, are not all reached.",
     ["lib/high/Kravatte/Kravatte.c", "lib/high/Xoofff/Xoofff.c"], [("queue, roll and accumulator bookkeeping", "Kra, Vatte; Xoofff_Compress, Xoofff_Expand"), ("parallel group loops", "the *_CompressBlocks and *_ExpandBlocks macros and functions")],
     [("queueOffset, queueOffsetOut/queueIndex", "bits queued of the current block", "lib/high/Kravatte/Kravatte.h, lib/high/Xoofff/Xoofff.h")])
S185 = "lib/high/Keccak/SP800-185/SP800-185.inc"; K12 = "lib/high/KangarooTwelve/KangarooTwelve.c"
prop("P14", "Framing around the message follows the prescribed encodings",
     "cSHAKE, KMAC, TupleHash, ParallelHash (SP 800-185) and KangarooTwelve feed to their sponges exactly the prescribed byte sequence around the message: left_encode and right_encode with the shortest big-endian length (at least one byte in SP 800-185), encode_string, bytepad with zeros up to the block boundary and nothing when already there, the function name, the customization string, the number of blocks or chunks and the requested output length, each once and in the prescribed order, for every length. Distinct tuples of inputs therefore never share an encoding.",
     ["inputs", "histories"], "all key, name, customization, block, input and output lengths", "Tests use lengths up to a few thousand bits: values with three or more length bytes, and padding that ends exactly at a block boundary, do not occur.",
     [S185, K12], [("left_encode/right_encode", S185), ("bytepad", S185 + " Initialize functions")])
prop("P17", "Tree hashing cuts the input into leaves correctly on every path",
     "ParallelHash and KangarooTwelve turn each consecutive block (chunk) of the input into exactly one leaf, in order: a leaf is closed exactly when its block is complete or, for the last one, at finalization; every leaf gets its whole block, its own suffix and padding, and yields one chaining value of the capacity's length, absorbed by the final node in block order, and the encoded number of leaves equals their number. This holds for any division of the input over calls and for every available degree of parallelism.",
     ["inputs", "histories", "configurations"], "all input lengths and splits into updates, all block lengths, all combinations of parallel permutations", "Tests use few blocks and the parallelism of the built target; the interplay between a partly filled queue and the 8-, 4- and 2-way loops depends on lengths they do not reach.",
     [S185, K12], [("queue of the last incomplete leaf, parallel loops", S185 + " ParallelHash_Update"), ("chunk queue", K12)])
prop("P20", "Bits beyond a stated bit length play no role",
     "Functions that take lengths in bits ignore the unused bits of the last byte of an input (message, key, customization) and clear the unused bits of the last byte of an output, for every length.",
     ["inputs"], "every bit length and every value of the unused bits", "Tests pass buffers whose unused bits are zero, or compare whole bytes only.",
     [S185, "lib/high/Keccak/FIPS202/KeccakHash.c", "lib/high/Kravatte/Kravatte.c", "lib/high/Xoofff/Xoofff.c"], [("masking of the last byte", "Update, Final and Squeeze functions")])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
