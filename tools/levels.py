T = "symbolic execution of the real code's LLVM IR; equivalence to a specification discharged by term normalisation and Z3, counterexamples replayed natively"
K = "Decided for every value of the inputs and random bytes, in every listed configuration; hashes are uninterpreted here (decided by C12/C13). Trusts clang's front end, the engine's term rewriting (128-bit hashed polynomial identity) and the written specification."
NOTES = {
 "C01": (T, K), "C02": (T, K), "C03": (T, K), "C04": (T, K), "C05": (T, K),
 "C12": (T, "Message contents symbolic; every message length up to 1499 (x4: 1199) and output length up to 999 plus the KEMs' own lengths, with the permutation uninterpreted; the real 24-round permutation is decided separately at a three-block length. Cortex-M0: lengths up to 1399, with the permutation uninterpreted in its split-lane form; its assembly is decided for all states, step by step, against the standard round through the split-lane correspondence. Lengths beyond are outside the bound."),
 "C06": (T, "Decided for all inputs, with both key formats, with the hashes of pqm4 uninterpreted and the multiplier replaced by its contract (right modulo 2^13, higher bits arbitrary, second operand destroyed), which C07 decides."),
  "C07": (T, "All operand pairs in the range the KEM uses; the machine code is decoded from the assembled object and interpreted instruction by instruction by the engine. The Toom-Cook variant that nothing calls (toom_cook_4way_striding_asm) is outside."),
 "C08": (T, "Decided for all inputs and random bytes in the one Cortex-M0 configuration (Saber, compressed keys), compiled for the target; its sponge code runs for real with the permutation uninterpreted (the assembly permutation is decided in C12), the message decoder is replaced by its contract, decided for all values in its own job."),
 "C09": (T, "All 16-bit values of the second operand and of the accumulator, all 16-bit (AVX2: 13-bit) values of the first; results modulo 2^13, the largest modulus in use. Single products, inner products and matrix products in both orders; the AVX2 code after whatever constants a key generation sets up. Quick covers every distinct source file, thorough every configuration."),
 "C10": (T, "All coefficient values and all byte strings; every packing function of every copy of the code."),
 "C11": (T, "All byte strings and all seeds, hash outputs uninterpreted; the Cortex-M0 partial sampler for the listed splits and its block-wise secret generation."),
 "C13": (T, "All keys and nonces, all S-box inputs, all block functions' states and messages; SHA-2 for every length from 0 to 599 with the compression function uninterpreted plus the full compression functions; AES-CTR for the listed lengths and, in the AVX2 code, all 128-bit counters."),
 "C14": ("taint and branch/address feasibility over symbolic paths of the real code's LLVM IR (and of the Cortex-M machine code), feasibility by Z3, confirmed natively under valgrind", "All inputs of the three calls are secret (the AES nonce is not); a branch or an address that depends on them is reported when a run of the compiled code confirms it. Source-level constant time as compiled by clang -O1; branches that a compiler could add or remove, and instruction timing, are outside."),
 "C15": ("memory model of the symbolic executor over the real code's LLVM IR: every access on every path checked against object bounds, alignment, constness and initialisation, conditions decided by Z3 and confirmed natively (ASan, alignment fault, valgrind)", "All inputs of the three calls and of the listed parts, each buffer exactly as long as documented; heap and stack objects only, alignment as the compiled code needs it."),
 "C16": ("self-composition by symbolic execution: the calls before and after every written static object is given arbitrary contents, equality discharged by term normalisation and Z3, counterexamples replayed as call sequences", "All arguments and random bytes, all contents of static storage the code itself writes; one thread. Hashes are functions (real or uninterpreted by configuration)."),
 "C17": (T, "All contents; the listed lengths between 0 and 1472."),
 "C20": (T, "All generator words; the listed request lengths up to 255 (quick) and all up to 299 plus some to 1000 (thorough); the hardware data register is replaced by a source of unknown 16-bit words. Which output byte is which generator byte is found by term identity and then checked."),
}
NA = {}
