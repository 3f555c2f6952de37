"""The properties, and the files generated from them: properties.jsonl and MANIFEST.json.

    python3 harness/catalog.py
"""

import ast
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parents[1]
PROPS = {}


def prop(pid, title, statement, over, quant, why, files, mech, technique, note):
    PROPS[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why,
                      files=files, mech=mech, technique=technique, note=note)


SRC = "randomgen/src/"
NOTE = "Generated-input exploration: no violation among the cases the evidence file counts. "

prop("C01", "Cipher and counter based generators compute the published algorithms",
     "For every key, counter and number of rounds the user can choose, AESCounter, ChaCha, SPECK128, "
     "Philox, ThreeFry, HC128 and Squares emit exactly the stream their published algorithm defines, "
     "at every position of the stream (counter wrap-around included) and for every mix of raw, "
     "32-bit, 64-bit and double outputs. A 32-bit output of a 64-bit generator is the low half of one "
     "native output and then its high half; a double is the top 53 bits scaled by 2**-53.",
     ["inputs", "configurations", "histories"],
     "every key, counter, variant/width/rounds and every sequence of draws",
     "The tests compare a handful of streams with stored files, from counter 0 or a few seeds; they "
     "reach no counter carry, wrap-around or mixed half-word use.",
     ["randomgen/aes.pyx", "randomgen/chacha.pyx", "randomgen/speck128.pyx", "randomgen/philox.pyx",
      "randomgen/threefry.pyx", "randomgen/hc128.pyx", "randomgen/squares.pyx"],
     [("block functions and counters", SRC + "{aesctr,chacha,speck-128,philox,threefry,hc-128,squares}")],
     "differential fuzzing against independent reference models",
     NOTE + "The models were written from the papers in Python and share no code with the library.")

prop("C02", "Recurrence generators follow their published recurrences from any state",
     "From every state that can be reached or set, PCG64, PCG64DXSM, LCG128Mix, PCG32, Xoroshiro128, "
     "Xoshiro256, Xoshiro512, Xorshift1024, LXM, SFC64, JSF, Romu, Tyche, EFIIX64, MT19937, MT64, SFMT "
     "and DSFMT emit exactly the stream their published recurrence and output function define, in "
     "every variant and parameterisation (JSF's listed ones are those published), with LCG128Mix also through a user's output "
     "function. This holds at every position of internal blocks, for every mix of raw, 32-bit, 64-bit and double outputs, with a 32-bit output of a 64-bit generator being "
     "the low half and then the high half of one native output, and a double made of 53 bits of one "
     "64-bit or two 32-bit native outputs, the first being the more significant (DSFMT: its native "
     "double minus one).",
     ["inputs", "configurations", "histories"],
     "every state (crafted or reached), variant and sequence of draws",
     "Stored streams cover two seeds and one variant mostly; extreme words, pending halves, block "
     "boundaries and mixed draws are sampled once or never.",
     ["randomgen/" + f for f in
      "pcg64.pyx lcg128mix.pyx pcg32.pyx xoroshiro128.pyx xoshiro256.pyx xoshiro512.pyx "
      "xorshift1024.pyx lxm.pyx sfc.pyx jsf.pyx romu.pyx tyche.pyx efiix64.pyx mt19937.pyx mt64.pyx "
      "sfmt.pyx dsfmt.pyx".split()],
     [("transition and output functions", SRC)],
     "differential fuzzing against independent reference models",
     NOTE + "The models were written from the papers in Python and share no code with the library.")

prop("C03", "Seeding is the documented construction and forgets the past",
     "Constructing a generator from an integer, a sequence of integers, a SeedSequence (numpy's or "
     "randomgen's) or a key and counter yields the state documented for that entropy, whatever the "
     "spelling (Python or numpy integer, list, tuple, array of any layout), and equal entropy always "
     "yields equal streams. Calling seed() on a used instance, in whatever state and after whatever "
     "history, gives exactly the stream of a newly constructed instance with the same arguments: "
     "nothing of the past survives (buffered words, positions, pending halves, changed variants apart "
     "where documented).",
     ["inputs", "configurations", "histories"],
     "every seed, key, counter, spelling and constructor option; every history before re-seeding",
     "Tests seed with a few small integers on new instances; leftovers show only after particular "
     "histories, and spellings differ only for values above 2**63 or strided arrays.",
     ["randomgen/common.pyx", "randomgen/seed_sequence.py", "randomgen/_seed_sequence.pyx"],
     [("_seed_with_seed_sequence, seed()", "randomgen/common.pyx and each generator"),
      ("int_to_array/object_to_int", "randomgen/common.pyx")],
     "model-based property testing of construction and re-seeding histories",
     NOTE + "Trusts numpy's SeedSequence, the construction randomgen documents.")

prop("C04", "numpy-compatible modes reproduce numpy's generators",
     "MT19937, PCG64 (variant xsl-rr), Philox (4x64) and SFC64 built with numpy_seed=True from any "
     "seed or SeedSequence, Philox built from any key and counter, and PCG64, PCG64DXSM, MT19937, "
     "Philox and SFC64 loaded with the inner state of numpy's generator, produce exactly the streams "
     "of the numpy bit generator of the same algorithm. The agreement persists through any mix of "
     "raw, 32-bit, 64-bit and double draws and any numpy Generator method on top, through non-zero "
     "advances (PCG64, Philox), through jumped (MT19937, Philox), and through re-seeding.",
     ["inputs", "histories"],
     "every seed and every history of draws and repositionings",
     "Tests compare a few integer seeds and only from a new instance.",
     ["randomgen/mt19937.pyx", "randomgen/pcg64.pyx", "randomgen/philox.pyx", "randomgen/sfc.pyx"],
     [("numpy_seed branches", "randomgen/{mt19937,pcg64,philox,sfc}.pyx")],
     "differential fuzzing against numpy.random",
     NOTE + "Trusts the installed numpy.")

prop("C05", "State round trip: a captured state resumes the exact stream anywhere",
     "Reading state never changes the generator, and assigning a state captured at any moment - with "
     "a pending 32-bit half, in the middle of a block, next to a counter wrap - to any instance of "
     "the class, whatever its own seed, configuration and history, makes it produce exactly the "
     "remaining stream of the original through every interface. The value read back equals the value "
     "assigned, and equivalent spellings (short class name, lists or strided arrays instead of "
     "arrays, a pickled or JSON copy, or one without the variant that older releases did not name) are "
     "accepted alike.",
     ["histories", "configurations", "inputs"],
     "every history before capture, every target instance, every legal state",
     "Tests capture from new instances or after one draw and restore into a twin with the same "
     "configuration.",
     ["randomgen/common.pyx"] + ["randomgen/*.pyx"],
     [("state property of each generator", "randomgen/*.pyx")],
     "stateful property testing (metamorphic: resume against original)",
     NOTE + "A capture is compared over several hundred outputs of every kind after it.")

prop("C06", "Pickles and copies are exact and independent",
     "Pickling with any protocol, copy.copy and copy.deepcopy of a bit generator yield an instance of "
     "the same class with the same state, the same seed sequence and the same future stream, for any "
     "configuration and history. Original and copy are independent: draws, advances or re-seeding of "
     "one never influence the other.",
     ["histories", "configurations"],
     "every history, configuration and way of copying",
     "Tests pickle new instances with the default protocol and default configuration.",
     ["randomgen/common.pyx", "randomgen/_pickle.py"],
     [("__reduce__, __getstate__, __setstate__", "randomgen/common.pyx, randomgen/_pickle.py")],
     "stateful property testing",
     NOTE + "The futures are compared over several hundred outputs.")

prop("C07", "advance(n) lands exactly n steps along the stream",
     "For every bit generator offering advance, advance(n) moves the stream exactly as producing n "
     "outputs does, n counting the unit the method documents (native outputs; whole counter blocks "
     "for Philox and ThreeFry unless counter=False), from every state including mid-block, "
     "pending half words (which are dropped) and counters about to wrap. advance(a) then advance(b) "
     "equals advance(a+b), a negative step undoes the positive one, steps are taken modulo the "
     "period, and steps of 2**64 and beyond are not truncated.",
     ["inputs", "histories"],
     "every step (any size and sign) from every reachable state",
     "Tests advance by a few constants from a new instance.",
     ["randomgen/pcg64.pyx", "randomgen/pcg32.pyx", "randomgen/lcg128mix.pyx", "randomgen/aes.pyx",
      "randomgen/speck128.pyx", "randomgen/philox.pyx", "randomgen/threefry.pyx",
      "randomgen/squares.pyx"],
     [("advance", "randomgen/{pcg64,pcg32,lcg128mix,aes,speck128,philox,threefry,squares}.pyx"),
      ("LCG jump-ahead and counter additions", SRC)],
     "differential fuzzing against arithmetic models; metamorphic laws",
     NOTE + "Small steps are also compared with drawing; the models move counters arithmetically.")

prop("C08", "jumped and jump land exactly the documented distance ahead",
     "jumped(k) returns a new instance whose stream starts exactly k times the documented distance "
     "further along, from every state, and leaves the original untouched; jump(k) does the same in "
     "place. jumped(a) followed by jumped(b) equals jumped(a+b), pending half words are dropped, and "
     "the class, seed sequence and configuration (variant, rounds, multiplier) of the original are "
     "kept.",
     ["inputs", "histories", "configurations"],
     "every jump count from every reachable state of every generator with jumps",
     "No test can draw 2**64 or more values; the tests compare with stored states of one seed.",
     ["randomgen/common.pyx"] + ["randomgen/src/" + d for d in
      ("xoroshiro128", "xoshiro256", "xoshiro512", "xorshift1024", "mt19937", "sfmt", "dsfmt", "lxm")],
     [("jump, jumped, jump_inplace", "randomgen/*.pyx"), ("jump polynomials", SRC)],
     "differential fuzzing against polynomial/arithmetic jump models",
     NOTE + "Linear generators are jumped in the model with characteristic polynomials obtained by "
     "Berlekamp-Massey from the generators' own recurrences. MT19937's block-mode outputs are a known "
     "finding: for it the check compares the state window.")

prop("C09", "Hardware acceleration is unobservable",
     "AESCounter, SPECK128 and ChaCha produce the same stream, states and advances with the "
     "accelerated implementation (use_aesni, use_sse41, use_simd) enabled or disabled. Switching it "
     "at any moment - in the middle of a block, with a pending half word, next to a counter carry, "
     "or between capturing and restoring a state - does not change a single later output.",
     ["histories", "configurations"],
     "every interleaving of draws, state round trips, advances and switches",
     "Tests switch once between two complete streams from the start.",
     ["randomgen/aes.pyx", "randomgen/speck128.pyx", "randomgen/chacha.pyx"],
     [("use_aesni/use_sse41/use_simd", "randomgen/{aes,speck128,chacha}.pyx"),
      ("SIMD block functions", SRC + "{aesctr,speck-128,chacha}")],
     "stateful differential fuzzing against single-implementation models",
     NOTE + "On a CPU without a feature only the portable implementation can be checked.")

prop("C10", "One stream behind every interface",
     "The ctypes and cffi function tables, random_raw, a numpy Generator and an ExtendedGenerator built "
     "on the same bit generator all consume one common stream: any interleaving of 32-bit, 64-bit, "
     "double, float, byte and raw requests through any of them gives what the same requests would "
     "give through a single interface. Function tables obtained from ctypes and cffi before a state is "
     "assigned go on with the assigned stream.",
     ["histories", "configurations"],
     "every interleaving of requests over interfaces, for every generator",
     "Tests use one interface at a time.",
     ["randomgen/common.pyx", "randomgen/generator.pyx"],
     [("prepare_ctypes, prepare_cffi, capsule", "randomgen/common.pyx")],
     "stateful model-based property testing",
     NOTE + "The oracle is the reference model of C01/C02.")

prop("C11", "random_raw serves the stream in any shape and chunking",
     "random_raw(size) returns the next prod(size) native outputs in C order as unsigned 64-bit values "
     "of shape size - an int scalar for None, an empty array for zero - and with output=False returns "
     "None and skips exactly as many. Any partition of a stretch of the stream into calls of any "
     "sizes gives the same values and the same final state as one call.",
     ["inputs", "histories"],
     "every partition of the stream, size form and state",
     "Tests call it with a handful of sizes and never compare chunkings or skipping.",
     ["randomgen/common.pyx"],
     [("random_raw", "randomgen/common.pyx")],
     "metamorphic property testing (partition against a single call)",
     NOTE)


prop("C12", "Invalid arguments are rejected without side effects",
     "Seeds that are negative, fractional or not numbers, keys and counters that are negative, too "
     "wide, fractional or of the wrong length, a seed together with a key (Squares apart) or a "
     "counter with a seed, undocumented values of constructor options (rounds, variant, width, "
     "number, size, shifts, idx, increments, multipliers, output, post, numpy_seed combinations), and states that "
     "are not dicts, name another generator or hold too short arrays are rejected with TypeError or "
     "ValueError (short arrays: or IndexError) - never accepted, truncated, or answered by a crash. A "
     "rejected seed() call, and a state that is no dict or another generator's, leaves the generator "
     "exactly as it was: same state, same future stream.",
     ["inputs", "configurations", "histories"],
     "every invalid value of every constructor, seed and state argument, after every history",
     "Tests try a few invalid values of each argument and never compare the state before and after.",
     ["randomgen/common.pyx", "randomgen/*.pyx"],
     [("argument checks, int_to_array, object_to_int", "randomgen/common.pyx and each generator")],
     "property-based fuzzing of invalid inputs with a before/after state oracle",
     NOTE)

prop("C13", "Instances are isolated from each other",
     "Generators share no mutable state: any interleaving (across threads too, each using its "
     "own instances) of draws, advances, jumps, state "
     "assignments, re-seedings, creation and destruction over any set of live instances, of one or of "
     "several classes and variants, gives each instance exactly what the same operations on it alone "
     "give.",
     ["histories", "schedules"],
     "every interleaving over every set of instances",
     "Tests use one or two instances and never interleave them.",
     ["randomgen/*.pyx", "randomgen/src/*"],
     [("module level and static data of the C sources", SRC), ("create, seed, state", "randomgen/*.pyx")],
     "stateful property testing (interleaved and concurrent against isolated runs)",
     NOTE)

prop("C14", "SeedSequence equals numpy's for all entropy and spawning histories",
     "randomgen._seed_sequence.SeedSequence produces the same generate_state words (uint32 and uint64, "
     "any count), pools, spawn keys and children as numpy.random.SeedSequence for every entropy "
     "(integers of any size, nested sequences, arrays of any integer type, decimal and hexadecimal "
     "strings), spawn key, pool size and history of generate_state and spawn calls; the state "
     "attribute rebuilds an equal sequence. Children at any depth have pairwise different spawn keys "
     "and states. Negative or fractional entropy, malformed strings and pool sizes below 4 are "
     "rejected.",
     ["inputs", "histories"],
     "every entropy, spawn key, pool size and spawning history",
     "Tests compare with a few stored vectors of the reference implementation.",
     ["randomgen/_seed_sequence.pyx"],
     [("mix_entropy, generate_state, spawn, coerce_to_uint32_array", "randomgen/_seed_sequence.pyx")],
     "differential stateful testing against numpy.random.SeedSequence",
     NOTE + "Trusts the installed numpy.")


prop("C15", "Seed expansion and system entropy are exact, also under faults",
     "seed_by_array(seed, n) returns the words of the SplitMix64 chain - state x = 0; at step i of "
     "max(n, len(seed)) steps x ^= seed[i] (while there are seed words), and word i mod n of the output "
     "becomes the next SplitMix64 output - for every seed of integers in [0, 2**64) in any spelling, and "
     "rejects negative, too large, fractional, two-dimensional and non-numeric seeds. "
     "random_entropy(size, source) returns an int for size None and a uint32 array of shape size "
     "otherwise, filled completely with fresh values of the operating system also when its reads are "
     "interrupted by signals; when the system source cannot be opened, 'system' raises RuntimeError and "
     "'auto' warns with RuntimeWarning and uses the fallback. No file descriptor leaks; invalid sizes "
     "and sources raise TypeError or ValueError.",
     ["inputs", "fault_sequences"],
     "every seed, length, size and source; every pattern of interrupted or refused system reads",
     "Tests ask for a few sizes, check types only and inject no faults; seed_by_array is tested through "
     "stored streams of single seeds.",
     ["randomgen/entropy.pyx", "randomgen/src/entropy/entropy.c", "randomgen/src/splitmix64/splitmix64.c"],
     [("seed_by_array, random_entropy", "randomgen/entropy.pyx"),
      ("entropy_getbytes, entropy_fallback_getbytes", "randomgen/src/entropy/entropy.c")],
     "differential fuzzing against a model; fault injection (signals, descriptor limits)",
     NOTE + "Freshness of entropy is checked by absence of repeats, not statistically.")

prop("C16", "UserBitGenerator turns user functions into every output",
     "A UserBitGenerator over a Python next_raw serves through every interface (random_raw, ctypes, cffi, "
     "numpy Generator, ExtendedGenerator) exactly these outputs: with bits=64 a 64-bit value is one raw "
     "output, a 32-bit value its high half and a double its top 53 bits times 2**-53; with bits=32 a "
     "32-bit value is one raw output, a 64-bit value the first output as high and the second as low "
     "half, and a double ((a>>5)*2**26 + (b>>6))*2**-53. Functions given explicitly for 64-bit, 32-bit or "
     "double outputs are used instead of derived ones, each output calling its function the stated "
     "number of times with the address given as state; state reads and writes go through the hooks given "
     "and raise NotImplementedError without; from_ctypes and from_cfunc use the "
     "functions given in the same way. Functions of wrong types and bits other than 32 and 64 are rejected.",
     ["inputs", "configurations", "histories"],
     "every raw word, word size, subset of explicit functions and sequence of requests",
     "Tests wrap one generator and compare a few values; no extreme words, no mixed requests.",
     ["randomgen/wrapper.pyx"],
     [("UserBitGenerator, from_ctypes, from_cfunc", "randomgen/wrapper.pyx")],
     "model-based property testing with generated word sources",
     NOTE)

prop("C17", "ExtendedGenerator.random and uintegers take every value from the stream in order",
     "For every bit generator and state, random() returns the stream's next doubles for float64, "
     "(u >> 9) * 2**-23 of the next 32-bit outputs for float32 and u * 2**-64 of the next 64-bit outputs "
     "for long double; uintegers returns the next 32- or 64-bit outputs. A call of any size takes "
     "exactly as many outputs as values it returns, in C order, so splitting a call into several changes "
     "nothing; out arrays are filled in memory order (C or Fortran) and returned themselves. Invalid "
     "out arrays (type, layout, byte order, writability, shape), sizes, dtypes and bits are rejected "
     "with TypeError or ValueError without touching the array or moving the generator.",
     ["inputs", "configurations", "histories"],
     "every size, dtype, output array and state",
     "Tests check a few sizes for shape and range, not which stream outputs are used.",
     ["randomgen/generator.pyx", "randomgen/common.pyx", "randomgen/src/distributions/distributions.c"],
     [("random, uintegers", "randomgen/generator.pyx"),
      ("check_output, float_fill, double_fill, long_double_fill", "randomgen/common.pyx")],
     "differential property testing against single outputs of a twin",
     NOTE)

prop("C18", "multivariate_normal is an exact affine image of standard normals",
     "multivariate_normal(mean, cov, size, method=) returns mean + A z for consecutive blocks z of the "
     "standard normals a numpy Generator on the same stream draws, in C order over the samples, with one "
     "A per covariance such that A A' = cov (method 'factor': cov is A itself), for every dimension, "
     "leading shapes of mean and cov that broadcast, size and spelling. The result has shape "
     "size + (N,), size None meaning the broadcast leading shape; a size the parameters do not broadcast "
     "to is rejected. Covariances that are not positive semi-definite (by more than tol) are reported as check_valid asks "
     "(raise ValueError, warn with RuntimeWarning, ignore), cholesky raises LinAlgError for those not "
     "positive definite, and rejected calls draw nothing.",
     ["inputs", "configurations"],
     "every mean, covariance, leading shapes, size and method",
     "Tests compare moments of large samples for one or two matrices and shapes; a transposed factor, a "
     "permuted block or a wrong broadcast leaves them plausible.",
     ["randomgen/generator.pyx"],
     [("multivariate_normal", "randomgen/generator.pyx"), ("_factorize", "randomgen/generator.pyx")],
     "differential and metamorphic property testing (numpy normals of a twin)",
     NOTE + "Floating point comparisons allow rounding (1e-8 relative to the scale).")

prop("C19", "complex normals have the documented covariance structure exactly",
     "complex_normal(loc, gamma, relation, size) returns values with real part Re loc + sqrt(vr) z0 and "
     "imaginary part Im loc + sqrt(vi) (rho z0 + sqrt(1-rho**2) z1), (z0, z1) being consecutive standard "
     "normals of the stream in C order, vr = Re(gamma + relation)/2, vi = Re(gamma - relation)/2 and "
     "cov = Im(relation)/2 = rho sqrt(vr vi), for scalars and broadcasting arrays in any spelling. "
     "Parameters that are no covariance (variance negative, |rho| > 1, gamma not real) and sizes they do "
     "not broadcast to are rejected with ValueError. multivariate_complex_normal gives an exact linear "
     "image of the stream's normals whose real and imaginary parts have the covariance gamma and "
     "relation document, with the size semantics and checks of multivariate_normal.",
     ["inputs", "configurations"],
     "every location, covariance, relation (also on the edge of validity), shape and size",
     "Tests use two or three parameter sets and sample moments.",
     ["randomgen/generator.pyx"],
     [("complex_normal, multivariate_complex_normal", "randomgen/generator.pyx")],
     "differential property testing (documented construction on a twin's normals)",
     NOTE + "Floating point comparisons allow rounding.")

prop("C20", "Wishart draws are exact functions of the stream with the documented scale",
     "standard_wishart(df, dim, size, rescale) returns the Bartlett products T'T of the stream's draws - "
     "row by row sqrt(chi-square(df - i)) on the diagonal, then the row's normals - when df >= dim and "
     "N'N of df by dim normals when df < dim, divided by df when rescale. wishart(df, scale, size, "
     "method=, rank=) returns A W A' for the standard variates W (not rescaled unless asked) of the same "
     "stream with A A' = scale (method 'factor': scale is A), for scalar and array df and scale; array "
     "parameters use consecutive blocks of the stream per cell in C order, prod(size) draws each. "
     "Results are symmetric and positive semi-definite; singular scales give matrices in their range and "
     "of their rank, and invalid arguments are rejected before anything is drawn.",
     ["inputs", "configurations"],
     "every degrees of freedom, scale matrix, shape, size, method and rank",
     "Tests compare means of samples for a few diagonal or well conditioned scales, where transposed "
     "factors and permuted columns cannot be told apart.",
     ["randomgen/generator.pyx", "randomgen/src/distributions/distributions.c"],
     [("standard_wishart, wishart", "randomgen/generator.pyx"),
      ("random_wishart_large_df", "randomgen/src/distributions/distributions.c")],
     "differential property testing (Bartlett construction on a twin's draws)",
     NOTE + "Floating point comparisons allow rounding.")

prop("C21", "Squares keys and Weyl increments have the documented shape and values",
     "squares.generate_keys(seed, n, unique) returns n 64-bit keys made in order from the 64-bit word "
     "stream of the seed's SeedSequence, equal for equal seeds in any spelling and for any "
     "ISeedSequence, the first keys not depending on n; every key is odd, its low eight hexadecimal "
     "digits are distinct, its high eight digits are non-zero and each differs from the digit before "
     "it; unique=True gives the first n distinct keys of that stream; n below 1 is rejected. "
     "SFC64.weyl_increments(n, max_bits, min_bits) returns n distinct odd 64-bit values with min_bits to "
     "max_bits set bits, a function of the generator's state alone and advancing it, all values there "
     "are when n equals their number; it warns when n > 1 is at least half of them, and impossible n "
     "or bit ranges raise ValueError without drawing.",
     ["inputs", "histories"],
     "every seed, spelling, number of keys or increments, bit range and state",
     "Tests check stored values for a few seeds; rejection loops, exhausted buffers and duplicate "
     "handling need rare word patterns, which generated seed sequences provide.",
     ["randomgen/squares.pyx", "randomgen/sfc.pyx"],
     [("generate_keys", "randomgen/squares.pyx"), ("weyl_increments", "randomgen/sfc.pyx")],
     "model-based property testing with generated word streams",
     NOTE + "Sampling weights are compared exactly unless counts for 30-35 bits are involved (computed "
     "with wrap-around, pinned by tests).")

prop("C22", "Draws hold the lock: threads sharing a generator serialise",
     "Every output drawn by ExtendedGenerator's methods and by random_raw is drawn holding the bit "
     "generator's lock, in one uninterrupted stretch per call (wishart with array parameters: one per "
     "cell), and the lock is free afterwards, also after errors. Hence threads calling methods of one "
     "shared generator, or of several generators over one bit generator (numpy's generators included), "
     "obtain the results of some one-after-the-other order of the calls, no output lost or repeated, "
     "and leave the final state of that order; threads with generators of their own get exactly what "
     "they get alone.",
     ["schedules", "inputs", "histories"],
     "every set of threads, calls and interleavings",
     "The tests run threads with private generators only, and never look at the lock.",
     ["randomgen/generator.pyx", "randomgen/common.pyx"],
     [("with self.lock in every method", "randomgen/generator.pyx, randomgen/common.pyx")],
     "instrumented lock-held invariant over generated calls; linearizability testing of generated "
     "thread programs",
     NOTE + "Assigning state, jump, advance and seed take no lock and are not covered.")


prop("C23", "No input makes the library corrupt, leak or crash memory",
     "Whatever arguments, states (of wrong values, lengths, layouts and types too), operation orders and "
     "object lifetimes the public Python interfaces are given, the library reads and writes only inside its "
     "own live buffers, returns or raises a Python exception, and stays usable. Objects stay valid after "
     "those they were made from are dropped, and repeated operations, failing ones included, do not "
     "accumulate memory.",
     ["inputs", "histories"],
     "every argument, state and order of operations and of object destruction",
     "Tests pass well-formed values and are not run under a sanitizer; a read past a buffer returns a "
     "plausible number.",
     ["randomgen/*.pyx", "randomgen/src/*"],
     [("buffers, positions and array arguments", "randomgen/*.pyx"), ("C generators", SRC)],
     "sanitizer-instrumented property-based fuzzing",
     NOTE + "AddressSanitizer with bounds, object-size and null checks; reads of uninitialised memory and "
     "allocations above 512 MB (they fail there) are outside it, and so are ctypes and cffi pointers kept after their "
     "generator is gone (numpy's interfaces keep none alive either).")

prop("C24", "Extended generators are views of their bit generator, and persist with it",
     "Any number of ExtendedGenerators and numpy Generators on one bit generator draw from its one stream, "
     "wherever that was left by the others, by direct draws or by re-seeding, jumping or assigning states "
     "(of other variants too) through any of them. Pickling (any protocol), copying or deep-copying an "
     "ExtendedGenerator, or several that share, gives ones with the class, configuration, state and future "
     "of their bit generators and the same sharing, independent of the originals; names in older pickles "
     "resolve. Objects that are not bit generators and states of other classes are rejected.",
     ["histories", "inputs", "configurations"],
     "every bit generator, set of views, history and way of copying",
     "Tests pickle fresh generators of the default configuration and draw through one view.",
     ["randomgen/generator.pyx", "randomgen/_pickle.py", "randomgen/common.pyx"],
     [("ExtendedGenerator construction, state, __reduce__, __copy__", "randomgen/generator.pyx"),
      ("constructors used by pickles", "randomgen/_pickle.py")],
     "stateful property testing (long-lived views against fresh ones on a twin)",
     NOTE + "Pickles of UserBitGenerators are outside it. SFC64 re-seeded after a copy is outside it: w and k "
     "given as None are arguments of the constructor, not part of the state.")

prop("C25", "Broadcast sampling applies the sampler per element, or rejects",
     "The helpers that sample with array parameters (continuous, discrete and float32, none to three "
     "parameters) return, for parameters of any shapes that broadcast and in any spelling, the sampler's "
     "value for each element's parameters in a result of the requested (or else the broadcast) shape and "
     "type, sampled under one hold of the generator's lock, fill and return out when it is given, and give "
     "plain Python numbers for scalars alone. The "
     "same parameter constraints hold for scalars and arrays; a violated one, parameters that do not fit "
     "size or out, and unusable out arrays raise ValueError or TypeError and leave out alone. Integers "
     "and their little-endian 32- or 64-bit word arrays convert into each other without loss, "
     "out-of-range and fractional values being rejected.",
     ["inputs"],
     "every sampler shape, parameter shapes, values in and out of their domain, sizes and output arrays",
     "Tests fill arrays with one repeated value, so that elements in the wrong place, wrong strides and "
     "an ignored output array cannot show.",
     ["randomgen/broadcasting.pyx", "randomgen/common.pyx"],
     [("cont, disc, cont_f, check_output, check_constraint", "randomgen/broadcasting.pyx"),
      ("int_to_array, object_to_int", "randomgen/common.pyx")],
     "differential property testing against numpy broadcasting",
     NOTE + "The helpers are reached through the shims the library compiles for its own tests.")


prop("C26", "Every way of building the library gives the same results",
     "Generators have several implementations: with vector or AES instructions, 128-bit integers or "
     "assembly, and without. A build without any of them, an optimised build by another compiler "
     "and an unoptimised one with assertions produce, for every generator, state, seed, movement, "
     "history of draws and distribution, the results of the published algorithms as the usual build "
     "does: no result depends on how the library was compiled, and no assertion fails.",
     ["configurations", "inputs", "histories"],
     "every build configuration of the platform, times the cases of the other properties",
     "The tests run on the one build of the machine: the code selected on other platforms is "
     "compiled and run by none of them.",
     [SRC + "pcg64/pcg64-common.h", SRC + "philox/philox.h", SRC + "sfmt/sfmt.c", SRC + "dsfmt/dSFMT-common.h",
      SRC + "aesctr/aesctr.c", SRC + "chacha/chacha.h", SRC + "speck-128/speck-128.h", "setup.py"],
     [("alternative implementations chosen by macros", SRC)],
     "differential fuzzing of several builds against the reference models",
     NOTE + "Big-endian machines and MSVC intrinsics cannot be built here.")


prop("C27", "RDRAND hands out every hardware word once and reports failures",
     "Every output of RDRAND, through every interface and thread, is made of a word of the hardware that no "
     "other output of the process got: buffered words go out in order and once each (a 32-bit output being "
     "the low half of one, a double its top 53 bits), random_raw takes fresh ones, and copies, pickles, "
     "jumped and new instances share none while keeping the retries. A call during which the instruction "
     "fails raises RuntimeError whatever the process does with its output, success is False and random_raw "
     "raises from then on, the lock is free, and further calls go on without touching other memory. Seeds, "
     "negative retries and states that are not its own are rejected and change nothing.",
     ["histories", "fault_sequences", "inputs", "schedules"],
     "every history of draws, failures and copies of any number of instances, from any number of threads",
     "The tests draw once, and compare two instances: they never look at the order or at repeats, never draw "
     "on after a failure, and make it fail in a single method.",
     ["randomgen/rdrand.pyx", SRC + "rdrand/rdrand.h"],
     [("buffer of hardware words", "randomgen/rdrand.pyx"), ("lock that raises", "randomgen/rdrand.pyx")],
     "stateful testing against a model of the buffer, with injected failures",
     NOTE + "Needs a CPU with the instruction: without it, only that RDRAND says so.")


def main():
    have = [p for p in PROPS if (ROOT / "harness" / "props" / f"{p}.py").exists()]
    with open(ROOT / "properties.jsonl", "w") as f:
        for p in have:
            d = PROPS[p]
            assert len(d["title"]) <= 80, p
            f.write(json.dumps({
                "id": p, "title": d["title"], "statement": d["statement"],
                "quantifier": {"over": d["over"], "text": d["quant"]},
                "why_tests_cant": d["why"],
                "anchors": {"files": d["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in d["mech"]]},
            }) + "\n")
    man = {
        "version": 1, "setup_cmd": "./run.sh build",
        "checks": [{
            "property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
            "technique": PROPS[p]["technique"], "level": "exploration",
            "level_note": PROPS[p]["note"].strip()} for p in have],
        "not_applicable": [],
        "notes": "No hooks: everything is observed through the public interfaces. Checks build /repo's "
                 "current working tree into /verif/.build. Failing cases are saved under replays/ and "
                 "re-run with ./run.sh replay FILE.",
    }
    (ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
    design(have)
    print(len(have), "properties")


def design(have):
    """Fill the generated parts of DESIGN.md from DESIGN.in.md."""
    known = json.loads((ROOT / "known_findings.json").read_text())
    rows = []
    for p in have:
        d = PROPS[p]
        rule = ""
        src = (ROOT / "harness" / "props" / f"{p}.py").read_text()
        for node in ast.parse(src).body:
            if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "RULE":
                rule = ast.literal_eval(node.value)
        rows.append(f"### {p} {d['title']}\n\n{d['statement']}\n\n"
                    f"*Decided by* {d['technique']}. *Quantifier*: {d['quant']}. *Cases*: {rule}\n\n"
                    f"*Beyond the tests*: {d['why']} *Bounds*: {d['note'].strip()}\n")
    t = (ROOT / "DESIGN.in.md").read_text()
    t = t.replace("@@PROPS@@", "\n".join(rows))
    t = t.replace("@@FIXED@@", "\n".join("* " + f[7:] for f in known["fixed"]))
    t = t.replace("@@OPEN@@", "\n".join(f"* {k['property']}: {k['what']}" for k in known["open"]))
    (ROOT / "DESIGN.md").write_text(t)


if __name__ == "__main__":
    main()
