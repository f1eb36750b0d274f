"""Which monitors decide which property: sources, build modes, shards."""

W = ['-std=gnu++17', '-w', '-g0']
MODES = {
    # as the project is built (optimised, asserts on, OpenMP)
    'omp': ('g++', W + ['-O2', '-fopenmp'], ['-lgmpxx', '-lgmp', '-lpthread']),
    # many small template instances: optimise less
    'o1': ('g++', W + ['-O1', '-fopenmp'], ['-lgmpxx', '-lgmp', '-lpthread']),
    'plain': ('g++', W + ['-O2'], ['-lgmpxx', '-lgmp', '-lpthread']),
    'asan': ('g++', W[:2] + ['-g1', '-O1', '-fno-omit-frame-pointer', '-DVH_SANITIZER', '-fsanitize=address,undefined,float-cast-overflow',
                             '-fno-sanitize-recover=all'], ['-lgmpxx', '-lgmp', '-lpthread']),
    'memcheck': ('g++', W[:2] + ['-g1', '-O1', '-DVH_SANITIZER', '-DVH_MEMCHECK', '-DVH_STACK=(1ULL<<30)'], ['-lgmpxx', '-lgmp', '-lpthread']),
    # OpenMP code generation by gcc, runtime by harness/gomp_shim.cpp, everything instrumented
    'tsan': ('g++', W[:2] + ['-g1', '-O1', '-fopenmp', '-DVH_SANITIZER', '-DVH_TSAN', '-fsanitize=thread'], ['-lpthread']),
}
SANITIZED = {'asan', 'tsan', 'memcheck'}
WRAP = {
    'memcheck': ['valgrind', '-q', '--error-exitcode=77', '--exit-on-first-error=yes', '--leak-check=no', '--max-stackframe=2000000000',
                 '--main-stacksize=67108864', '--undef-value-errors=yes', '--child-silent-after-fork=yes'],
}
SANENV = {'ASAN_OPTIONS': 'abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1',
          'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=77',
          'TSAN_OPTIONS': 'halt_on_error=0:exitcode=77:second_deadlock_stack=1:history_size=4'}


class Job:
    def __init__(self, name, src, defs=(), mode='omp', parts=(1, 1), args=(), cost=10, cpus=1, tiers=('quick', 'thorough'), rounds=1,
                 alarm=(240, 3000), env=None, extra_src=()):
        self.name, self.src, self.defs, self.mode = name, src, list(defs), mode
        self._parts, self.args, self.cost, self.cpus, self.tiers, self.rounds = parts, list(args), cost, cpus, tiers, rounds
        self._alarm = alarm
        self.env = dict(env or {})
        if mode in SANITIZED:
            for k, v in SANENV.items():
                self.env.setdefault(k, v)
        self.extra_src = list(extra_src)

    def parts(self, tier):
        return self._parts[0 if tier == 'quick' else 1]

    def alarm(self, tier):
        return self._alarm[0 if tier == 'quick' else 1]

    def bkey(self):
        return (self.src, tuple(self.defs), self.mode, tuple(self.extra_src))


JOBS, RULES, ASSUME = {}, {}, {}


def prop(pid, rule, jobs, assume=()):
    JOBS[pid], RULES[pid], ASSUME[pid] = jobs, rule, list(assume)


prop('C01',
     'A case is one operation (or one step of a random register program) on one width with generated operands (structured limbs, extremes, uniform); '
     'non-trivial unless all operands are zero.',
     [Job('zq-ops-%d' % c, 'c01.cpp', ['CHUNK=%d' % c], 'o1', parts=(1, 1), cost=20) for c in range(8)])

TECH, NOTE = {}, {}
NA = {'C28': 'Semantic security quantifies over all efficient observers and rests on the hardness of ring-LWE; no set of observed executions can '
             'confirm or refute it. The observable ingredients (uniform masks, fresh noise, unbiased keys) are monitored under C12 and C13.'}

prop('C02',
     'A case is one conversion (shift_right, shift_left, resize, RS, mod_raise; single value or 2 x 4 coefficients) for one pair of widths (41 x 41 alignment classes, the bootstrapping chain, all differences 1 to 132), '
     'operands structured, near ties and uniform; non-trivial when the value is non-zero.',
     [Job('width-%d' % c, 'c02.cpp', ['CHUNK=%d' % c], 'o1', cost=20) for c in range(16)])

prop('C03',
     'A case is one value of one width converted to text, parsed back and converted to double (or a polynomial printed); non-trivial when the value is non-zero.',
     [Job('text-%d' % c, 'c03.cpp', ['CHUNK=%d' % c], 'o1', cost=20) for c in range(5)])

prop('C04',
     'A case is a triple (a, b, q) put through product, reduction, add, sub, mul (and power, inverse) with operands that may exceed q; non-trivial unless a = b = 0. '
     'All triples with q <= 40 and a, b <= 2q+1 are covered completely.',
     [Job('mod', 'c04.cpp', [], 'omp', parts=(8, 8), cost=10)])

prop('C05',
     'A case is one signed value decomposed over one prime set and recomposed, or one residue vector recomposed, for one (number of primes, width) and one set of '
     'distinct primes of 2 to 63 bits; non-trivial when the value is non-zero.',
     [Job('crt-%d' % c, 'c05.cpp', ['CHUNK=%d' % c], 'o1', cost=20) for c in range(6)])

prop('C06',
     'A case is one vector (or pair of vectors) of one length N and one prime q = 1 mod 2N put through ntt / intt / pointwise product; '
     'non-trivial when the vector is non-zero.',
     [Job('ntt-%d' % c, 'c06.cpp', ['CHUNK=%d' % c], 'omp', parts=(2, 4), cost=20) for c in range(4)])

prop('C07',
     'A case is one ring product, ternary product, integer product, ciphertext-plaintext or word product or coefficient-wise operation for one (width, N), operands '
     'structured, extreme, sparse and uniform, with and without aliasing; non-trivial when both operands are non-zero.',
     [Job('ring-%d' % c, 'c07.cpp', ['CHUNK=%d' % c], 'o1' if c < 9 else 'omp', cost=30 + c) for c in range(16)])

prop('C09',
     'A case is one coefficient vector transformed forward (fast, direct, bit-reversed) and back, one slot vector transformed back and forth, or one entry of the product '
     'of the factor matrices, at one length from 2^2 to 2^16; non-trivial when the vector is non-zero.',
     [Job('dft-%d' % c, 'c09.cpp', ['CHUNK=%d' % c], 'omp', parts=(2, 4), cost=20) for c in range(4)])

prop('C10',
     'A case is one message encoded with one scale (coefficients up to 2^64) and decoded, or one polynomial of arbitrary coefficients decoded by decode and decode_log; '
     'non-trivial when not all zero.',
     [Job('code-%d' % c, 'c10.cpp', ['CHUNK=%d' % c], 'omp', parts=(2, 3), cost=20) for c in range(6)])

prop('C11',
     'A case is one polynomial (integer or ring element, structured or random) mapped by one rotation amount or by conjugation, its composition, homomorphism and slot '
     'action; every case is non-trivial.',
     [Job('galois-%d' % c, 'c11.cpp', ['CHUNK=%d' % c], 'omp', parts=(2, 3), cost=20) for c in range(5)])

prop('C12',
     'A case is one generated key (every weight 0..N for N up to 256, sampled weights above, arrays pre-filled with garbage) checked for shape, or one key of a '
     'statistic over successive keys; non-trivial when the weight is positive. Statistical tests reject beyond 9 standard deviations.',
     [Job('keys-%d' % c, 'c12.cpp', ['CHUNK=%d' % c], 'omp', parts=(1 + 3 * c, 2 + 4 * c), cost=10) for c in range(2)])

prop('C13',
     'A case is a pair of encryptions of one plaintext under one key with exact noise measurement and decryption, or one encryption of a statistic; every case is '
     'non-trivial. Statistical tests reject beyond 9 standard deviations.',
     [Job('enc-%d' % c, 'c13.cpp', ['CHUNK=%d' % c], 'omp', parts=(2 if c < 3 else 1, 4), cost=20) for c in range(8)])

prop('C14',
     'A case is one ciphertext (structured, extreme or uniform) switched with one switching key, or rotated by one amount, or conjugated; the exact phases before and after '
     'are compared; every case is non-trivial.',
     [Job('ks-%d' % c, 'c14.cpp', ['CHUNK=%d' % c], 'omp', parts=(1, 4), cost=25) for c in range(7)])

prop('C15',
     'A case is one pair of ciphertexts (structured, extreme, uniform or fresh) and one plaintext and word put through all arithmetic operations, or one product or square '
     'with its exact noise; every case is non-trivial.',
     [Job('hom-%d' % c, 'c15.cpp', ['CHUNK=%d' % c], 'omp', parts=(1, 4), cost=25) for c in range(7)])

prop('C16',
     'A case is one ciphertext under one key rescaled, reduced or raised between two moduli, or one step of a rescaling chain, with exact phases; every case is non-trivial.',
     [Job('rs-%d' % c, 'c16.cpp', ['CHUNK=%d' % c], 'o1', parts=(2, 4), cost=25) for c in range(5)])

prop('C17',
     'A case is one step of a random program over four matrices (add, subtract, scale, negate, transpose, copy, clear, set), one real or complex product, one chained product, '
     'one removal of empty diagonals or one matrix-vector product, compared element by element with full matrices (exact on integer entries); all cases are non-trivial.',
     [Job('sparse-%d' % c, 'c17.cpp', ['CHUNK=%d' % c], 'o1', parts=(2, 4), cost=20) for c in range(2)])

prop('C18',
     'A case is one transform (dense, sparse with rotation keys, sparse with the secret key, serial, grouped by 1 to 4) of one ciphertext by matrices with random offsets, empty '
     'diagonals (no key given for those nor for the main diagonal) and entries of five kinds, result object filled with garbage; non-trivial when a diagonal is live.',
     [Job('lt-%d' % c, 'c18.cpp', ['CHUNK=%d' % c], 'omp', parts=(2, 4), cost=30) for c in range(6)])

prop('C19',
     'A case is one run of coefficient-to-slot, slot-to-coefficient or their composition for one degree, grouping, scale, key and ciphertext, compared slot by slot with the exact '
     'phase; every case is non-trivial.',
     [Job('cts-%d' % c, 'c19.cpp', ['CHUNK=%d' % c], 'omp', parts=(1 if c > 1 else 3, 4), cost=30) for c in range(5)])

prop('C20',
     'A case is one evaluation of one coefficient vector (seven shapes, both signs, up to the largest that fits) on one ciphertext (real slots, extremes, Chebyshev nodes, complex) of one degree, '
     'compared slot by slot with an error bound propagated through the evaluation tree; or one conversion of a Chebyshev series, checked exactly; every case is non-trivial.',
     [Job('poly-%d' % c, 'c20.cpp', ['CHUNK=%d' % c], 'omp', parts=(1, 4), cost=40) for c in range(5)])

prop('C21',
     'A case is one modular reduction of one ciphertext (slots with integer parts -23 to 23 and six kinds of fractional part) under one key, modulus and scale; every case is non-trivial.',
     [Job('mod-%d' % c, 'c21.cpp', ['CHUNK=%d' % c], 'omp', parts=(1, 4), cost=60) for c in range(7)])

prop('C22',
     'A case is one complete conventional bootstrapping of one message (nine shapes, including the largest coefficients) under one key (weight 0 to 128), freshly encrypted or with a mask aligned with the key so that the raised ciphertext carries multiples of q up to 22, at bottom moduli and scales of 54 to 61 bits, or one further round: square, rescale, '
     'reduce to 60 bits and refresh again; errors are taken from the exact phase; every case is non-trivial.',
     [Job('boot-%d' % c, 'c22.cpp', ['CHUNK=%d' % c], 'omp', parts=(1, 2), cost=60, cpus=2) for c in range(9)])

prop('C23',
     'A case is one complete EvalRound bootstrapping of one message under one key with coarse (2^19 to 2^24) or fine (2^60) coefficient-to-slot matrices, bottom moduli of 54 to 61 bits, fresh masks and masks aligned with the key (multiples of q up to 22); coefficient and slot errors are taken '
     'from the exact phase; every case is non-trivial. The control counts confirm that the coarse matrices are coarse: the conventional procedure loses the message.',
     [Job('round-%d' % c, 'c23.cpp', ['CHUNK=%d' % c], 'omp', parts=(1, 2 if c != 7 else 1), cost=60, cpus=2, tiers=('quick', 'thorough') if c != 7 else ('thorough',)) for c in range(10)])

prop('C26',
     'A case is one message encoded by the floating-point and the exact implementation and decoded back, one pair of integer plaintexts put through all ring operations, one pair of messages '
     'put through all slot operations, or one matrix-vector product in message and plaintext form; every case is non-trivial.',
     [Job('simple-%d' % c, 'c26.cpp', ['CHUNK=%d' % c], 'omp', parts=(1, 4), cost=30) for c in range(3)])

prop('C27',
     'A case is one random vector (or matrix, or raised ciphertext) whose encoding or product error is measured; averages over hundreds of vectors are compared with the predictions (factor 1.5), the error distribution with the '
     'uniform one (rejecting beyond 9 standard deviations); every case is non-trivial.',
     [Job('err-%d' % c, 'c27.cpp', ['CHUNK=%d' % c], 'omp', parts=(1, 2), cost=30) for c in range(4)])

prop('C24',
     'A case is one run of one operation (template instance) with generated inputs after a random history of other operations, with garbage in the result objects, on the stack and on the heap and with '
     'objects at other addresses; its result (and output text, and state of the random source) is compared bit for bit with the result of the same call made first in a fresh process; every case is non-trivial.',
     [Job('pure-%d' % c, 'c24.cpp', ['GROUP=%d' % c, 'ROUNDS=6'], 'o1' if c % 2 else 'plain', parts=(1, 4), cost=30 + c, env={'OMP_NUM_THREADS': '1'}) for c in range(6)])

prop('C25',
     'A case is one run of one operation (template instance) on generated inputs in exactly sized heap objects, under AddressSanitizer and UndefinedBehaviorSanitizer (with repeated calls watched for '
     'leaks) or under valgrind memcheck (results checked for definedness); every case is non-trivial.',
     [Job('asan-%d' % c, 'c25.cpp', ['GROUP=%d' % c, 'REPS=%d' % (60 if c < 4 else 24 if c < 6 else 2)], 'asan', parts=(1, 4), cost=50 + 2 * c) for c in range(7)] +
     [Job('memcheck-%d' % c, 'c25.cpp', ['GROUP=%d' % c, 'REPS=%d' % (4 if c < 2 else 2)], 'memcheck', parts=((1, 1, 1, 1, 2, 2)[c], 4), cost=50 + 2 * c) for c in range(6)])

prop('C08',
     'A case is one call by one of several concurrent callers (the first use of every template instance, then mixed operations; random start delays), or one run with one team size (1 to 13); results are '
     'compared bit for bit with the single-threaded ones, and the ThreadSanitizer build (own OpenMP runtime, random team sizes and delays) reports unsynchronised accesses; every case is non-trivial.',
     [Job('tsan-%d' % c, 'c08.cpp', ['GROUP=%d' % c, 'TEAMS=2', 'MIXES=%d' % (20 if c < 4 else 6)], 'tsan', parts=((1, 1, 1, 1, 1, 2, 0, 1)[c], 4), cost=50 + 2 * c, cpus=2, extra_src=['gomp_shim.cpp']) for c in (0, 1, 2, 3, 4, 5, 7)] +
     [Job('team-%d' % c, 'c08.cpp', ['GROUP=%d' % c, 'TEAMS=4', 'MIXES=%d' % (40 if c < 4 else 8)], 'o1' if c in (0, 1, 3) else 'omp', parts=(1, 4), cost=40 + c, cpus=2) for c in range(7)])

prop('C29',
     'A case is one prepared message, matrix or factor, one error report (its printed text parsed) or one range of bit reversals; random messages are also tested as a sample; every case is non-trivial.',
     [Job('helpers', 'c29.cpp', [], 'omp', parts=(2, 4), cost=10)])

prop('C30',
     'A case is one run of one procedure of an experiment program at one parameter set (its printed text parsed): every predicted figure is recomputed from its formula, every measured one must lie '
     'where the procedure it claims to have run must put it; every case is non-trivial.',
     [Job('prog-%d' % c, 'c30.cpp', ['PROG=%d' % c], 'omp', cost=40 if 9 <= c <= 12 else 20) for c in range(13)] +
     [Job('prog-13', 'c30.cpp', ['PROG=13'], 'omp', cost=60, tiers=('thorough',))])

_ORACLE = 'runtime monitoring: every call observed by an online oracle, '
TECH.update({
    'C01': _ORACLE + 'GMP integers; generated register programs with aliasing; guard words',
    'C02': _ORACLE + 'GMP rounding and sign extension, all alignment classes of width pairs; garbage in results',
    'C03': _ORACLE + 'GMP text and exact double comparison; captured output; dirty stack',
    'C04': _ORACLE + '128-bit and GMP arithmetic; complete enumeration of small moduli',
    'C05': _ORACLE + 'GMP residues and recomposition, values placed next to every boundary',
    'C06': _ORACLE + 'exact negacyclic convolution; complete basis at small lengths',
    'C07': _ORACLE + 'exact negacyclic products; extreme coefficients; aliasing',
    'C08': 'race detection (ThreadSanitizer with an instrumented OpenMP runtime, injected delays, random team sizes) and offline comparison of recorded results over team sizes and callers',
    'C09': _ORACLE + 'long double embedding',
    'C10': _ORACLE + 'long double embedding with exact rounding',
    'C11': _ORACLE + 'exact substitution of X; group laws',
    'C12': 'runtime monitoring: shape monitor on every generated key and statistical monitors over recorded keys (nine standard deviations)',
    'C13': _ORACLE + 'exact phase of every ciphertext; statistical monitors over recorded masks and noise (nine standard deviations)',
    'C14': _ORACLE + 'exact phases before and after each key switch',
    'C15': _ORACLE + 'exact phases and products',
    'C16': _ORACLE + 'exact phases along rescaling chains',
    'C17': _ORACLE + 'dense matrices in lock step with random programs',
    'C18': _ORACLE + 'slots of exact phases, propagated noise bounds; garbage in results, missing keys',
    'C19': _ORACLE + 'slots of exact phases, propagated noise bounds',
    'C20': _ORACLE + 'polynomial values in long double with an error bound propagated through the evaluation tree',
    'C21': _ORACLE + 'reduced value at the exact slot',
    'C22': _ORACLE + 'message against the exact phase of the refreshed ciphertext, over successive rounds',
    'C23': _ORACLE + 'message against the exact phase of the refreshed ciphertext; control run of the conventional procedure',
    'C24': 'offline comparison of recorded results and outputs of the same calls under different histories, addresses, garbage and output-stream states, against fresh processes',
    'C25': 'AddressSanitizer, UndefinedBehaviorSanitizer, heap growth monitor and valgrind memcheck over a tour of all operations in exactly sized objects',
    'C26': _ORACLE + 'exact ring and complex arithmetic',
    'C27': 'runtime monitoring: statistics of observed errors against predicted moments and distributions',
    'C30': 'runtime monitoring: the programs are run and their reports parsed; predictions recomputed from their formulas, measurements bounded by the procedure they claim to have run',
    'C29': _ORACLE + 'closed formulas; statistics of random inputs; parsed reports',
})
NOTE.update({
    'C08': 'Held on the interleavings observed (counts in the evidence file). The OpenMP runtime under ThreadSanitizer is our own; the release build with GNU libgomp is compared by results only.',
    'C12': 'Statistical statement: biases well above nine standard deviations of the sample would be reported, smaller ones not.',
    'C13': 'Statistical statement: biases well above nine standard deviations of the sample would be reported, smaller ones not.',
    'C25': 'Held on every execution observed. AddressSanitizer does not see overruns inside one object; the oracles of the other checks compare whole objects.',
})
