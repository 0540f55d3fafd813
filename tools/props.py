"""The jobs that decide each property: harness, build switches, bounds."""
class J:
    def __init__(self, name, harness=None, defs=(), rdefs=(), srcs=None, threads=False, budget=240, weight=1, mem=12, note='', thorough=False, quickonly=False, replay=True, validate=2, **params):
        self.name, self.harness, self.defs, self.rdefs, self.srcs, self.threads, self.budget, self.weight, self.mem, self.note, self.thorough, self.quickonly, self.replay, self.validate = name, harness or name.split('-')[0], tuple(defs), tuple(rdefs), srcs, threads, budget, weight, mem, note, thorough, quickonly, replay, validate
        self.params = dict(params)
class P:
    def __init__(self, jobs, assume=(), outside='', bound='', quick_s=420, thorough_s=3000):
        self.jobs, self.assume, self.outside, self.bound, self.quick_s, self.thorough_s = jobs, list(assume), outside, bound, quick_s, thorough_s
COMMON = ['clang 18 front end and LLVM -O2 middle end translate the C++ faithfully; g++ builds are covered by the native replays only',
          'the C++ runtime outside the headers, iostreams, and threads/locks are the models in rt/ and shim/',
          'z3 answers are correct']
PROPS = {}
HOOK_COMMITS = ['942fe78']
NOT_APPLICABLE = {}
MATH = ['/lib/']  # every source file of the library
def prop(pid, *jobs, **kw): PROPS[pid] = P(list(jobs), **kw)


prop('C01', J('c01', srcs=MATH, field=0, sq=1, note='all pairs of canonical 61-bit elements'), J('c01-construct', srcs=MATH, field=0, construct=1, note='all 64-bit words'))
prop('C02', J('c01-127', defs=['-DP127'], srcs=MATH, field=0, mul=0, note='all pairs of canonical 127-bit elements'), J('c01-127-mul', defs=['-DP127'], srcs=MATH, field=0, mul=1, sq=0, note='all pairs of canonical 127-bit elements'), J('c01-127-sq', defs=['-DP127'], srcs=MATH, field=0, mul=0, sq=1), J('c01-127-construct', defs=['-DP127'], srcs=MATH, field=0, construct=1, note='all 128-bit words'))
MP127 = '-DP=frn::lib::math::Mp127'
prop('C03', *[J('c03-inv2-%s-%d' % (t, k), 'c03', defs=['-DVT=' + t, '-DVK=%d' % k], srcs=MATH, field=0, part=0, note='every word') for t, k in [('uint8_t', k) for k in (1, 2, 3, 4, 5, 6, 7, 8)] + [('uint16_t', k) for k in (4, 9, 10, 11, 12, 15, 16)] + [('uint32_t', k) for k in (5, 6, 11, 17, 20, 21, 22, 23, 31, 32)] + [('uint64_t', k) for k in (4, 5, 6, 10, 11, 12, 20, 21, 23, 24, 33, 40, 41, 43, 47, 48, 49, 61, 63, 64)] + [('u128_t', k) for k in (61, 64, 65, 80, 81, 86, 95, 96, 97, 127, 128)]],
     *[J('c03-small-%s-%d' % (t, n), 'c03', defs=['-DVT=' + t, '-DVS=int16_t'], srcs=MATH, field=0, part=1, n=n, weight=n, thorough=n > 200, budget=600 if n > 200 else 200, note='every residue') for t, n in [('uint8_t', 3), ('uint8_t', 7), ('uint8_t', 31), ('uint8_t', 61), ('uint16_t', 13), ('uint16_t', 61), ('uint16_t', 251)]],
     *[J('c03-p%s-s%d-n%d' % (w, s, g), 'c03', defs=(['-DVP_=Mp127'] if w == 127 else []), srcs=MATH, field=w, part=2, bits=7, shift=s, neg=g, note='128 divisors, every dividend') for w, ss in ((61, (0, 7, 30, 31, 32, 54)), (127, (0, 30, 63, 64, 90, 120))) for s in ss for g in (0, 1)],
     *[J('c03-wide-p%s-s%d-n%d' % (w, s, g), 'c03', defs=(['-DVP_=Mp127'] if w == 127 else []), srcs=MATH, field=w, part=2, bits=12, shift=s, neg=g, thorough=True, weight=1000, budget=900, mem=20, note='4096 divisors, every dividend') for w, ss in ((61, (0, 20, 49)), (127, (0, 60, 115))) for s in ss for g in (0, 1)],
     assume=['the extended Euclidean algorithm is decided for the stated divisors (all residues of small moduli, families of residues of the real primes), not for all divisors of the real primes'], outside='inverses modulo the real primes of divisors outside the listed families')
prop('C04', J('c04-one', srcs=None, field=0, part=0, note='every byte string'), J('c04-one-127', defs=[MP127], field=0, part=0, note='every byte string'), *[J('c04-vec%d%s' % (n, w), 'c04', defs=[MP127] if w else [], field=0, part=1, n=n, note='every content') for n in (0, 1, 2, 5) for w in ('', '-127')],
     *[J('c04-shr-%d-%d-%d%s' % (n, t, k, w), 'c04', defs=[MP127] if w else [], field=127 if w else 61, part=2, n=n, t=t, k=k, note='every content') for n, t, k, w in [(4, 1, 0, ''), (4, 1, 3, ''), (5, 2, 2, ''), (7, 2, 2, ''), (2, 1, 2, ''), (4, 1, 2, '-127')]])
prop('C05', *[J('c05-len%d%s' % (n, w), 'c05', defs=[MP127] if w else [], field=127 if w else 61, srcs=MATH, part=0, len=n, note='every digit string of this length') for n, w in [(0, ''), (1, ''), (2, ''), (5, ''), (18, ''), (19, ''), (20, ''), (21, ''), (30, ''), (40, ''), (64, ''), (1, '-127'), (38, '-127'), (39, '-127'), (40, '-127'), (60, '-127')]],
     *[J('c05-print-%d' % w, 'c05', defs=[MP127] if w == 127 else [], field=w, srcs=MATH, part=1, bits=w, weight=w, note='every element') for w in (61, 127)])
prop('C06', *[J('c06-%s' % n, 'c06', part=k, max=m, note='all entries; every size up to %d' % m) for n, k, m in [("vec", 0, 3), ("mat", 1, 2), ("mul", 2, 3), ("sub", 3, 2), ('vand', 4, 3), ('print', 5, 2)]])
PROTO = None
prop('C13', *[J('c13-n%d-b%d-r%d-k%d' % (n, b, r, k), n=n, batch=b, rounds=r, bulk=k, preempt=-1, weight=n * b * r, note='all shared values and all setup keys') for n, b, r, k in [(4, 2, 2, 0), (4, 3, 2, 1), (5, 2, 2, 1), (6, 2, 1, 0), (7, 2, 2, 1), (8, 1, 1, 0), (10, 1, 1, 1), (4, 5, 2, 2), (4, 7, 1, 3), (5, 5, 1, 4), (7, 3, 1, 3), (4, 20, 1, 1), (4, 1, 6, 0), (9, 1, 1, 0), (11, 1, 1, 0)]],
     *[J('c13-n%d-b%d-r%d-k%d' % (n, b, r, k), n=n, batch=b, rounds=r, bulk=k, preempt=-1, weight=1000 * n, thorough=True, budget=2400, mem=24, maxinstrs=40000000000, note='all shared values and all setup keys') for n, b, r, k in [(12, 1, 1, 0), (7, 6, 3, 3), (10, 3, 1, 3)]])
NT = [(2, 1), (3, 1), (3, 2), (4, 1), (4, 2), (4, 3), (5, 1), (5, 2), (5, 4), (6, 1), (6, 3), (7, 2), (7, 3), (8, 2), (8, 5), (10, 3)]
prop('C07', *[J('c07-n%d-t%d' % (n, t), 'c07', n=n, t=t, batch=3 if n < 8 else 2, part=0, weight=n, note='every secret and generator seed') for n, t in NT], *[J('c07-add-n%d-t%d' % (n, t), 'c07', n=n, t=t, part=1, note='every consistent sharing') for n, t in [(1 + 1, 1), (4, 1), (7, 2), (7, 5), (10, 3), (13, 4)]],
     *[J('c07-n%d-t%d' % (n, t), 'c07', n=n, t=t, batch=2, part=0, weight=n * 10, thorough=True, budget=900) for n, t in [(9, 4), (11, 3), (12, 3), (13, 4), (16, 5)]])
prop('C08', *[J('c08-n%d-t%d' % (n, t), 'c07', n=n, t=t, batch=2 if n < 7 else 1, part=2, weight=n * n, note='every coalition of t parties') for n, t in [(2, 1), (3, 1), (3, 2), (4, 1), (4, 2), (4, 3), (5, 1), (5, 2), (5, 3), (5, 4), (6, 2), (7, 2)]],
     *[J('c08-all-n%d-t%d' % (n, t), 'c07', n=n, t=t, part=3, weight=n, note='every coalition of t+1 parties') for n, t in [(2, 1), (3, 1), (4, 1), (4, 3), (5, 2), (6, 3), (7, 2), (10, 3)]],
     *[J('c08-n%d-t%d' % (n, t), 'c07', n=n, t=t, batch=1, part=2, weight=n * n, thorough=True, budget=1200, note='every coalition of t parties') for n, t in [(7, 3), (8, 2), (10, 3)]],
     assume=['the generator output reduced modulo the prime is treated as uniform and independent per block half'])
prop('C09', *[J('c09-any-n%d-t%d' % (n, t), 'c07', n=n, t=t, part=4, weight=n, note='every submission of every party') for n, t in [(2, 1), (3, 1), (3, 2), (4, 1), (5, 1), (5, 2), (6, 2), (7, 2), (7, 3)]],
     *[J('c09-tamper-n%d-t%d-b%d' % (n, t, b), 'c07', n=n, t=t, bad=b, part=5, weight=n, note='every submission of every coalition') for n, t, b in [(3, 1, 1), (4, 1, 1), (5, 1, 1), (5, 2, 1), (5, 2, 2), (6, 2, 2), (7, 2, 2), (7, 3, 3)]], assume=['n > 2t for the recovery of the original secret'])
prop('C10', J('c10-binom', 'c10', part=0, max=34, note='every k for every m up to 34'), J('c10-binom60', 'c10', part=0, max=60, thorough=True, budget=1500), *[J('c10-next%d' % k, 'c10', part=1, k=k, note='every k-subset of every m up to 2^30') for k in (1, 2, 3, 4, 5)], *[J('c10-nth%d' % m, 'c10', part=2, m=m, note='every k') for m in (1, 4, 6)], J('c10-sets', 'c10', part=3, max=3, note='every pair of ascending sets of up to 3 elements'), J('c10-sets4', 'c10', part=3, max=4, thorough=True, budget=900),
     J('c10-tables', 'c10', part=4, max=8, note='every n up to 8 and threshold', weight=50), J('c10-invalid', 'c10', part=5, note='every 64-bit n and t'), J('c10-tables11', 'c10', part=4, max=11, thorough=True, budget=1500, weight=500))
NT2 = [(4, 1), (5, 1), (5, 2), (6, 1), (7, 1), (7, 2), (7, 3), (8, 2), (10, 3)]
prop('C11', *[J('c11-n%d-t%d' % (n, t), 'c11', n=n, t=t, part=0, weight=n) for n, t in NT2 + [(3, 1), (9, 2)]], *[J('c11-n%d-t%d' % (n, t), 'c11', n=n, t=t, part=0, weight=n * 10, thorough=True, budget=1500) for n, t in [(11, 3), (13, 4), (16, 5)]])
prop('C12', *[J('c12-n%d-t%d' % (n, t), 'c11', n=n, t=t, part=1, weight=n * n) for n, t in NT2 + [(3, 1), (12, 2), (25, 1)]], *[J('c12-pos-n%d-t%d' % (n, t), 'c11', n=n, t=t, part=2, weight=n * n) for n, t in [(3, 1), (4, 1), (5, 1), (5, 2), (6, 1), (7, 2)]], *[J('c12-n%d-t%d' % (n, t), 'c11', n=n, t=t, part=1, weight=n * 100, thorough=True, budget=1800) for n, t in [(11, 3), (13, 4)]])

prop('C14', *[J('c14-n%d-t%d-b%d-k%d' % (n, t, b, k), 'c14', n=n, t=t, batch=b, bulk=k, part=0, preempt=-1, weight=n * b, note='all inputs and keys') for n, t, b, k in [(4, 1, 3, 0), (5, 1, 2, 1), (6, 1, 2, 0), (7, 2, 2, 1), (7, 1, 2, 0), (8, 2, 1, 0), (10, 3, 1, 1), (4, 1, 4, 2), (4, 1, 7, 3), (5, 1, 6, 4), (7, 2, 4, 2), (4, 1, 12, 5), (4, 1, 1, 1), (9, 2, 2, 0)]],
     *[J('c14-sched-n4-%s' % nm, 'c14', n=4, batch=2, part=0, preempt=p, delays=d, weight=50, thorough=d > 2, budget=900 if d > 2 else 200, note='schedules with up to %d departures from a fixed order' % d) for nm, p, d in [('low', -1, 2), ('high', -2, 2), ('low4', -1, 4)]],
     *[J('c14-view-n%d-t%d-b%d-k%d' % (n, t, b, k), 'c14', n=n, t=t, batch=b, bulk=k, part=1, preempt=-1, weight=n * n, note='every coalition of t parties') for n, t, b, k in [(4, 1, 2, 0), (5, 1, 2, 1), (6, 1, 2, 2), (7, 2, 2, 0), (4, 1, 4, 2), (4, 1, 7, 3)]],
     *[J('c14-view-n%d-t%d' % (n, t), 'c14', n=n, t=t, batch=1, part=1, preempt=-1, weight=n * n, thorough=True, budget=1500, note='every coalition of t parties') for n, t in [(8, 2), (10, 3)]],
     assume=['the generator output reduced modulo the prime is treated as uniform and independent per block'], outside='reuse of one correlator object by value in several protocol instances')
prop('C15', *[J('c15-n%d-t%d' % (n, t), 'c14', n=n, t=t, part=2, rounds=3, weight=n, note='all keys') for n, t in [(3, 1), (4, 1), (5, 1), (5, 2), (6, 2), (7, 1), (7, 2), (7, 3), (8, 2), (10, 3)]], *[J('c15-mix-n%d-t%d' % (n, t), 'c14', n=n, t=t, part=2, mix=1, rounds=3, note='real and dummy generations interleaved') for n, t in [(4, 1), (7, 2)]],
     *[J('c15-fresh-n%d-t%d' % (n, t), 'c14', n=n, t=t, part=3, rounds=3, weight=n, note='joint distribution of all masks') for n, t in [(3, 1), (4, 1), (5, 2), (7, 2)]], *[J('c15-n%d-t%d' % (n, t), 'c14', n=n, t=t, part=2, rounds=6, thorough=True, budget=1200, weight=100) for n, t in [(9, 4), (13, 4)]],
     assume=['freshness: the generator output reduced modulo the prime is treated as uniform and independent per block'], outside='GenZeroShare, declared but not defined')
prop('C16', *[J('c16-all-n%d-k%d' % (n, k), 'c16', n=n, max=m, bulk=k, pattern=0, preempt=-1, weight=100, note='every combination of up to %d inputs per party' % m) for n, m, k in [(4, 2, 0), (4, 1, 1), (5, 1, 2)]], *[J('c16-n%d-t%d-p%d-k%d-m%d' % (n, t, p, k, m), 'c16', n=n, t=t, max=m, bulk=k, pattern=p, preempt=-1, weight=n, note='all secrets and generator seeds') for n, t, m, k, p in [(3, 1, 2, 0, 1), (4, 1, 3, 2, 2), (5, 2, 2, 0, 3), (6, 1, 2, 1, 1), (7, 2, 2, 0, 2), (7, 2, 2, 2, 4), (8, 2, 1, 0, 1), (10, 3, 1, 1, 1), (4, 1, 5, 3, 1), (4, 1, 6, 3, 3), (5, 1, 4, 4, 1), (3, 1, 9, 3, 1), (7, 2, 4, 3, 2), (4, 1, 20, 4, 2)]],
     *[J('c16-sched-n3-%s' % nm, 'c16', n=3, t=1, max=1, pattern=1, preempt=p, delays=d, weight=50, thorough=d > 2, budget=900 if d > 2 else 200, note='schedules with up to %d departures from a fixed order' % d) for nm, p, d in [('low', -1, 2), ('high', -2, 2), ('low4', -1, 4)]],
     outside='two protocol instances built from copies of the same correlator')
prop('C17', *[J('c17-n%d-t%d-p%d-m%d' % (n, t, p, m), 'c16', n=n, t=t, max=m, bulk=k, pattern=p, part=1, preempt=-1, weight=n * n, note='every coalition of t parties, all setup randomness') for n, t, m, k, p in [(3, 1, 2, 0, 0), (4, 1, 3, 0, 1), (4, 1, 2, 1, 2), (5, 1, 2, 0, 3), (5, 2, 2, 2, 1), (6, 1, 2, 1, 1), (7, 2, 2, 0, 4), (4, 1, 8, 3, 1), (3, 1, 16, 4, 1), (5, 1, 20, 0, 2)]],
     *[J('c17-n%d-t%d-p%d' % (n, t, p), 'c16', n=n, t=t, max=m, bulk=0, pattern=p, part=1, preempt=-1, weight=n * n, thorough=True, budget=1500, note='every coalition of t parties') for n, t, m, p in [(8, 2, 2, 1), (10, 3, 1, 1)]],
     assume=['the generator output reduced modulo the prime is treated as uniform and independent per block'], outside='two protocol instances built from copies of the same correlator')
prop('C18', *[J('c18-n%d-t%d-b%d-r%d-k%d' % (n, t, b, r, k), 'c18', n=n, t=t, batch=b, rounds=r, bulk=k, preempt=-1, weight=n * b, note='all inputs and keys') for n, t, b, r, k in [(4, 1, 0, 0, 0), (4, 1, 1, 1, 0), (4, 1, 4, 3, 0), (5, 1, 2, 2, 0), (6, 1, 3, 1, 0), (7, 2, 3, 2, 0), (7, 1, 2, 2, 0), (8, 2, 2, 1, 0), (10, 3, 2, 1, 0), (4, 1, 6, 2, 2), (5, 1, 4, 1, 3), (4, 1, 3, 8, 0), (4, 1, 20, 1, 9)]], assume=['the hook in check.h only reads', 'thresholds t with n > 3t, as CreateReplicator chooses them'])
prop('C19', *[J('c19-plan-n%d-t%d' % (n, t), 'c18', n=n, t=t, part=1, weight=n, note='every party and piece') for n, t in [(3, 1), (4, 1), (5, 1), (5, 2), (6, 1), (6, 2), (7, 1), (7, 2), (7, 3), (8, 2), (9, 2), (10, 3)]],
     *[J('c19-n%d-t%d-b%d-r%d' % (n, t, b, r), 'c18', n=n, t=t, batch=b, rounds=r, part=2, preempt=-1, weight=n * b, note='all inputs and keys') for n, t, b, r in [(4, 1, 0, 0), (4, 1, 3, 2), (5, 1, 2, 1), (6, 1, 2, 1), (7, 2, 2, 2), (7, 1, 1, 1), (8, 2, 1, 1), (10, 3, 1, 1)]],
     *[J('c19-sched-%s' % nm, 'c18', n=4, t=1, batch=1, rounds=1, part=2, preempt=p, delays=d, weight=50, thorough=d > 1, budget=900 if d > 1 else 240, note='schedules with up to %d departures from a fixed order' % d) for nm, p, d in [('low', -1, 1), ('high', -2, 1), ('low2', -1, 2)]], *[J('c19-plan-n%d-t%d' % (n, t), 'c18', n=n, t=t, part=1, weight=n, thorough=True, budget=1500, note='every party and piece') for n, t in [(11, 3), (12, 3), (13, 4)]], assume=['thresholds t with n > 3t for the check protocol (the plan itself is decided for 2t < n)'])
NOACC = dict(defs=['-fno-access-control'])
prop('C20', *[J('c20-aes-b%d-c%d' % (b, c), 'c20', part=0, aesexp=1, blocks=b, cut=c, note='every seed, against FIPS-197') for b, c in [(1, 0), (1, 15), (2, 7), (9, 5), (32, 0)]], *[J('c20-counter-b%d-c%d' % (b, c), 'c20', defs=['-fno-access-control'], rdefs=['-fno-access-control'], part=0, aesexp=1, wide=1, blocks=b, cut=c, note='every seed and every counter below 2^63') for b, c in [(1, 0), (3, 9), (8, 0)]],
     J('c20-default', 'c20', part=1), J('c20-stream', 'c20', part=2, max=18, weight=40, budget=200, note='every sequence of three requests of up to 18 bytes through any overload, with resets'), J('c20-copy', 'c20', part=3, max=40, note='every pair of request sizes up to 40'), J('c20-refuse', 'c20', part=4, max=40, note='every over-long request'), J('c20-stream48', 'c20', part=2, max=49, thorough=True, weight=400, budget=1500, note='every sequence of three requests of up to 49 bytes'),
     assume=['the S-box instruction is a fixed byte permutation (its table is the one in the processor)'], outside='requests of more than 512 bytes at once')
H3 = [('SHA3_256', 136), ('SHA3_384', 104), ('SHA3_512', 72)]
prop('C21', *[J('c21-%s-%d-%d' % (t, a, b), 'c21', defs=['-DVT=' + t], part=0, lo=a, hi=b, weight=20, budget=200, note='every message of %d to %d bytes, against FIPS 202' % (a, b)) for t, r in H3 for a, b in ((0, 100), (101, 200), (201, 300))],
     *[J('c21-%s-%d' % (t, n), 'c21', defs=['-DVT=' + t], part=0, len=n, note='every message of %d bytes, against FIPS 202' % n) for t, r in H3 for n in (500, 8 * r - 1, 10 * r + 17)],
     *[J('c21-split3-%s-%d' % (t, n), 'c21', defs=['-DVT=' + t], part=1, len=n, span=n, pieces=3, weight=10, note='every split into 3 pieces') for t, r in H3 for n in (9, 24)], *[J('c21-split2-%s' % t, 'c21', defs=['-DVT=' + t], part=1, len=2 * r + 20, span=400, pieces=2, weight=20, note='every split into 2 pieces') for t, r in H3],
     *[J('c21-split4-%s-%d' % (t, k), 'c21', defs=['-DVT=' + t], part=1, len=k * r + 14, at=k * r - 9, span=18, pieces=4, weight=30, note='every split into 4 pieces around a block boundary') for t, r in H3 for k in (1, 2)], *[J('c21-split3-%s-%d' % (t, n), 'c21', defs=['-DVT=' + t], part=1, len=n, span=n, pieces=3, weight=1000, thorough=True, budget=1500, note='every split into 3 pieces') for t, r in H3 for n in (r + 20,)],
     outside='messages longer than 300 bytes other than the lengths listed')
NETS = ['/lib/']
prop('C22', *[J('c22-%s%s' % (('recv', 'send')[wr], ('', '-channel')[ch]), 'c22', srcs=NETS, part=0, wr=wr, channel=ch, max=6, note='every message of up to 6 bytes, every split, failure or disconnection at every byte') for wr in (0, 1) for ch in (0, 1)],
     *[J('c22-size-%s%s' % (('recv', 'send')[wr], ('', '-channel')[ch]), 'c22', srcs=NETS, part=1, wr=wr, channel=ch, calls=4, note='every size below 2^44, up to 4 system calls transferring any amounts') for wr in (0, 1) for ch in (0, 1)],
     J('c22-partial', 'c22', srcs=NETS, part=2, calls=3, note='every size below 2^44, a connector that transfers any part'), J('c22-server', 'c22', srcs=NETS, part=3, note='every port, every failing call, every error number and descriptor'), J('c22-client', 'c22', srcs=NETS, part=4, note='every port, up to 3 refused attempts'), J('c22-client-wait', 'c22', srcs=NETS, part=4, refusals=200, note='every port, up to 200 refused attempts'), J('c22-calls', 'c22', srcs=NETS, part=5, note='every argument and result'),
     *[J('c22-%s-14' % ('recv', 'send')[wr], 'c22', srcs=NETS, part=0, wr=wr, max=12, thorough=True, weight=50, budget=1200) for wr in (0, 1)],
     outside='transfers needing more system calls than the bounds; signals (SIGPIPE)')
def thr(name, part, note='', **kw): return J(name, 'c23', srcs=NETS, threads=True, part=part, **dict(dict(preempt=99, dedupe=1, note=note or 'every interleaving'), **kw))
def race(name, part, **kw): return J(name, 'c23', srcs=NETS, threads=True, part=part, **dict(dict(preempt=1, races=1, note='happens-before races, schedules with one preemption', validate=0), **kw))
prop('C23', *[thr('c23-%s' % n, 0, how=h, msgs=3, note='every interleaving, contents and sizes up to 2, three messages') for n, h in (('queued', 0), ('slow', 1), ('held', 2), ('failing', 3))], thr('c23-spurious', 0, msgs=2, spurious=2), thr('c23-more', 0, msgs=5, max=1, preempt=3, weight=50), thr('c23-many', 0, msgs=8, max=1, preempt=2, weight=500, thorough=True, budget=1200),
     *[race('c23-race-%s' % n, 0, how=h, msgs=2, max=1) for n, h in (('queued', 0), ('slow', 1))], assume=['sequentially consistent memory for code without data races (races are searched for by the c23-race jobs)'], outside='more than five (eight) messages')
prop('C24', thr('c24-fifo', 1), thr('c24-fifo-size', 1, size=1, preempt=4), thr('c24-fifo3', 1, producers=3, items=2, spurious=1, size=1, preempt=2, weight=50), thr('c24-fifo-spurious', 1, producers=2, items=2, spurious=2, preempt=99), thr('c24-fifo-one', 1, producers=1, items=5, spurious=1), thr('c24-poppers', 2), thr('c24-poppers-spurious', 2, spurious=2, extra=0), thr('c24-poppers3', 2, consumers=3, spurious=1, preempt=3, weight=20), thr('c24-readers', 3, readers=2, spurious=1), thr('c24-readers3', 3, readers=3, preempt=4), thr('c24-readers-popper', 3, pop=1),
     thr('c24-fifo3-deep', 1, producers=3, items=2, spurious=1, size=1, preempt=5, weight=900, thorough=True, budget=1500), thr('c24-poppers3-deep', 2, consumers=3, spurious=2, weight=900, thorough=True, budget=1500), thr('c24-fifo4', 1, producers=4, items=1, preempt=4, weight=900, thorough=True, budget=1500),
     race('c24-race-fifo', 1, size=1), race('c24-race-poppers', 2), race('c24-race-readers', 3, pop=1), assume=['sequentially consistent memory for code without data races (races are searched for by the c24-race jobs)'], outside='Front followed by PopFront by several consumers is not one operation, so the items seen by several concurrent consumers are not compared')
prop('C25', thr('c25-sync', 4, note='every split of the reads, contents symbolic'), thr('c25-async3', 5, msgs=3, preempt=1, weight=50), thr('c25-async2', 5, msgs=2, preempt=3, weight=40), thr('c25-two', 6), thr('c25-sizes', 7, note='every read size below 2^44'), thr('c25-sizes3', 7, msgs=3, max=3, reads=5, note='every read size below 2^44'), thr('c25-sync4', 4, msgs=4, max=4, weight=200, thorough=True, budget=1200), thr('c25-async3-deep', 5, msgs=3, preempt=3, weight=500, thorough=True, budget=1500), race('c25-race', 5, msgs=2, max=1, reads=1, reads2=1), outside='more than four messages')
NETB = ['/lib/']
prop('C26', *[J('c26-ports-n%d-%d' % (n, h), 'c26', srcs=NETB, threads=True, n=n, how=h, preempt=-1, weight=n, note='every base port') for n, h in [(2, 0), (3, 0), (4, 0), (3, 1), (4, 1), (5, 1)]], *[J('c26-ports-n%d-%d' % (n, h), 'c26', srcs=NETB, threads=True, n=n, how=h, preempt=-1, tidshift=22, weight=n, note='every base port with room for the network' if h == 3 else 'the default base port') for n, h in [(7, 3), (9, 3), (10, 2), (11, 2), (12, 2), (13, 2), (16, 2), (24, 2)]], *[J('c26-ports-n%d-0' % n, 'c26', srcs=NETB, threads=True, n=n, how=3, preempt=-1, tidshift=22, weight=900, thorough=True, budget=1500, note='every base port with room for the network') for n in (11, 12)],
     *[J('c26-settings-%d' % k, 'c26', srcs=NETB, threads=True, part=1, first=k, steps=5, preempt=-1, weight=30, note='every identity, size and port in every sequence of 5 settings (networks of up to 3 built)') for k in range(7)],
     *[J('c26-again-%d' % k, 'c26', srcs=NETB, threads=True, part=1, first=k, steps=5, again=2, n=2, preempt=-1, weight=30, note='every identity, size and port in every sequence of 5 settings, going on after a refusal (networks of up to 2 built)') for k in (0, 1, 4, 5, 6)],
     *[J('c26-settings6-%d' % k, 'c26', srcs=NETB, threads=True, part=1, first=k, steps=6, preempt=-1, weight=300, thorough=True, budget=1500, note='every identity, size and port in every sequence of 6 settings') for k in range(7)])
prop('C27', *[J('c27-n%d-p%d' % (n, p), 'c27', threads=True, n=n, pattern=p, preempt=-1, weight=n, note='every content') for n, p in [(4, 0), (4, 1), (4, 2), (4, 3), (5, 4), (7, 5)]],
     *[J('c27-any-%d-p%d' % (f, p), 'c27', threads=True, n=4, free=f, pattern=p, many=3, preempt=-1, weight=20, note='every three messages of up to 2 items from %d to %d, every content' % (f // 4, f % 4)) for f, p in [(0, 0), (1, 1), (4, 2), (11, 3)]],
     *[J('c27-os-%d' % k, 'c27', threads=True, n=4, pattern=p, preempt=o, cap=c, chunk=h, splits=s, weight=10, note='short reads and writes, small buffers') for k, (p, o, c, h, s) in enumerate([(0, -1, 7, 3, 0), (1, -2, 1 << 20, 5, 0), (2, -2, 3, 1 << 20, 0), (3, -1, 1 << 20, 1 << 20, 2)])],
     *[J('c27-bytes-n%d' % n, 'c27', threads=True, part=1, n=n, preempt=-1, note='every content') for n in (2, 3, 4)])

def c28(name, **kw): return J('c28-' + name, 'c27', threads=True, **kw)
prop('C28', c28('start-n2', part=2, n=2, preempt=1, dedupe=1, weight=40, note='every start-up order and one preemption anywhere'), *[c28('start-n%d-%s%d' % (n, nm, d), part=2, n=n, preempt=p, delays=d, weight=n * 10 * d, note='every order of the parties, schedules with up to %d departures from a fixed order' % d) for n, d in [(2, 3), (3, 2), (4, 1)] for nm, p in (('low', -1), ('high', -2))],
     *[c28('start-n%d-%s' % (n, nm), part=2, n=n, preempt=p, weight=5, order=o, note='fixed order of the parties') for n, o in [(6, 0), (7, 3), (10, 9)] for nm, p in (('low', -1), ('high', -2))], *[c28('start-n%d-late' % n, part=2, n=n, preempt=-1, refuse=r, order=n - 1, note='a party that starts after %d attempts of each peer' % r) for n, r in [(2, 300), (4, 64)]], c28('start-n4-tight', part=2, n=4, cap=1, preempt=-1, note='every order of the parties, one-byte socket buffers'),
     *[c28('%s-%s%s' % (nm, q, '-tight' if cap else ''), part=3, what=w, preempt=p, cap=5 if cap else 1 << 30, weight=10, note='every order of the parties, all inputs and keys') for nm, w in (('mult', 0), ('input', 1)) for q, p in (('low', -1), ('high', -2)) for cap in (0, 1)],
     *[c28('%s-sched-%s' % (nm, q), part=3, what=w, order=o, preempt=p, delays=1, cap=9, weight=50, note='schedules with one departure from a fixed order') for nm, w in (('mult', 0), ('input', 1)) for q, p, o in (('low', -1, 1), ('high', -2, 2))],
     *[c28('%s-n%d' % (nm, n), part=3, what=w, n=n, order=o, preempt=-1, weight=n, cap=16, note='all inputs and keys') for nm, w in (('mult', 0), ('input', 1)) for n, o in [(5, 1), (7, 2), (8, 7)]],
     *[c28('all-%s%s' % (q, '-tight' if cap else ''), part=3, what=2, preempt=p, cap=5 if cap else 1 << 30, weight=20, note='inputs, two layers of products and the check over one network; every order of the parties') for q, p in (('low', -1), ('high', -2)) for cap in (0, 1)], *[c28('all-n%d' % n, part=3, what=2, n=n, batch=b, order=o, preempt=-1, weight=n * b, cap=16) for n, b, o in [(4, 3, 2), (5, 2, 1), (7, 1, 2)]],
     c28('start-n2-deep', part=2, n=2, preempt=2, dedupe=1, thorough=True, weight=900, budget=1500), *[c28('start-n4-deep-%s' % nm, part=2, n=4, order=1, preempt=p, delays=2, weight=900, thorough=True, budget=1500) for nm, p in (('low', -1), ('high', -2))],
     *[c28('mult-sched2-%s' % nm, part=3, what=0, order=2, preempt=p, delays=2, weight=900, thorough=True, budget=1500) for nm, p in (('low', -1), ('high', -2))],
     outside='schedules with more departures from the fixed orders; a listener is eventually reached by a client that keeps trying; failures of the operating system during start-up (see C22)')
prop('C29', *[J('c29-' + e, 'c29', defs=['-DVP_EXP="frn/exp_%s.cc"' % e, '-DVP_LIMIT=%d' % l], field=61, note='every 64-bit value of each parameter, any number of parameters') for e, l in (('input', 1000000), ('mult', 100000), ('check', 100000))], assume=['the library converts the digits of an argument to its value (strtoul)'], outside='builds with NDEBUG, which the repository does not use')
prop('C30', *[J('c30-print-%d' % m, 'c30', mix=m, max=8, weight=20, note='every message of up to 8 characters, 0 to 4 arguments, every character in them') for m in range(3)], *[J('c30-numbers-%d' % k, 'c30', mix=0, max=4, num=k, macro=1) for k in range(7)],
     *[J('c30-calls-%d' % m, 'c30', mix=m, max=3, args=2, calls=2, weight=30, note='two calls in a row') for m in range(3)], *[J('c30-custom-%d' % m, 'c30', part=1, mix=m, max=6, weight=10, note='a logger of the user') for m in range(3)],
     *[J('c30-silent-%d' % m, 'c30', part=2, mix=m, max=4, calls=1) for m in range(3)], J('c30-time', 'c30', stamp=1, max=3, args=2), *[J('c30-print11-%d' % m, 'c30', mix=m, max=11, weight=200, thorough=True, budget=1200) for m in range(3)],
     outside='arguments whose output operator changes the stream; format strings with more than 8 characters (11 in the thorough tier)')
prop('C31', *[J('c31-%s-n%d-t%d-b%d-r%d' % (nm, n, t, b, r), 'c31', n=n, t=t, batch=b, rounds=r, part=p, same=s, preempt=-1, weight=n * b * r, note='every change by every party, all inputs and keys') for n, t, b, r in [(4, 1, 1, 1), (4, 1, 3, 2), (4, 1, 34, 1), (4, 1, 9, 8), (5, 1, 2, 2), (6, 1, 2, 1), (7, 2, 2, 2), (7, 1, 2, 1), (8, 2, 1, 2), (10, 3, 1, 1)] for nm, p, s in (('senders', 0, 0), ('told', 1, 0), ('told-same', 1, 1))],
     *[J('c31-%s-n%d-t%d-b%d-r%d' % (nm, n, t, b, r), 'c31', n=n, t=t, batch=b, rounds=r, part=p, preempt=-1, weight=100 * n, thorough=True, budget=2400, mem=24, note='every change by every party, all inputs and keys') for n, t, b, r in [(7, 2, 5, 3), (10, 3, 2, 2), (11, 3, 1, 1)] for nm, p in (('senders', 0), ('told', 1))], assume=['the hook in check.h only reads', 'thresholds t with n > 3t, as CreateReplicator chooses them'], outside='messages with another number of elements than the protocol expects; deviations inside the check protocol itself')
prop('C32', *[J('c32-n%d-t%d-m%d-bad%x' % (n, t, m, bad), 'c31', n=n, t=t, batch=2, mode=m, bad=bad, part=2, preempt=-1, weight=n, note='all inputs and keys, every dealing and announcement of the deviating parties') for n, t, bads in [(3, 1, (1, 4, 3)), (4, 1, (1, 2, 4, 8, 5, 14)), (5, 2, (3, 20)), (7, 2, (1, 96)), (8, 2, (130,))] for bad in bads for m in (0, 1, 2)],
     *[J('c32-known-n%d-t%d-m%d-bad%x' % (n, t, m, bad), 'c31', n=n, t=t, batch=2, mode=m, bad=bad, fixed=1, part=2, preempt=-1, weight=50, budget=100, note='all inputs, fixed setup generators of the others, every dealing and announcement of the deviating parties') for n, t, bad in [(3, 1, 1), (4, 1, 1), (4, 1, 4), (5, 2, 10)] for m in (2, 3)],
     *[J('c32-n%d-t%d-m%d-bad%x' % (n, t, m, bad), 'c31', n=n, t=t, batch=4, mode=m, bad=bad, part=2, preempt=-1, weight=n * 20, thorough=True, budget=1500, note='all inputs and keys, every dealing and announcement of the deviating parties') for n, t, bad in [(10, 3, 0x211), (9, 2, 0x181)] for m in (0, 2)], outside='messages with another number of elements than the protocol expects')
prop('C33', *[J('c33-n%d-t%d-b%d-l%d' % (n, t, b, l), 'c31', n=n, t=t, batch=b, layers=l, part=3, preempt=o, weight=n * b * l, note='all secrets, constants, keys and setup randomness') for n, t, b, l, o in [(4, 1, 1, 1, -1), (4, 1, 2, 2, -2), (4, 1, 3, 3, -1), (5, 1, 2, 2, -2), (6, 1, 1, 2, -1), (7, 2, 1, 2, -1), (7, 1, 2, 1, -2), (8, 2, 1, 1, -1), (9, 2, 1, 1, -1)]],
     *[J('c33-n%d-t%d-b%d-l%d' % (n, t, b, l), 'c31', n=n, t=t, batch=b, layers=l, part=3, preempt=-1, weight=100 * n, thorough=True, budget=2400, mem=24, note='all secrets, constants, keys and setup randomness') for n, t, b, l in [(4, 1, 4, 4), (7, 2, 2, 3), (10, 3, 1, 2)]], assume=['thresholds t with n > 3t, as CreateReplicator chooses them'], outside='one correlator object used by value in several layers (each layer has keys of its own)')
prop('C34', *[J('c34-%s-%s' % (e, nm), 'c34', defs=['-DVP_EXP="frn/exp_%s.cc"' % e, '-DVP_KIND=%d' % kd], field=61, threads=True, weight=w, note=nt, **pr) for kd, e in enumerate(('input', 'mult', 'check')) for nm, w, nt, pr in [
         ('n4', 5, 'every workload of 0 to 9', dict(n=4, order=0, preempt=-1, most=9)), ('n4-late', 5, 'every workload of 0 to 9', dict(n=4, order=2, preempt=-2, most=9)),
         ('n4-orders', 10, 'every workload of 0 to 1, every starting order', dict(n=4, order=-1, preempt=-2, most=1)), ('n4-delays', 30, 'every workload of 0 to 1, one delay anywhere', dict(n=4, order=0, preempt=-1, delays=1, most=1)),
         ('n4-chunks', 5, 'every workload of 0 to 3, short reads and writes', dict(n=4, order=1, preempt=-1, chunk=3, cap=64, most=3)), ('n4-split', 8, 'every workload of 1 to 2, one short read or write of any length', dict(n=4, order=3, preempt=-2, splits=1, least=1, most=2)),
         ('n5', 8, 'every workload of 0 to 3', dict(n=5, order=1, preempt=-1, refuse=2, most=3)), ('n6', 9, 'every workload of 0 to 2', dict(n=6, order=4, preempt=-2, most=2)), ('n7', 10, 'every workload of 0 to 3', dict(n=7, order=3, preempt=-1, most=3)), ('n7-slow', 10, 'every workload of 0 to 2', dict(n=7, order=6, preempt=-2, chunk=11, most=2)), ('n10', 60, 'workloads 1 and 2', dict(n=10, order=0, preempt=-1, least=1, most=2, maxinstrs=4000000000))] if e != 'check' or nm != 'n10'],
     *[J('c34-%s-%s' % (e, nm), 'c34', defs=['-DVP_EXP="frn/exp_%s.cc"' % e, '-DVP_KIND=%d' % kd], field=61, threads=True, weight=w, budget=b, thorough=True, note=nt, **pr) for kd, e in enumerate(('input', 'mult', 'check')) for nm, w, b, nt, pr in [
         ('n4-preempt', 300, 1200, 'workload 1, one preemption anywhere', dict(n=4, order=0, preempt=1, least=1, most=1)), ('n4-delays2', 300, 1200, 'workload 1, two delays anywhere', dict(n=4, order=0, preempt=-1, delays=2, least=1, most=1)), ('n8', 50, 900, 'every workload of 0 to 3', dict(n=8, order=5, preempt=-1, most=3)), ('n10', 300, 2400, 'workloads 1 and 2', dict(n=10, order=0, preempt=-2, least=1, most=2, maxinstrs=40000000000)), ('n9', 200, 1200, 'every workload of 0 to 2', dict(n=9, order=8, preempt=-1, most=2, maxinstrs=40000000000))]],
     assume=['the modelled kernel: reliable byte streams, refused connections before somebody listens'], outside='the wording and the timings of the output; workloads above 9; what the discarded outputs are (C01 to C06)')
for _i, _b in dict(
 C31='n up to 10 (11), batches of up to 34 products, up to 8 batches; any number of deviating parties at once', C32='n up to 8 (10), 2 (4) inputs per party, the listed sets of deviating parties', C34='n up to 10 for input and mult, 7 (10) for check, workloads of up to 9; fixed schedules, all starting orders and one delay (one preemption, two delays) anywhere at n = 4', C33='n up to 9 (10), up to 3 (4) layers of two products, up to 3 (4) inputs per party; two fixed schedules (C28 has the orders over the network)',
 C01='none on the operands: every pair of canonical elements and every 64-bit word; single operations and pairs of them',
 C02='none on the operands: every pair of canonical 127-bit elements and every 128-bit word; single operations and pairs of them',
 C03='every word modulo 2^K for 56 (thorough: the same) pairs of word type and K; every residue of 6 (7) small primes; 128 (4096) consecutive divisors at 6 (3) positions from either end of both real primes, every dividend',
 C04='every byte string; vectors of up to 5 elements; shares for n up to 7',
 C05='every digit string of the listed lengths up to 64; every element of both fields for printing',
 C06='vectors of up to 3 and matrices of up to 3x3 entries, every entry',
 C07='n up to 10 (16), batches of up to 3, every secret and generator output',
 C08='n up to 7 (10) for t shares, up to 10 for t+1 shares; every coalition',
 C09='n up to 7, every submission (n shares), every coalition of up to t liars',
 C10='binomials up to 34 (60), subsets of up to 5 indices of sets of up to 2^30, tables for n up to 8 (11), every 64-bit n and t for validation',
 C11='n up to 10 (16), every sharing and constant', C12='n up to 12, and 25 with t = 1 (13), every pair of sharings',
 C13='n up to 11 (12), batches of up to 20 products, up to 6 rounds, fixed schedule (the order of messages is free in C14 and C28)',
 C14='n up to 10, batches of up to 12; every coalition of t for n up to 7 (10)', C15='n up to 10 (13), 3 (6) generations', C16='n up to 10, up to 20 inputs per party', C17='n up to 7 (10), every coalition of t',
 C18='n up to 10, up to 20 products, up to 8 rounds', C19='n up to 10, every party and piece', C20='requests of up to 512 bytes, three requests of up to 18 bytes in any way, every 128-bit counter',
 C21='messages of up to 300 bytes and some longer, splits into up to 4 pieces', C22='messages of up to 6 (12) bytes cut anywhere, 4 calls of any size below 2^44, up to 200 refused connections',
 C23='three messages with every interleaving, five (eight) with up to 3 (2) preemptions', C24='up to 3 (4) producers or consumers, 2 items each, bounded spurious wake-ups', C25='up to 4 messages, every read size below 2^44',
 C26='ports: every base for n up to 9 (12), the default base up to 24; sequences of 5 (6) settings with every argument, networks of up to 3 built', C27='n up to 7, up to 4 messages per pair, up to 2 items each; 3 arbitrary messages on one pair',
 C28='n up to 10 for start-up, 8 for the protocols; every order of the parties for n up to 4; schedules with the stated number of departures from two fixed schedules',
 C29='up to 4 command-line arguments, every 64-bit value of each', C30='8 (11) characters, up to 4 arguments of up to 3 characters').items(): PROPS[_i].bound = _b
