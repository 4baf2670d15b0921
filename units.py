import math
# Which harness units decide which property, within which bounds.
COMMON_ASSUMPTIONS = [
    'the C library, operating system and libstdc++ functions outside the headers behave as their models in runtime/rt.cpp and engine/builtins.cpp',
    'clang 18 at -O2 preserves the meaning of the source; the g++ build agrees on every replayed path',
    'allocation succeeds; loops, sizes and numbers of threads are within the stated bounds',
]
PROPS = {}
def prop(pid, bounds, quick, thorough=(), assumptions=()):
    PROPS[pid] = dict(bounds=bounds, quick=list(quick), thorough=list(thorough), assumptions=list(assumptions))
def U(h, u, **k):
    """harness file, unit, keyword options: c=config, t=time limit, o=engine options, w=weight (start order), everything else is a bound"""
    d = dict(h=h, u=u)
    for x in ('c', 't', 'o', 'w', 'nosample'):
        if x in k: d[x] = k.pop(x)
    d['p'] = k
    return d
def sizes(h, u, lst, names=('n', 'm'), **k):
    return [U(h, u, **dict(zip(names, x if isinstance(x, tuple) else (x,))), **k) for x in lst]

A = 'in every representation state (offset slice, stale limbs behind, shared backing, cached index)'
LENS = (4, 5, 6, 7, 8, 9, 10, 16, 17, 24, 32, 33) # lengths of long numbers: around every power of two
prop('C01', f'operands of up to 3 limbs x 3 limbs (thorough 5 x 4), any limb values and signs, {A}; any int64; numbers of twelve lengths from 4 to 33 limbs (thorough 36) that are all ones, all zero or alternating but for three limbs of any value',
     sizes('h_add', 'addassign', [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3), (0, 1), (1, 0)])
     + [U('h_add', 'addassign', n=3, m=3, mode=i) for i in (0, 1, 2, 4)]
     + [U('h_add', 'addfree', n=2, m=2), U('h_add', 'addmixed', n=2), U('h_add', 'incdec', n=3), U('h_add', 'negabs', n=3)] + [U('h_run', 'addrun', n=12, m=m) for m in (1, 2)] + [U('h_run', 'addrun', n=n, m=m) for n in LENS for m in (1, n // 2) if m > 1 or n > 4] + [U('h_run', 'addrun', n=12, m=11, op=i, at=1) for i in (0, 1)],
     sizes('h_add', 'addassign', [(4, 4), (5, 4), (4, 2), (2, 4), (0, 4), (4, 0)]) + [U('h_add', 'addassign', n=3, m=3), U('h_add', 'addfree', n=3, m=3), U('h_add', 'addmixed', n=3), U('h_add', 'incdec', n=4)] + [U('h_run', 'addrun', n=n, m=m, t=300) for n, m in ((24, 1), (36, 2), (12, 12), (5, 8))])
prop('C02', 'operands of up to 3 x 3 limbs (thorough 4 x 4), any limb values and signs; any int64; numbers of twelve lengths from 4 to 33 limbs that are all ones, all zero or alternating but for three limbs of any value, times one of four fixed limbs; products of up to 33 x 32 limbs of fixed patterns with one limb of any value',
     sizes('h_mul', 'mulassign', [(0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (1, 3), (3, 1)])
     + [U('h_mul', 'mulassign', n=2, m=2, mode=i) for i in range(6)] + [U('h_mul', 'mulassign', n=3, m=2, mode=0), U('h_mul', 'mulassign', n=2, m=3, mode=4), U('h_mul', 'mulassign', n=3, m=3, mode=0)]
     + [U('h_mul', 'mulfree', n=2, m=1), U('h_mul', 'mulfree', n=1, m=2)] + [U('h_mul', 'mulmixed', n=2, op=i) for i in range(3)] + [U('h_mul', 'mulcached', n=2), U('h_mul', 'mulcached', n=3)] + [U('h_mul', 'mulstatic', n=2, m=1), U('h_mul', 'mulstatic', n=1, m=2)] + [U('h_run', 'mulrun', n=12, fac=c) for c in range(4)] + [U('h_run', 'mulrun', n=n) for n in LENS] + [U('h_kara', 'long', c='release', n=n, m=m, pata=a, pat=b, at=at) for n, m, a, b, at in ((5, 4, 0, 1, 2), (4, 7, 3, 2, 1), (8, 8, 5, 1, 3), (9, 6, 2, 4, 0), (8, 17, 4, 1, 5), (16, 9, 1, 0, 8), (33, 32, 0, 4, 16))],
     [U('h_mul', 'mulassign', n=3, m=4, mode=0), U('h_mul', 'mulassign', n=4, m=4, mode=0), U('h_mul', 'mulassign', n=3, m=3, mode=4), U('h_mul', 'mulfree', n=2, m=2), U('h_mul', 'mulfree', n=3, m=3), U('h_mul', 'mulstatic', n=2, m=2)])
prop('C04', 'dividends of up to 3 limbs with any limb values; divisors: any one-limb value; any two- or three-limb value with its top bit set (equal length; thorough more); fixed divisors at the edge cases of normalisation and quotient estimation; dividends of up to 33 and divisors of up to 16 limbs of four fixed patterns with one limb of any value (low) or any 6 bits of one (higher)',
     [U('h_div', 'divsmall', n=1), U('h_div', 'divsmall', n=2), U('h_div', 'divsmall', n=3, mode=0)]
     + sizes('h_div', 'divsmaller', [(1, 1), (1, 2), (2, 2), (2, 3), (3, 3)])
     + [U('h_div', 'divconst', n=3, d=d, mode=m, op=o) for d in (0, 4, 11) for m, o in ((0, 0), (1, 1))]
     + [U('h_div', 'divconst', n=2, d=d, mode=0, op=1) for d in (1, 2, 3, 5, 6, 7, 8, 9, 10)]
     + [U('h_div', 'divconst', n=3, d=d, mode=0, op=0, dneg=0) for d in (3,)]
     + [U('h_div', 'divconst', n=3, d=d, mode=0, op=0, dneg=1) for d in (12, 13, 14, 15, 16, 17, 19, 20)]
     + [U('h_div', 'divmixed', n=2, op=0), U('h_div', 'divmixed', n=2, op=1), U('h_div', 'divleft', m=1), U('h_div', 'divsym', n=2, m=2, lz=0), U('h_div', 'divsym', n=3, m=3, lz=0)] + [U('h_run', 'divrun', n=n, m=m, **k) for n, m, k in ((4, 1, {}), (8, 1, {}), (16, 1, {}), (33, 1, {}), (5, 4, {}), (6, 2, {}), (8, 3, {}), (8, 8, {}), (9, 8, {}), (7, 9, {}), (12, 5, {}), (17, 2, {}), (17, 16, dict(dpat=0)), (6, 3, dict(at=1, bits=6)), (8, 3, dict(at=2, bits=6)))],
     [U('h_div', 'divconst', n=3, d=d, mode=0, op=0, dneg=0) for d in (1, 2, 5, 6, 7, 8, 9, 10)] + [U('h_div', 'divconst', n=4, d=d, mode=0, op=0, dneg=0) for d in (0, 3, 4, 11, 15, 16)] + [U("h_div", "divconst", n=3, d=18, mode=0, op=0, dneg=1)] + [U('h_div', 'divsym', n=2, m=2, lz=7), U('h_div', 'divsym', n=3, m=2, lz=0)])
prop('C05', f'numbers of up to 3 limbs, every shift distance 0..70 one by one (thorough 0..160), every larger distance for right shifts; {A}; 15 distances up to 400 for numbers of up to 24 limbs that are all ones, all zero or alternating but for three limbs of any value',
     sizes('h_shift', 'shl', [1, 2, 3], ('n',)) + sizes('h_shift', 'shr', [1, 2], ('n',)) + [U('h_shift', 'shr', n=3, lo=l, hi=h) for l, h in ((0, 17), (18, 32), (33, 50), (51, 64), (65, 98))]
     + sizes('h_shift', 'shrall', [0, 1, 2, 3], ('n',)) + [U('h_shift', 'shl', n=0, lo=0, hi=70), U('h_shift', 'shr', n=0), U('h_shift', 'shfree', n=2)] + [U('h_run', 'shiftrun', n=12, left=l, pat=p) for l in (0, 1) for p in (0, 1, 2)] + [U('h_run', 'shiftrun', n=n, left=l) for n in LENS if n <= 24 for l in (0, 1)],
     [U('h_shift', 'shl', n=3, lo=71, hi=160), U('h_shift', 'shl', n=4, lo=0, hi=130), U('h_shift', 'shr', n=4, lo=0, hi=60), U('h_shift', 'shr', n=4, lo=61, hi=130), U('h_shift', 'shfree', n=3)])
prop('C06', f'operands of up to 3 x 3 limbs (thorough 4 x 4), any values and signs, {A}; any int64; numbers of twelve lengths from 4 to 33 limbs that are all ones, all zero or alternating but for three limbs of any value',
     sizes('h_bits', 'bitassign', [(0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (3, 2), (2, 3), (3, 3)]) + [U('h_bits', 'bitfree', n=2, m=2), U('h_bits', 'bitmixed', n=2), U('h_bits', 'not', n=3)] + [U('h_run', 'bitrun', n=12, m=m) for m in (1, 11)] + [U('h_run', 'bitrun', n=n, m=m) for n in LENS for m in (2, n + 3)],
     sizes('h_bits', 'bitassign', [(4, 4), (4, 2), (2, 4)]) + [U('h_bits', 'bitfree', n=3, m=3), U('h_bits', 'not', n=4), U('h_bits', 'bitmixed', n=3)])
prop('C07', f'numbers of up to 3 limbs with any limb values, {A}; numbers of twelve lengths from 4 to 33 limbs, all ones, all zero or alternating but for three limbs of any value',
     [U('h_bits', 'notbits0'), U('h_bits', 'notbits', n=1), U('h_bits', 'notbits', n=2)] + [U('h_bits', 'notbits', n=3, mode=i) for i in range(6)] + [U('h_run', 'notbitsrun', n=n) for n in LENS], [U('h_bits', 'notbits', n=4, mode=i) for i in range(6)])
prop('C08', f'operands of up to 3 x 3 limbs, any values and signs, {A}; any int64; numbers of twelve lengths from 4 to 33 limbs, all ones, all zero or alternating but for three limbs of any value',
     sizes('h_cmp', 'cmp', [(0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)]) + [U('h_cmp', 'cmp', n=3, m=3, mode=i) for i in (0, 1, 2, 4)] + [U('h_cmp', 'cmpmixed', n=2), U('h_cmp', 'cmpmixed', n=3), U('h_cmp', 'cmpwindows', n=2)] + [U('h_run', 'cmprun', n=12, m=m) for m in (12, 11)] + [U('h_run', 'cmprun', n=n, m=m) for n in LENS for m in (n, n - 1)],
     [U('h_cmp', 'cmpwindows', n=3, t=300), U('h_cmp', 'cmpwindows', n=4, t=300), U('h_cmp', 'cmp', n=4, m=4), U('h_cmp', 'cmp', n=3, m=3)])
prop('C12', 'byte strings of every length 0..9 (thorough 0..14), any bytes, both byte orders, into a fresh number and into one with an earlier longer value; numbers of twelve lengths from 4 to 33 limbs, all ones, all zero or alternating but for three limbs of any value',
     sizes('h_conv', 'frombin', range(0, 10), ('len',)) + [U('h_run', 'exportrun', n=n) for n in LENS], sizes('h_conv', 'frombin', range(10, 15), ('len',)))
prop('C13', f'numbers of up to 3 limbs, every buffer size up to 4 bytes beyond, every block index; {A}; numbers of twelve lengths from 4 to 33 limbs, all ones, all zero or alternating but for three limbs of any value',
     sizes('h_conv', 'copymag', [0, 1, 2, 3], ('n',)) + sizes('h_conv', 'blocks', [0, 1, 2, 3], ('n',)) + [U('h_run', 'exportrun', n=n) for n in LENS], sizes('h_conv', 'copymag', [4], ('n',)) + sizes('h_conv', 'blocks', [4], ('n',)))
NHIST = 26
DPB = [0, 0, 31, 20, 15, 13, 12, 11, 10, 10, 9, 9, 8, 8, 8, 8, 7, 7, 7, 7, 7, 7, 7, 7] + [6] * 13
C14Q = (2, 3, 7, 8, 10, 11, 13, 16, 23, 24, 29, 32, 35, 36)
def parse(radix, ln, **k): return U('h_str', 'parse', radix=radix, len=ln, limbs=(ln * 6 + 31) // 32 + 2 if radix > 32 else (ln * 5 + 31) // 32 + 2, **k)
prop('C14', 'every radix with a numeral one digit longer than a conversion block (quick: 14 radices), 10, 16 and 36 with two and three blocks, any digits in fixed letter-case patterns (quick: in the other 21 radices all digits are fixed but one), both signs, 0 or 2 leading zeros; zero numerals of up to 12 digits in every radix; target in any earlier state',
     [parse(r, DPB[r] + 1, how=1, zeros=0) for r in C14Q] + [parse(10, 9), parse(16, 9), parse(36, 3), parse(10, 3), parse(10, 19, how=1, zeros=0, sign=2, o=['--lia-first']), parse(16, 17, how=0, zeros=0), U('h_str', 'parsezero')]
     + [U('h_str', 'fewdigits', lo=r, count=1, blocks=1, more=1, fill=1) for r in range(2, 37) if r not in C14Q],
     [U('h_str', 'fewdigits', lo=r, count=1, t=300) for r in range(2, 37)] + [parse(r, DPB[r] + 1, how=1, zeros=0) for r in range(2, 37) if r not in C14Q] + [parse(r, DPB[r], how=0, zeros=0) for r in range(2, 37)] + [parse(16, 25, how=1, zeros=0), parse(2, 70, how=1, zeros=0), parse(10, 19, how=1, zeros=0, o=['--lia-first'])])
prop('C15', 'every string of up to 2 bytes (thorough 4) in radices 2, 8, 10, 11, 16, 36; one arbitrary byte anywhere in a numeral of 20 digits (thorough more lengths and radices); every invalid radix',
     [U('h_str', 'anybytes', len=n) for n in (0, 1, 2)] + [U('h_str', 'anybytes', len=3, r=r, mode=1) for r in range(6)] + [U('h_str', 'onebad', radix=r, len=n) for r, n in ((10, 20), (16, 9), (36, 7), (2, 33), (8, 11))] + [U('h_str', 'badradix')],
     [U('h_str', 'anybytes', len=4, r=r, mode=1, t=600) for r in range(6)] + [U('h_str', 'onebad', radix=r, len=n) for r, n in ((10, 30), (16, 25), (36, 20), (35, 8), (3, 41), (11, 12))])
DIGS = [(10, n, 1, {}) for n in (1, 2, 3, 5, 6, 7, 8, 9)] + [(10, 10, 1, dict(top=3)), (10, 10, 2, {})] + [(10, n, 2, {}) for n in (11, 13, 16, 17, 18)] \
    + [(r, max(1, int(32 / math.log2(r)) - k), 1, {}) for r in (2, 3, 5, 7, 8, 12, 16, 17, 20, 23, 24, 29, 32, 35, 36) for k in (0, 1)] \
    + [(r, int(64 / math.log2(r)) - k, 2, {}) for r in (2, 4, 6, 7, 8, 11, 13, 16, 17, 20, 24, 29, 32, 33, 36) for k in (1, 3)]
prop('C16', 'numbers given by all their digits: below 2^64 in decimal up to 18 digits (every value), and in the other radices for numerals just below 2^32 and 2^64 (quick: about half of the radices); every number of one limb (thorough 3) in radices 4, 16, 32; longer numbers with blocks next to every power of the radix; each in several representation states',
     [U('h_str', 'tostrdigits', radix=r, len=l, n=n, **k) for r, l, n, k in DIGS] + [U('h_str', 'tostr', radix=r, n=1) for r in (2, 16)] + [U('h_str', 'tostr', radix=16, n=2)] + [U('h_str', 'tostrpad', radix=r, blocks=b) for r in range(2, 37) for b in (2, 3)],
     [U('h_str', 'tostrdigits', radix=r, len=l, n=n) for r in range(2, 37) for l, n in ((int(32 / math.log2(r)) - 1, 1), (int(64 / math.log2(r)) - 1, 2), (int(64 / math.log2(r)) - 2, 2))] + [U('h_str', 'tostr', radix=r, n=n) for r, n in ((16, 3), (4, 2), (32, 2), (8, 2), (2, 2))])
prop('C17', f'numbers of up to 3 limbs and every int64; {A}; numbers of twelve lengths from 4 to 33 limbs, all ones, all zero or alternating but for three limbs of any value',
     [U('h_conv', 'int64', n=3), U('h_conv', 'uint64', n=3), U('h_conv', 'as', n=3), U('h_conv', 'fromint')] + [U('h_run', 'intrun', n=n) for n in LENS], [U('h_conv', 'int64', n=4), U('h_conv', 'uint64', n=4), U('h_conv', 'as', n=4)])
prop('C18', f'numbers of up to 3 limbs, any values and signs; {A}; numbers of twelve lengths from 4 to 33 limbs, all ones, all zero or alternating but for three limbs of any value', [U('h_conv', 'preds', n=3)] + [U('h_run', 'predrun', n=n) for n in LENS], [U('h_conv', 'preds', n=4)])

# --- copies, aliasing, histories -----------------------------------------------------------------------------------
def cow(n, m, lo, hi, **k): return U('h_cow', 'cow', n=n, m=m, lo=lo, hi=hi, **k)
MUT = [(0, 2), (2, 3), (3, 5), (5, 8), (8, 12), (12, 16), (16, 26), (26, 31), (31, 33), (33, 37)]
prop('C10', f'each of the 37 mutating operations of the public interface applied to the original or to a copy made in four ways, with up to three further copies alive, followed by one more write on each side; two copies of a zero that came about in fourteen ways, each grown by ten operations; numbers of up to 2 limbs (thorough 3), other operand of up to 2 limbs; {A}; multiplication and division with fixed operands',
     [cow(2, 1, l, h) for l, h in MUT] + [cow(0, 1, 0, 16), cow(0, 1, 16, 37), cow(1, 0, 0, 8), cow(1, 2, 0, 8), cow(1, 2, 16, 37)]
     + [U('h_cow', 'zeros', n=1, lo=z, hi=z + 1, mode=z % 6) for z in range(14)],
     [U('h_cow', 'zeros', n=2, lo=z, hi=z + 1, t=400) for z in range(14)] + [cow(1, 2, 8, 16), cow(2, 2, 2, 4), cow(2, 2, 4, 5), cow(2, 2, 0, 2), cow(2, 2, 5, 8), cow(3, 2, 8, 16), cow(3, 2, 16, 26), cow(3, 2, 26, 37), cow(3, 2, 0, 2), cow(3, 2, 5, 8), cow(1, 0, 8, 37)])
prop('C11', f'x op= x and x op= (copy sharing its storage) for the ten compound operations, x = x op x for the free operators, BigIntegerImpl::mul, div, divideAssignAndReminder and modAssignAndQuotient with their results among the operands (nine divisors of one to three limbs); numbers of up to 2 limbs (thorough 3); {A}',
     [U('h_cow', 'alias', n=i) for i in (0, 1)] + [U('h_cow', 'alias', n=2, copy=i) for i in (0, 1)] + [U('h_cow', 'aliasfree', n=i) for i in (0, 1, 2)] + [U('h_cow', 'aliasimpl', n=2, m=1), U('h_cow', 'aliasimpl', n=1, m=2), U('h_cow', 'aliasimpl', n=2, m=2)] + [U('h_div', 'divalias', n=i) for i in (1, 2)] + [U('h_div', 'divself', n=i) for i in (1, 2)],
     [U('h_cow', 'alias', n=3, copy=i, mode=m) for i in (0, 1) for m in range(6)] + [U('h_cow', 'aliasfree', n=3)])
def canon(n, m, lo, hi, **k): return U('h_hist', 'canon', n=n, m=m, lo=lo, hi=hi, **k)
prop('C09', f'the result of each of the 37 mutating operations and of the free operators on numbers of up to 2 limbs (thorough 3), second operand of up to 2 limbs, {A}, compared with a freshly built number of the same value by comparison, predicates, exports, blocks and three further operations; text comparison for one-limb numbers',
     [canon(1, 1, l, h, **k) for l, h in ((0, 3), (3, 8), (16, 30), (30, 37)) for k in ({},)] + [canon(1, 1, 8, 16, mode=4), canon(0, 1, 0, 37, mode=0)] + [canon(2, 1, 0, 2), canon(2, 2, 5, 8, mode=4), canon(2, 1, 8, 10, mode=3), canon(2, 1, 13, 16, mode=2), canon(2, 1, 10, 13, mode=4), canon(2, 1, 16, 30), canon(1, 2, 30, 37), U('h_hist', 'canonfree', n=2, m=1), U('h_hist', 'canonfree', n=1, m=1)] + [canon(1, 1, l, h, text=1, mode=0) for l, h in ((0, 2), (19, 30), (30, 33))],
     [canon(2, 1, 2, 5, mode=4), canon(3, 1, 26, 30), canon(3, 2, 0, 2, mode=2), canon(3, 2, 5, 8, mode=4), canon(2, 1, 8, 10), canon(2, 1, 13, 16), canon(2, 2, 5, 8), U('h_hist', 'canonfree', n=2, m=2)])
prop('C19', f'every ordered pair of 22 queries (predicates, blocks, exports, text, comparisons, free operators) on an original and on a copy, each repeated; numbers of up to 2 limbs; {A}',
     [U('h_hist', 'queries', n=1, lo=l, hi=h) for l, h in ((0, 5), (5, 11), (12, 17), (17, 22))] + [U('h_hist', 'queries', n=1, lo=11, hi=12, mode=4)] + [U('h_hist', 'queries', n=0, mode=0)] + [U('h_hist', 'queries', n=2, lo=l, hi=h, mode=4) for l, h in ((0, 5), (5, 8), (8, 11), (12, 15), (15, 18), (18, 19), (19, 20), (20, 22))],
     [U('h_hist', 'queries', n=2, lo=l, hi=h) for l, h in ((0, 5), (5, 8), (8, 11), (11, 12), (12, 17), (17, 22))])
def hist(**k): return U('h_hist', 'history', **k)
LO = [(0, 1), (1, 2), (2, 5), (5, 8), (8, 11), (11, 15), (15, 18), (18, 22), (22, 26)]
prop('C20', f'every sequence of two operations out of 26 (quick also three for selected first and second operations; thorough every sequence of three) on two numbers of one limb (thorough two) with any values, {A}',
     [hist(n=1, steps=2, lo=l, hi=h) for l, h in LO] + [hist(n=1, steps=2, mode=4, both=1, lo=l, hi=h) for l, h in LO] + [hist(n=2, steps=2, mode=4, lo=l, hi=h) for l, h in ((2, 5), (5, 6), (8, 9), (9, 10), (16, 18), (25, 26))]
     + [hist(n=1, steps=3, mode=4, lo=l, hi=l + 1, lo2=l2, hi2=l2 + 1) for l in (3, 4, 7, 9, 16, 24) for l2 in (1, 2, 5, 8, 13, 25)],
     [hist(n=1, steps=3, mode=4, lo=l, hi=l + 1, t=400) for l in range(2, NHIST)] + [hist(n=2, steps=2, lo=l, hi=h, t=400) for l, h in LO])
prop('C37', f'move construction and assignment, swap, self-swap, vectors, and every later use of a moved-from number; numbers of up to 2 limbs; {A}',
     [U('h_cow', 'move', n=2, m=1), U('h_cow', 'move', n=1, m=2)] + [U('h_cow', 'implmove', n=a, m=b) for a, b in ((2, 2), (0, 1), (1, 2))], [U('h_cow', 'move', n=3, m=2)])

# --- building blocks, C interface, status ----------------------------------------------------------------------------
prop('C32', 'every sequence of two and three (thorough four) of the Slice operations on slices of up to 3 elements with up to 3 elements before and 2 behind the window, any element values; one or two operations on one of two slices that share storage',
     [U('h_slice', 'seq', steps=1, idx=1)] + [U('h_slice', 'seq', steps=2, idx=1, lead=l) for l in range(4)] + [U('h_slice', 'shared', steps=1, idx=1, how=h, lead=1, tail=1) for h in range(5)] + [U('h_slice', 'seq', steps=3, lead=l) for l in range(4)] + [U('h_slice', 'shared', steps=1)] + [U('h_slice', 'shared', steps=2, how=h) for h in range(5)] + [U('h_slice', 'grow')],
     [U('h_slice', 'seq', steps=4, t=600)])
prop('C34', 'the nine kinds of argument with every value of the integer types, five texts, widths up to 6 and limits at the edge of the buffers; two references into twelve arguments; every format text of up to 4 (thorough 5) characters over {, }, 0, 1, :, a; arbitrary bytes around the brackets',
     [U('h_util', 'fmtargs'), U('h_util', 'fmtmany'), U('h_util', 'fmtextreme'), U('h_util', 'fmtwidth')] + [U('h_util', 'fmttext', len=n) for n in (0, 1, 2, 3, 4)] + [U('h_util', 'fmtbytes', len=n) for n in (1, 2)],
     [U('h_util', 'fmttext', len=n) for n in (5, 6)] + [U('h_util', 'fmtbytes', len=n) for n in (3, 4)])
prop('C35', 'texts of up to 3 (thorough 5) arbitrary bytes, every sequence of 4 (thorough 6) operations, text kept or gone after construction',
     [U('h_util', 'stream', len=l, steps=s) for l, s in ((0, 3), (1, 4), (2, 4), (3, 4))], [U('h_util', 'stream', len=5, steps=6)])
prop('C36', 'every history of 3 (thorough 4) registrations, moves and lookups over 5 names; names of up to 2 arbitrary bytes',
     [U('h_util', 'table', steps=s, names=5) for s in (1, 2, 3)] + [U('h_util', 'names', na=a, nb=b, nq=q) for a in (0, 1) for b in (0, 1) for q in (0, 1, 2)],
     [U('h_util', 'table', steps=4, names=5), U('h_util', 'names', t=300)])
CR = [(0, 2), (2, 5), (5, 8), (8, 10), (10, 13), (13, 16), (16, 17), (17, 18), (18, 27)]
prop('C30', 'each function of the C interface against the C++ operation it stands for, on numbers of up to 2 limbs (thorough 3) in every representation state with any values, handles aliased or not; byte strings of up to 6 bytes; two error histories',
     [U('h_capi', 'ops', n=n, m=1, lo=l, hi=h) for n in (1, 2) for l, h in CR] + [U('h_capi', 'ops', **{'self': 1}, n=1, m=0, lo=l, hi=h) for l, h in CR[:3]]
     + [U('h_capi', 'queries', n=2, m=1), U('h_capi', 'queries', n=2, m=2), *[U('h_capi', 'queries', n=a, m=b, lo=l, hi=h) for a, b in ((3, 1), (4, 3)) for l, h in ((0, 2), (2, 4), (4, 5), (5, 6), (6, 7), (8, 9))], U('h_capi', 'queries', n=0, m=1), U('h_capi', 'import'), U('h_capi', 'import', len=6, slen=2), U('h_capi', 'status')],
     [U('h_capi', 'ops', n=2, m=2, lo=l, hi=h, t=300) for l, h in CR] + [U('h_capi', 'queries', n=3, m=2, t=300)])
prop('C31', 'every documented failing operation (text of up to 3 arbitrary bytes in nine radices, conversions of numbers of up to 3 limbs with any values, the 14 ways to divide by zero, fractions), each after three earlier states; every history of 3 (thorough 4) uses of the status; every error code',
     [U('h_status', 'text', len=n) for n in range(4)] + [U('h_status', 'convert', n=n) for n in (1, 2, 3)] + [U('h_status', x) for x in ('divzero', 'divexit', 'fraction', 'history', 'defaults')],
     [U('h_status', 'history', steps=4, t=300), U('h_status', 'text', len=4, t=300)])
def fa(op, hi, **k): return U('h_frac', 'arith', op=op, hi=hi, **k)
prop('C27', 'fractions with numerators and denominators of any value up to 5 (thorough 7) and every sign combination for the four operations, up to 31 (thorough 255) for construction and reduction; whole numbers and reciprocals of whole numbers of up to 3 limbs with any values; two pairs of multi-limb values',
     [U('h_frac', 'gcd', hi=31), U('h_frac', 'make', hi=31)] + [fa(op, 4, sb=b, sd=d) for op in (0, 1, 2, 3) for b, d in ((1, 1), (0, 1), (1, 0))] + [fa(4, 7)] + [U('h_frac', 'long', pair=3, hi=3), U('h_frac', 'long', pair=1, hi=3)] + [U('h_frac', 'whole', n=n, m=m) for n, m in ((0, 1), (1, 1), (2, 1), (1, 2), (2, 2), (3, 2))],
     [U('h_frac', 'gcd', hi=255, t=300)] + [fa(op, 7, sb=1, sd=1, t=600) for op in range(4)])
prop('C28', 'text of fractions with parts of any value up to 10 (thorough 15) in nine radices (up to 24 in radix 16), of whole numbers and their reciprocals of up to two limbs of any value in radix 2, 4, 16 and 32; decimal expansion of 0 to 3 and 8 places of any numerator up to 31 over every denominator up to 12',
     [U('h_frac', 'text', hi=10, radix=r) for r in range(9)] + [U('h_frac', 'text', hi=24, radix=6)] + [U('h_frac', 'wholetext', n=n, radix=r) for n in (1, 2) for r in range(4)] + [U('h_frac', 'decimal', hi=31, k=k) for k in (0, 1, 2, 3)] + [U('h_frac', 'decimal', hi=31, k=8, dens=8), U('h_frac', 'decimal', hi=100, k=2, den=7)],
     [U('h_frac', 'text', hi=15), U('h_frac', 'decimal', hi=100, k=4, dens=12, t=300), U('h_frac', 'decimal', hi=31, k=12, dens=12, t=600)])

# --- expressions (the build without debug output: the same functions without the printing of tokens) -------------------
def ev(unit, **k): return U('h_eval', unit, **{**dict(c='release'), **k})
prop('C21', 'one binary operator with every prefix on either operand; two operators in every combination and bracketing; up to 2 prefixes and one suffix next to every operator; seven shapes of conditionals with every operator; sequences and nests of 18 and 34 operands and of 40 prefixes; operands of any value in a range (up to +-100), in expressions of three and more operands one operand at a time; up to two blanks between the tokens',
     [ev('two', op=o, status=0) for o in range(17)] + [ev('three', op1=o, status=0, sets=1, range=8) for o in range(17)] + [ev('unary', prefixes=p, status=0, sets=1, range=4) for p in (0, 1)] + [ev('unary', prefixes=2, status=0, sets=1, range=3, side=i) for i in (0, 1)]
     + [ev('cond', shape=i, status=0) for i in range(7)] + [ev('many', operands=n, form=f, status=0, sets=1, range=8) for n in (18, 34) for f in (0, 1)] + [ev('many', operands=40, form=f, status=0, sets=1) for f in (2, 3)] + [ev('two', op=o, prefix=1, blanks=1, status=0, range=2) for o in (7, 9, 16)] + [ev('two', op=5, prefix=3, c='debug', status=0)],
     [ev('three', op1=o, sets=3, range=12, t=300) for o in range(17)] + [ev('unary', prefixes=p, status=0, sets=2, t=400) for p in (2, 3)] + [ev('two', op=o, range=60, t=300) for o in (13, 14, 15, 16)])
prop('C22', 'decimal literals of up to 10 (thorough 20) digits of any value, 0x up to 9, octal up to 6, 0NNx and 0Nx in 12 (thorough all) radices up to 6, letters in fixed places in both cases, in three contexts; one digit of any wrong value anywhere; every prefix of one or two digits',
     [ev('literal', radix=10, len=l, form=0) for l in (1, 2, 4, 9, 10)] + [ev('literal', radix=16, len=l, form=1) for l in (1, 4, 8, 9)] + [ev('literal', radix=16, len=8, form=1, pat=0xffff)] + [ev('literal', radix=8, len=l, form=2) for l in (1, 2, 3, 4, 6)]
     + [ev('literal', radix=r, len=l, form=3) for r in (10, 11, 12, 16, 17, 24, 35, 36) for l in (1, 3, 6)] + [ev('literal', radix=r, len=l, form=4) for r in (2, 3, 8, 9) for l in (1, 5)] + [ev('literal', radix=r, len=5, form=3, pat=p) for r in (34, 36) for p in (0xffff, 0x5555)]
     + [ev('literal', radix=r, len=4, form=3) for r in range(2, 10)]
     + [ev('baddigit', radix=r, len=l, form=f) for r, l, f in ((10, 3, 0), (10, 9, 0), (16, 3, 1), (16, 1, 1), (8, 3, 2), (8, 5, 2), (12, 3, 3), (35, 2, 3), (2, 3, 4), (9, 4, 4), (2, 3, 3))] + [ev('radixprefix')],
     [ev('literal', radix=10, len=l, form=0, t=300) for l in (15, 18, 19, 20)] + [ev('literal', radix=r, len=7, form=3, t=200) for r in range(10, 37)] + [ev('baddigit', radix=r, len=3, form=3) for r in range(2, 36)])
prop('C23', 'every sequence of up to 3 tokens (four for six first tokens; thorough 4, and 5 for four of them) out of 17 kinds that stand for every grammatical role; every text of up to 2 bytes, three bytes after ten first bytes (thorough all of 3, 4 after these); every radix prefix and one digit of any wrong value in five notations; the caller gives a status or not; text exactly as long as stated and not zero-terminated',
     [ev('tokens', n=n) for n in (1, 2, 3)] + [ev('tokens', n=4, first=f, status=0) for f in (0, 2, 4, 6)] + [ev('bytes', len=n) for n in (0, 1, 2)] + [ev('bytes', len=3, head=h, status=0) for h in range(10)] + [ev('tokens', n=2, c='debug'), ev('names', len=2), ev('bytes', len=1, c='debug'), ev('radixprefix'), ev('radixprefix', c='debug')] + [ev('baddigit', radix=r, len=l, form=f) for r, l, f in ((10, 3, 0), (16, 2, 1), (8, 3, 2), (12, 3, 3), (9, 3, 4))],
     [ev('tokens', n=4, first=f, t=300) for f in range(17)] + [ev('tokens', n=5, first=f, status=0, t=800) for f in (0, 2, 4, 6)] + [ev('bytes', len=3, t=600)] + [ev('bytes', len=4, head=h, status=0, t=600) for h in range(10)])
prop('C24', 'functions of 0 to 3 arguments of any 32-bit magnitude declared with -1 to 4 arguments, results of any 32-bit value, arguments in four forms; eight shapes of nested calls; every name of one and two characters against five bindings',
     [ev('call'), ev('nested'), ev('names', len=1), ev('names', len=2), ev('call', c='debug', args=1, status=0), ev('call', c='debug', args=2, status=0, form=0, declared=3)],
     [ev('names', len=3, t=300)])

# divide-and-conquer multiplication: one factor of patterns, the other of patterns with one limb of any value, so that the questions stay linear
def ka(unit, **k): return U('h_kara', unit, **{**dict(c='kara'), **k})
prop('C03', 'with the size threshold lowered to 2 by the hook: factors of 2 to 4 limbs (thorough 6), balanced or not, both from seven patterns (ones everywhere, powers of the base, zero halves, zeros in between, dense) with both signs, and one limb of one factor of any 32-bit value against the patterns with few bits, any 4 bits of a limb (thorough 8) against the dense ones; all forms of the product, into either factor too; squares up to 6 limbs; with the real threshold: 80 to 83 limbs, one limb of any value',
     [ka('square', n=n) for n in (2, 3, 4, 5, 6)]
     + [ka('kara', n=n, m=m, pats=1, op=0) for n, m in ((2, 2), (2, 3), (3, 3))] + [ka("kara", n=3, m=2, pats=1, op=0, pata=p) for p in (0, 1, 2, 4, 5, 6)] + [ka("kara", n=3, m=2, pats=1, op=0, pata=3, at=1)] + [ka('kara', n=4, m=3, pats=1, op=0, pata=p) for p in (1, 4, 5)]
     + [ka('kara', n=2, m=2, pats=2, op=0, pata=p, bits=4, shift=h) for p in (0, 3, 5) for h in (0, 3, 7)]
     + [ka('kara', n=n, m=m, pats=2, op=0, pata=p, bits=4, shift=h, at=a) for n, m in ((3, 2), (2, 3), (3, 3)) for p, a, h in ((0, 0, 0), (5, 0, 7), (0, 1, 7))] + [ka('kara', n=4, m=3, pats=2, op=0, pata=0, bits=4, shift=0, at=0)]
     + [ka('kara', n=2, m=2, pats=1, op=o, at=1) for o in range(1, 6)] + [ka('kara', n=3, m=2, pats=1, op=o, at=2, pata=p) for o in range(1, 6) for p in (1, 4)] + [ka('kara', n=3, m=2, pats=2, op=o, pata=5, bits=4, at=0, shift=7) for o in range(1, 6)]
     + [ka('long', c='release', n=n, m=m, pata=a, pat=1, at=at) for n, m, a, at in ((80, 80, 0, 40), (80, 80, 3, 0), (81, 80, 2, 79), (80, 83, 4, 0), (83, 80, 5, 41))] + [ka('long', c='release', n=80, m=80, pata=1, pat=4, at=0, op=2), ka('long', c='release', n=80, m=79, pata=0, pat=1, at=5)]
     + [ka('kara', c='release', n=2, m=3, pats=1, op=0, bits=4, shift=7)],
     [ka('kara', n=n, m=m, pats=1, op=0, pata=p, t=500) for n, m in ((4, 3), (3, 4), (4, 4), (5, 2), (2, 5), (5, 4), (6, 5)) for p in range(7)] + [ka('kara', n=n, m=m, pats=2, op=0, pata=p, bits=4, shift=h, t=500) for n, m in ((3, 2), (2, 3), (3, 3), (4, 3), (4, 4)) for p in (0, 3, 5) for h in (0, 7)]
     + [ka('kara', n=2, m=2, pats=2, op=0, pata=p, bits=8, shift=h, t=500) for p in range(7) for h in (0, 3)])

# threads: real threads cannot be forced into the recorded schedule, see check.py
CONCURRENT = ('h_conc',)
def th(unit, pre, spur=0, **k): return U('h_conc', unit, **{**dict(preempt=pre, spurious=spur, c='release', o=['--threads', '--atomics', '--preempt', str(pre)] + (['--spurious', str(spur)] if spur else [])), **k})
prop('C25', 'sixteen shapes of expressions of up to seven nodes with constants, nested calls and conditionals; constants of any value in a range, of any sign with one worker or none, positive or (conditionals) not negative with two; one worker with up to 1 preemption (thorough 2), two workers with up to 1 preemption for the shapes of up to four nodes and none for the others (thorough 1), 0 to 2 reported processors; seventeen operands in sequence with one worker; functions that throw; two threads that evaluate or use one number at the same time with up to 2 preemptions; scheduling points are mutex, condition, future and atomic operations, memory is sequentially consistent with races reported',
     [th('peval', 0, threads=0, shape=i) for i in range(16)] + [th('peval', 0, threads=1, shape=i) for i in (0, 2, 4, 6, 8)] + [th('peval', 1, threads=1, shape=i, signs=0) for i in range(13)]
     + [th('peval', 1, threads=2, shape=i, signs=0) for i in (0, 1, 2, 3, 6, 8, 10)] + [th('peval', 0, threads=2, shape=i, signs=0) for i in (4, 5, 7, 9, 11, 12)]
     + [th('peval', 0, threads=3, shape=2, signs=0, hardware_concurrency=n) for n in (0, 1, 2)] + [th('evals', 1, how=i) for i in range(4)] + [*[th('peval', p, threads=t, shape=i, signs=2) for i in (6, 7, 13, 14, 15) for p, t in ((1, 1), (0, 2))], th('peval', 0, 1, threads=2, shape=2, signs=0), th('peval', 0, threads=1, shape=16, signs=0, t=100), th('thrown', 0, threads=2), th('thrown', 1, threads=1), th('thrown', 0, threads=0), th('peval', 0, threads=2, shape=2, signs=0, c='debug')],
     [th('peval', 1, threads=2, shape=i, signs=0, t=800) for i in (4, 5, 7, 9, 11, 12)] + [th('peval', 2, threads=1, shape=i, signs=0, t=600) for i in range(13)] + [th('peval', 2, threads=2, shape=i, signs=0, t=800) for i in (0, 2, 6, 8)] + [th('thrown', 2, threads=t) for t in (1, 2)] + [th('evals', 2, how=i, t=300) for i in range(4)])
prop('C26', 'one to three workers, up to 3 tasks of any value, futures asked before, in reverse, only waited for, or after the shutdown; a task that submits a task; a task that waits for a later one; two submitting threads; a task that throws; the queue with up to 2 producers, 2 consumers and 2 values each; up to 2 preemptions (thorough 3) and one spurious wake-up; scheduling points are mutex, condition, future and atomic operations, memory is sequentially consistent with races reported',
     [th('pool', 3, threads=0, tasks=n, how=h) for n in (0, 1, 2) for h in range(4) if n or not h] + [th('pool', 2, threads=1, tasks=n, how=h) for n in (0, 1, 2) for h in (0, 2, 3) if n or not h] + [th('pool', 1, threads=1, tasks=2, how=1)]
     + [th('pool', 1, threads=1, tasks=3, how=h) for h in (0, 3)] + [th('pool', 1, threads=2, tasks=n, how=0) for n in (0, 1)] + [th('pool', 0, threads=2, tasks=2, how=0), th('pool', 0, threads=2, tasks=3, how=3)]
     + [th('pool', 1, 1, threads=0, tasks=2, how=h) for h in (0, 3)] + [th('pool', 1, 1, threads=1, tasks=1, how=0)]
     + [th('nestedtask', 2, threads=t) for t in (0, 1)] + [th('submitters', 2, threads=0, tasks=0), th('submitters', 1, threads=1, tasks=0), th('submitters', 1, threads=0, tasks=1)]
     + [th('throwing', 2, threads=t) for t in (0, 1)] + [th('dependent', 0), th('dependent', 1, warm=0), th('dependent', 1, warm=1), th('order', 2), th('push', 0), th('pool', 1, threads=1, tasks=1, how=0, c='debug')]
     + [th('queue', 2, 1, producers=p, consumers=c, each=0) for p in (0, 1) for c in (0, 1)] + [th('queue', 1, producers=1, consumers=1, each=1), th('queue', 1, 1, producers=0, consumers=1, each=1)],
     [th('pool', 3, threads=1, tasks=n, how=h, t=600) for n in (1, 2) for h in range(4)] + [th('pool', 2, threads=2, tasks=n, how=0, t=600) for n in (0, 1, 2)] + [th('pool', 1, threads=2, tasks=n, how=h, t=600) for n in (2, 3) for h in (0, 3)]
     + [th('submitters', 2, threads=1, tasks=t, t=800) for t in (0, 1)] + [th('queue', 2, 1, producers=1, consumers=1, each=1, t=600)])

# undefined behaviour: the units of the other properties over the library built with UBSan traps and the checks of the standard library; their own assertions are passed over
HEAVY = ('C09', 'C10', 'C19', 'C27', 'C28')
def ubunits(tier):
    seen, out = set(), []
    for pid in [p for p in PROPS if p not in ('C25', 'C26')]:
        lst = PROPS[pid]['quick'] if tier == 'quick' else PROPS[pid]['quick'] + PROPS[pid].get('thorough', [])
        for d in lst:
            p = d.get('p', {})
            if d.get('c') == 'kara' or d['h'] in CONCURRENT: continue
            if tier == 'quick' and (pid in ('C19', 'C10') and p.get('n') == 2 and p.get('mode', 4) == 4 and p.get('lo') not in (0, 8, 19) or pid == 'C19' and p.get('n') == 2
                                    or pid == 'C09' and (p.get('n') == 2 or p.get('mode') == 4) and p.get('lo', 0) >= 8 or pid == 'C27' and (p.get('sb') != 1 or p.get('op', 0) in (1, 3) or p.get('pair') == 1)
                                    or pid == 'C28' and (p.get('k', 0) in (2, 8) or p.get('hi') == 10) or pid == 'C32' and p.get('steps') == 2 and p.get('how') in (2, 3)
                                    or pid == 'C21' and d['u'] == 'two' and p.get('op') == 14 or p.get('len') == 19 and p.get('limbs') == 5): continue
            k = (d['h'], d['u'], tuple(sorted(p.items())))
            if k in seen: continue
            seen.add(k)
            out.append({**d, 'c': 'ub', 'o': list(d.get('o', [])) + ['--ub-only', '--samples', '1']})
    return out
prop('C33', 'every call that the units of the other sequential properties make, within the bounds stated there (quick: all but the longest 40 of about 700 units), over the library compiled with UBSan traps (arithmetic, shifts, bounds, null, pointer arithmetic, enum and bool values, builtins) and the preconditions of the standard library; every access is checked against the object it belongs to, its lifetime and its initialisation', ubunits('quick'), [])
PROPS['C33']['thorough'] = [u for u in ubunits('thorough') if u['p'] is not None and (u['h'], u['u'], tuple(sorted(u['p'].items()))) not in {(x['h'], x['u'], tuple(sorted(x['p'].items()))) for x in PROPS['C33']['quick']}]
