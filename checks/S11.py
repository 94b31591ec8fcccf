LIBS = ['std']
def setup(ck):
    h = ck.harness('bigs', 'lib/bigs.myr', 'lib/bigs_ref.c')
    C = lambda n, t, b, e, **k: ck.case(h, n, t, b, expect=e, time=k.pop('time', 150), opts=['--pathinstr', '40000000', '--maxinstr', '2000000000'], **k)
    C(1, 'bigadd, bigsub', 'every pair of numbers of 0..2 digits (64 bits), all signs', (1, 2, 3))
    C(2, 'operands that are the same object', 'every number of 0..2 digits', (4, 5, 6))
    C(3, 'bigmul', 'every pair of numbers of 0..2 digits, all signs', (10, 11))
    C(4, 'shifts', 'every number of 0..3 digits, shifts 0..100', range(30, 34))
    C(5, 'comparisons and predicates', 'every pair of numbers of 0..2 digits', range(40, 47))
    C(6, 'operations with integers', 'every value of 8 integer types with every number of 0..2 digits (products: 8 and 16 bit integers with one digit)', range(50, 59))
    C(7, 'bigand, bigor', 'every pair of non-negative numbers of 0..3 digits', (60, 61))
    C(8, 'bigfrombytes', 'every 0..13 bytes', (65,))
    C(9, 'dup, assign, move, steal, clear', 'every pair of numbers of 0..2 digits', range(70, 80))
    D = range(20, 28)
    C(10, 'division by one digit', 'dividends of 1..3 digits, all edge digits, all signs', D)
    C(11, 'division of three by two digits', 'all edge digits', D)
    C(12, 'division by as many or more digits', 'edge digits, all signs', D)
    C(13, 'division by one digit, free low bits', 'edge digits, 4 free bits', D)
    C(14, 'division by two digits, free low bits', 'edge digits, 8 free bits', D)
    C(15, 'division of four by two digits', '4 edge digits each', D)
    C(16, 'division of four by three digits', '3 edge digits each', D)
    T = range(80, 86)
    C(20, 'bigbfmt base 16', '9 free bits of one digit, 4 of each of two digits', T)
    C(21, 'bigbfmt base 8', '10 free bits of one digit, 4 of each of two digits', T)
    C(22, 'bigbfmt base 10', 'every number below 1024', T)
    C(23, 'bigbfmt base 36', 'every number below 1024', T)
    for k, b in ((30, 16), (31, 8), (32, 2), (33, 10)): C(k, 'bigparse base %d' % b, 'strings of up to 6 digits, the first two arbitrary ASCII', range(90, 93))
    C(34, 'bigparse base 16, two digits', '0xffffffff followed by up to 4 characters', range(90, 93))
    C(40, 'bigmodpow', 'bases 0..12 (and multiples of 0x123456789), exponents 0..9, moduli 1..11', (95, 96))
    for k, a, b in ((41, 64, 64), (42, 100, 70), (43, 130, 65)): C(k, 'products of %d by %d digits' % (a, b), '128 digit patterns', (98, 99))
    if ck.thorough():
        C(50, 'bigadd, bigsub of three digits', 'every pair of numbers of 0..3 digits', (1, 2, 3), time=800)
        C(51, 'bigmul of three digits', 'every pair of numbers of 0..3 digits', (10, 11), time=800)
