LIBS = ['std']
def setup(ck):
    O = ['--maxinstr', '40000000000', '--pathinstr', '400000000']
    h = ck.harness('flts', 'lib/flts.myr', 'lib/flts_ref.c')
    ck.case(h, 1, 'bits, explode, assem, isnan', 'every 64 and 32 bit pattern', expect=[1, 2, 3, 4, 5, 6, 7, 9], time=200)
    ck.case(h, 2, 'isnan of flt32', 'every 32 bit pattern', expect=[8], time=200)
    ck.case(h, 3, 'denormals are rounded to nearest', 'every significand, exponents down to 65 below the smallest', expect=[10, 11], time=200)
    ck.case(h, 4, 'accepted strings', 'every ASCII string up to 2 bytes', expect=[12, 13], time=200, opts=O)
    ck.case(h, 5, 'accepted strings over 0 1 . e E + - _', 'every string up to 4 bytes', expect=[12, 13], time=200, opts=O)
    ck.case(h, 6, 'infinities and NaN', 'all spellings', expect=[14], opts=O)
    ck.case(h, 7, 'integers', 'three digits behind 6 prefixes', expect=[17], time=200, opts=O)
    for k in range(7): ck.case(h, 20 + k, 'decimal templates %d..%d' % (5 * k, 5 * k + 4), 'two digits, both signs, 5 templates', expect=[15, 16], time=250, opts=O)
    R = [18, 19]
    ck.case(h, 8, 'formatting round trip', '2 free bits of 5 significands, 8 exponents', expect=R, time=250, opts=O)
    ck.case(h, 9, 'formatting round trip', '2 free bits of 5 significands, 6 exponents', expect=R, time=250, opts=O)
    ck.case(h, 10, 'formatting round trip, extreme exponents', '1 free bit of 5 significands, 5 exponents', expect=R, time=250, opts=O)
    ck.case(h, 11, 'formatting round trip of flt32', '2 free bits of 5 significands, 10 exponents', expect=[20, 21], time=250, opts=O)
    ck.case(h, 12, 'short decimals', 'every d.d', expect=[22], time=250, opts=O)
    ck.case(h, 13, 'infinities, NaN and zeros', 'all', expect=[23], time=250, opts=O)
    if ck.thorough(): ck.case(h, 14, 'formatting round trip', '4 free bits of 5 significands, 7 exponents', expect=R, time=850, opts=O)
