LIBS = ['std', 'regex', 'escfmt']
def setup(ck):
    O = ['--maxinstr', '40000000000', '--pathinstr', '40000000']
    h = ck.harness('regexs', 'lib/regexs.myr', 'lib/regexs_ref.c', ('std', 'regex', 'escfmt'))
    ck.case(h, 1, 'malformed patterns', '33 of them', expect=[17], opts=O)
    ck.case(h, 2, 'patterns of any ASCII characters', 'every pattern of 1..2 bytes, every ASCII text of one byte', expect=[15, 16], time=200, opts=O)
    ck.case(h, 3, 'escaped strings', 'every ASCII character, texts up to 2 bytes', expect=[18], time=200, opts=O)
    ck.case(h, 5, 'substitution', '9 patterns, every ASCII text up to 3 bytes', expect=[19, 20, 21, 22], time=200, opts=O)
    ck.case(h, 6, 'substitution of empty matches ends', '6 patterns, every ASCII text up to 3 bytes', expect=[23], time=200, opts=O)
    A = 'over a b | * + ? ( ) . ^ $ [ ] - \\ d, every ASCII text of 2 bytes'
    ck.case(h, 7, 'patterns', 'every one of 1 byte ' + A, expect=[15, 16], time=200, opts=O)
    ck.case(h, 8, 'patterns', 'every one of 2 bytes ' + A, expect=[15, 16], time=200, opts=O)
    for i in range(10):
        ck.case(h, 20 + i, 'matching, patterns %d..%d' % (10 * i, 10 * i + 9), 'every text up to 3 bytes', expect=[1, 3], time=250, opts=O)
        ck.case(h, 30 + i, 'searching, patterns %d..%d' % (10 * i, 10 * i + 9), 'every ASCII text up to 3 bytes', expect=[11, 13], time=250, opts=O)
    for i in range(7):
        ck.case(h, 50 + i, 'character ranges', 'ranges between 21 characters, every text of 4 bytes', expect=[1, 3], time=250, opts=O)
    if ck.thorough():
        ck.case(h, 4, 'escaped strings', 'every 2 ASCII characters, texts up to 3 bytes', expect=[18], time=850, opts=O)
        ck.case(h, 9, 'substitution', '9 patterns, every ASCII text of 4 bytes', expect=[19, 20, 21, 22], time=850, opts=O)
        for i in range(10): ck.case(h, 40 + i, 'patterns %d..%d' % (10 * i, 10 * i + 9), 'every text up to 4 bytes', expect=[1, 3], time=850, opts=O)
        for i in range(7): ck.case(h, 57 + i, 'character ranges', 'ranges between 21 characters, every text of 3 bytes', expect=[1, 3], time=850, opts=O)
        for i in range(16): ck.case(h, 64 + i, 'patterns', 'every one of 3 bytes ' + A, expect=[15, 16], time=850, opts=O)
