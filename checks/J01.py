LIBS = ['std', 'json']
def setup(ck):
    h = ck.harness('jsons', 'lib/jsons.myr', 'lib/jsons_ref.c', ('std', 'json'))
    O = ['--maxinstr', '40000000000', '--pathinstr', '400000000']
    S = 'every structural character in 2..4 places'
    what = {}
    for k in (0, 1): what[k] = ('any text', 'every ASCII text of %d bytes' % (k + 1))
    for k in (2, 6, 45, 54): what[k] = ('strings', 'every string of up to 4 bytes')
    for k in (3, 4, 5, 7, 49, 50, 53, 56, 61): what[k] = ('escapes', 'every escape, and surrogate pairs with any digit in two places')
    for k in (8, 9, 10, 11, 12, 13, 14, 15, 46, 47, 48, 52, 55, 57): what[k] = ('structure', 'texts up to 5 characters over {}[]:,"\\ 1-an, and inside objects and arrays')
    for k in (16, 17, 18, 19, 21, 22, 23): what[k] = ('numbers', 'every text of up to 4 characters over digits - + . e E and space')
    for k in list(range(24, 39)) + [51]: what[k] = ('keywords', 'any character in one place')
    for k in range(39, 45): what[k] = ('white space', 'any character between tokens')
    for k, (t, b) in sorted(what.items()):
        ck.case(h, k, '%s, text %d' % (t, k), b, expect=[1, 2, 3] if k not in (45, 53, 7, 49, 55, 57) else [3], time=200, opts=O)
    ck.case(h, 100, 'nesting', 'around 1024 levels, 1100 siblings', expect=[4, 5], time=200, opts=O)
    for k in (101, 102, 103): ck.case(h, k, 'formatted strings', 'every string of %d bytes' % (k - 100), expect=[10, 11, 12], time=200, opts=O)
    ck.case(h, 106, 'formatted strings', 'every character of 4 bytes', expect=[10, 11, 12], time=200, opts=O)
    ck.case(h, 105, 'formatted trees', '6 shapes with 11 leaves each, every two ASCII characters', expect=[13, 14, 15], time=400, opts=O)
    if ck.thorough():
        ck.case(h, 20, 'numbers', 'every text of 5 characters', expect=[1, 2, 3], time=850, opts=O)
        for k in (58, 59, 60): ck.case(h, k, 'structure, text %d' % k, 'up to 6 structural characters', expect=[1, 2, 3], time=850, opts=O)
        ck.case(h, 104, 'formatted strings', 'every string of 4 bytes', expect=[10, 11, 12], time=850, opts=O)
