LIBS = ['std']
def setup(ck):
    O = ['--maxinstr', '20000000000']
    h = ck.harness('paths', 'lib/paths.myr', 'lib/paths_ref.c')
    ck.case(h, 1, 'pathnorm, pathabs', 'every path up to 6 bytes', expect=(1, 2, 3), time=200, opts=O)
    ck.case(h, 2, 'pathjoin, pathcat', 'up to 3 of 11 components', expect=(4, 5), time=200, opts=O)
    ck.case(h, 3, 'dirname, basename', 'every path up to 7 bytes', expect=(6, 7), time=200, opts=O)
    ck.case(h, 4, 'pathnorm of deep paths', '6 components out of empty . .. a', expect=[1], time=200, opts=O)
    if ck.thorough():
        ck.case(h, 5, 'pathnorm', 'every path of 8 bytes', expect=(1, 2, 3), time=800, opts=O)
        ck.case(h, 6, 'dirname, basename', 'every path of 10 bytes', expect=(6, 7), time=800, opts=O)
