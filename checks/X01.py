LIBS = ['std', 'fileutil']
def setup(ck):
    h = ck.harness('trees', 'lib/trees.myr', ['lib/kern.c'], ('std', 'fileutil'), flags=['--wrap=sys$syscall'])
    O = ['--maxinstr', '40000000000', '--pathinstr', '400000000', '--maxpaths', '2000000']
    c = lambda k, t, b, e, time=250: ck.case(h, k, t, b, expect=e, time=time, opts=O)
    t = ck.thorough()
    for i in range(6 if t else 5): c(i, 'rmrf', 'every tree of %d files, directories and hard links' % i, [1, 4, 12]); c(60 + i, 'bywalk', 'every tree of %d files, directories and hard links' % i, [25])
    for i in range(5 if t else 4):
        c(10 + i, 'rmrf', 'every tree of %d objects with links of all kinds%s' % (i, ', any name' if i < 3 else ''), [1, 4, 12]); c(50 + i, 'bywalk', 'every tree of %d objects with links of all kinds' % i, [25])
        if i: c(20 + i, 'rmrf, a removal failing', 'every tree of %d objects' % i, [5, 7, 12])
        c(30 + i, 'rmrf, removal of a directory failing', 'every tree of %d objects' % i, [5, 12]); c(40 + i, 'rmrf, a directory cannot be read', 'every tree of %d objects' % i, [5, 12])
