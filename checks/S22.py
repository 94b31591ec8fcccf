LIBS = ['std']
def setup(ck):
    h = ck.harness('dirs', 'lib/dirs.myr', ['lib/kern.c'], flags=['--wrap=sys$syscall'])
    O = ['--maxinstr', '40000000000', '--pathinstr', '400000000', '--maxpaths', '2000000']
    c = lambda k, t, b, e, time=200: ck.case(h, k, t, b, expect=e, time=time, opts=O)
    c(0, 'fexists, fisdir, fisreg, fsize, fmtime, now', 'every kind of object, permission, size and time, directly and through links', [1, 4, 5, 6, 7])
    for i in range(7 if not ck.thorough() else 8): c(1 + i, 'mkpath', 'every path of %d letters, among files, directories and links' % i, [10, 17, 13] if i else [13])
    for i in range(6 if not ck.thorough() else 7): c(9 + i, 'mkpath, mkdir failing', 'every path of %d letters' % i, [13, 17])
    c(16, 'remove', 'every kind of object', [20, 23]); c(17, 'mkdir, chdir', 'every mode and umask', [30, 34])
    for i in range(4 if not ck.thorough() else 5): c(18 + i, 'diropen, dirread, byentry', 'every %d names of 1, 2, 15 (and 3) bytes, in pieces of any size' % i, [43, 45, 49])
    c(23, 'getcwd', 'every name, 0 to 12 deep, lengths 1, 9, 20, 21', [51, 52])
    c(24, 'mktempat', 'every mode, a name taken, errors', [60, 64, 69]); c(25, 'mkdtempat', 'every mode, a name taken, errors', [65, 67, 69])
