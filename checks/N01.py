LIBS = ['std', 'bio', 'inifile']
def setup(ck):
    h = ck.harness('inis', 'lib/inis.myr', ['lib/inis_ref.c', 'lib/kern.c'], ('std', 'bio', 'inifile'), flags=['--wrap=sys$syscall'])
    O = ['--maxinstr', '40000000000', '--pathinstr', '400000000', '--maxpaths', '2000000']
    c = lambda k, t, b, e, time=200: ck.case(h, k, t, b, expect=e, time=time, opts=O)
    t = ck.thorough()
    for i in range(4 if t else 3): c(i, 'load, loadf' + (', write, writef' if i < 3 else ''), 'every ASCII text of %d bytes' % i, [4] + ([32] if i < 3 else []) + ([6] if i else []))
    for i in range(3, 6 if t else 5): c(10 + i, 'load, loadf', 'every text of %d structural characters' % i, [4, 6] + ([7] if i > 4 else []), 900)
    for i in (1, 2, 3) if t else (1, 2): c(20 + i, 'load, loadf, write, writef', 'every %d of 15 kinds of lines, every line end' % i, [4, 6, 32] + ([7] if i > 1 else []), 900)
    for i in (4, 5) if t else (4,): c(20 + i, 'load, loadf, write, writef', 'every %d of 6 kinds of lines' % i, [4, 7, 32], 900)
    for i in (1, 2): c(26 + i, 'load, reading fails', 'every %d of 15 kinds of lines, reads of any sizes, the first to third failing' % i, [4, 5])
    for i in range(4 if t else 3): c(30 + i, 'put, get, getv, has, bysection, bykeyval, write', 'any %d values put into 3 files' % i, [32, 51])
    for i in range(5): c(35 + i, 'write, writing fails', 'lengths around the size of the buffer, the first to fourth write failing', [62])
