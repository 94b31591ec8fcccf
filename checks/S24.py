import os
import gen_sys, build
LIBS = ['std']
PER = 12
def setup(ck):
    d = os.path.join(build.WORK, 'gen', 'S24'); os.makedirs(d, exist_ok=True)
    p, p2, p3, names = gen_sys.gen(build.REPO, d, PER)
    O = ['--maxinstr', '40000000000', '--pathinstr', '400000000', '--maxpaths', '2000000']
    h = ck.harness('syscalls', p, ['lib/kern.c'], ('std', 'sys'), flags=['--wrap=sys$syscall'])
    for i in range(0, len(names), PER): ck.case(h, i // PER, ', '.join(names[i:i + PER]), 'every argument and result; strings of up to 3 bytes', expect=[1], time=200, opts=O)
    ck.case(h, 1000, 'waitstatus', 'every status', expect=[10, 11, 12], time=100, opts=O)
    ck.case(h, 1001, 'waitpid', 'every argument', expect=[1, 2], time=100, opts=O)
    ck.case(h, 1002, 'sigaction', 'every argument', expect=[1, 2, 7, 14, 15], time=100, opts=O)
    ck.case(h, 1003, 'execv', 'every path of up to 3 bytes, 0 to 4 arguments of up to 3 bytes', expect=[30, 31, 32, 33, 36], time=200, opts=O)
    ck.case(h, 1004, 'execve', 'every path, 0 to 4 arguments and 0 to 4 variables of up to 3 bytes', expect=[30, 31, 32, 33, 34, 35], time=200, opts=O)
    h2 = ck.harness('sysconst', p2, [p3], ('std', 'sys'))
    ck.case(h2, 0, 'constants and layouts of structures', '%d constants and %d structures, every content' % (len(open(os.path.join(os.path.dirname(gen_sys.__file__), 'sysconsts.txt')).readlines()), len(gen_sys.LAY)), expect=[20, 21, 22, 23], time=100, opts=O)
