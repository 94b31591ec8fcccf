LIBS = ['std', 'fileutil']
def setup(ck):
    h = ck.harness('envs', 'lib/envs.myr', ['lib/envs_ref.c', 'lib/kern.c'], ('std', 'sys', 'fileutil'), flags=['--wrap=sys$syscall', '-e', 'h_start'])
    O = ['--maxinstr', '40000000000', '--pathinstr', '400000000', '--maxpaths', '2000000']
    c = lambda k, t, b, e, time=200: ck.case(h, k, t, b, expect=e, time=time, opts=O)
    t = ck.thorough()
    for i in (1, 2) + ((3,) if t else ()): c(i, 'getenv, getenvv', 'every environment of up to %d strings of up to 3 bytes, every name of up to 2 bytes' % i, [2, 3, 4])
    for i in (0, 1) + ((2,) if t else ()):
        c(10 + i, 'setenv, then getenv', 'every environment of up to %d strings of up to 3 bytes, names of up to 2, values of up to 1' % i, [10, 12, 24])
        c(20 + i, 'setenv twice, then getenv', 'every environment of up to %d strings of up to 3 bytes, names of 1 byte' % i, [15, 17, 24])
    for i in range(4): c(30 + i, 'arguments of main', 'every %d arguments of up to 3 bytes' % i, [32])
    for i in range(6 if t else 4):
        c(40 + i, 'execvp, execv', 'every path of %d of the characters a / :, up to 2 arguments of up to 2 bytes' % i, [44, 45, 46, 49])
        c(50 + i, 'execvpe, execve', 'every path of %d of the characters a / :, up to 2 arguments and 2 environment strings of up to 2 bytes' % i, [44, 45, 46, 49])
    c(49, 'execvp without PATH', 'up to 2 arguments of up to 2 bytes', [45, 49]); c(59, 'execvpe without PATH', 'up to 2 arguments of up to 2 bytes', [45, 49])
    for i in range(4): c(60 + i, ['spork', 'espork', 'sporkdir', 'esporkdir'][i], 'in the parent, in the child, fork failing, any pipe failing', [55, 57, 129])
    c(70, 'wait, waitany, run', 'every exit status and signal, after up to 2 stops; in the child; fork failing', [62, 63, 64, 65, 129])
    for i in range(8): c(90 + i, 'tmpdir, homedir, mktemp, mkdtemp, mktemppath', 'TMPDIR, HOME, home set or not', [78])
