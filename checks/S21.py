LIBS = ['std']
def setup(ck):
    h = ck.harness('files', 'lib/files.myr', ['lib/kern.c'], flags=['--wrap=sys$syscall'])
    O = ['--maxinstr', '40000000000', '--pathinstr', '400000000', '--maxpaths', '2000000']
    c = lambda k, t, b, e, time=200: ck.case(h, k, t, b, expect=e, time=time, opts=O)
    for i in range(8): c(i, 'slurp, fslurp', 'every file of %d bytes, reads of any sizes' % i, [3, 5, 7, 8, 9, 10])
    for i in range(6): c(8 + i, 'slurp, fslurp, reads failing', 'every file of %d bytes, reads of any sizes, the first to third failing' % i, [3, 6, 7])
    for i, n in enumerate([4094, 4095, 4096, 4097, 8191, 8193, 1366, 2048, 2730, 3000, 12289, 16385]): c(14 + i, 'slurp, fslurp of %d bytes' % n, 'every 6 bytes at both ends, reads of up to 512..30000 bytes', [5])
    for i in range(6):
        c(26 + i, 'blat, fblat', 'every %d bytes over every file of 0..8 bytes or none, every mode, writes of any sizes' % i, [21, 24, 28, 30])
        c(32 + i, 'blat, fblat, writes failing', 'every %d bytes, the first to third write failing' % i, [21, 30])
    for i in range(5):
        c(38 + i, 'readall', 'every file of %d bytes, every length asked for, reads of any sizes' % i, [41])
        c(43 + i, 'readall, reads failing', 'every file of %d bytes' % i, [45] if i > 0 else [41])
        c(48 + i, 'writeall', 'every %d bytes, writes of any sizes' % i, [51])
        c(53 + i, 'writeall, writes failing', 'every %d bytes, at the first to fourth write' % i, [51] + ([55] if i else []))
        c(58 + i, 'writeall, writes of nothing', 'every %d bytes' % i, [51] + ([55] if i else []))
    for i in range(4): c(63 + i, 'put, fput', 'every 3 ASCII characters, writes of any sizes' + (', one failing' if i & 2 else ''), [61])
    for i, (n, e) in enumerate([('open, openmode, close', 70), ('seek', 84), ('pread, pwrite', 93), ('dup, dup2', 101), ('pipe', 106), ('creat', 112)]): c(67 + i, n, 'every option, position and length up to 8', [e])
