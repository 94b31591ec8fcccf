LIBS = ['std', 'bio']
NAMES = ['getb', 'getc', 'peekb', 'peekc', 'read of 1', 'read of 2', 'read of 3', 'readln', 'readto', 'readterm', 'skipto', 'skipspace', 'getle8', 'getbe8', 'getle16', 'getbe16', 'getle32', 'getbe32', 'getle64', 'getbe64', 'getle16 as int64', 'getbe32 as int64', 'seek', 'read of 0']
IDS = [[10], [11], [12], [13], [14], [14], [14], [15], [16], [17], [18], [19]] + [[20]] * 10 + [[21], [22]]
W = ['putb', 'putc', 'write', 'putle8', 'putbe8', 'putle16', 'putbe16', 'putle32', 'putbe32', 'putle64', 'putbe64', 'put', 'flush', 'seek']
def setup(ck):
    h = ck.harness('bios', 'lib/bios.myr', [], ('std', 'bio'))
    O = ['--maxinstr', '400000000000', '--pathinstr', '400000000', '--maxpaths', '2000000']
    c = lambda k, t, b, e, time=250: ck.case(h, k, t, b, expect=e, time=time, opts=O)
    t = ck.thorough()
    for i, n in enumerate(NAMES):
        c(i, n + ' and any other call', 'every data of 3 bytes, in pieces of any size, delimiters of 1 byte', IDS[i] + [8, 9, 23])
        if i != 11 or t: c(24 + i, n + ' and any other call', 'every data of 4 bytes, in pieces of any size, delimiters of 2 bytes', IDS[i] + [8, 9, 23], 600 if t else 250)
        c(138 + i, n + ' and any other call on a memory file', 'every data of 3 bytes', IDS[i] + [23, 25])
        if i not in (0, 2, 4, 12, 13, 22, 23): c(48 + i, n + ' around the end of the buffer', 'every 5 bytes, 2 before to 3 after the end', IDS[i] + [8, 9, 23])
        if t: c(162 + i, n + ' and any two other calls', 'every data of 3 bytes, in pieces of any size', IDS[i] + [8, 9, 23], 850)
    for i, n in enumerate(W):
        e = [52, 54, 56, 57, 58, 59] if True else []
        c(72 + i, n + ' and any other call', 'every value, a backend taking pieces', e)
        c(86 + i, n + ' and any other call, with the buffer nearly full', 'every value', e)
        c(100 + i, n + ' and any other call, the backend failing', 'at its first to third call', [52, 57, 58, 59])
        c(114 + i, n + ' and any other call, buffer nearly full, the backend failing', 'at its first to third call', [52, 57, 58, 59])
        if t: c(186 + i, n + ' and any two other calls, the backend failing', 'at its first to third call', [52, 57, 58, 59], 850)
    for i in range(5):
        c(128 + i, 'errors while reading', 'every data of 3 bytes, error at any place', [40, 41, 42, 43])
        c(133 + i, 'errors while reading', 'every data of 5 bytes, error at any place', [40, 41, 42, 43])
    c(200, 'lines', 'every data of 4 bytes, in pieces of any size', [30, 31]); c(201, 'characters', 'every data of 4 bytes, in pieces of any size', [32, 33])
    c(204, 'writes of about the buffer size', '16383..16386 bytes', [60])
    c(205, 'reads of about the buffer size', 'two of 510..16386 bytes, with single bytes between', [10, 14, 23])
    if t: c(202, 'lines', 'every data of 5 bytes', [30, 31], 850); c(203, 'characters', 'every data of 5 bytes', [32, 33], 850)
    hf = ck.harness('biof', 'lib/biof.myr', ['lib/kern.c'], ('std', 'bio'), flags=['--wrap=sys$syscall'])
    for i in range(4): ck.case(hf, i, 'open, create, mkfile, close', 'files of %d bytes, every mode and permission, reads and writes of any sizes, writing failing' % i, expect=[1, 3, 7, 10], time=200, opts=['--maxinstr', '40000000000', '--pathinstr', '400000000'])
