LIBS = ['std', 'sys', 'thread', 'iter', 'crypto']
A = ['md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512']
def setup(ck):
    h = ck.harness('hashes', 'lib/hashes.myr', ['lib/hashes_ref.c'], ('std', 'sys', 'thread', 'iter', 'crypto'), flags=['--wrap=sys$syscall'])
    c = lambda k, t, b, e, time=100: ck.case(h, k, t, b, expect=e, time=time, opts=['--maxinstr', '40000000000', '--pathinstr', '400000000', '--maxviol', '2'])
    for i, a in enumerate(A):
        c(i, a, 'every message of 0 bytes to two blocks and 9 bytes', [1, 2])
        c(32 + i, a + ', hinit hadd hadd hadd hfin on a used state', 'every message cut at any two of 12 places', [5, 6, 20, 21])
        c(48 + i, a + ', in pieces', 'every message cut at any two of 12 places', [7, 8])
        if i in (1, 2, 3): c(64 + i, 'hmac(%s)' % a, 'every key of 12 sizes, every message of 0, 50, 100 bytes in two pieces', [9, 10])
    c(82, 'hmacsha224', 'every key and message, sizes around the block', [9, 10]); c(83, 'hmacsha256', 'every key and message, sizes around the block', [9, 10])
    c(96, 'chacha20', 'every key of 16 and 32 bytes, nonce and message of 0..66 bytes after 0, 1, 2 blocks', [11, 12])
    c(97, 'chacha20', 'every key of 16 and 32 bytes, nonce and message of 125..131 bytes after 0, 1, 2 blocks', [11, 12])
    c(112, 'chacha20 in place', 'every key, nonce, upper half of the counter, four lower halves and message of 1..130 bytes', [13, 14])
