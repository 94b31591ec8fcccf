"""Constant time comparisons and big numbers of lib/crypto."""
import os, shutil, build as B
LIBS = ['std', 'sys', 'thread', 'iter', 'crypto']
def setup(ck):
    def pre(d):     # the functions of the package's own files
        for f in ('ct', 'ctbig'): shutil.copyfile(os.path.join(B.OBJ, 'crypto', f + '.use'), os.path.join(d, f + '.use'))
        return B.harness('h', [os.path.join(B.VERIF, 'harness', 'lib', 'cts.myr')], [], LIBS, d)
    h = ck.harness('cts', [], [], LIBS, prebuilt=pre)
    c = lambda k, t, b, e, time=150: ck.case(h, k, t, b, expect=e, time=time, opts=['--maxinstr', '40000000000', '--pathinstr', '400000000'])
    for k, n in ((1, 8), (2, 16), (3, 32), (4, 64)): c(k, 'comparisons of unsigned %d-bit numbers' % n, 'all pairs of values', range(1, 11))
    c(5, 'ctbig from and to bytes, little endian', 'all bytes; 12 sizes up to 96 bits, every length fitting', range(20, 27))
    c(6, 'ctbig from and to bytes, big endian', 'all bytes; 12 sizes up to 96 bits, every length fitting', range(20, 27))
    c(7, 'ctbig from numbers', 'all 64-bit numbers; 12 sizes', range(30, 34))
    c(8, 'ctadd', 'all operands of 12 sizes up to 96 bits', range(40, 44)); c(9, 'ctsub', 'all operands of 12 sizes up to 96 bits', range(40, 44))
    c(10, 'comparisons of ctbigs', 'all operands of 12 sizes up to 96 bits', range(50, 59))
    c(11, 'ctmul', 'one operand arbitrary, the words of the other from a list', [60, 61])
    c(12, 'bufeq', 'all buffers of equal length up to 20', [70])
