LIBS = ['std']
def setup(ck):
    h = ck.harness('rands', 'lib/rands.myr', 'lib/rands_ref.c')
    ck.case(h, 1, 'numbers are within the range', 'every seed, every range of int8 and unit ranges, spans 333, 666, 999 of int32, 6000 .. 30000 of uint16', expect=range(1, 5), time=120)
    ck.case(h, 2, 'evenly chosen', 'spans 3, 6 .. 120 of bytes', expect=[6], time=120)
    ck.case(h, 3, 'the seed determines the sequence', 'every seed', expect=[10])
    ck.case(h, 4, 'different seeds, different sequences', 'every pair of seeds, the first three numbers', expect=[11, 12], time=120)
    ck.case(h, 5, 'random bytes', 'every seed, 0..33 bytes', expect=[13, 14])
    ck.case(h, 6, 'xoroshiro128+', 'every seed, the first four numbers', expect=[15])
