LIBS = ['std']
def setup(ck):
    h = ck.harness('sorts', 'lib/sorts.myr')
    ck.case(h, 1, 'sort of records by key', 'every 0..5 keys', expect=range(1, 6), time=120)
    ck.case(h, 2, 'sort of bytes', 'every 0..4 bytes', expect=(6, 7), time=120)
    ck.case(h, 3, 'bsearch and lsearch in sorted records', 'every sorted 0..7 keys, every key', expect=range(10, 15), time=120)
    ck.case(h, 4, 'lsearch in any records', 'every 0..4 keys, every key', expect=(13, 14), time=120)
    ck.case(h, 5, 'min, max, clamp, abs, swap, numcmp', 'every value of the 8 fixed-width integer types', expect=range(20, 29), time=120)
    if ck.thorough():
        ck.case(h, 6, 'sort of 6 records', 'every 6 keys', expect=range(1, 6), time=800)
        ck.case(h, 7, 'sort of 7 records', 'every 7 keys', expect=range(1, 6), time=800)
