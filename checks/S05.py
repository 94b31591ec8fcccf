LIBS = ['std']
def setup(ck):
    h = ck.harness('slops', 'lib/slops.myr')
    for k, t in enumerate(['byte', 'int32', 'uint64', '24-byte struct'], 1):
        i = k * 100
        ck.case(h, k, 'histories of slice operations, %s elements' % t, 'initial length 0..2, every history of 3 operations, every element value', expect=[i] + list(range(i + 1, i + 9)), time=120)
        ck.case(h, k + 10, 'histories on longer slices, %s elements' % t, 'initial lengths 3 4 6 12 16 24 48 112, every history of 2 operations (indexes at both ends)', expect=range(i + 10, i + 19), time=120)
        ck.case(h, k + 20, 'copy, fill, swap, zeroed allocation, %s elements' % t, 'lengths 0..4, every element value, overlapping copies of 3 elements', expect=range(i + 20, i + 25), time=120)
    ck.case(h, 31, 'slcp aborts exactly when lengths differ', 'lengths 0..8', expect=[1])
