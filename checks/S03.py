LIBS = ['std']
def setup(ck):
    h = ck.harness('parseint', 'lib/parseint.myr', 'lib/parseint_ref.c')
    for k, (t, L) in enumerate([('int8', 4), ('int16', 6), ('int32', 11), ('int64', 20), ('byte', 4), ('uint16', 6), ('uint32', 11), ('uint64', 20)], 1):
        i = k * 10
        ck.case(h, k, 'intparse of any string as ' + t, 'every string of 0..%d bytes' % (4 if t == 'int64' else 3), expect=[i, i + 1, i + 2])
        ck.case(h, k + 10, 'intparse of digits as ' + t, 'up to %d digits after a sign or prefix' % L, expect=[i + 3, i + 4, i + 5])
        ck.case(h, k + 20, 'intparsebase as ' + t, 'bases 2, 8, 10, 16, 36, every string of 0..3 bytes', expect=[i + 6, i + 7, i + 8])
