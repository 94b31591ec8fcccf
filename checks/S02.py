LIBS = ['std']
def setup(ck):
    h = ck.harness('fmtint', 'lib/fmtint.myr', 'lib/fmtint_ref.c')
    for k, t in enumerate(['int8', 'int16', 'int', 'int32', 'int64', 'byte', 'uint8', 'uint16', 'uint', 'uint32', 'uint64'], 1):
        ck.case(h, k, 'formatting ' + t, 'every value; bases 2, 8, 10, 16; widths 0..24; padding 0, blank and _', expect=range(k * 10, k * 10 + 8), time=120)
    ck.case(h, 12, 'formatting int8 in other bases', 'every value; bases 2..16; width 6', expect=(120,), time=120)
