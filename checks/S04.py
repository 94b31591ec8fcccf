LIBS = ['std']
def setup(ck):
    h = ck.harness('fmteng', ['lib/exp.myr', 'lib/fmteng.myr'], 'lib/exp_ref.c')
    ck.case(h, 1, 'strings: plain, padded, raw, escaped, in order with literal text', 'every string of up to 4 bytes (2 for escapes), widths 0..5', expect=range(1, 7))
    ck.case(h, 2, 'booleans, characters, pointers, named types', 'every value (integers -10..9)', expect=range(10, 15))
    ck.case(h, 3, 'tuples, structs, arrays, slices, unions, nested, followed by another argument', 'integers -10..9, strings of one byte, every union tag', expect=range(20, 32))
    ck.case(h, 4, 'bounded buffers', 'buffers of 0..9 bytes', expect=[x for x in range(40, 50)])
    ck.case(h, 5, 'addresses and bitsets', 'every IPv4 address, IPv6 with three symbolic bytes, 16 bitsets', expect=range(60, 63))
