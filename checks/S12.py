LIBS = ['std']
def setup(ck):
    h = ck.harness('endian', 'lib/endian.myr', 'lib/endian_ref.c')
    ck.case(h, 1, 'get* at any offset', 'every 24 bytes, offsets 0..8, signed and unsigned destinations', expect=range(1, 17), time=120)
    ck.case(h, 2, 'put* at any offset', 'every value, offsets 0..8', expect=range(20, 40), time=120)
    ck.case(h, 3, 'buffers that are too short', 'all 24 functions, 0..8 bytes', expect=[40])
    ck.case(h, 4, 'hosttonet, nettohost', 'every value of the 8 fixed-width integer types', expect=range(50, 57))
    ck.case(h, 5, 'siphash24', 'every key, every 0..25 bytes', expect=[60], time=120)
    ck.case(h, 6, 'hash and eq of slices, integers, pointers', 'every value, 0..8 elements', expect=range(61, 67), time=120)
