LIBS = ['std']
def setup(ck):
    h = ck.harness('utf', 'lib/utf.myr', 'lib/utf_ref.c')
    ck.case(h, 1, 'encode and decode every code point', 'every code point below 0x200000, buffers of 0..5 bytes', expect=range(1, 10))
    ck.case(h, 2, 'charstep on arbitrary bytes', 'every string of 0..5 bytes', expect=range(10, 14))
    ck.case(h, 3, 'bychar visits the whole string', 'every string of 0..4 bytes', expect=range(14, 18))
    ck.case(h, 4, 'three characters round trip through a string buffer', 'every triple of code points below 0x200000', expect=range(18, 23))
