LIBS = ['std', 'escfmt']
def setup(ck):
    h = ck.harness('escs', 'lib/escs.myr', 'lib/escs_ref.c', ('std', 'escfmt'))
    ck.case(h, 1, 'HTML', 'every ASCII string of 1..3 bytes', expect=[1], time=200)
    ck.case(h, 2, 'regular expressions', 'every ASCII string of 1..3 bytes', expect=[2], time=200)
    ck.case(h, 3, 'shell', 'every byte string of 0..4 bytes', expect=[3], time=200)
    ck.case(h, 4, 'URL', 'every byte string of 1..3 bytes', expect=[4], time=200)
    ck.case(h, 5, 'HTML, two byte character', 'every one and an ASCII character', expect=[1], time=200)
    ck.case(h, 6, 'regular expressions, two byte character', 'every one and an ASCII character', expect=[2], time=200)
    if ck.thorough():
        ck.case(h, 7, 'HTML', 'every ASCII string of 4 bytes', expect=[1], time=800)
        ck.case(h, 8, 'regular expressions', 'every ASCII string of 4 bytes', expect=[2], time=800)
        ck.case(h, 9, 'URL', 'every string of 4 bytes', expect=[4], time=800)
