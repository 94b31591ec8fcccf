LIBS = ['std']
def setup(ck):
    h = ck.harness('sbuf', 'lib/sbuf.myr')
    ck.case(h, 1, 'histories of a growing buffer', 'every history of 3 operations, every byte and code point', expect=range(1, 7), time=200)
    ck.case(h, 2, 'histories of a fixed buffer', 'every history of 3 operations, capacities 0 1 3 5 8', expect=[1, 2, 3, 4, 7, 8, 9], time=200)
    ck.case(h, 3, 'appends across every growth', 'splits of 64 bytes at 0..64, every byte', expect=[10, 11])
    if ck.thorough():
        ck.case(h, 4, 'longer histories of a growing buffer', 'every history of 4 operations', expect=range(1, 7), time=800)
        ck.case(h, 5, 'longer histories of a fixed buffer', 'every history of 4 operations, capacities 2..6', expect=[1, 2, 3, 4, 7, 8, 9], time=800)
