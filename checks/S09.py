LIBS = ['std']
def setup(ck):
    h = ck.harness('bitsets', 'lib/bitsets.myr')
    for k, t in enumerate(['bsunion', 'bsintersect', 'bsdiff'], 1): ck.case(h, k, t, 'every pair of sets within 0..191, capacities 0..3 words each', expect=[1, 2, 3, 4])
    ck.case(h, 4, 'bsissubset and equality', 'every pair of sets within 0..127, capacities 0..2 words each', expect=[5, 6, 7])
    ck.case(h, 5, 'membership, put, delete, clear', 'every set within 0..191, every pair of elements 0..255', expect=range(10, 18))
    ck.case(h, 6, 'iteration, counting, hashing', 'every subset of 9 elements at the word edges', expect=range(20, 26), time=120)
