LIBS = ['std']
def setup(ck):
    O = ['--maxinstr', '20000000000']
    h = ck.harness('opts', 'lib/opts.myr')
    ck.case(h, 1, 'options and arguments', 'up to 3 out of 14 command line words', expect=range(1, 8), time=200, opts=O)
    ck.case(h, 2, 'argument counts', 'up to 2 words, every minimum and maximum of 0..2', expect=range(1, 8), time=200, opts=O)
    ck.case(h, 3, 'no arguments allowed', 'up to 2 words', expect=(1, 2, 3, 5, 6, 7), time=200, opts=O)
    if ck.thorough(): ck.case(h, 4, 'four words', 'all sequences of 4 out of 14 words', expect=range(1, 8), time=800, opts=O)
