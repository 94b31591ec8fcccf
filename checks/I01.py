LIBS = ['std', 'iter']
def setup(ck):
    h = ck.harness('iters', 'lib/iters.myr', [], ('std', 'iter')); O = ['--maxinstr', '40000000000', '--pathinstr', '4000000']
    B = 'sequences of 0..5 elements, every value'
    ck.case(h, 1, 'bychunk', B + ', every chunk size', expect=[1, 2, 3, 4], opts=O)
    ck.case(h, 2, 'byenum', B, expect=[1, 2], opts=O); ck.case(h, 3, 'byref', B, expect=[1, 2], opts=O); ck.case(h, 4, 'byreverse', B, expect=[1, 2], opts=O)
    ck.case(h, 5, 'byzip', B + ', two of them', expect=[1, 2], opts=O)
    ck.case(h, 6, 'byperm', '0..4 elements in every order, with every equality', expect=[1, 2, 3, 4, 5], opts=O, time=200); ck.case(h, 7, 'byperm, backwards', '0..4 elements in every order, with every equality', expect=[1, 2, 3, 4, 5], opts=O, time=200)
    ck.case(h, 8, 'nested loops, leaving early', B, expect=[1, 2, 3], opts=O)
