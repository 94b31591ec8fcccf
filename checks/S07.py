LIBS = ['std']
def setup(ck):
    O = ['--pathinstr', '200000000', '--maxinstr', '4000000000']
    h = ck.harness('allocs', 'lib/allocs.myr')
    H = [1, 2, 4, 5]
    ck.case(h, 1, 'histories, small blocks', 'every history of 5 operations over sizes 1 16 17 33', expect=[1, 2, 3, 4, 5], time=200, opts=O)
    ck.case(h, 2, 'histories, medium blocks', 'every history of 5 operations over sizes 128 2049 4096 65537', expect=[1, 2, 3, 4, 5], time=200, opts=O)
    ck.case(h, 3, 'histories, large blocks', 'every history of 5 operations over sizes 131073 200000 262144', expect=[1, 2, 3, 4, 5], time=200, opts=O)
    ck.case(h, 4, 'histories around the size limits', 'every history of 5 operations over sizes 0 131072 131073 135169', expect=[1, 2, 3, 4, 5], time=200, opts=O)
    for k, n, s in ((5, 14, 131072), (6, 20, 65536), (7, 33, 32768)):
        ck.case(h, k, 'slabs of %d byte blocks filled and emptied' % s, '1..%d blocks, freed from every starting point in both directions, three rounds' % n, expect=[1, 2, 3, 4, 6], time=200, opts=O)
    for k, s in ((8, 131072), (9, 65536), (10, 16384)):
        ck.case(h, k, 'freed %d byte blocks are reused' % s, '12 rounds of up to four slabs of blocks', expect=[7], time=200, opts=O)
    ck.case(h, 11, 'alloc, zalloc, mk, clear of a struct', 'every field value', expect=range(8, 14))
    ck.case(h, 14, 'two blocks of any size', 'every pair of sizes up to 256 KiB (buckets and pages decided by the solver)', expect=range(14, 17), time=200, opts=O + ['--mux', '0'])
    ck.case(h, 15, 'two blocks of any small size', 'every pair of sizes up to 300 bytes', expect=range(14, 17), time=200, opts=O + ['--mux', '0'])
    if ck.thorough():
        ck.case(h, 12, 'longer histories, large blocks', 'every history of 8 operations over sizes 131073 200000', expect=[1, 2, 3, 4, 5], time=800, opts=['--maxinstr', '8000000000', '--maxpaths', '2000000'])
        ck.case(h, 13, 'longer histories, small blocks', 'every history of 7 operations over sizes 1 16', expect=[1, 2, 3, 4, 5], time=800, opts=['--maxinstr', '8000000000', '--maxpaths', '2000000'])
