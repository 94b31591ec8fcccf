LIBS = ['std']
def setup(ck):
    h = ck.harness('htabs', 'lib/htabs.myr')
    V = list(range(1, 10))
    ck.case(h, 1, 'histories from an empty table', 'every history of 3 puts and deletes over 7 keys with colliding hashes, every value', expect=V, time=200)
    ck.case(h, 2, 'histories over few keys', 'every history of 5 puts and deletes over 4 keys with colliding hashes, every value', expect=V, time=200)
    ck.case(h, 3, 'histories around growth', '14..17 entries, every history of 2 puts and deletes, every value', expect=V, time=200)
    ck.case(h, 4, 'histories around the clean-up of deleted entries', '12 entries of which 5..10 are deleted, every history of 2 puts and deletes, every value', expect=V, time=200)
    ck.case(h, 5, 'fill, empty, refill', '1..24 entries, three rounds, 28 queried keys', expect=range(10, 15), time=200)
    ck.case(h, 6, 'string and integer keys', '6 keys, every value, every pair of changed and queried key', expect=range(15, 19), time=200)
    ck.case(h, 8, 'put, put, delete, query with symbolic keys', 'every four keys and two values, colliding hashes', expect=range(20, 23), time=200)
    if ck.thorough(): ck.case(h, 7, 'longer histories from an empty table', 'every history of 4 puts and deletes over 7 keys', expect=V, time=800, opts=['--maxinstr', '4000000000'])
