LIBS = ['std']
def setup(ck):
    O = ['--maxinstr', '20000000000']
    h = ck.harness('ips', 'lib/ips.myr', 'lib/ips_ref.c')
    ck.case(h, 1, 'dotted addresses', '1..5 parts, one of 0..5 arbitrary ASCII characters, digits in the others', expect=(1, 2), time=200, opts=O)
    ck.case(h, 2, 'few colon separated groups', '0..3 groups, :: anywhere, one group of 0..5 digits', expect=(3, 4), time=200, opts=O)
    ck.case(h, 3, 'many colon separated groups', '7..9 groups, :: anywhere, one group of 0..5 digits', expect=(3, 4), time=200, opts=O)
    ck.case(h, 4, 'arbitrary groups', '4 groups, one of 1..4 arbitrary ASCII characters', expect=[5], time=200, opts=O)
    ck.case(h, 5, 'short strings as IPv6 addresses', 'every ASCII string up to 4 bytes', expect=[6], time=200, opts=O)
    ck.case(h, 6, 'short strings as IPv4 addresses', 'every ASCII string up to 4 bytes', expect=[7], time=200, opts=O)
    ck.case(h, 7, 'netaddr', 'every ASCII address up to 5 bytes', expect=[8], time=200, opts=O)
    ck.case(h, 8, 'IPv4 round trip', 'every value of every byte', expect=[10], time=200, opts=O)
    ck.case(h, 9, 'IPv6 round trip', 'every value of every group', expect=[9], time=200, opts=O)
    if ck.thorough(): ck.case(h, 10, 'more colon separated groups', '4, 5 groups, :: anywhere, one group of 0..5 digits', expect=(3, 4), time=800, opts=O)
