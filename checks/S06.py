LIBS = ['std']
def setup(ck):
    h = ck.harness('strs', ['lib/exp.myr', 'lib/strs.myr'], ['lib/exp_ref.c', 'lib/strs_ref.c'])
    C = lambda n, t, b, e: ck.case(h, n, t, b, expect=e, time=120)
    C(1, 'strfind, strrfind, strhas', 'every haystack of 0..6 bytes and needle of 0..3 bytes', range(1, 6))
    C(2, 'strsplit and bysplit', 'every string of 0..6 bytes, separators of 1..2 bytes', range(10, 15))
    C(3, 'bstrsplit into 1..3 slots', 'every string of 0..5 bytes, separators of 1..2 bytes', range(20, 24))
    C(4, 'strtok and bytok', 'every string of 0..4 bytes, Unicode spaces included', range(30, 35))
    C(5, 'bstrtok into 1..3 slots', 'every ASCII string of 0..5 bytes', range(35, 38))
    C(6, 'strjoin and strcat', 'up to three strings of up to 3 bytes, delimiters of 0..2 bytes', (40, 41))
    C(7, 'strreplace', 'every string of 0..5 bytes, needles of 1..2 bytes, replacements of 0..3 bytes', (45,))
    C(8, 'strstrip, strfstrip, strrstrip', 'every ASCII string of 0..6 bytes', (50, 51))
    C(9, 'prefixes, suffixes, chomp, C strings', 'strings of 0..4 bytes, affixes of 0..5 bytes', range(60, 68))
    C(10, 'strcmp, strncmp, equality', 'every pair of strings of 0..4 bytes', range(70, 73))
    C(11, 'strcasecmp on ASCII', 'every pair of ASCII strings of 0..2 bytes', (73,))
    if ck.thorough(): ck.case(h, 12, 'strtok and bytok, longer', 'every string of 0..5 bytes', expect=range(30, 35), time=900, opts=['--maxinstr', '4000000000'])
