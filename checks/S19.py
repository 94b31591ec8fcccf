LIBS = ['std']
def setup(ck):
    h = ck.harness('chrs', 'lib/chrs.myr', 'lib/chrs_ref.c')
    a = 'every character of ASCII, Latin-1, Latin extended A, additional Latin, Greek, Cyrillic, Armenian, Hebrew, kana, full width forms'
    ck.case(h, 1, 'letter classes', a, expect=[1, 2, 3], time=300)
    ck.case(h, 2, 'case mappings', a, expect=[4, 5], time=300)
    ck.case(h, 3, 'cell widths', a, expect=[6], time=300)
    ck.case(h, 4, 'ideographs and Hangul', 'every one', expect=[7, 8], time=300)
    ck.case(h, 5, 'digraphs', 'all', expect=[24, 25])
    ck.case(h, 6, 'charval', 'every character, bases 2..36', expect=[26, 27], time=300)
    N = ['lower case letters are those with an upper case', 'upper case letters are those with a lower case', 'alphanumeric', 'cased characters are letters', 'title case', 'decimal digits', 'spaces', 'ASCII classes', 'cell widths of control and combining characters']
    E = [[10], [11], [12], [13], [14], [15], [16, 17], [18, 19, 20], [21, 22, 23]]
    for i in range(9): ck.case(h, 10 + i, N[i], 'every code point', expect=E[i], time=400)
