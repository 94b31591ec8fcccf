import os, build as B
LIBS = []
K = '0123456789abcdefABCDEF_.uUlLiIsS+; '
CASES = [(1, 'tokens of any text', 'every text of up to 2 bytes'), (2, 'integer literals', 'every base, 3 characters among %s' % K), (3, 'integer literals around 64 bits', 'decimal, hexadecimal, octal, binary; up to 6 digits varying'), (4, 'numbers', 'a digit and 4 characters among digits . e E + - _'),
 (5, 'strings', 'every 3 bytes inside a string literal'), (6, 'string escapes', 'every 3 bytes after a backslash'), (7, 'Unicode escapes in strings', 'every value of up to 6 hexadecimal digits'), (8, 'character literals', 'every text of 1 to 4 bytes'), (9, 'character escapes', 'every 1 or 2 bytes after the backslash'), (10, 'Unicode escapes in characters', 'every value of up to 6 hexadecimal digits'),
 (11, 'comments and line numbers', '5 characters among / * newline " a'), (12, 'continued lines', '4 characters among backslash newline / * a blank'), (13, 'identifiers and keywords', 'every word of up to 4 characters'), (14, 'keywords and words near them', 'every keyword with any byte changed or added, or one removed'), (15, 'operators', 'every 3 of 26 operator characters'), (16, 'long identifiers', '10 lengths up to 1100'),
 (17, 'tuple members are no floating point numbers', '3 characters after t.'), (18, 'a first line starting #!', '3 characters'), (19, 'type parameters', '3 characters'), (20, '$noret', ''),
 (21, 'two binary operators', 'every two of 29'), (22, 'three binary operators', 'every three of 10, of all precedences'), (23, 'conditional expressions', 'with every other binary operator'), (24, 'prefix and postfix operators with binary ones', 'every combination of one binary with two of the others'), (25, 'prefix and postfix operators', 'every three'), (26, 'parentheses', 'around every binary operator, beside every other'),
 (27, 'adjacent strings', 'two of up to 2 bytes, any bytes'), (28, 'literal suffixes', 'all 8, values below 100'), (29, 'character literals', 'every ASCII one'), (30, 'true, false and void', 'all')]
DEEP = [(31, 'comments and line numbers', '6 characters'), (32, 'prefix and postfix operators with binary ones', 'every four'), (33, 'prefix and postfix operators', 'every four'), (34, 'tokens of any text', 'every text of 3 bytes'), (35, 'numbers', '6 characters'), (36, 'operators', 'every 4 operator characters')]
def setup(ck):
    h = ck.harness('lex', [], [], [], prebuilt=lambda d: B.ccharness('h', [os.path.join(B.VERIF, 'harness/cc/lex.c')], d))
    O = ['--maxinstr', '40000000000', '--pathinstr', '400000000']
    for k, t, b in CASES: ck.case(h, k, t, b, opts=O, time=300, wit=3)
    if ck.thorough():
        for k, t, b in DEEP: ck.case(h, k, t, b, opts=O, time=1500, wit=3, maxpaths=20000000)
