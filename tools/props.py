"""The properties: statement, quantifier, anchors, and how each is decided."""
TV = 'symbolic execution of the compiled machine code against a C reference (bit-vector queries to z3)'
MC = 'symbolic execution of the real machine code (bit-vector queries to z3), counterexamples replayed natively'
TVN = 'Generated programs are compiled by the compiler built from /repo and the emitted machine code is executed symbolically beside an independent C reference; the solver decides equality for every operand value. Trusts the x86-64 semantics of the engine (validated by native replay of witness paths on every run), gcc for the reference, and the set of program shapes.'
MCN = 'The library code, compiled by the compiler built from /repo, is executed symbolically on symbolic inputs within the stated sizes; assertions are decided by the solver for all values. Trusts the x86-64 semantics of the engine (validated by native replay of witness paths on every run) and the reference model; nothing is claimed beyond the sizes.'
NOTES = 'Engine: /verif/engine (symbolic executor for the static x86-64 binaries the repository builds, term simplifier in front of z3). Harnesses are rebuilt from the working tree of /repo on every run. See DESIGN.md.'
NA = {}
PROPS = []
def P(id, title, st, q, why, files, mech, over=('inputs',), level='model_checking', tech=None, note=None):
    tv = level == 'translation_validation'
    PROPS.append(dict(id=id, title=title, st=st, q=q, why=why, files=files, mech=mech, over=list(over), level=level, tech=tech or (TV if tv else MC), note=note or (TVN if tv else MCN)))
def T(*a, **k):
    k.setdefault('over', ('inputs', 'programs')); P(*a, level='translation_validation', **k)
WHYC = 'The 146 language tests run a handful of concrete programs with fixed operands; none ranges over operand values, and few combine a construct with different operand shapes.'

T('C01', 'Integer arithmetic, bitwise and shift operators compute the exact result',
  'For every integer type, the operators + - * / % & | ^ << >> unary - ~ +, their assignment forms and ++/-- yield exactly the two\'s complement result of the operand type\'s width and signedness, for every operand value for which the operation is defined (nonzero divisor, no quotient overflow, shift count below the width). This holds for operands that are variables, constants, struct fields, array elements, globals, dereferenced pointers and call results, and the operation changes no other object.',
  'Every value of both operands, for each integer type, operator and operand shape.', WHYC,
  ['6/isel.c', '6/simp.c', '6/ra.c', '6/asm.h', '6/insns.def', 'parse/fold.c', 'parse/infer.c'], [('instruction selection per operator and width', '6/isel.c selexpr'), ('assignment and increment forms are lowered to plain operations', '6/simp.c'), ('register allocation and spilling', '6/ra.c')])
T('C02', 'Comparisons, boolean operators and branches are exact and short-circuit',
  'For every integer, boolean and pointer type, < <= > >= == != order values by the type\'s signedness, and && || ! and if/elif/else/while conditions built from them evaluate to the mathematically correct truth value. Operands of && and || are evaluated left to right, and the right operand is evaluated only if the left one does not decide the result.',
  'Every operand value; generated boolean expressions up to depth 4 with side-effecting operands.', WHYC,
  ['6/isel.c', '6/simp.c', 'parse/infer.c', 'parse/fold.c', 'mi/cfg.c'], [('flag-setting comparison and conditional-jump tables', '6/isel.c reloptab'), ('lowering of lazy booleans', '6/simp.c simplazy/simpcond'), ('signedness chosen from the type', '6/simp.c')])
T('C03', 'Casts preserve exactly the value bits the types prescribe',
  'A cast between any two integer types yields the source value truncated, or sign- or zero-extended by the source type\'s signedness, to the destination type; a cast between pointer types or between pointers and 64-bit integers keeps the address, and a cast of a slice to a pointer yields the address of its first element. Casts between a named type and its base type keep the value.',
  'Every source value, for every pair of integer types, chains of two casts, casts of computed values.', WHYC,
  ['6/simp.c', '6/isel.c', 'parse/infer.c', 'parse/fold.c'], [('cast lowering', '6/simp.c simpcast'), ('widening and truncation instructions', '6/isel.c Ozwiden/Oswiden/Otrunc')])
T('C04', 'Constant folding agrees with run-time evaluation',
  'A constant expression over integer and character literals, const declarations and casts has exactly the value that evaluating the same expression at run time on variables of the same types would give, whether it is used as a value, operand, comparison, match pattern, array size, index or static initialiser. Simplifying an expression that mixes constants and variables never changes its value, and never drops or repeats a function call in it.',
  'All pairs of literals of each integer type under each folded operator (unit level); seeded expression trees in programs, every value of their variables.', 'Tests contain a few constant expressions with one value each; wrap-around, unsigned and narrow cases never occur.',
  ['parse/fold.c', 'parse/infer.c', '6/simp.c', '6/blob.c', 'mi/match.c'], [('folding', 'parse/fold.c fold, foldcast, wrap'), ('constant blobs', '6/blob.c')])
T('C05', 'Out-of-range indexing and slicing always aborts, in-range never does',
  'Indexing an array, slice or string literal aborts the program before any access when the index is negative or not below the length, and slicing aborts when the bounds are negative, out of order or past the length; this holds for every integer index type. An in-range access never aborts and reads or writes exactly the element it names, and an in-range slice refers to exactly the requested elements with length high minus low; iterating with for visits exactly the elements of the sequence in order.',
  'Every index and bound value of every integer type; sequence lengths 0..8 (300 and 70000 where the index type is narrow).', WHYC + ' Tests index in range, or abort on one constant.',
  ['6/simp.c', '6/isel.c'], [('bounds check emission', '6/simp.c checkidx, idxaddr, simpslice'), ('index widening', '6/simp.c ptrsized')])
T('C06', 'match runs the first matching arm and binds exactly the matched parts',
  'A match statement evaluates its operand once and runs the body of the first arm, in source order, whose pattern matches the value, for patterns built from literals, strings, named constants, tuples, structs, arrays, unions, pointers, or-patterns, wildcards and variables. Variables in the pattern (also in destructuring assignments and for loops) are bound to copies of exactly the parts they name. A tuple destructuring assignment behaves as if the whole right hand side were read before anything is assigned.',
  'Seeded random types and pattern sets (nesting to depth 4, up to 8 arms); every value of the matched type, all union tags, strings up to 3 bytes.', WHYC,
  ['mi/match.c', 'mi/flatten.c', 'parse/infer.c', '6/simp.c'], [('decision tree', 'mi/match.c gendtree, addpat, addelt'), ('bindings', 'mi/flatten.c'), ('union tag, slice and array loads', 'mi/match.c, mi/flatten.c')])
T('C07', 'Exhaustiveness checking: no accepted match falls through',
  'The compiler rejects every match statement whose patterns leave some value of the matched type uncovered, so an accepted match always runs one of its arms; and it accepts every match that covers all values and in which every pattern (each alternative of an or-pattern counted by itself) matches some value that no earlier one does.',
  'Seeded random types and pattern sets; whether a value is left uncovered is decided by the solver over all values of the type.', WHYC + ' Only a few rejections are tested.',
  ['mi/match.c', 'parse/infer.c'], [('exhaustiveness of the decision tree', 'mi/match.c verifymatch, addwildrec, nconstructors')])

T('C08', 'Aggregates are values: copied, passed, returned and stored exactly',
  'A struct, tuple, array, union or slice of any shape keeps the value of each of its members when it is built from a literal, copied, assigned through a pointer, passed to a function (at any position, also a generic one or through a function value), returned, chosen by ?:, stored in or read from members, array and slice elements, globals, tuples and unions; nothing beside it changes, and copies are independent: changing one, or a parameter, does not change the other. A literal or a tuple assignment made from the variable it is assigned to uses the old value throughout. Members left out of a struct literal, and globals, are zero. Members are laid out in order, without overlap and within sizeof.',
  'Fixed and seeded random types up to depth 3; every value of their scalars; all the ways of moving a value listed.', WHYC,
  ['6/simp.c', '6/isel.c', '6/blob.c', 'mi/flatten.c', '6/typeinfo.c', '6/locs.c'], [('building and copying values', '6/simp.c assign, assignat, simptup, simpucon'), ('destructuring', 'mi/flatten.c destructure'), ('calls and returns', '6/isel.c gencall, 6/simp.c simpcall')])

T('C09', 'Closures and function values carry exactly what they captured',
  'A function literal has the values that the local variables and parameters it refers to had when it was evaluated, whatever happens to them later, and global variables are shared; calling it with any arguments, through a variable, a pointer, a struct, array, tuple, union or slice element, a parameter, a generic function or another closure, runs its code with exactly those values and the arguments given, and leaves everything else as it was. A local function can call itself through the variable it initializes, and a variable assigned a literal that refers to it uses the old value. Closures copied with std.fndup (or fnbdup) stay valid after the frame is gone and until fnfree; fnenvsz is the size of what was captured, 0 for plain functions.',
  'Fixed and seeded random types captured, alone and together; every value of the scalars; all the ways of passing a function value listed.', WHYC,
  ['6/simp.c', 'mi/flatten.c', 'parse/stab.c', 'lib/std/fndup.myr'], [('closures', '6/simp.c simplit, parse/stab.c getclosure'), ('calls', '6/isel.c gencall'), ('heap copies', 'lib/std/fndup.myr')])

T('C10', 'Control flow and evaluation order',
  'A function runs its statements as written: if/elif/else, match, C-style for, while, for over arrays, slices, literals and user-defined iterables (elements that do not match the pattern are skipped; __iternext__ before each round, __iterfin__ after each one, also one ended by continue), break and continue of the innermost loop, goto, return from any depth, nested blocks and shadowing. Operands, arguments and elements are evaluated from left to right, each exactly once (operators grouped by the documented precedence); && and || and ?: evaluate only what decides them, conditions of later elif arms only if the earlier ones were false, the sequence of a for loop and the value of a match once. Postfix ++ and -- give the old value, and take effect, all of them, when the expression is done, also if a loop condition ends the loop.',
  'Seeded random structured programs (loops of at most 4 rounds, nesting up to 3) and fixed ones; every value of three 64-bit inputs.', WHYC + ' Whether the left or the right side of an assignment is evaluated first is not claimed, nor increments inside operands that && and || skip.',
  ['mi/flatten.c', 'parse/gram.y', '6/simp.c', '6/isel.c', '6/ra.c', 'mi/cfg.c'], [('statements', 'mi/flatten.c flattenloop, flattenif, flattenidxiter, flattentraititer, flattenmatch'), ('conditions', 'mi/flatten.c flattencond, flattentern'), ('precedence', 'parse/gram.y')])

T('C11', 'Generics and traits compute what the same code written for the type would',
  'A generic function or type used at any type behaves as the same code with the type written in: values of any type are moved, stored, returned, captured and compared whole; +, -, *, /, %, &, |, ^, ~, shifts, ++/--, comparisons, literals, match and casts on a type parameter have the width and signedness of the actual type; sizeof of a type parameter is that of the actual type; generic types may be nested, recursive and instantiated several times in one program. A trait function, trait constant or iteration protocol used on a value, directly, through impl(name, type), or in a generic constrained by the trait (to any depth of generics calling each other) is the one of the impl for exactly that type; when several impls fit, the one whose type is more specific in structure applies; auxiliary types of traits are those of the impl. Different type parameters of a generic are not interchangeable, and the constraints of a parameter hold in its local variables and nested functions.',
  'Fixed and seeded random types; every value of their scalars; 40 mutually similar types implementing one trait; every integer type for the operators.', WHYC,
  ['parse/specialize.c', 'parse/infer.c', 'parse/type.c', 'parse/stab.c'], [('specialisation', 'parse/specialize.c specializedcl, genericname, bestimpl'), ('constraints', 'parse/infer.c tryconstrain, traitsfor, tymatchrank'), ('binding of type parameters', 'parse/stab.c bindtype, parse/infer.c')])
T('C12', 'Floating point operations, comparisons, conversions and literals are exact',
  'flt32 and flt64 +, -, *, /, their assignment forms and negation yield the IEEE754 result, rounded to nearest even in the type of the operands, for every operand including zeros of both signs, denormals, infinities and NaNs; an expression is evaluated as written, without reassociation or contraction. ==, != (for numbers), <, <=, >, >= yield the IEEE754 relation, as values and as conditions; an order with a NaN is false. A cast from any integer type to a float type yields the nearest float of the value (unsigned types as unsigned); a cast from a float to an integer type yields the value truncated toward zero, if the type can hold it; casts between flt32 and flt64 round to nearest. A float literal has the value written. Floats are moved exactly in variables, aggregates, arguments (any number, mixed with others), results, closures, generics and across calls.',
  'Every bit pattern of the operands; expressions of up to three operands; the listed literals; up to 20 arguments, 30 live values.', WHYC,
  ['6/isel.c', '6/simp.c', '6/insns.def'], [('float instructions', '6/isel.c selexpr, selcjmp; 6/insns.def'), ('conversions', '6/simp.c simpcast'), ('literals', 'parse/tok.c number, 6/blob.c')])
T('C14', 'Files and packages compiled separately behave as one program',
  "Files compiled each on its own, whose .use files are merged in any order into packages used by other files, behave as one program. What a package exports - constants, variables, functions, types, unions, generics (with whatever hidden names they refer to), traits, impls and their constants - means in a using file exactly what it means inside: values, layouts, union tags, and each statement, literal, pattern and function literal in the body of an exported generic, at every type it is used at. An impl works with every trait and generic of the packages, wherever the trait, type, impl and use are. Names that a package does not export don't clash with, or hide, those of other packages and files, and cannot be used from outside unless something exported refers to them; nor can those of packages used only indirectly. The __init__ of each file runs once, before main and after those of the files it uses.",
  'Six orders of three files into a package, with a second package and a program on top; every value of three 64-bit variables; generic bodies at four types; the listed constants.', WHYC,
  ['parse/use.c', 'muse/muse.c', 'parse/export.c', 'parse/specialize.c'], [('writing and reading .use files', 'parse/use.c pickle, unpickle, typickle, tyunpickle, loaduse, writeuse'), ('merging', 'muse/muse.c mergeuse'), ('what is exported', 'parse/export.c tagnode, tagexports'), ('initialisers', '6/main.c, parse/specialize.c geninit')])

WHYL = 'The unit tests call each function on a handful of concrete inputs; sizes, alignments and byte values at the edges of the code paths are not among them.'
P('S01', 'UTF-8 encoding and decoding are exact and never lose bytes',
  'For every code point below 0x200000, encode writes exactly charlen(c) bytes of its UTF-8 form if the buffer has room (otherwise it writes nothing and returns -1), and decode and charstep return the code point and the rest of the string. On arbitrary bytes, decode and charstep yield the code point of a complete, shortest-form sequence at the start, and otherwise Badchar consuming exactly one byte (none from an empty string); bychar visits every character of a string, in order and covering all of its bytes. Appending characters to a string buffer appends their encodings.',
  'Every code point; every byte string up to 5 bytes; every buffer length up to 5.', WHYL,
  ['lib/std/utf.myr', 'lib/std/striter.myr', 'lib/std/strbuf.myr'], [('encoding', 'lib/std/utf.myr encode, charlen'), ('decoding', 'lib/std/utf.myr charstep, decode'), ('iteration', 'lib/std/striter.myr bychar')])
P('S02', 'Integers are formatted exactly, in every base, width and padding',
  'Formatting any value of any integer type produces the sign, the shortest digits of the magnitude in base 10 (16 with {x}, N with {b=N}, 2 to 16), and padding ({w=N}, {p=C}; blanks by default) on the left up to the width, and nothing else; padding with 0 goes between the sign and the digits. Unsigned types never print a sign, and the smallest value of a signed type is exact.',
  'Every value of all 11 integer types; bases 2, 8, 10, 16 (2..16 for int8); widths 0..24; paddings 0, blank, _.', WHYL,
  ['lib/std/fmt.myr'], [('digit generation', 'lib/std/fmt.myr intfmt'), ('parameter parsing', 'lib/std/fmt.myr parseparams')])
P('S03', 'intparse and intparsebase accept exactly the numbers and yield their value',
  'intparse accepts exactly an optional sign, an optional prefix 0x, 0o or 0b, and one or more digits of the base, with _ allowed among the digits, and intparsebase the same without prefix in bases up to 36 (letters of either case); every other string, including the empty one and one with a sign or prefix but no digits, yields `None. The result is the value of the digits, negated for -, reduced modulo 2^width of the requested type.',
  'Every string up to 3 or 4 bytes; digit strings up to 20 digits; 8 integer types; bases 2, 8, 10, 16, 36.', WHYL,
  ['lib/std/intparse.myr', 'lib/std/chartype.myr'], [('parsing', 'lib/std/intparse.myr doparse'), ('digit values', 'lib/std/chartype.myr charval')])
P('S04', 'fmt expands every directive in order and formats values of every type',
  'fmt and bfmt copy the literal text of the format, expand {{ and }}, and replace each directive by the formatted next argument: strings ({}, padded by {w=}, quoted and escaped by {e}, hexadecimal by {r}), characters, booleans, pointers, tuples, structs, arrays, slices and unions in their source-like notation with every element, and values with an installed formatter (IP addresses, bitsets) by that formatter. An argument of any size and alignment does not disturb the next one. bfmt writes the longest prefix of the result that fits the buffer, never past its end.',
  'Strings up to 4 bytes with every byte value; every boolean, character class, union tag and small integers; nested aggregates; buffers of 0..9 bytes.', WHYL,
  ['lib/std/fmt.myr', 'lib/std/fmtfuncs.myr', 'lib/std/varargs.myr', 'lib/std/introspect.myr', 'lib/std/strbuf.myr', 'lib/std/netaddr.myr'], [('format loop', 'lib/std/fmt.myr sbfmtv'), ('structured values', 'lib/std/fmt.myr fmtslice, fmtstruct, fmtunion'), ('argument walking', 'lib/std/varargs.myr')])
P('S05', 'Slice operations keep contents, length and isolation',
  'slalloc, slzalloc, sldup, slpush, slput, slpop, sldel, slgrow, slzgrow, sljoin, slfill, slcp, slswap, sleq and slfree behave as operations on mathematical sequences: contents and length after any history are those of the sequence, growing keeps the old elements (slzgrow and slzalloc zero the new ones), sldup and sljoin copy, and no operation touches memory outside the slice or another slice. slcp copies overlapping slices correctly and aborts exactly if the lengths differ.',
  'Every history of 3 operations from lengths 0..2 and of 2 operations from lengths up to 112, every element value, element sizes 1, 4, 8, 24.', WHYL,
  ['lib/std/slpush.myr', 'lib/std/slput.myr', 'lib/std/slpop.myr', 'lib/std/slcp.myr', 'lib/std/sldup.myr', 'lib/std/sljoin.myr', 'lib/std/slfill.myr', 'lib/std/sleq.myr', 'lib/std/alloc.myr'], [('growth', 'lib/std/alloc.myr slgrow, slzgrow'), ('insertion and deletion', 'lib/std/slput.myr')])
P('S06', 'String search, splitting, joining, stripping and comparison are exact',
  'strfind and strrfind return the first and last offset at which the needle occurs (`None if nowhere), strhas whether it does. strsplit and bysplit yield the pieces between leftmost non-overlapping separators in order (strsplit a final empty piece too), strtok and bytok the maximal runs of non-space characters; bstrsplit and bstrtok yield the same, the last slot taking the rest. strjoin, strcat and strreplace build exactly the concatenation. strstrip, strfstrip and strrstrip drop exactly the blank ends; hasprefix, hassuffix and strchomp are exact; strcmp, strncmp, strcasecmp order byte strings lexicographically.',
  'Every string up to 6 bytes, needles up to 3 bytes, Unicode spaces included, within the sizes stated per case.', WHYL,
  ['lib/std/strfind.myr', 'lib/std/strsplit.myr', 'lib/std/striter.myr', 'lib/std/strjoin.myr', 'lib/std/strstrip.myr', 'lib/std/strreplace.myr', 'lib/std/hasprefix.myr', 'lib/std/hassuffix.myr', 'lib/std/cmp.myr', 'lib/std/chomp.myr', 'lib/std/cstrconv.myr', 'lib/std/sleq.myr'], [('search', 'lib/std/strfind.myr'), ('splitting', 'lib/std/strsplit.myr dostrsplit, dostrtok'), ('iterators', 'lib/std/striter.myr')])
P('S07', 'Allocated memory is exclusive, aligned, large enough and reused',
  'For every history of allocations, frees and sizes, bytealloc (and alloc, zalloc, mk, slalloc above it) returns a block of at least the requested size that overlaps no live block, is aligned to 16 bytes, and keeps its contents until it is freed; zeroed variants are all zero even in reused memory. Freed blocks are reused: a program that repeatedly allocates and frees the same blocks does not use more and more memory. Freeing zero-sized blocks and nil-like slices is harmless.',
  'Every history of 5 allocations and frees over chosen sizes from every size class; slabs filled and emptied in every rotation; every pair of sizes up to 256 KiB.', WHYL,
  ['lib/std/alloc.myr', 'lib/std/bytealloc.myr', 'lib/std/mk.myr', 'lib/std/clear.myr'], [('size classes, slabs and the page cache', 'lib/std/bytealloc.myr bytealloc, bytefree, mkslab'), ('typed allocation', 'lib/std/alloc.myr')], over=('histories', 'inputs'))
P('S08', 'Hash tables behave as maps for every history',
  'After any history of htput, htdel and growth, whatever the hash values and collisions, htget yields the value last put for a key and `None for a key never put or deleted since, hthas and htgetv agree with it, the count of the table is the number of its keys, htkeys lists each key once, and byhtkeyvals visits every entry exactly once.',
  'Every history of up to 5 operations over keys with adversarial hashes, around growth and clean-up of deleted entries; every value.', WHYL,
  ['lib/std/htab.myr', 'lib/std/hashfuncs.myr'], [('probing, insertion, deletion, growth', 'lib/std/htab.myr')], over=('histories', 'inputs'))
P('S09', 'Bit sets behave as sets of natural numbers',
  'bsput, bsdel, bshas, bsclear, bsdup, bscount, bsmax, bsunion, bsintersect, bsdiff, bsissubset, equality and bybsvalue behave as the operations on sets of non-negative integers, whatever the capacities of the operands; bsput and bsdel report whether they changed the set, iteration yields the elements in ascending order, and equal sets have equal hashes. Reading never changes a set.',
  'Every pair of sets within 0..191, with operands of different capacities.', WHYL,
  ['lib/std/bitset.myr'], [('set operations', 'lib/std/bitset.myr')])
P('S10', 'Sorting and searching are exact; min, max, abs, clamp and swap too',
  'sort permutes the slice so that it is in the order of the comparison function, for every input and length; bsearch finds an element of a sorted slice iff there is one, lsearch the first one of any slice. min, max, abs, clamp, swap and numcmp are exact for every value of every integer type.',
  'Every slice of up to 5 records (7 in the thorough check); every value of 8 integer types.', WHYL,
  ['lib/std/sort.myr', 'lib/std/search.myr', 'lib/std/cmp.myr', 'lib/std/extremum.myr', 'lib/std/swap.myr'], [('heapsort', 'lib/std/sort.myr'), ('searching', 'lib/std/search.myr')])
P('S11', 'Big integer arithmetic is exact',
  'For numbers of any size and sign, bigadd, bigsub, bigmul, bigdiv, bigmod, bigdivmod (truncated division), bigshl, bigshr, bigmodpow, bigand, bigor (non-negative), the comparisons, and the variants taking an integer compute the exact result in canonical form (no leading zero digits, zero without sign), also when operands are the same object, and leave the other operands unchanged. bigparse, bigfrombytes, mkbigint and bigbfmt convert exactly, in bases 2 to 36.',
  'Every pair of numbers up to 64 bits (96 in places); edge digits of up to 4 digits for division; digit patterns across the Karatsuba threshold.', WHYL,
  ['lib/std/bigint.myr'], [('addition and subtraction', 'lib/std/bigint.myr'), ('multiplication, schoolbook and Karatsuba', 'lib/std/bigint.myr'), ('long division', 'lib/std/bigint.myr')])
P('S12', 'Byte order conversion and hashing are exact',
  'get{le,be,host}{8,16,32,64} read exactly the first 1, 2, 4 or 8 bytes in that order (host is little-endian) and yield the value, zero-extended into a wider type (le and be variants); put* write exactly the bytes of the value, truncated to the width, return the count, and change no other byte; both abort if the buffer is too short. hosttonet and nettohost reverse the bytes of 16, 32 and 64 bit integers. siphash24 is SipHash-2-4 for every key and message; hash of equal strings, slices, integers or pointers is equal, and std.eq compares them by content (pointers by address).',
  'Every value and byte; offsets 0..8; every key and message of up to 25 bytes.', WHYL,
  ['lib/std/getint.myr', 'lib/std/putint.myr', 'lib/std/endian.myr', 'lib/std/hashfuncs.myr', 'lib/std/sleq.myr'], [('reading', 'lib/std/getint.myr'), ('writing', 'lib/std/putint.myr putle, putbe'), ('hashing', 'lib/std/hashfuncs.myr siphash24, sipround')])
P('S13', 'String buffers hold exactly what was appended',
  'After any history of sbputc, sbputs, sbputb and sbtrim, sbpeek and sbfin yield exactly the bytes appended and not trimmed. A buffer made with mksb grows as needed and every append succeeds; one made with mkbufsb over n bytes never writes outside them, refuses a byte or character that does not fit whole (returning false, changing nothing), and takes the part of a string that fits. sbtrim to n keeps at most the first n bytes; a negative n drops the last -n.',
  'Every history of 3 operations (4 in the thorough check), capacities 0..8, every byte and code point.', WHYL,
  ['lib/std/strbuf.myr', 'lib/std/utf.myr'], [('growth and limits', 'lib/std/strbuf.myr ensure')], over=('histories', 'inputs'))
P('S14', 'Path functions normalise, join and split paths exactly',
  'pathnorm yields the shortest path with the same meaning: no empty or . components, every .. cancels the component before it, none remains at the root, the path is absolute iff the input is, and . stands for an empty relative path. pathjoin and pathcat normalise the components joined by slashes, ignoring leading empty ones; pathabs of an absolute path normalises it. dirname drops trailing slashes, the last component and the slash before it (giving . or /), basename yields the last component, empty for the root.',
  'Every path of up to 6 bytes over slashes, dots and other characters; deep paths of 6 components; joins of up to 3 components.', WHYL,
  ['lib/std/pathjoin.myr', 'lib/std/dirname.myr', 'lib/std/strfind.myr', 'lib/std/strsplit.myr', 'lib/std/strjoin.myr'], [('normalisation', 'lib/std/pathjoin.myr pathnorm'), ('splitting', 'lib/std/dirname.myr')])
P('S15', 'optparse separates options, values and arguments exactly',
  'optparse reads the words after the first: a word starting with - (not just -) is a group of option characters, of which one that takes a value takes the rest of the word, or else the whole next word; -- ends the options; all other words are arguments, in order. The result lists every option with its value (empty if it takes none, or an optional value is missing) in order, and the value is stored at the destination of the option. An unknown option, a missing required value, or too few or too many arguments terminate the program with status 1.',
  'Up to 3 (thorough: 4) out of 14 kinds of words, some with an arbitrary character; every minimum and maximum of 0..2 arguments.', WHYL,
  ['lib/std/optparse.myr'], [('option scanning', 'lib/std/optparse.myr optnext, next')])
P('S16', 'IP addresses are parsed exactly, and network addresses completed',
  'ip4parse accepts exactly four dot-separated numbers of 1 to 4 decimal digits, each at most 255; ip6parse accepts exactly 8 colon-separated groups of 1 to 4 hexadecimal digits, or fewer than 8 with one :: standing for the missing zero groups. ipparse decides by the presence of a colon; the result has exactly the bytes of the address, and parsing a formatted address gives it back. netaddr leaves an address with two ! alone, and otherwise adds the given network in front and port behind (the port, or else the network, if there is one !).',
  'Addresses of 1..5 parts and 0..3, 7..9 groups with :: anywhere, one part arbitrary; every ASCII string up to 4 bytes.', WHYL,
  ['lib/std/ipparse.myr', 'lib/std/netaddr.myr', 'lib/std/fmtfuncs.myr'], [('parsing', 'lib/std/ipparse.myr ip4parse, ip6parse, expandsplit'), ('completion', 'lib/std/netaddr.myr')])
P('S17', 'Floating point numbers are parsed, formatted and taken apart exactly',
  'flt64parse and flt32parse accept exactly: an optional sign followed by decimal digits with at most one point and an optional exponent (e or E, optional sign, digits), with at least one digit in each, underscores ignored, or by inf, Inf, nan, NaN; the result is the nearest number (denormals included, ties to even). Formatting with {} or {e} yields a decimal that parses back to the same number, with no more significant digits than needed to tell numbers apart (17, 9 for flt32). bits and frombits are exact; explode and assem are inverse; isnan is exact.',
  'Every bit pattern for the bit functions; every ASCII string up to 2 bytes and over the relevant characters up to 4; 35 decimal templates with two digits; 860 chosen numbers for round trips.', WHYL,
  ['lib/std/fltbits.myr', 'lib/std/fltparse.myr', 'lib/std/fltfmt.myr'], [('parsing', 'lib/std/fltparse.myr'), ('shortest formatting', 'lib/std/fltfmt.myr'), ('rounding of denormals', 'lib/std/fltbits.myr')])
P('S18', 'Variadic arguments and type descriptions are exact',
  'A variadic function gets each argument with its type and value: vanext yields the value, vabytes its bytes, both moving on to the next argument, whatever the types before it; vaenter and vaenterunion walk the members of tuples, structs, arrays, slices, unions and named types. typedesc describes every type: kind, element types and counts, member, tag and type names, in order; typeinfo gives its size (sizeof) and alignment; ncpeek and ncnext agree.',
  'Every value, in 37 calls with arguments of up to 3 levels of nesting of all kinds.', WHYL,
  ['lib/std/varargs.myr', 'lib/std/introspect.myr', '6/typeinfo.c'], [('argument cursors', 'lib/std/varargs.myr'), ('type descriptions', 'lib/std/introspect.myr'), ('their encoding', '6/typeinfo.c')])
P('S19', 'Character classes and case mappings are consistent and match Unicode',
  'For letters of the Latin, Greek, Cyrillic (basic), Armenian, Hebrew, kana and Han blocks and Hangul, isalpha, isupper, islower, tolower, toupper and cellwidth agree with Unicode; so do tolower and toupper for the letters with a case mapping in Unicode 1.1 of Latin Extended-B, IPA, the rest of Cyrillic, Greek Extended, and for Roman numerals and circled letters. For every code point: islower(c) iff toupper(c) differs from c, isupper(c) iff tolower(c) does, istitle iff both, cased characters are letters, isalnum is isalpha or isnum, isspace is newline or isblank; isdigit, isxdigit and isascii are the ASCII classes; cellwidth is -1 exactly for controls except NUL, else 0, 1 or 2. totitle maps the DZ, LJ, NJ digraphs to the middle form. charval yields the value of a digit in the base, or -1.',
  'Every code point; bases 2..36.', WHYL,
  ['lib/std/chartype.myr'], [('range and singlet lookup', 'lib/std/chartype.myr')])
P('S20', 'Random numbers are in range, evenly chosen and reproducible',
  'A generator made by mksrng produces the xoroshiro128+ sequence, determined by the seed alone; different seeds give different sequences, and no seed gives a constant one. rngrand(lo, hi) is at least lo and below hi, and is the first raw number below the largest multiple of the span, reduced modulo the span, plus lo, so that every value is equally likely. rngrandbytes fills exactly the buffer with successive raw numbers, least significant byte first.',
  'Every seed; every range of int8, chosen spans of other types; buffers of 0..33 bytes.', WHYL,
  ['lib/std/rand.myr'], [('generation and rejection', 'lib/std/rand.myr rngrand, rngrandbytes, rngrandnum')])
P('E01', 'Escaping for HTML, shell, URL and regex is exact',
  'Formatting escfmt.html writes & < > and / as &amp; &lt; &gt; &#x2f;, escfmt.sh puts the string in single quotes with a quote inside written as \'\\\'\', escfmt.url writes the bytes of :/?#[]@!$&\'()*+,;=% and all bytes from 0x80 up as % and two lower case hex digits, escfmt.re puts a backslash before each of |*+?[]^$.\\(); everything else is copied unchanged, in order.',
  'Every string of up to 3 bytes.', WHYL,
  ['lib/escfmt/eschtml.myr', 'lib/escfmt/escre.myr', 'lib/escfmt/escsh.myr', 'lib/escfmt/escurl.myr'], [('escaping', 'lib/escfmt')])
P('R01', 'Regular expressions match exactly the strings they describe',
  'compile accepts exactly the patterns built from characters, . (any character but newline), sets and negated sets [a-z] [^a-z], \\d \\D \\x \\X \\s \\S \\w \\W \\h \\H, escaped operators, \\n \\r \\b \\u{hex}, ^ $ \\< \\>, groups, |, * + ? and *? +?, rejecting the rest with an error and never aborting. exec matches iff the whole string is described by the pattern; search finds the leftmost match, and the longest there; both yield the match and the text of each group (empty for one not taking part), iexec and isearch the indices. sub replaces the groups of a match of the whole string, suball those of the matches found from left to right (every character belongs to one match at most), and both always end.',
  '100 patterns and every pattern of up to 2 (thorough: 3) bytes over the operators; ranges between 21 characters; every text of up to 3 (thorough: 4) bytes, ASCII for searching.', WHYL,
  ['lib/regex/compile.myr', 'lib/regex/interp.myr', 'lib/regex/ranges.myr'], [('parsing', 'lib/regex/compile.myr'), ('matching', 'lib/regex/interp.myr'), ('character sets', 'lib/regex/ranges.myr')])
P('J01', 'JSON is parsed and formatted exactly',
  'json.parse accepts exactly the JSON texts (RFC 8259: white space, literals, numbers, strings of valid UTF-8 with escapes and \\u with surrogate pairs, arrays, objects) nested at most 1024 deep, and reports an error for anything else, always ending; the result is the value described: literals, the number nearest to the text, the decoded string, elements and members in order (repeated keys kept). Formatting a value built of finite numbers and valid UTF-8 strings with {} writes a JSON text of the same value, which parses back to it.',
  'Every ASCII text up to 2 bytes; texts of up to 5 (thorough: 6) structural characters; every string up to 3 (4) bytes; every escape; numbers up to 4 (5) characters; 6 shapes of trees.', WHYL,
  ['lib/json/parse.myr', 'lib/json/fmt.myr'], [('parsing', 'lib/json/parse.myr'), ('formatting', 'lib/json/fmt.myr')])
P('B01', 'Buffered I/O moves exactly the bytes, whatever pieces come and go',
  'Whatever sizes its backend reads and writes in, a bio file behaves as its byte sequence. getb, getc (std.decode: an invalid byte is Badchar), read (short only at the end), get{le,be}{8,16,32,64}, readln (up to LF, CR or CR LF, dropped), readto, readterm, skipto (true iff found), skipspace, byline and bychar return what the data has at the position, which they move; peekb and peekc do not; Eof iff too little is left (what is there stays readable); seek sets the position. Calls needing a fixed number of bytes do not ask for more once they have it. If all calls succeed up to close, the backend got exactly what was written, in order; after flush, and before seeks, it has all of it. Backend errors are reported, reading errors after the data before them. bio.open, create (empties the file or creates it with the mode) and mkfile do so for files; close always closes.',
  'Any two (thorough: three) calls of 24 reading and 14 writing ones; every data of 3 or 4 bytes in every division into pieces; errors at any place; positions around the end of the 16 KiB buffer.', WHYL,
  ['lib/bio/bio.myr', 'lib/bio/geti.myr', 'lib/bio/puti.myr', 'lib/bio/iter.myr', 'lib/bio/mem.myr'], [('buffering', 'lib/bio/bio.myr fill, ensureread, writebuf'), ('integers', 'lib/bio/geti.myr, puti.myr'), ('iteration', 'lib/bio/iter.myr'), ('memory files', 'lib/bio/mem.myr')])
P('S21', 'Files are read and written whole and exactly, or an error is reported',
  'Whatever number of bytes each system call moves: slurp yields the bytes of the file, fslurp those from the position on; blat makes the file hold exactly the given bytes, creating it with the mode (less umask) or replacing what it held; fblat writes them at the position. readall fills the buffer, short only at the end of the file, and returns the count; writeall writes everything and returns the count, or else how much was written and the error. put and fput write the formatted text and return the bytes written. An error or missing file is reported, never ignored; slurp and blat leave no descriptor open. open, openmode (create, truncate, append, close on exec), creat, seek, read, write, pread, pwrite, dup, dup2 and pipe act as in POSIX.',
  'Files of up to 7 bytes in every division into pieces, with any system call failing; sizes around multiples of 4096 with arbitrary edges; every option, position and length.', WHYL,
  ['lib/std/slurp.myr', 'lib/std/blat.myr', 'lib/std/readall.myr', 'lib/std/writeall.myr', 'lib/std/fmt.myr', 'lib/std/syswrap+posixy.myr', 'lib/sys/sys+linux-x64.myr'],
  [('reading', 'lib/std/slurp.myr, readall.myr'), ('writing', 'lib/std/blat.myr, writeall.myr'), ('file calls', 'lib/std/syswrap+posixy.myr')], over=('histories', 'inputs'))
P('S22', 'Files and directories are made, listed, told apart and removed exactly',
  'fexists, fisdir and fisreg hold iff the path, links followed, leads to anything, a directory, a regular file; fsize and fmtime yield size and modification time (microseconds, like now), or the error. mkpath makes the missing directories of a path, and nothing else; it returns Enone iff the directory is there then. mkdir makes one with the mode less umask, chdir moves there, getcwd tells where, at any depth. remove removes a file, a link (not what it leads to) or an empty directory, and nothing else, returning whether it did. dirread and byentry list every name once (byentry without . and ..), diropen refuses what is no directory. mktempat and mkdtempat make a new file or directory DIR/BASEdigits with the mode, trying again while the name is taken.',
  'Every kind of object, permission, size and time; paths of up to 6 characters among files, directories and links; every listing of up to 3 names in pieces of any size; up to 12 levels; every error at every call.', WHYL,
  ['lib/std/syswrap+posixy.myr', 'lib/std/syswrap-ss+linux.myr', 'lib/std/mkpath.myr', 'lib/std/getcwd.myr', 'lib/std/dir+linux.myr', 'lib/std/diriter.myr', 'lib/std/mktemp.myr', 'lib/std/now.myr'],
  [('metadata', 'lib/std/syswrap+posixy.myr, syswrap-ss+linux.myr'), ('listing', 'lib/std/dir+linux.myr'), ('creating paths', 'lib/std/mkpath.myr')], over=('histories', 'inputs'))
P('S23', 'Environment, arguments and child processes are passed on exactly',
  'main gets the arguments of the process in order. getenv yields the value of the first environment string NAME=value with exactly that name, if any (getenvv the default otherwise); setenv replaces the first one in place or adds one at the end, leaving the others, and new processes get the result. execv and execve pass path, arguments and environment exactly; execvp and execvpe do so for the command itself if it contains a slash, and otherwise for each non-empty element of PATH (default /usr/local/bin:/bin:/usr/bin), in order, joined by a slash. spork and espork (with dir: in that directory) start a command with stdin, stdout (and stderr) connected to the descriptors returned, leaving none else open, also on failure. wait, waitany and run tell success, failure and signal apart. tmpdir, homedir and mktemp, mkdtemp and mktemppath follow TMPDIR (or /tmp) and HOME, home.',
  'Every environment of up to 2 strings of up to 3 bytes; every names and values of up to 2; up to 3 arguments; every PATH of up to 3 characters; every exit status; fork or any pipe failing.', WHYL,
  ['lib/std/env+posixy.myr', 'lib/std/execvp.myr', 'lib/std/spork.myr', 'lib/std/wait+posixy.myr', 'lib/std/mktemp.myr', 'lib/sys/sys+linux-x64.myr', 'lib/fileutil/tmpdir.myr', 'lib/fileutil/homedir.myr', 'rt/start-linux.s'],
  [('environment', 'lib/std/env+posixy.myr'), ('search path', 'lib/std/execvp.myr'), ('pipes and processes', 'lib/std/spork.myr'), ('process start', 'rt/start-linux.s')], over=('histories', 'inputs'))
P('X01', 'rmrf removes exactly the tree, and bywalk lists exactly its files',
  'fileutil.rmrf removes the file, link or directory tree named, and nothing outside it: links are removed, never followed. It returns true iff all of it is gone; if something cannot be removed or read, everything else still is. fileutil.bywalk yields, for every file below a directory (whatever the number of its hard links), its path once, entering directories, also through links, only once each, and ends even if links lead back; all descriptors are closed then.',
  'Every tree of up to 4 files, directories and hard links, or 3 objects with links of all kinds, any names; every one removal or directory failing.', WHYL,
  ['lib/fileutil/del.myr', 'lib/fileutil/walk.myr', 'lib/fileutil/loopcheck+posixy.myr', 'lib/std/dir+linux.myr', 'lib/std/syswrap+posixy.myr'],
  [('removal', 'lib/fileutil/del.myr'), ('walking and loops', 'lib/fileutil/walk.myr, loopcheck+posixy.myr')], over=('histories', 'inputs'))
P('S24', 'System calls get exactly their arguments, in the layout of the kernel',
  'On Linux, every wrapper in package sys makes one system call, the one it is named after, with its arguments in the order declared, each passed at its full width: paths and names as NUL-terminated copies, slices as pointer and length; and returns its result unchanged. open creates with mode 0777, waitpid is wait4, epollcreate is epoll_create1; sigaction adds a restorer unless there is one. The constants (open, mapping, socket, poll, epoll, futex, clone, signal, ioctl, error numbers...) and structures (stat, timespec, sockaddr, epoll_event, msghdr, rusage, timex...) have the values and layouts of the C headers; waitstatus takes a status apart into exit code, signal or stop.',
  'Every value of every argument and result of 318 wrappers, strings of up to 3 bytes; 282 constants; every content of 34 structures; every status.', WHYL,
  ['lib/sys/sys+linux-x64.myr', 'lib/sys/syserrno+linux.myr', 'lib/sys/util+posixy-x64.s'], [('wrappers and numbers', 'lib/sys/sys+linux-x64.myr'), ('error numbers', 'lib/sys/syserrno+linux.myr'), ('C strings', 'lib/sys/util+posixy-x64.s')])
P('N01', 'INI files are read, changed and written exactly',
  'inifile.load and loadf read: lines (ended by LF, CR or CR LF), from which a comment starting at ; or # is dropped and blanks around are ignored, are empty, [section], or key = value (split at the first =, blanks around both ignored), the keys belonging to the last section (or "" before any). Anything else is a Parseerr, a key repeated in its section a Dupkey, with the number of the line; a failing read or open a Fileerr. get, getv and has find exactly the keys there, bykeyval lists each once, bysection every section once, in order of first mention. put sets a key, keeping copies, adding its section if new. What write and writef write loads as the same keys and values; they return false iff something could not be written. All descriptors opened, or given to writef, are closed.',
  'Every ASCII text of up to 2 bytes, every text of 4 (thorough: 5) structural characters, any 2 of 15 or 4 of 6 kinds of lines; up to 2 (3) puts; any of the first reads or writes failing.', WHYL,
  ['lib/inifile/parse.myr', 'lib/inifile/access.myr', 'lib/inifile/write.myr', 'lib/inifile/types.myr'], [('parsing', 'lib/inifile/parse.myr'), ('tables', 'lib/inifile/types.myr, access.myr'), ('writing', 'lib/inifile/write.myr')], over=('inputs', 'histories'))
P('T01', 'Threads are excluded, woken and served correctly under every schedule',
  'Under every interleaving of the threads (sequentially consistent): between mtxlock (or a successful mtxtrylock) and mtxunlock no other thread is inside; mtxtrylock fails only while another holds the mutex. condwait releases the mutex and returns holding it; a condsignal after the condition was made true wakes a waiter, a condbroadcast all of them, with the mutex held or not. semwait and semtrywait succeed as often as the initial value plus the posts allow, semwait blocks otherwise, semtrywait returns false. Readers may hold an rwlock together, a writer only alone; tryrdlock and trywrlock return whether they got it. wgwait returns when wgpost was called as often as mkwg said. A queue yields every item once, in order; futget yields the value put, do that of the function. No wakeup is lost and nothing deadlocks. tlsget yields what the same thread set; thread ids are distinct, 0 for the first. xget, xset, xadd, xcas and xchg (int32, uint32, int64, uint64; bool except xadd; pointers) are atomic and return the old value. Relocking a mutex or write lock, unlocking one not held by the thread, a post too many on a wait group, overflowing a semaphore and rdunlock without readers end the process. Linux; fair scheduling; no timeouts.',
  'Programs of 2 or 3 threads with 1 to 4 operations each; every schedule with up to 3 (thorough: 5) preemptions at accesses to the shared objects; every value of the data.', WHYL,
  ['lib/thread/mutex+futex.myr', 'lib/thread/condvar+linux.myr', 'lib/thread/sem+futex.myr', 'lib/thread/rwlock+futex.myr', 'lib/thread/waitgrp+futex.myr', 'lib/thread/futex+linux.myr', 'lib/thread/queue.myr', 'lib/thread/future.myr', 'lib/thread/do.myr', 'lib/thread/atomic.myr', 'lib/thread/atomic-impl+x64.s', 'lib/thread/tls+fsbase.myr', 'lib/thread/spawn+linux.myr', 'lib/thread/hookstd.myr', 'lib/sys/syscall+linux-x64.s'],
  [('locks', 'lib/thread/mutex+futex.myr, rwlock+futex.myr, sem+futex.myr'), ('waiting', 'lib/thread/condvar+linux.myr, waitgrp+futex.myr'), ('atomics', 'lib/thread/atomic-impl+x64.s'), ('threads', 'lib/thread/spawn+linux.myr')], over=('schedules', 'inputs'))
P('I01', 'Iterators yield exactly the elements, in order, and every permutation once',
  'iter.bychunk(s, n) yields the consecutive slices of s of max(n, 1) elements, the last one of those left, which is never empty; byenum yields every element with its index, from 0; byref a pointer to every element, in place; byreverse every element, from last to first; byzip(a, b) the pairs of elements of equal index, until the shorter of the two ends. byperm(s, cmp) sorts s by cmp and yields s, holding every distinct permutation of its elements, each once, in increasing lexicographic order, from the sorted one on (an empty s once). All can be nested, abandoned and started again.',
  'Every sequence of up to 5 elements (permutations: 4, in every order, with every equality), every chunk size.', WHYL,
  ['lib/iter/chunk.myr', 'lib/iter/enum.myr', 'lib/iter/ref.myr', 'lib/iter/reverse.myr', 'lib/iter/zip.myr', 'lib/iter/perm.myr'], [('iterators', 'lib/iter/*.myr'), ('permutations', 'lib/iter/perm.myr')])
P('C13', 'Source text is read as the language says: tokens, literals, precedence',
  'The text of a file is taken for the longest possible tokens, with the lines they are on: the operators and keywords of the manual, identifiers of letters, digits and _ (at least 256 long; never cut), @names. Blanks, // and nested /* */ comments, a backslash at the end of a line and a first line starting #! only separate. Integer literals (decimal, 0x, 0o, 0b, with _ between digits) have the value written, or are rejected if over 64 bits, without digits or with wrong ones; suffixes b s i l, with u before for unsigned, give them the type of 8, 16, 32, 64 bits. Digits with one point, or an exponent, are floating point, but not after a dot (tuple members); malformed ones are rejected. Strings hold exactly the bytes written, characters the codepoint of the UTF-8, after replacing the escapes \\n \\r \\t \\b \\v \\\\ \\" \\\' \\0 \\xDD \\u{X}; others, an unescaped newline and a missing end are rejected. Adjacent strings are joined. true, false and void are those literals. Operators bind and associate as in section 5.2.1 of the manual (conditionals between || and assignment, prefix operators looser than postfix ones), parentheses group.',
  'Every text of up to 2 bytes (thorough: 3), 3 or 4 operator characters, literals of up to 6 varying characters, words up to 4, keywords with one change; every two of 29 binary operators, three of 10, every two or three prefix and postfix ones.', WHYC,
  ['parse/tok.c', 'parse/gram.y', 'doc/lang.txt'], [('tokens', 'parse/tok.c'), ('expressions', 'parse/gram.y expr .. atomicexpr'), ('literals', 'parse/gram.y littok, strlit')])
P('K01', 'Hash functions, HMAC and ChaCha20 compute what their standards say',
  'crypto.md5, sha1, sha224, sha256, sha384 and sha512 return the digest that their standard defines, for every message; so do the init, add, add, ..., fin functions of the same names and the hash trait (hinit, hadd, hfin; Hashsz and Blocksz are the digest and block size) for every way of cutting the message into pieces, empty ones too, also on a state used before. hmac over sha1, sha224 and sha256, hmacsha224 and hmacsha256 return the keyed digest of FIPS 198, for keys of any length. chacha20encrypt encrypts with the key of 16 or 32 bytes, the nonce of 8 and a 64-bit block counter from 0 (of 20 rounds): every length of message, also in place, also in several calls as long as all but the last are whole blocks (an empty one changes nothing). Nothing is written outside the results.',
  'All bytes of messages, keys and nonces arbitrary; messages of 0 bytes to two blocks and 9, pieces and keys of sizes around the block; ChaCha20: up to 194 bytes.', WHYL,
  ['lib/crypto/md5.myr', 'lib/crypto/sha1.myr', 'lib/crypto/sha256.myr', 'lib/crypto/sha512.myr', 'lib/crypto/hmac.myr', 'lib/crypto/chacha20.myr'], [('hashes', 'lib/crypto/{md5,sha1,sha256,sha512}.myr'), ('keyed', 'lib/crypto/hmac.myr'), ('stream', 'lib/crypto/chacha20.myr')])
P('K02', 'Constant time comparisons and big numbers of lib/crypto are exact',
  "For unsigned types of every width and all values, crypto.eq, ne, gt, lt, ge, le are 1 where the comparison holds and 0 elsewhere, not exchanges 0 and 1, mux(c, a, b) is a for c = 1 and b for c = 0, min and max are the smaller and larger; bufeq tells whether buffers of the same length are the same. A ctbig of nbit bits (at least one; any number, also no multiple of 8 or 32) has (nbit+31)/32 digits, least significant first, and is below 2^nbit: mkctbigle and mkctbigbe (of at most as many bytes as the digits have), mkctbign, ctzero and ctbigdup make the number given, cut to nbit bits, in memory of its own; ctbytesle and ctbytesbe give its (nbit+7)/8 bytes. ctadd, ctsub and ctmul of numbers of the same size put the result modulo 2^nbit into r, also when r is one of the operands, and change nothing else; cteq, ctne, ctlt, ctle, ctgt, ctge and ctiszero (and std.eq) compare the values. None of these aborts.",
  'All values of 8, 16, 32, 64-bit numbers; all operands of 12 sizes up to 96 bits (ctmul: the words of one operand from a list of 4); buffers up to 20 bytes. ctmodpow and its helpers, and timing, are not claimed.', WHYL,
  ['lib/crypto/ct.myr', 'lib/crypto/ctbig.myr'], [('comparisons', 'lib/crypto/ct.myr'), ('big numbers', 'lib/crypto/ctbig.myr')])
