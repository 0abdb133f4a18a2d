"""The bounds of each harness entry, as written into the evidence."""
ANY = 'any Unicode scalar value'
B = {
    'h_p01_a': 'table of 2 entries, characters each ' + ANY + ' (one replacement three-byte); text of 2 characters, each ' + ANY,
    'h_p01_b': 'table of 1 entry added to an empty pipeline, text of 3 characters, all ' + ANY,
    'h_p01_c': 'fixed YAML table of 7 chained entries; text of 3 characters, each ' + ANY,
    'h_p01_d': 'table of 1 entry (original ' + ANY + ', 3 replacements); text of ~60 characters with 2 arbitrary ones',
    'h_p01_e': '4 chained entries plus 1 arbitrary one through TableBuilder; text of 2 arbitrary characters',
    'h_p02_a': 'text of 2 characters, each ' + ANY + '; three ways of enabling the preset',
    'h_p02_b': 'text of ~60 characters with an arbitrary one at two places',
    'h_p02_c': 'text of 3 characters, each ' + ANY,
    'h_p03_a': '5 run characters (1-4 bytes); text of 3 characters, each ' + ANY,
    'h_p03_b': '5 run characters; every text of 7 characters out of the run character and one arbitrary other',
    'h_p03_c': '5 run characters; run of 20 in a text of ~85 characters with 2 arbitrary ones',
    'h_p04_a': '4 lists (0-6 characters); text of 3 characters, each ' + ANY,
    'h_p04_b': '4 lists; text of ~60 characters with 2 arbitrary ones',
    'h_p05_a': 'text of 4 characters, three ' + ANY + ', the last ASCII',
    'h_p05_b': 'every text of 5 ASCII characters',
    'h_p05_c': '0-3 spaces between two arbitrary characters, in a text of 20-30 characters',
    'h_p05_d': 'text of ~60 characters with 2 arbitrary ones',
    'h_p06_a': 'text of 3 characters, each ' + ANY,
    'h_p06_b': 'every text of 5 ASCII characters',
    'h_p06_c': '0-3 leading and trailing spaces, 2 arbitrary characters, text of ~17 characters',
    'h_p07_a': '8 rules (1-3 characters, also to the empty text and to texts that hold the sequence); text of 3 characters, each ' + ANY,
    'h_p07_b': '8 rules; every text of 6 characters over the rule\'s characters and one arbitrary one',
    'h_p07_c': '3 independent rules in 2 orders; text of 3 characters, each ' + ANY,
    'h_p07_d': '1 rule; text of ~75 characters with 2 arbitrary ones',
    'h_p08_a': '1-2 characters, each ' + ANY + '; three ways of enabling the mode',
    'h_p08_b': 'every text of 3 characters of a 27 character alphabet (each class of the mode)',
    'h_p08_c': 'text of 3 characters, each ' + ANY,
    'h_p08_d': 'text of ~75 characters with an arbitrary one at three places',
    'h_p08_e': 'every text of 4 characters of a 10 character alphabet',
    'h_p08_f': 'every text of 5 characters of a 10 character alphabet',
    'h_p08_g': 'every text of 4 characters of a 27 character alphabet',
    'h_p10_a': '5 sets of interacting ligature rules; texts of 3 characters of the rules\' alphabet; every hash value in 0..3 of every key of every map',
    'h_p10_b': 'conversion table of 4; text of 3 with 2 arbitrary characters; every hash value in 0..2',
    'h_p10_c': 'tables with several replacements (builder, YAML, CSV); text of 2; every hash value in 0..2 (3 in the thorough tier)',
    'h_p10_d': 'eliminator, reducer, dotted spaces and trim; text of 3 ASCII characters; every hash value in 0..2',
    'h_p10_e': 'table union of 2 and 1 symbolic entries; every hash value in 0..3',
    'h_p10_f': '6 configurations of each kind of step; texts of 7 characters (9 in the thorough tier) of two that the steps change; every hash value in 0..2',
    'h_p11_a': '16 pipelines (0-8 steps); text of 2 characters, each ' + ANY,
    'h_p11_b': '16 pipelines; the empty text and a text of ~60 characters with an arbitrary one',
    'h_p11_c': '16 pipelines; every text of 4 characters of a 5 character alphabet',
    'h_p11_d': 'all ordered pairs of 7 steps; texts of 3 characters',
    'h_p11_e': '16 pipelines with debug logging on and off; text of 2 characters, one arbitrary',
    'h_p12_a': 'all ordered pairs of 7 steps, with and without the file\'s own table; every text of 4 characters of a 5 character alphabet',
    'h_p12_b': '6 triples of steps; text of 3 characters, one (two in the thorough tier) arbitrary',
    'h_p12_c': 'all 6 orders of preset, neologdn and a table, after a file or not; text of 2 characters, one (two) arbitrary',
    'h_p12_d': 'the same table 0-3 times; text of 3 arbitrary characters',
    'h_p13_a': 'table of 1 arbitrary entry; text of 3 arbitrary characters',
    'h_p13_b': 'table of 2 entries with arbitrary originals; text of 2 arbitrary characters',
    'h_p13_c': 'preset; text of 2 arbitrary characters',
    'h_p13_d': 'preset; text of ~60 characters with an arbitrary one at two places',
    'h_p13_e': 'chained table of 4 (1-4 bytes); text of 3 arbitrary characters',
    'h_p14_a': '4 run characters (1-4 bytes); text of 3 arbitrary characters',
    'h_p14_b': '4 run characters; every text of 6 characters out of it and one arbitrary other',
    'h_p14_c': '4 run characters; text of ~85-600 characters with long runs (up to 520) and an arbitrary character',
    'h_p14_d': 'trim: text of 3 arbitrary characters',
    'h_p14_e': 'trim: every text of 5 ASCII characters',
    'h_p14_f': 'trim: 0-3 leading and trailing spaces around 2 arbitrary characters',
    'h_p15_a': 'tables of 0-2 entries each, originals of 3 and replacements of 2 characters, duplicates allowed; adding and subtracting',
    'h_p15_b': 'a table of 3 entries with one of arbitrary characters; adding and subtracting',
    'h_p15_c': 'tables of 2 and 1 entries out of 8 that look alike when joined or cut (0-3 characters each)',
    'h_p15_d': 'three tables of 0-2, 1 and 1 entries; associativity, additions after removals',
    'h_p15_e': 'predefined (Unification, Linear) tables with a table of 2 entries, one arbitrary',
    'h_p15_f': 'tables of 3 and 2 entries, originals of 3 and replacements of 2 characters',
    'h_p16_a': '3 rows of 2 cells of 1-2 arbitrary characters, quoted or not; row ends LF, CR LF, blank line between',
    'h_p16_b': '2 rows of 1-4 cells of 2 characters, one arbitrary, quoted or not; last row ended or not',
    'h_p16_c': '3 files of 3-4 rows: duplicates, empty cells, blanks; 2 arbitrary characters',
    'h_p16_d': 'header row of 1-3 cells with arbitrary characters, quoted or not',
    'h_p16_e': 'file of 8 KiB and more, an arbitrary character at 6 offsets around the buffer boundary',
    'h_p16_f': '3 ways of loading a file of 2 rows with 2 arbitrary characters',
    'h_p17_a': 'table of 4 entries with 2 arbitrary characters',
    'h_p17_b': 'tables of 0-3 entries, originals of 5 and replacements of 3 characters (quotes, commas, line feeds)',
    'h_p17_c': 'table of 11 entries in 3 groups with 2 arbitrary characters',
    'h_p18_a': '3 list entries, 2 arbitrary characters; double quoted, single quoted or plain; keys in either order',
    'h_p18_b': 'mapping notation with one original, a flow or a block list; 2 arbitrary characters; three scalar styles',
    'h_p18_c': '6 documents (flow style, comments, other keys, no items, duplicates) with an arbitrary character',
    'h_p18_d': 'every \\uXXXX escape',
    'h_p18_e': '3 ways of loading a file of 2 entries with 2 arbitrary characters',
    'h_p19_a': 'table of 2 entries with 2 arbitrary characters',
    'h_p19_b': 'original or replacement of every 2 ASCII characters',
    'h_p19_c': 'tables of 0-3 entries, originals of 7 and replacements of 3 characters',
    'h_p19_d': 'original or replacement of every 4 (5 in the thorough tier) characters of a 32 character alphabet of YAML marks',
    'h_p19_e': '22 words that mean something in YAML, alone, with an arbitrary character before or after; table of 4 in groups',
    'h_p20_a': 'any of 22 shapes of YAML value with any of 8 leaves (one an arbitrary character) as the document; texts of 0-6 characters, one arbitrary',
    'h_p20_b': 'the same values as the items',
    'h_p20_c': 'the same values for each of 7 modifiers and 2 unknown names',
    'h_p20_d': 'the same values as the modifiers, as the name of one, and as items next to modifiers',
    'h_p20_e': 'a 45 character document with any one character replaced by, or joined by, any ASCII character',
    'h_p20_f': 'CSV: 0-4 arbitrary bytes, alone, as second row, or after a first cell',
    'h_p20_g': 'YAML: 0-2 arbitrary bytes, alone or in 3 places of a document',
    'h_p20_h': 'missing file, directory, empty file, file as directory; 3 extensions',
    'h_p20_i': 'table with empty originals and replacements, 2 arbitrary characters',
    'h_p21_a': 'files in two of the three directories: any subset of 3 x any subset of 3 (thorough: 9) of the other 9; 9 arrangements of HOME and the current directory (apart, same, equal to ~/.config/chanoma, relative, not normalised, name prefix, either inside the other)',
    'h_p21_b': 'no or all 18 files, one (thorough: any two) of each directory the other way; the same arrangements',
    'h_p21_c': 'each of the 18 files a directory, not decodable, malformed, or empty',
    'h_p21_d': 'current directory removed, HOME absent, with any subset of two files',
    'h_p21_e': '22 values of CHANOMARC, any subset of three other files',
    'h_p21_f': 'CHANOMARC: a path and 0-5 arbitrary bytes, 8 files exist',
    'h_p22_a': 'any path of 0-5 (thorough: 6) bytes',
    'h_p22_b': '10 beginnings x 0-2 arbitrary bytes x 12 endings',
    'h_p22_c': 'any extension of 0-5 bytes, with or without trailing slash',
    'h_p22_d': '14 names, 2 contents',
    'h_p23_a': 'all 8 spellings of the switches -p and -n; a text of 4 characters, one arbitrary',
    'h_p23_b': 'text before or after the switches or behind --; 4 start-up configurations; texts of 0-2 characters, one arbitrary and one ASCII (texts with a leading - only behind --)',
    'h_p23_c': '-d and --debug, no or one other switch, 4 start-up configurations, a text of 3 characters, one arbitrary',
    'h_p23_d': 'standard input with no, one, two line feeds or a second line; lines of 0-5 characters, up to two symbolic (one arbitrary, one ASCII, which may be a line feed)',
    'h_p26_a': '6 spellings of the option; any Unicode scalar value normalised',
    'h_p24_a': 'constructor: table x 5 configurations x 3 ways to pass the arguments, without the built-in steps; texts of 3 characters, two arbitrary',
    'h_p24_b': 'the same with preset, neologdn or both (thorough: all ways); texts of 3-4 characters, one arbitrary',
    'h_p24_c': '9 files that do not load, as configuration, start-up configuration and table',
    'h_p24_d': 'tables of preset, CSV, YAML (any combination) and 0-3 added items with arbitrary characters, 2 ways to pass the arguments',
    'h_p24_g': 'two items (12 x 6; thorough: 12 x 12) that keep, drop or repeat a character or have empty texts, added at once or one by one to an empty or a CSV table (thorough: also the preset); text of 3 with one arbitrary character',
    'h_p24_e': 'the 5 character sets; any Unicode scalar value normalised',
    'h_p25_a': 'any Unicode scalar value looked up',
    'h_p18_f': 'another key (4 kinds, one arbitrary) with 12 values before or after the items, in 4 notations; arbitrary character in the items',
    'h_p27_a': 'every set, as constant and as value; any Unicode scalar value looked up',
    'h_p27_b': 'each of the 156 named entries alone, with another entry, and removed again; text with any Unicode scalar value',
    'h_p27_c': 'each of the 156 named entries removed from the preset; text with any three-byte character (thorough: any)',
    'h_p25_b': 'each character of the block',
}
for _n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 14):
    B['h_p%02d_l' % _n] = 'texts of ~700-1100 and ~4500 characters (runs of 300) with one arbitrary character at 4 and more places'
B['h_p14_m'] = B['h_p06_l'] + ', 0 or 300 spaces around it'
B.update({
    'h_p01_m': '300 chained entries (table, modifier, YAML items); text of 8 characters, two arbitrary',
    'h_p04_m': 'list of 300 characters in 2 orders; text of 303 characters, two arbitrary',
    'h_p07_m': '300 rules; or one rule of 20 or 300 characters with a longer replacement; an arbitrary character at 3 places',
    'h_p11_m': '300 steps; text of 5 characters, one arbitrary; every record',
    'h_p12_e': 'sequences of 3, and those of 4 with a repetition, of the calls preset, neologdn and two tables (three in the thorough tier) that undo what the modes do, after a file or not; text of 4 characters, one of 10',
    'h_p01_n': '300 entries; a text of all 300 listed characters and one arbitrary one',
    'h_p02_m': 'one text of every character of the preset and its neighbours, and one arbitrary character',
    'h_p08_m': 'one text of every character neologdn is concerned with, and one of every kana followed by a mark; one arbitrary character',
    'h_p13_m': 'one text of every character of the preset and its neighbours, and one arbitrary character',
    'h_p11_f': 'every sequence of 0-3 builder calls out of 5 (preset, neologdn, a table, one that changes nothing, an empty one); text of 3 characters, one of 5',
    'h_p15_g': 'tables of 1-2 entries of arbitrary characters compared; conversions between the types',
    'h_p22_e': 'every ASCII text of 0-6 (thorough: 7) characters, and with a dot before it',
    'h_p28_e': 'load_rc after each of 3 changes (files of two directories written, removed, CHANOMARC set, its file changed, unset), 216 sequences',
    'h_p12_m': '300 steps; text of 5 characters, one arbitrary',
    'h_p15_m': 'tables of 300 and 300 entries and one of 2 arbitrary ASCII characters in either or both; adding and subtracting',
    'h_p16_m': '1501 rows (20 KB), or a row of 302 cells; an arbitrary character',
    'h_p17_m': '302 entries, in groups of 1 or in one group, one with an arbitrary character',
    'h_p18_m': '600 list entries, 300 keys, or a list of 300; an arbitrary three-byte character',
    'h_p19_m': '301 entries, in groups of 1 or in two groups, one with an arbitrary character',
})
for _n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 14):
    B['h_p%02d_w' % _n] = 'texts of 66,000 characters and more with runs of 200 and longer; one arbitrary three-byte character (thorough: any) at 4 places'
_S = '; every configured character any printable Unicode scalar value'
B.update({
    'h_p01_s': 'YAML converter of 3 entries, one original and two replacements symbolic, in 2 notations; text of 5 characters, 3 symbolic' + _S,
    'h_p03_s': 'text of 8 characters: the run character and 2 arbitrary ones' + _S,
    'h_p04_s': 'list of 3, two symbolic, in 2 notations; text of 7 characters, 3 symbolic' + _S,
    'h_p07_s': 'sequence of 1-2 characters with a symbolic one, replacement of 3 with a symbolic one; text of 6 characters' + _S,
    'h_p13_s': 'converter of 1 entry; text of 6 characters, 3 symbolic' + _S,
    'h_p14_s': 'text of 8 characters: the run character and 2 arbitrary ones' + _S,
    'h_p13_f': '3 pipelines of 4-5 steps; text of 10 characters, 2 arbitrary; positions of every converter step against the text the step before left',
    'h_p14_g': '3 pipelines of 4 steps; text of 12 characters, 2 arbitrary; positions of every run and trim step against the text the step before left',
    'h_p28_a': '16 pipelines; a text of 2 characters, one arbitrary, before and after one of 3 (5) other texts with a second one (three-byte; thorough: any), two normalisers, both variants',
    'h_p28_b': '16 pipelines x 3 (thorough: 16) others made, used and dropped in between; text of 3 characters, one arbitrary',
    'h_p28_c': 'CSV and YAML files with arbitrary lower case letters, overwritten, removed and written again; text of 3 characters, one arbitrary',
    'h_p28_d': '3 normalisers, 40-300 similar texts between two calls; text of 4 characters, one arbitrary three-byte one',
})
for _k in 'abcdefg':
    B['h_p09_' + _k] = B['h_p08_' + _k]
COMMON = [
    'the Rust compiler (front end, and LLVM passes sroa/early-cse/instcombine/simplifycfg) preserves meaning; the engine executes their output',
    'the engine (engine/) and Z3 are right; sample paths of every run are replayed against the native build, and every counterexample is',
    'allocation never fails; hash values of characters and texts used as keys are a constant (adversarial collisions), iteration order effects are the subject of P10',
    'nothing is said about inputs outside the bounds',
]
FS = 'the file system and environment are the engine\'s own model of the system calls involved (open, read, write, stat, getcwd, getenv)'


PY = 'Python and pyo3 are a stand-in (harness/pyo3): argument passing, conversions, instances and errors follow pyo3 0.16; the binding\'s own code is compiled as it is'


def assumptions(pid):
    return COMMON + ([PY] if pid == 'P24' else []) + ([FS] if pid not in ('P01', 'P02', 'P13', 'P15', 'P25') else [])
