import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=[observe]
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
    P.append(d)
CC="src/modifier/character_converter.rs"; CE="src/modifier/character_eliminator.rs"; RE="src/modifier/consecutive_character_reducer.rs"
DS="src/modifier/dotted_space_eliminator.rs"; LT="src/modifier/ligature_translator.rs"; TR="src/modifier/trim.rs"; NE="src/modifier/neologdn.rs"
CH="src/chanoma.rs"; CF="src/configuration.rs"; FI="src/file.rs"; FE="src/file_extension.rs"; TA="src/table.rs"; CO="src/corr.rs"; MK="src/modifier_kind.rs"; MO="src/modifier.rs"; PO="src/position.rs"
p("P01","A replacement table rewrites text character by character and nothing else",
 "Normalising a text with a replacement table of one-character entries replaces every character that the table lists by its replacement, wherever it occurs, and leaves every other character exactly as it was, in the same order and number. Replacements are applied once (a replacement is not replaced again by the same table), and a character the table lists with several replacements becomes one of those. The same holds for the record-keeping variant of normalisation and for a table given under `modifiers: character_converter` in a YAML file.",
 ["inputs","configurations"],"every table of one-character entries and every text",
 "The space of table x text pairs is unbounded; tests pin three or four ASCII letters, while repeated characters, chains (a to b, b to c) and characters of 1 to 4 UTF-8 bytes interact in the grouping-by-character algorithm.",
 [CC,CH],[("characters are grouped by value in a hash map, then each group's slots are overwritten",CC+" CharacterConverter::modify / modify_with_positions"),("table to map",CC+" CharacterConverter::from_tables")],
 "Chanoma::from_table / add_table / from_config_file + normalize")
p("P02","The preset maps exactly the documented full-width and half-width characters",
 "The preset turns full-width digits, letters and ASCII punctuation (including the documented ” ’ 〜 ￥ ＼ forms) into their half-width forms, half-width katakana letters, ｡ ｢ ｣ ､ ･ into their full-width forms, and the ideographic space into a plain space. Every other character of Unicode comes out unchanged, in any surrounding text. Applying the preset to its own output changes nothing.",
 ["inputs"],"every Unicode scalar value, alone and inside texts",
 "Tests convert a handful of strings; a wrong, missing, swapped or extra entry among about 160, or an entry that hits an unrelated character, is only seen by quantifying over all of Unicode.",
 ["src/characters_set.rs","src/characters_set/digits.rs","src/characters_set/alphabets.rs","src/characters_set/punctuations.rs","src/characters_set/kanas.rs",CC,CH],
 [("constant tables joined by +","src/characters_set/*.rs items()"),("preset pipeline",CH+" preset / use_preset / all_characters_set")],"Chanoma::preset().normalize")
p("P03","Consecutive-character reduction collapses each run of its character to one",
 "With a consecutive-character reducer for a character, every maximal run of that character in the text becomes exactly one occurrence, and all other characters are kept unchanged and in order. The result contains no two adjacent occurrences, and reducing again changes nothing.",
 ["inputs","configurations"],"every configured character and every text",
 "Run boundaries (start, end, whole text, alternation, multi-byte characters sharing bytes) multiply; tests fix a few literals.",
 [RE],[("run flag / counter",RE+" modify, modify_with_positions")],"YAML modifier consecutive_character_reducer + normalize")
p("P04","Character elimination removes all listed characters and only those",
 "With a character eliminator for a list of characters, the result is the text with every occurrence of every listed character removed and all other characters kept unchanged and in order.",
 ["inputs","configurations"],"every list of characters and every text","Membership for every pair of listed and occurring characters, including duplicates in the list and characters that share UTF-8 bytes, cannot be sampled.",
 [CE],[("set membership filter",CE+" modify")],"YAML modifier character_eliminator + normalize")
p("P05","Dotted-space elimination keeps a space only between half-width alphanumerics",
 "With the dotted-space eliminator, every maximal run of half-width spaces that has a half-width letter or digit immediately before it and immediately after it becomes one space, and every other half-width space is removed. All other characters, including other kinds of white space, are kept unchanged and in order.",
 ["inputs"],"every text","The result at each space depends on both neighbours and on run length; only all short contexts over all character classes cover the state machine.",
 [DS],[("prev/space state machine",DS+" modify")],"YAML modifier dotted_space_eliminator + normalize")
p("P06","Trim removes exactly the leading and trailing half-width spaces",
 "With trim, the result is the text without its leading and trailing half-width spaces, everything between them being kept as it was. Other white space (tabs, line breaks, ideographic spaces) is never trimmed, a text of spaces only becomes empty, and trimming again changes nothing.",
 ["inputs"],"every text","All-space, empty, inner-space and other-whitespace texts must all behave; tests cover two literals.",
 [TR],[("trim_matches",TR+" modify / modify_with_positions")],"YAML modifier trim + normalize")
p("P07","Ligature translation replaces every occurrence of its sequence",
 "With a ligature rule from one character sequence to another, every non-overlapping occurrence of the sequence, taken from left to right, is replaced and the rest of the text is unchanged. With several rules whose sequences do not overlap or feed one another, each rule's occurrences are replaced, whatever the order in which the rules are listed.",
 ["inputs","configurations"],"every rule, every set of non-interacting rules and every text","Self-overlapping sequences and partial matches at multi-byte boundaries need all texts, not samples.",
 [LT],[("sequential str::replace over the rule map",LT+" modify")],"YAML modifier ligature_translator + normalize")
p("P08","neologdn mode delivers its normal form for every text",
 "After neologdn-style normalisation the text contains none of the six tilde characters, no two consecutive long-vowel marks, no hyphen or long-vowel variant other than - and ー, no half-width space except a single one between two half-width alphanumerics, and no base kana followed by a separate (han)dakuten that has a composed form. Full-width characters of the preset are converted, except that the full-width equals sign is kept. Characters the mode does not concern come out unchanged and in order.",
 ["inputs"],"every text","The guarantees are about the combination of six stages on one text (a later stage may bring together what an earlier one should have merged); unit tests run one phenomenon at a time.",
 [NE,CC,RE,DS,CE,LT],[("six-stage pipeline",NE+" Neologdn::modify / modify_with_positions"),("tables KANA_TEN, KANA_MARU, TILDES, CHOONPUS, HYPHENS",NE)],"Chanoma::neologdn().normalize")
p("P09","neologdn normalisation is idempotent",
 "Normalising a text that neologdn mode has already normalised returns it unchanged. This holds for every text, so normalised data can be re-normalised or concatenated from stored results without drift.",
 ["inputs"],"every text","Idempotence is a relation between two runs over all texts; no sample of texts settles it.",
 [NE],[("stage order",NE+" Neologdn::modify")],"Chanoma::neologdn().normalize twice")
p("P10","The same configuration and text always give the same result",
 "Two normalisations of the same text by equally configured normalisers give the same text and the same records, whatever the hash seeds of the processes or instances involved. This includes configurations whose ligature rules overlap or chain, and the order in which changed positions are listed.",
 ["configurations","inputs","histories"],"every configuration, every text, every iteration order of the hash maps involved","A hash seed is drawn at random per map; a test that passes says nothing about the other iteration orders.",
 [CC,CE,LT,CO],[("iteration over hash maps",LT+" modify; "+CC+" modify_with_positions"),("hash set to sorted vector",CO+" Add/AddAssign")],"normalize and normalize_with_positions of two instances under different hash orders")
p("P11","Record-keeping normalisation agrees with plain normalisation for every pipeline",
 "For every pipeline, including the empty one, and every text, the final text of the record-keeping variant equals the plain result, there is one record per configured step, and each record's text is what the plain pipeline yields after that step. Neither variant ever panics, and turning debug logging on changes nothing in the result.",
 ["inputs","configurations"],"every pipeline of configured steps and every text","Each step has two separately written implementations; their agreement on all texts, for all step sequences including none, is not what tests sample.",
 [CH,MO,CC,RE,DS,CE,LT,TR,NE],[("fold over steps vs accumulated records",CH+" normalize / normalize_with_positions"),("final text",MO+" ModifiedRecords::text")],"normalize vs normalize_with_positions")
p("P12","Configured steps run in the order in which they were configured",
 "A pipeline built from several steps gives the same result as applying the steps one after another in configuration order: builder calls in call order; the modifiers of a YAML file in file order followed by the file's own character table; steps added after loading last. A step neither skips nor repeats, and an empty pipeline returns the text unchanged.",
 ["configurations","inputs"],"every sequence of steps (within the stated length) and every text","Order only shows for steps that do not commute on the given text; the product of step orders and texts is out of reach for examples.",
 [CH,CF,FI,MK],[("push order",CH+" use_preset/use_neologdn/add_table"),("modifiers then items",CF+" load_file_with_ext"),("YAML mapping order",FI+" modifiers_from_yaml_path")],"from_config_file / builder calls + normalize")
p("P13","Reported converter positions are true",
 "For every conversion by a table the reported positions list each replaced character exactly once, in text order, with the original and replacement text, its byte offset and byte length and its character offset and character length in the step's input. Cutting the input at a reported position yields the reported original, and substituting the reported replacements yields the step's output.",
 ["inputs","configurations"],"every table and every text","The offsets depend on the byte widths of all preceding characters and on hash order; the existing tests never look at them.",
 [CC,PO],[("positions from grouped characters",CC+" modify_with_positions"),("Position",PO)],"ModifiedRecord.positions")
p("P14","Reported run-reduction and trim positions are true",
 "For run reduction every reported position is a maximal run of the reduced character in the step's input, given by byte offset and length and character offset and length, and every run of two or more is reported in text order; for trim the removed leading and trailing spaces are reported likewise. Substituting the reported replacements in the step's input yields the step's output.",
 ["inputs","configurations"],"every reduced character and every text","Offsets after several runs and multi-byte characters, and runs touching the end of the text, are never looked at by the tests.",
 [RE,TR,PO],[("counter and offsets",RE+" modify_with_positions"),("leading/trailing lengths",TR+" modify_with_positions")],"ModifiedRecord.positions")
p("P15","Tables combine as sets: adding unites, removing subtracts",
 "Adding one table to another yields exactly the entries found in either, and subtracting yields exactly the entries of the left one not found in the right one, each entry once, sorted, compared by both its original and its replacement. The in-place and the by-value operations, and the table builder's add and remove, give the same result; adding is commutative, associative and idempotent, and operands are never modified. Two tables compare equal exactly if their entries do.",
 ["inputs","histories"],"all tables and all sequences of additions and removals (within the stated size)","Set laws quantify over all operands; entries that agree in one field only, duplicates and overlaps must all be right at once.",
 [CO,TA,"src/corr/item.rs","src/corr/linear.rs","src/corr/unification.rs"],[("hash-set union, filter difference, sort",CO+" Add/AddAssign/Sub/SubAssign"),("builder",TA+" add/remove/add_corr/remove_corr")],"Correspondence items()")
p("P16","A CSV table loads exactly the rows it contains",
 "Loading a CSV table skips the header row and yields, for each following row, one entry from each of its cells but the last to its last cell, in file order, whatever characters the cells contain and however many columns each row has. Rows with a single cell yield nothing, quoted cells are unquoted, and blank lines are ignored.",
 ["inputs"],"every CSV file (within the stated size)","Cell contents and ragged row lengths vary freely; the test loads one file.",
 [FI,TA],[("flexible reader, last cell is the replacement",FI+" table_from_csv_path")],"table_from_csv_path / TableBuilder::from_csv_path / add_from_csv")
p("P17","A table exported to CSV loads back as the same table",
 "Writing a table to CSV and loading that file yields the same set of entries: every group of originals sharing a replacement is kept whole, with characters that need quoting quoted, and nothing is added or merged.",
 ["inputs"],"every table (within the stated size)","Export and import are separately written; their agreement for all contents (commas, quotes, line breaks, shared replacements) is a relation tests do not state.",
 [FI,CO,"src/bin/output.rs"],[("group by replacement, one record per group",FI+" to_csv_writer; "+CO+" item_map"),("reader",FI+" table_from_csv_path")],"to_csv_writer then table_from_csv_path")
p("P18","YAML items load as written, in both documented notations",
 "Loading the `items` of a YAML file yields exactly its entries in file order, written either as a list of `from`/`to` pairs (the documented notation) or as a mapping from a replacement to one original or a list of originals. A file without `items` yields an empty table.",
 ["inputs"],"every YAML items section (within the stated size)","Entry contents and the mix of single and list forms vary freely; the test loads one file of one form.",
 [FI,TA,"README.md"],[("items walker",FI+" table_from_yaml_path")],"table_from_yaml_path / TableBuilder::from_yaml_path / add_from_yaml")
p("P19","A table exported to YAML loads back as the same table",
 "Writing a table to YAML and loading that file yields the same set of entries: every group of originals sharing a replacement is kept whole and nothing is added or merged, also for characters that YAML must quote (spaces, quotes, digits, ~, -, :, #) and for multi-byte characters.",
 ["inputs"],"every table (within the stated size)","Round-trip identity over all contents is a relation between two separately written functions; tests check neither direction for special characters.",
 [FI,CO,"src/bin/output.rs"],[("group by replacement",FI+" to_serialized_corr"),("reader",FI+" table_from_yaml_path")],"serde_yaml::to_string(&to_serialized_corr(..)) then table_from_yaml_path")
p("P20","A malformed configuration file is an error, never a crash",
 "Loading any configuration or table file returns either a configuration or an error: wrong value kinds, empty strings, non-string keys, unknown modifier names, empty CSV cells and unreadable files never panic. A configuration that loads successfully can be applied to any text without a panic.",
 ["inputs","configurations"],"every YAML document shape within the stated depth, every CSV cell content, every file state","The set of malformed files is open-ended; each unchecked conversion is reachable only by one particular shape in one particular place.",
 [FI,MK,CF,CC,CE,RE,LT,TR,DS,NE],[("from_yaml_value conversions","src/modifier/*.rs from_yaml_value"),("items walker",FI+" table_from_yaml_path"),("first character of a cell",CC+" from_tables")],"Chanoma::from_config_file, TableBuilder::from_*_path, Chanoma::from_table")
p("P21","Start-up configuration loads exactly the right files, once each, in order",
 "If CHANOMARC is set, exactly that file is used: it is an error that names it when it is missing, not a regular file, or has no supported extension (csv, yaml, yml). Otherwise the existing files among chanomarc and .chanomarc with each supported extension in $HOME/.config/chanoma, $HOME and the current directory are loaded, each exactly once even if directories coincide, in that order, and their steps run in that order; no file means an empty pipeline. It never panics.",
 ["configurations","histories"],"every combination of environment variables and of present or absent files","There are thousands of file-presence combinations times environment settings, and tests avoid touching the real home directory.",
 [CF,FE,CH],[("environment override",CF+" file_paths / valid_file_path"),("directory and name order",CF+" auto_load_dirs / auto_load_paths_from_dir / exists_file_paths")],"Chanoma::load_rc + normalize")
p("P22","File types are recognised by extension only, and exactly",
 "A path is accepted as a configuration file exactly if its last component has the extension csv, yaml or yml, and is then treated as that format; every other path is rejected with an error naming the problem (no extension, undecodable extension, unsupported extension). Extension matching is case-sensitive and never panics; the name of an extension by itself, with or without its leading dot, is recognised alike.",
 ["inputs"],"every path (within the stated length)","Dotfiles, trailing dots, several dots, directory components with dots and non-UTF-8 bytes interact; tests only use one ordinary name.",
 [FE,CF],[("extension match",FE+" from_path / from_str"),("dispatch",CF+" load_file_with_ext")],"FileExtension::from_path")
p("P23","The command line prints the normalisation of its input",
 "`chanoma [-p] [-n] [-d] TEXT` prints exactly the text that the library gives for start-up configuration, then preset if -p, then neologdn if -n, followed by one line feed; without TEXT it does so for the first line of standard input without its line feed. -d changes only the log, never the printed result.",
 ["inputs","configurations"],"every text and every combination of switches","The command line has no tests at all.",
 ["src/main.rs",CH],[("option handling","src/main.rs main")],"standard output of the chanoma binary")
p("P24","The Python binding gives the library's results",
 "normalize called from Python returns exactly what the Rust pipeline with the same configuration file, tables and switches returns, steps running in the order configuration, table, preset, neologdn. A Python error is raised instead of an abort when a file cannot be loaded.",
 ["inputs","configurations"],"every text and every constructor argument combination","The binding's tests sample single switches.",
 ["bindings/python3/src/lib.rs","bindings/python3/src/characters_set.rs"],[("constructor and table","bindings/python3/src/lib.rs Chanoma::new / Table::new / Table::add"),("character sets","bindings/python3/src/characters_set.rs")],"chanoma.Chanoma(...).normalize in Python")
p("P25","The CJK square-unit table covers its block exactly and correctly",
 "The published table of CJK squared abbreviations has exactly one entry for each character of its block range that it documents and none for any other character, and each entry expands the character to the abbreviation given by the Unicode compatibility form (up to the table's documented plain-text spellings).",
 ["inputs"],"every Unicode scalar value","About 250 hand-written constants are untested; a swapped or repeated code point shows only when every character is looked up.",
 ["src/characters_set/cjk_compatibilities.rs"],[("constants","src/characters_set/cjk_compatibilities.rs")],"CJK_COMPATIBILITIES.items()")
p("P26","The tool that prints the preset prints a file that is the preset",
 "`output` (CSV) and `output -f yaml` print the built-in replacement table in that format: the printed file is accepted as a configuration file of that type and normalises every character exactly as the preset does.",
 ["inputs"],"every Unicode scalar value, both formats","The tool has no tests; a wrong group, a badly quoted mark or a changed column order shows only when the whole printed table is read back and compared.",
 ["src/bin/output.rs",FI],[("format selection","src/bin/output.rs Format::from_str / output"),("grouping and quoting",FI+" to_csv_writer / to_serialized_corr")],"standard output of the output binary, loaded again")
p("P27","The published character sets hold exactly the documented conversions, each named entry its own",
 "DIGITS, ALPHABETS, PUNCTUATIONS and KANAS each contain one entry for exactly the documented full-width digits, full-width letters, marks, and half-width katakana (with the ideographic space), converting it to the documented form, sorted and without duplicates; ALL and the table builder's preset are their union. Every named entry (such as Punctuations::EQUAL_SIGN) holds exactly the one conversion that its name tells: added to a table or taken from the preset it changes the normalisation of that character and of no other.",
 ["inputs","configurations"],"every Unicode scalar value, every set and every named entry","The sets are about 156 hand-written constants listed a second time in sums; the tests convert a few characters by the whole preset, and no test takes one entry away.",
 ["src/characters_set.rs","src/characters_set/digits.rs","src/characters_set/alphabets.rs","src/characters_set/punctuations.rs","src/characters_set/kanas.rs",TA],[("constants and sums","src/characters_set/*.rs items()"),("union","src/characters_set.rs All::items"),("removal and addition",CO+" Add / Sub")],"DIGITS.items() etc.; TableBuilder::preset / remove_corr / add_corr, then Chanoma::from_table + normalize")
p("P28","A normaliser keeps no memory of the texts and configurations that came before",
 "What a normaliser returns for a text, with or without records, depends only on its configuration and that text: not on the texts that it or other normalisers normalised before, in whatever order and number, nor on other normalisers made, used or dropped in the meantime. A configuration file is read when the normaliser is made: changing or removing it later changes nothing for existing normalisers, and loading it again gives its new contents.",
 ["histories","inputs","configurations"],"every sequence of texts and normalisers","A stale cache, a buffer that is not reset or a file remembered by its name only shows after particular sequences of calls with particular texts; the tests normalise a literal or two with a fresh normaliser each.",
 [CH,CC,CE,RE,DS,LT,TR,NE,CF,FI],[("steps are immutable values, fresh buffers per call",CH+" normalize / normalize_with_positions"),("files are read on each load",FI+" table_from_csv_path / table_from_yaml_path / modifiers_from_yaml_path")],"two or more calls of normalize / normalize_with_positions / from_config_file in sequence")
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
