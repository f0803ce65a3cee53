p("R01", "RON round trip", "Every value of a supported type, serialised to RON and parsed as the same type, comes back equal (floats excepted, see R02). This includes maps with any key type, unit structs, tuple structs with skipped fields, renamed (to any name RON can spell: letters, digits and _.+-), defaulted and skipped fields, omitted options and container proxies.",
  "all values of each type, up to the listed string and collection lengths", "tests round-trip a few literals; string escapes, integer extremes and presence patterns of options are combinatorial", [R, DR], [("SerRon/DeRon impls", R), ("derived impls", DR)])
p("R02", "RON numbers are exact, nearest, or rejected", "An integer literal read as an integer type gives exactly its value when it is within the type's range and is an error otherwise, in every position. A number literal read as a float is the value the standard library's correctly rounding parser gives; malformed number syntax is an error, and float output reads back to the same bits.",
  "every literal of the listed digit counts for nine integer and two float types; listed values for output", "tests have a few small literals; the boundaries of 64-bit accumulation are at 19 and 20 digits", [R], [("number tokenizer", R), ("u64_range / i64_range / as_f64", R)])
p("R03", "A RON string means the same however it is spelled", "A string literal denotes the same text whether each character is written raw, with a short escape, with \\u escapes in either case or as a surrogate pair, as value, element, map key and member value. Lone or mispaired surrogates, bad hexadecimal digits and unterminated literals are errors.",
  "every spelling of every code point, mixed in short strings", "tests spell a few characters", [R], [("string tokenizer, hex_unescape_char", R)])
p("R04", "RON parsing is total", "Parsing any text as any supported type terminates with a value or an error: no panic, overflow, hang, invalid UTF-8 or memory error. Memory is bounded by the length of the text, and error positions lie within it.",
  "all UTF-8 texts of the listed lengths, alone and inside document templates", "tests have a few malformed documents", [R, DR], [("tokenizer", R), ("derived parsers", DR)])
p("R05", "RON struct members are matched by name", "Members may come in any order; a missing optional or defaulted member gives none or its default, a repeated one keeps the last. A missing required member, an unknown or skipped member, the old name of a renamed member and a value of the wrong kind are errors. The same holds for the fields of enum variants.",
  "all orders, subsets and further members within the bounds", "tests have one document per attribute", [R, DR], [("member loop of the derive", DR)])
p("R06", "RON trivia between tokens changes nothing", "White space, line comments and block comments, whatever they contain, may stand between any two tokens of a document, before and after it, without changing the parsed value.",
  "arbitrary trivia at every token boundary of 20 documents", "tests put one comment in one document", [R], [("comment and white space handling of the tokenizer", R)])
p("R07", "RON parsing agrees with an independent reading", "A text in plain RON for a value of the type is accepted with that value. A text the parser accepts denotes that very value under the documented grammar (RON plus comments, leading zeros, plus signs, numbers as flags); nothing else is accepted.",
  "all UTF-8 texts of the listed lengths for 35 types and inside 60 templates, and edited documents", "tests sample accepted documents and hardly any rejected ones", [R, DR], [("tokenizer", R), ("DeRon impls", R), ("derived parsers", DR)])
p("R08", "A RON enum value is one variant with its own payload", "An enum accepts exactly the name of a unit variant, or the name of a tuple or struct variant with a parenthesised payload of that variant's shape. Any other name, shape, arity or member is an error, wherever the enum stands.",
  "every listed name and near miss against every payload shape", "tests have one document per variant", [R, DR], [("derived enum parser", DR)])
p("R09", "RON output is plain RON with the right content", "The text produced for any value without NaN or infinities is plain RON, which an independent reader turns into exactly the value intended: member names, escapes, omitted options, enum representation, maps and tuples.",
  "all values of each type, up to the listed string and collection lengths", "the tests read output back with the crate's own parser, so an error made in both directions goes unnoticed", [R, DR], [("SerRonState and SerRon impls", R), ("derived writers", DR)])
p("T01", "TOML parsing is total", "Parsing any text as TOML terminates with a document or an error: no panic, overflow, hang, invalid UTF-8 or memory error. Memory is bounded by the length of the text, and error positions lie within it.",
  "all UTF-8 texts of the listed lengths, alone and inside document templates", "tests have one malformed document", [T], [("TomlParser::next_tok", T), ("parse_line", T), ("Out", T)])
p("T02", "A TOML scalar is the value it spells", "Integers, floats, booleans, infinities, nan and local dates, with signs and underscores, have exactly the value they spell (integers within 64 bits, floats the nearest), whether they end in a line end, comma, bracket, blank, comment or the end of the text. Integers out of range and misspelled words are errors.",
  "all literals within the bounds in 11 places of a document", "tests have one literal of each kind", [T], [("parse_num", T), ("parse_ident", T), ("to_val", T)])
p("T03", "Every TOML key ends up in the table it is written under", "A key is found under its own name prefixed with the table header above it, dots included; after [[name]] it is in the last element of that array, also inside tables nested in it, and another table header ends the element. Keys may consist of any bare-key character, or be quoted.",
  "all sequences of header and key lines within the bounds; all characters", "tests have one document with arrays of tables", [T], [("Out::start_array / start_table / out", T), ("parse_key_value", T), ("ident_chars", T)])
p("T04", "Blanks, line ends and comments do not change a TOML document", "Blanks between the tokens of a line, comments at line ends, empty and comment lines between statements and inside arrays, and CRLF instead of LF leave the parsed document unchanged, whatever the comments contain.",
  "arbitrary trivia at every place of ten documents", "tests have three comments", [T], [("next_tok", T)])
p("T05", "A TOML string is the text it spells", "A basic or multi-line string denotes the text it spells, with every escape (short, \\u, \\U), joined lines, quotes inside and a first newline dropped, as value, element, key or header. Surrogates, numbers beyond Unicode, bad digits and unterminated strings are errors.",
  "every spelling of every character, mixed in short strings", "tests spell two strings", [T], [("string tokenizer, unescape_char", T)])
p("T06", "TOML parsing agrees with an independent reading", "A document in the supported part of TOML is accepted with exactly its content. A text the parser accepts has the content it denotes under the tolerated grammar (newlines and missing commas tolerated, later keys replace earlier ones); nothing else is accepted.",
  "all UTF-8 texts of the listed lengths at 60 places, and edited documents", "tests sample accepted documents and hardly any rejected ones", [T], [("TomlParser", T)])
p("X01", "Everything built while reading is dropped exactly once", "Reading in any format gives up every element, key and member it has built exactly once: the value returned owns what it holds, and when reading fails half way, or a repeated member replaces another, the parts built so far are dropped and freed, none is dropped twice, and nothing is leaked.",
  "all inputs of the listed lengths, edited documents, and arbitrary text inside documents, for arrays, tuples, collections, structs and enums of owning elements", "tests read arrays of integers; a double drop or a leak of a partly built array shows only with elements that own memory and fail late", [B, J, R, DB, DJ, DR], [("de_array_impl_inner guard", B), ("array and tuple impls", J), ("array and tuple impls", R)])
p("X02", "A parse error is reported where reading stopped", "The line and column of a JSON, RON or TOML parse error are those of a character of the text (or its end), counting lines by line feeds and columns by characters. The text behind that place has no influence on the error's position, and a stray character, a cut or a token of the wrong kind is reported right behind itself, whatever blanks, comments and non-ASCII text precede it.",
  "all UTF-8 texts of the listed lengths alone and in templates; one fault at any place of 26 documents with arbitrary trivia before it", "tests look at one error position", [J, R, T, DJ, DR], [("DeJsonState line/col", J), ("DeRonState line/col", R), ("TomlParser line/col", T)])
p("X03", "Durations and times are exact or rejected in every format", "A Duration in JSON or RON is an object with exactly one secs and at most one nanos member, in any order and none other; secs up to u64::MAX and nanos up to a billion (which carries) give exactly that duration, anything else is an error. A SystemTime is the epoch plus such a duration when it can be represented and an error otherwise; times before the epoch are written as none and read as the epoch. All three formats bring back the same value.",
  "all numbers of the listed digit counts in all orders of up to three members; all times with free seconds or nanoseconds", "tests round-trip two times; carries and limits sit at 10, 19 and 20 digits", [J, R, B], [("Duration and SystemTime impls", J), ("Duration and SystemTime impls", R), ("Duration and SystemTime impls", B)])
p("X04", "A proxied or transparent type behaves exactly as its proxy", "A type or field with a proxy, and a transparent newtype, is written as its proxy (or its content) would be, byte for byte, and any input is accepted with the proxy's value converted, or rejected at the same position, exactly when the proxy would be. This holds inside containers, options (null and absent included), enum variants and tuple structs.",
  "edited documents, arbitrary text and bytes, and all values of small types", "tests round-trip one proxied value per format", [DJ, DB, DR], [("derive_*_proxy, ser_proxy_guard", DJ), ("proxy fields", DB), ("derive_*_ron_proxy", DR)])
p("X06", "Text values can be appended and read one after another", "Writing a JSON or RON value into a serialiser state that already has output appends exactly the text the value has alone, at any depth. Values written one after another with blanks or comments between them are read back one after another from one reader state, which ends at the end of the text with the right line and column.",
  "all values within the bounds, with arbitrary text before and trivia between", "tests use ser_json / de_json only through the one-shot wrappers", [J, R], [("SerJsonState / DeJsonState", J), ("SerRonState / DeRonState", R)])

p("X07", "An error names its cause", "When a JSON or RON document is rejected, the error's reason says why: a missing required member by its field name, an unknown variant or unknown RON member by the name in the text, an integer its type cannot hold as out of range, and any other token out of place as that token. The text of a JSON, RON or TOML error shows the names concerned and ends in the line and column counted from one; that of a binary error shows the position and the numbers concerned.",
  "one fault of each kind with free names and numbers at the listed places", "tests look at the text of no error", [J, R, T, B, DJ, DR], [("DeJsonErr and err_*", J), ("DeRonErr and err_*", R), ("TomlErr", T), ("DeBinErr", B)])

p("T07", "Accessors give the content of a TOML value and refuse other kinds", "The accessor of a value's kind (str, num, boolean, date, simple_arr, arr, indexing a table array by number) gives exactly the content the document has, in the order it is written; every other accessor, and an index beyond the end, panics as documented instead of giving something.",
  "one value of each kind against every accessor, with free content", "tests read a few fixed values by their own accessor", [T], [("impl Toml, Index<usize>", T)])
