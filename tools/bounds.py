# What each entry covers; {name} is the run's parameter.
WT = "three levels of commands; allow_multiple_subcommands, require_subcommand, mandatory options, argument counts and the types of the options are symbolic"
WORDS = "the definitions of h_wide_tree and h_wide_flat with symbolic settings, lines of up to {tokens} words after one of {prefixes} beginnings; {styles}; {settings}"
BOUNDS = {
"h_c02_lines": "every line of up to {tokens} tokens of any bytes, length 0..{len} (or a long flag with up to {len} bytes after it), for a table of short, long and '=' flags with and without argument and an argument of 0..2 values",
"h_c02_spellings": "every sequence of 1..{items} occurrences with values of any bytes, length 0..{len}, in the separate and in every other spelling (=, attached, group)",
"h_long_line": "lines of up to 36 tokens: one of 10 to 13 words 5, 9 or 17 times, another 0, 1 or 18 times, and a third; up to 62 positional arguments; {styles}; {settings}",
"h_long_options": "9, 17 and 40 options, in and out of order, with aliases; any two bytes ending an option token; symbolic case, abbreviation and ignore settings; {styles}",
"h_long_strings": "flags, command names and values of 14, 15, 16, 17 and 40 bytes with any byte at the first, middle or last place; {styles}",
"h_long_tree": "commands nested 1 to {depth} deep, one of 6 words inserted at every place, up to {tokens} words after; symbolic mandatory options",
"h_long_commands": "9, 17 and 30 commands, up to 7 of them before a command name with any two last bytes; case-insensitive or not",
"h_wide_flat": "one command with every kind of option, symbolic operations, types, counts and mandatory settings; lines of up to {tokens} words of a list of about 20; {styles}; {settings}",
"h_wide_tree": WT + "; lines of a prefix (one of {prefixes}) and up to {tokens} words of a list of 12; {styles}; {settings}",
"h_c03_slash": "every line of up to {tokens} tokens of any bytes, length 0..{len}, slash style",
"h_c03_dash": "every line of up to {tokens} tokens of any bytes, length 0..{len}, dash style",
"h_c04_anyflags": "any three different flags (one short, two long of up to {flen} bytes), any token of 0..{len} bytes",
"h_c04_styles": "flags that are prefixes of each other in all three styles, both orders of definition; any token of 0..{len} bytes, also after a flag",
"h_c05_flags": "any two different flags of {flen} bytes, any token of 1..{len} bytes after the prefix, case-insensitive on and off, two styles",
"h_c05_commands": "any two different names of {clen} bytes, any token of {clen} bytes, one or two tokens",
"h_c05_set": "12 flags in 12 orders of definition, any token of 1..{len} bytes after the dash",
"h_c06_flags": "any two different flags of 1..2 and {flen} bytes, any token of 1..{len} bytes after the dash, case-insensitive on and off, two styles",
"h_c06_set": "seven options in seven orders and three styles, any token of up to {len} bytes after no or one of five beginnings, up to two further tokens",
"h_c07_counts": "0..{defs} definitions with minimum 0..{lo} and 0..{extra} or unlimited optional values; 0..{values} values of any byte",
"h_c07_options": "six shapes of definitions, lines of up to {tokens} tokens of any bytes, length 0..2, and a group of two flags",
"h_c08_history": "six tables of eight options with operations, aliases, initial values and constants; every history of up to {occ} occurrences",
"h_c09_flat": "every combination of mandatory options, alias, initial value and counts; lines of up to {tokens} tokens of any bytes, length 0..2",
"h_c09_tree": "the same in a tree of commands with require_subcommand unset, off and on",
"h_c10_flat": "every option type with and without argument in five spellings, up to {before} tokens of 0..2 bytes before it and up to {after} of 0..{len} bytes after it",
"h_c10_free": "three styles, five types, any tokens (0..{len} bytes) before and after the option, groups of two flags",
"h_c10_tree": "five types in a parser with commands, lines of up to {tokens} tokens of 0..2 bytes, and a group",
"h_c11_ignore": "three styles, undefined options and/or arguments ignored, lines of up to {tokens} tokens of any bytes, length 0..{len}; filter_parsed_arguments of each line",
"h_c11_stop": "three styles, a stopping option in two spellings, a token of 0..3 bytes before it and up to {after} tokens of 0..1 byte after it",
"h_c11_duplicates": "every line of up to {tokens} of seven words that repeat",
"h_c11_tree": "unprocessed tokens in commands, lines of up to {tokens} tokens of any bytes, length 0..2",
"h_c12_tree": "a tree of three levels with equal names on different levels, lines of up to {tokens} tokens of any bytes, length 0..2, on two levels",
"h_c12_names": "any two different names of 1..{name} bytes, any token of 0..{len} bytes and one more of 1..2",
"h_c13_sequence": "argument counts of the first command 0..2 + 0..2 (+1), lines of up to {tokens} tokens of any byte or empty and one option anywhere",
"h_c13_nested": "allow_multiple_subcommands on each of two levels, lines of up to {tokens} tokens of any byte or empty and one option anywhere",
"h_c29_steps": "four definitions in three styles, lines of up to {tokens} tokens of any bytes, length 0..{len}; every step and the values after it",
"h_c29_move": "the same definitions, lines of up to {tokens} tokens of 0..{len} bytes, the iterator moved before or after the first step",
"h_c29_words": WORDS,
"h_c14_entries": "eight entry points, four definitions in three styles, lines of up to {tokens} tokens of 0..{len} bytes and the generated options",
"h_c14_no_argv": "argc 0 and -1, null and empty argv, parse and make_iterator, const and not, with and without arguments and options",
"h_c14_settings": "any two of 17 settings, 12 lines, every entry point and again after another line; with auto_exit on the exit code",
"h_c14_name": "argv[0] of up to {len} printable characters, with and without a program name",
"h_c27_settings": "every combination of the settings of a command, five ways of copying and adding it, at two depths, with up to two sub-commands",
"h_c27_inventory": "0..3 options, 0..2 arguments and 0..3 commands added to a parser or a command by copy or move; symbolic ids, types, visibility, counts and mandatory",
"h_c07_setters": "two arguments, one of them given up to {setters} of optional(b), mandatory(b), count(n) and count(a, b); 0..5 values",
"h_c08_constants": "constants given as text (any 1..3 bytes), bool, int and long long (limits, and 0..99), 0..2 occurrences, ASSIGN and APPEND",
"h_c14_repeat": "every pair of const entry points, lines of up to {tokens} tokens of 0..{len} bytes",
"h_c14_words": "parse(vector) against the const parse(argc, argv) and both kinds of make_iterator; " + WORDS,
"h_c25_calls": "four definitions, lines of up to {tokens} tokens of any bytes, length 0..{len}; the option's own and the parser-wide callbacks",
"h_c25_words": WORDS + "; the option's own and the parser-wide callbacks",
"h_c25_insert": "an option of any type whose callback inserts up to {inserted} arguments of 0..2 bytes, three styles, four shapes of arguments, a token before and after",
"h_c25_argument_insert": "an argument whose callback inserts an argument of 0..2 bytes, lines of up to {tokens} tokens of 0..2 bytes",
"h_c25_builder": "callbacks that append, assign or clear any of three values, histories of {occ} occurrences",
"h_c01_lines": "three styles, six modes, lines of up to {tokens} tokens of any bytes, length 0..{len}",
"h_c01_messages": "error messages that quote any bytes (0..{len}) at line widths 3, 5, 8, 20 and that of the console",
"h_c01_help": "the help text at every line width 3..90 with text of 0..{len} bytes, three styles",
"h_c23_parse": "three definitions, lines of up to {tokens} printable tokens of 0..{len} bytes, auto_exit and stream on and off",
"h_c23_standard": "generated help and version options in three styles, auto_exit, stream, nine pairs of exit codes",
"h_c23_client": "errors reported in six ways for values of 1..{len} printable bytes",
"h_c15_short": "every text of 0..{len} bytes in bases 10, 16, 8, 0, 36, 3, six types",
"h_c15_limits": "13 beginnings of the limits of the types, {signs} signs, followed by any 0..{tail} bytes, six types",
"h_c15_default": "every default value",
"h_c15_lists": "lists of 1..{values} texts: short ones of 1..{len} bytes and one near a limit; bases 10, 16, 0; six types",
"h_c16_values": "every text of 0..{len} bytes, and 13 beginnings of numbers followed by any 0..{len} bytes, float and double",
"h_c16_lists": "lists of 1..{values} texts, one of up to {len} free bytes",
"h_c16_default": "every default bit pattern",
"h_c17_value": "every value of 0..{len} bytes, every separator, minimum 0..3 and maximum 0..4",
"h_c17_list": "lists of 0..{values} values of 0..{len} characters of three, minimum 0..2 and maximum 0..3",
"h_c17_convert": "every value of 0..{len} bytes split and converted to int",
"h_c17_sources": "1..{values} values of up to {len}+1 bytes from two options and an argument with the same alias; the source of every part",
"h_c17_long": "lists of up to {parts} parts with one symbolic byte, twelve lower and upper limits",
"h_c18_long": "words and texts of 1..{chars} characters of one size with one character of another size (and any value) in it, {widths} widths, with and without a rule",
"h_c19_columns": "labels of up to {labels} characters and help texts of up to {words} words with a line break at one of four places at {widths} widths",
"h_c19_rules": "words of 2..{letters} letters and hyphens with every splitting rule after 0..4 characters at {widths} widths",
"h_c20_lines": "pairs of lines of up to {chars} characters of four alphabets and any line break, {widths} widths",
"h_c20_long": "texts of up to {words} words of up to {lengths} letters at {widths} widths",
"h_c26_access": "{tables} tables of names and aliases, lines of up to {tokens} tokens, every way of reading every value, and print",
"h_c26_names": "every name of 0..{len} bytes",
"h_c18_layout": "texts of 1..{chars} characters of 1 to 4 bytes (every valid code point class), spaces and line breaks; {widths} widths",
"h_c18_rule": "words of 3..{chars}+2 characters of 1 to 4 bytes with every splitting rule",
"h_c18_unbroken": "texts of 1..{chars} characters of any value at three widths",
"h_c18_width": "every word of 1..{len} bytes without overlong encodings and surrogates",
"h_c18_help": "labels of 1..{chars} characters in a help text of {widths} widths",
"h_c19_text": "texts of 1..{chars} characters of 'ab', space, tab and line feed at {widths} widths and every base indentation",
"h_c19_markers": "texts of 1..{chars} characters of list markers at {widths} widths and 3 indentations",
"h_c19_bytes": "every text of 1..{len} bytes at {widths} widths",
"h_c19_long_words": "1..{words} of seven long words with any separator at {widths} widths, with and without rules",
"h_c19_help": "help texts with {chars} free characters at {widths} widths",
"h_c19_errors": "error messages with {chars} free characters at {widths} widths",
"h_c19_console": "every console width below {console}",
"h_c20_content": "texts of 1..{chars} characters of four alphabets at {widths} widths and 3 indentations",
"h_c20_bytes": "every text of 1..{len} bytes at {widths} widths",
"h_c20_words": "1..{words} of seven long words at {widths} widths",
"h_c20_consecutive": "pairs of texts of 0..{chars} characters of four alphabets at {widths} widths and 3 indentations",
"h_c20_many": "six times a text of 1..{chars} characters",
"h_c20_help": "texts with {chars} free characters in a help text",
"h_c21_rule": "every rule of 2..{letters} letters and hyphens, the word in upper and lower case with up to two punctuation characters, every room and start",
"h_c21_default": "every word of 1..{len} bytes in every room",
"h_c21_match": "every word of 4..6 bytes against two rules",
"h_c21_many": "up to {rules} rules, added in three ways",
"h_c21_malformed": "rules of 1..{chars} characters of 'ab', space and hyphen",
"h_c21_text": "words of 2..{letters} letters with every rule in lines of {widths} widths after up to four characters",
"h_c22_items": "any {items} items of any kind with any visibility, section and help text",
"h_c22_sections": "section names and titles of any {len} bytes, set one by one or as the current section, in the parser and in a command",
"h_c22_usage": "counts, arguments, mandatory settings, types and visibilities of the items of the usage",
"h_c22_commands": "visibility and require_subcommand of commands on two levels",
"h_c22_texts": "every combination of the custom texts",
"h_c22_generated": "client flags in the way of the generated options, three styles",
"h_c24_flags": "every flag of 0..{len} bytes, and pairs with one of {len2}",
"h_c24_conflicts": "any flags of {len} bytes of several options",
"h_c24_settings": "every combination of an option's argument, constant, operation, alias and mandatory setting",
"h_c24_tree": "every sequence of {steps} additions to a command",
"h_c24_counts": "any counts of an argument",
"h_c24_style": "every change of the style before and after an option",
"h_c24_generated": "client flags that collide with the generated ones, three styles",
"h_c27_option": "every pair of settings of an option changed after every way of copying and moving",
"h_c27_argument": "the same for arguments",
"h_c27_command": "the same for commands",
"h_c27_views": "names and texts of {len} bytes read back through every view",
"h_c27_copy_from": "copy_from between commands with any content",
"h_c27_parser": "moved parsers",
"h_c27_moved": "every function of an option, argument, command or parser that has been added, moved or used, and of copies of it",
"h_c28_lines": "every line of up to {tokens} tokens of 0..{len} bytes, both builds",
"h_c28_words": "lines of up to {words} words, both builds",
"h_c28_help": "help texts at {widths} widths, both builds",
"h_c28_labels": "help texts with labels of up to {labels} characters at 16 widths",
"h_c28_values": "values of 0..{len} bytes, both builds",
"h_c28_definitions": "definitions with flags of up to {len} bytes, both builds",
}

DEFAULTS = dict(styles=7, settings=0, prefixes=1)

def text(entry, params):
    """What the entry covers with these parameters."""
    d = dict(DEFAULTS, **params)
    styles = [n for k, n in enumerate(("standard", "slash", "dash")) if d["styles"] >> k & 1]
    d["styles"] = " and ".join(styles) + " style"
    on = [n for k, n in enumerate(("ignore_undefined_arguments and -options", "case_insensitive and allow_abbreviated_options")) if d["settings"] >> k & 1]
    d["settings"] = (" and ".join(on) + " symbolic") if on else "other settings off"
    if d.get("exit"):
        d["settings"] += ", auto_exit symbolic"
    return BOUNDS[entry].format(**d)
