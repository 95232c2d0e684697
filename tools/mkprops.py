#!/usr/bin/env python3
"""Authoring source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
INP, CFG, HIS, FLT = "inputs", "configurations", "histories", "fault_sequences"
OUT = ["standard output / output file of the boxes command", "exit status"]

p("B01", "Drawing a box never loses, alters, duplicates or reorders text",
  "When a box is drawn around any text, every input line's visible characters appear in the output unchanged, complete, exactly once and in input order, each line inside the box on a row of its own. The only differences allowed are the documented ones: tabs become spaces, trailing blanks may be dropped, leading indentation is placed by the indentation mode, and the design's own replacement rules and the justification option are applied. This holds whatever the number and length of lines and whatever the design.",
  [INP, CFG], "every input text (any number and length of lines, blank lines, indentation, tabs, wide and invisible characters), every design and option set",
  "The tests are about 200 fixed transcripts of short texts; none varies the characters, and few exceed a handful of lines, so buffer growth, unusual characters and combinations of blank lines, indentation and options are never reached.",
  ["src/input.c", "src/bxstring.c", "src/generate.c", "src/unicode.c"],
  [("input reader grows its line array and derives per-line widths", "src/input.c: read_all_input, analyze_line_ascii, realloc of lines"),
   ("text rows are assembled from west fill, text, east fill", "src/generate.c: output_box"),
   ("string type that keeps characters, columns and invisible bytes in step", "src/bxstring.c: bxs_from_unicode")], OUT)

p("B02", "Every drawn box is a straight rectangle",
  "In any drawn box, the left border starts in the same display column on every row, and whenever the design has a right side all rows end in the same display column, so that the corners and sides line up. All rows of one box therefore have equal display width (measured with wide characters as two columns and invisible ones as none), and no border overlaps the text.",
  [INP, CFG], "every input text, every valid design (with sides of any shape size, open or closed, elastic or not), every size, padding, alignment and indentation option",
  "Straightness depends on the arithmetic between shape sizes, text width, requested size, padding and character widths; the tests contain only chosen values of each.",
  ["src/generate.c", "src/shape.c", "src/input.c"],
  [("horizontal and vertical side generation with elastic distribution", "src/generate.c: horiz_assemble, horiz_generate, vert_assemble, vert_generate, horiz_precalc, vert_precalc"),
   ("row assembly", "src/generate.c: output_box, justify_line")], OUT)

p("B03", "Box size is the requested size, or the smallest that fits",
  "With a requested width and/or height, the drawn box has exactly that size whenever text, shapes and elastic parts permit it, and otherwise it is only ever larger, never smaller than the design's minimum size and never cutting into the text. Without a requested size the box is the smallest one that the design can form around the text and its padding.",
  [INP, CFG], "every input text, every design, every requested width and/or height from 1 upwards",
  "Tests check fixed sizes for a few designs; the interplay of request, text size, minimum size, padding and non-repeatable shapes has unboundedly many values.",
  ["src/generate.c", "src/boxes.c", "src/cmdline.c"],
  [("effective size computation", "src/generate.c: horiz_precalc, vert_precalc, generate_box, output_box"),
   ("design minimum and requested size taken over", "src/boxes.c: apply_expected_size; src/cmdline.c: size_of_box")], OUT)

p("B04", "Padding is exactly as requested",
  "Between the text block and the box border there are, on each side, at least as many blank columns or rows as the padding asked for on the command line (or by the design where the command line gives none for that side); without a requested box size and with shapes that can adapt freely, exactly as many. A requested size that leaves no room for the padding may be met at the padding's expense: both sides then give way evenly, no further than needed. Later padding arguments override earlier ones, and a padding on one side never changes another side.",
  [INP, CFG], "every input text, every combination of padding settings on the command line and in the design, every design",
  "Only a few padding strings with a few designs are tested.",
  ["src/cmdline.c", "src/generate.c", "src/boxes.c", "src/parsecode.c"],
  [("padding option parser", "src/cmdline.c: padding"), ("command line padding overrides the design's", "src/boxes.c: apply_options_to_design / main"),
   ("fill computation", "src/generate.c: output_box")], OUT)

p("B05", "Alignment and justification place text as documented",
  "The horizontal and vertical alignment options put the text block flush left/top, centred (within one column or row), or flush right/bottom in the space between the paddings of the box; the justification option puts each line flush left, centred (within one column) or flush right within the text block. Neither changes the text, the box size or the border, and the options are independent of each other and of the order given; the shorthands equal their documented expansions.",
  [INP, CFG], "every text, box size, padding and alignment/justification string",
  "Tests enumerate the alignment letters on one or two fixed texts and sizes; odd/even remainders, unequal line lengths and reduced padding are not covered.",
  ["src/generate.c", "src/cmdline.c"],
  [("alignment option parser", "src/cmdline.c: alignment"), ("fill split into left/right and top/bottom; per-line justification", "src/generate.c: output_box, justify_line")], OUT)

p("B06", "Indentation mode is honoured",
  "With mode 'box' the common leading indentation of the text is put in front of every row of the box and is not repeated inside; with 'text' the box starts in the first column and the indentation is kept inside; with 'none' it is discarded. Relative indentation between lines is preserved in all modes, blank lines do not influence the common indentation, and indentation never removes or alters a non-blank character.",
  [INP, CFG], "every text with any mix of indentation (spaces, tabs, blank lines, wide characters), every mode from command line or design",
  "A few fixed indented texts are tested.",
  ["src/input.c", "src/generate.c", "src/boxes.c", "src/tools.c"],
  [("common indentation computed over non-blank lines", "src/input.c: apply_substitutions / analyze lines, remove_indent"),
   ("indent string emitted per row", "src/generate.c: output_box"), ("mode parser", "src/cmdline.c: indentmode")], OUT)

p("B07", "Removing a box restores the text that was boxed",
  "Drawing a box with a design and then removing it with the same design and the same options returns the original text: the same lines in the same order with the same characters, up to trailing blanks, tab expansion and, where the design kills blank lines, leading and trailing blank lines; indentation that alignment or justification options have replaced is not restored. No border character remains and no text character is lost.",
  [INP, CFG, HIS], "every text (whose characters are not confusable with the border, and containing no ambiguous match for the design's reverse rules) and every design whose shapes are identifiable, draw then remove",
  "Tests remove a fixed set of boxes and the sunny-day test round-trips one fixed text per design.",
  ["src/remove.c", "src/generate.c"],
  [("finding top, bottom, vertical bars, with cropped matching of shape lines", "src/remove.c: find_top_side, find_bottom_side, find_vertical_shapes, hmm, shorten"),
   ("cutting out the body", "src/remove.c: remove_vertical_from_input, apply_results_to_input, remove_default_padding")], OUT)

p("B08", "Mending an intact box changes nothing, mending a damaged one repairs it",
  "Mending a box that was drawn with the same design and options gives back the very same box (alignment and justification other than left and top, and sizes without room for the padding, aside, as these change the position of the text for good). When the text inside a box has been edited so that the right border is out of line, mending returns a straight box with exactly the edited text. Mending is idempotent.",
  [INP, CFG, HIS], "every boxed text and every edit that shifts, shortens or lengthens lines inside the box while its left border stays recognisable",
  "Only a few fixed damaged boxes are tested; mend is drawing composed with removal over every text.",
  ["src/boxes.c", "src/remove.c", "src/generate.c"],
  [("mend runs removal, re-analyses the text and draws again", "src/boxes.c: main loop over opt.mend"), ("broken right side recognised", "src/remove.c: hmm, find_vertical_shapes")], OUT)

p("B09", "Tabs expand to the right tab stops",
  "Every tab in the text advances to the next multiple of the chosen tab distance in display columns, so characters stay at the columns in which they would be displayed. In keep and unexpand modes only leading blanks are rewritten, and the leading whitespace of every output line still spans exactly the same number of columns at that tab distance; in expand mode no tab is output.",
  [INP, CFG], "every text with tabs anywhere (also after wide or invisible characters), every tab distance 1..100 and every mode",
  "Tests cover a handful of tab positions at two distances.",
  ["src/input.c", "src/tools.c", "src/cmdline.c"],
  [("tab expansion", "src/tools.c: expand_tabs_into"), ("tabification of leading blanks", "src/tools.c: tabbify_indent"), ("tab option parser", "src/cmdline.c: tabstops")], OUT)

p("B10", "Line terminators are uniform and the final one mirrors the input",
  "Every output line, in all modes (draw, remove, mend, list), ends in exactly the selected line terminator, whichever terminators the input used, and no stray carriage return remains. When a box is drawn or removed, the last output line has a terminator unless the last input line had none and the design or operation keeps that state.",
  [INP, CFG], "every mix of CR, LF and CRLF in the input, every terminator option, every mode",
  "A few EOL tests use uniform short inputs.",
  ["src/input.c", "src/generate.c", "src/remove.c", "src/cmdline.c", "src/tools.c"],
  [("line end stripping", "src/input.c: has_linebreak, btrim"), ("eol option", "src/cmdline.c: eol_override"), ("row output", "src/generate.c: output_box; src/remove.c: output_input")], OUT)

p("B11", "Escape sequences take no space and colour options only affect them",
  "ANSI escape sequences in text or design occupy no columns: the box around coloured text has the same geometry as around the same text uncoloured. With colour output on, every escape sequence of the text is output unchanged at its place (those attached to blanks that are dropped, like trailing blanks or indentation, or following the color reset at the end of a line, may go with them); with colour off, no escape character is output and the rest is exactly what would be output for text and design without the sequences.",
  [INP, CFG], "every text with well-formed escape sequences at any position, every design with or without colours, colour on/off",
  "Tests contain a few fixed coloured samples.",
  ["src/unicode.c", "src/bxstring.c", "src/generate.c", "src/boxes.c"],
  [("escape sequence scanner", "src/unicode.c: u32_nextchar / advance_next32"), ("visible/invisible bookkeeping", "src/bxstring.c: bxs_from_unicode, bxs_to_output")], OUT)

p("B12", "Display widths of Unicode characters are respected",
  "Characters that occupy two columns count as two and combining or zero-width characters as none, in text and design alike, for sizing, filling, alignment, tab stops and removal. The box around any UTF-8 text is straight in display columns and the output is valid UTF-8 containing every character of the text.",
  [INP, CFG], "every text mixing narrow, wide and zero-width characters in any order",
  "Some fixed CJK/emoji samples are tested.",
  ["src/bxstring.c", "src/unicode.c", "src/tools.c", "src/generate.c"],
  [("width accounting", "src/bxstring.c: bxs_from_unicode; src/unicode.c: u32_nextchar"), ("column-based fill", "src/generate.c: output_box")], OUT)

p("B13", "No input text or invocation can corrupt memory or crash the program",
  "For every byte sequence given as text, as command line argument or as box to be removed, the program performs no out-of-bounds, use-after-free, null or uninitialised-memory access, and never dies from a signal. Bad input ends in a regular result or in an error message with exit status 1.",
  [INP, CFG, HIS], "every input byte sequence (valid or invalid UTF-8, control characters, stray escapes, no final newline, empty) in draw, remove and mend mode, every argument string",
  "Memory errors need particular lengths and byte patterns; the tests run without sanitizers on well-formed text.",
  ["src/input.c", "src/bxstring.c", "src/unicode.c", "src/remove.c", "src/generate.c", "src/tools.c", "src/cmdline.c"],
  [("string constructor rejects control characters", "src/bxstring.c: bxs_from_unicode, is_char_at, is_ascii_*"), ("index maps first_char/visible_char", "src/bxstring.c"), ("buffers sized in advance", "src/tools.c: expand_tabs_into; src/generate.c; src/remove.c")],
  OUT + ["memory error detected by the symbolic executor, replayed under AddressSanitizer / valgrind"])

p("B14", "Command line options are parsed exactly as documented",
  "Every documented option spelling and value is accepted with its documented meaning, independent of the position and order of unrelated options; every malformed value (alignment, padding, size, tab, indentation, end-of-line, boolean) is rejected with a message on standard error, a failure status and no output. Numbers take effect with exactly the value written or are rejected, never silently changed.",
  [INP, CFG], "every argument string for the options a, e, i, k, p, s, t and their long forms, up to a length",
  "Tests try about 40 option strings.",
  ["src/cmdline.c"],
  [("per-option parsers", "src/cmdline.c: alignment, eol_override, indentmode, killblank, padding, size_of_box, tabstops, process_commandline"), ("numeric conversion", "src/tools.c: bx_strtol / strtol use in cmdline.c")], OUT + ["standard error"])

p("B15", "Tag queries select exactly the matching designs",
  "A tag query prints the names of exactly those designs that carry none of its '-' tags, all of its '+' tags and, if it has no '+' tag but plain ones, at least one of the plain tags; '(all)' as a plain element matches every design, a query of '-' tags only selects from all designs, and an ill-formed query is rejected. Each matching design is printed once, followed by its aliases.",
  [INP, CFG], "every query over any set of tags and every assignment of tags to designs",
  "A few fixed queries on one config are tested.",
  ["src/query.c", "src/tools.c", "src/parsecode.c"],
  [("query splitting", "src/tools.c: split; src/query.c: parse_query"), ("match predicate", "src/query.c: filter_by_tag"), ("tag grammar", "src/tools.c: tag_is_valid")], OUT)

p("B16", "A design is accepted exactly if it is well-formed, and then drawable",
  "A configuration is accepted exactly if its design satisfies the documented rules: shapes rectangular, equal heights along each horizontal side and equal widths along each vertical side, a corner never elastic, each non-empty side having elastic parts as required and never two adjacent elastic shapes, shapes and elastic set declared, at least one non-empty shape. A rejected configuration gives an error message and no box; an accepted one draws a proper box, or, where opposite sides of the design can never become equally long, is reported with a message when it is used.",
  [CFG, INP], "every design over small shape sizes and every elastic declaration",
  "Tests reject a few hand-picked broken designs.",
  ["src/parsecode.c", "src/shape.c", "src/parser.y"],
  [("elasticity checks", "src/parsecode.c: corner_check, check_sizes; action on elastic list"), ("shape checks and generation of missing shapes", "src/parsecode.c: action_sample_block..., src/shape.c: genshape, check_sizes")], OUT + ["standard error"])

p("B17", "Every invocation ends, with status 0 or a diagnosed failure",
  "For every text, option set and accepted or rejected configuration the program terminates; the exit status is zero or one; a failure status always comes with a message on standard error and never with a partial box on standard output, and a success status in draw mode comes with a complete box for non-empty text.",
  [INP, CFG, FLT], "every text, option string and configuration text",
  "Termination and error discipline quantify over all inputs.",
  ["src/boxes.c", "src/remove.c", "src/generate.c", "src/input.c", "src/cmdline.c", "src/parsing.c"],
  [("main control flow", "src/boxes.c: main"), ("loops over shapes and lines", "src/generate.c, src/remove.c")], OUT + ["standard error"])

p("B18", "The configuration file is found in the documented order",
  "The configuration used is the first existing one in the documented order: command line, BOXES variable, HOME, XDG_CONFIG_HOME/boxes, HOME/.config/boxes, the global file, and the system directories; in a directory the four documented names are tried in order. A location given on the command line or by BOXES that has no configuration is an error and never falls through to a later place, and unreadable or absent candidates are skipped.",
  [CFG, FLT], "every subset of existing, missing and unreadable candidate files and directories and every setting of the environment variables",
  "2^n combinations of files and variables; tests cover a few.",
  ["src/discovery.c"],
  [("ordered candidate table", "src/discovery.c: discover_config_file, locations"), ("directory probing", "src/discovery.c: find_config_in_dir, combine; src/tools.c: can_read...")], OUT + ["standard error"])

p("B19", "Parent configurations are inherited completely, once and without loops",
  "A configuration with parent declarations offers its own designs plus all designs of all its (transitive) parents; where names clash the nearer definition wins (the child before its parents, a parent declared later before one declared earlier, breadth first), and an overridden design is not reachable by its aliases either. Parent files reached repeatedly or in a cycle are read once, the search for a relative or global parent follows the documented rules, and a missing parent is reported on standard error while the designs that could be read remain available.",
  [CFG, HIS], "every graph of parent references and every distribution of design and alias names over the files",
  "Only a few fixed parent chains are tested.",
  ["src/parsing.c", "src/parsecode.c", "src/boxes.c"],
  [("parent work list with duplicate check", "src/parsing.c: parse_config_files, parse_config_file; src/parsecode.c: action_parent_config"), ("design name conflict handling", "src/parsecode.c: design_needed, action_finalize_design")], OUT)

p("B20", "A design is selected exactly by its name or alias",
  "Asking for a design by name or alias (letter case ignored) uses exactly the design that carries it, wherever it is defined; with none given the first design of the configuration is used; an unknown name is an error without output. Two designs never share a name or alias in one file, and names that violate the naming rules are rejected.",
  [INP, CFG], "every design name string requested and every set of names and aliases in a configuration",
  "Only a few names are tested.",
  ["src/parsecode.c", "src/tools.c", "src/cmdline.c"],
  [("selection", "src/parsecode.c: design_needed; src/tools.c: empty_side..., array_contains"), ("name rules", "src/tools.c: is_ascii_id; src/parser.y")], OUT + ["standard error"])

p("B21", "Listings name every design once, in order, with true details",
  "Listing shows each design of the configuration exactly once, sorted by name, with its aliases, author and sample; the design count stated matches. The detailed listing of one design reports the sizes, padding, elastic shapes, rules and tags that were configured.",
  [CFG], "every set of designs with any names, aliases, tags, authors and samples",
  "A few fixed listings are tested.",
  ["src/list.c", "src/query.c"],
  [("sorting and printing", "src/list.c: list_designs, style_sort, tagstats"), ("detail view", "src/list.c: print_design_details")], OUT)

p("B22", "Files and standard streams are interchangeable and errors are reported",
  "Reading from a named input file and writing to a named output file gives byte for byte what standard input and output give, and nothing else is printed; a missing or unreadable input, an unwritable output or a read error during input is reported with failure status and no box. The input file is never modified.",
  [INP, FLT], "every input text, every read/open failure, every placement of file arguments among options",
  "Read failures do not occur in tests.",
  ["src/cmdline.c", "src/input.c"],
  [("file arguments", "src/cmdline.c: input_output_files"), ("read loop and error check", "src/input.c: read_all_input")], OUT + ["standard error", "files"])

p("B23", "Any supported character encoding gives the same box",
  "Text read and written in any encoding offered produces the same characters as the same text in UTF-8; an unknown encoding falls back to UTF-8.",
  [INP, CFG], "every encoding name and text",
  "Only two encodings are tested.",
  ["src/bxstring.c", "src/unicode.c", "src/cmdline.c"],
  [("conversion calls", "src/unicode.c: u32_strconv_from_arg, u32_strconv_to_output")], OUT)

p("B24", "Replacement rules apply as specified, and reverse on removal",
  "On drawing, the design's replace rules are applied to every line in the order written, each to the result of the previous one, to the first match or to all matches as declared; on removal the reverse rules are applied likewise. Nothing but the matched text is changed, and the box is sized for the text after replacement.",
  [INP, CFG], "every text and every list of rules over a class of patterns",
  "A few fixed rules and texts are tested.",
  ["src/regulex.c", "src/input.c", "src/remove.c", "src/parsecode.c"],
  [("rule application", "src/input.c: apply_substitutions"), ("regex engine call", "src/regulex.c: u32_regex_replace"), ("rule declaration", "src/parsecode.c: action_add_regex_rule / add_rule")], OUT)

p("B25", "Blank lines are killed exactly when they should be",
  "On removal, leading and trailing blank lines of the former box content are dropped if and only if killing is on, by explicit option or by default where the design has a top or bottom part; interior blank lines and blank lines of text outside the box are always kept, and mending never kills blank lines. Rows of the design's top and bottom padding belong to the box, not to its content: even with killing off, up to that many blank rows are dropped at the respective end.",
  [INP, CFG], "every text with blank lines at the start, end and inside, every design with or without top or bottom, each option setting",
  "A few fixed cases.",
  ["src/remove.c", "src/boxes.c", "src/cmdline.c"],
  [("kill blank decision", "src/remove.c: killblank / apply_results_to_input"), ("default per design", "src/tools.c: empty_side; src/remove.c")], OUT)

p("B26", "Removal without a design name finds the design that drew the box",
  "When a box drawn with one of the configured designs is removed without naming the design, the design used is one that matches the box at least as well as every other, so that for distinguishable designs the result is the same as if the design had been named. Text that carries no recognisable box leads to an error or to the text unchanged, never to loss of text.",
  [INP, CFG], "every text, every set of designs with pairwise distinguishable shapes",
  "Detection is tested on a few fixed boxes.",
  ["src/detect.c"],
  [("hit counting over corners, sides and empty sides", "src/detect.c: autodetect_design, find_nw..ws hits")], OUT)

p("B27", "Output is a function of the inputs alone",
  "Two runs with the same text, arguments, configuration and environment give identical output; in particular nothing printed, no exit status and no decision ever depends on memory contents that were not initialised, or on addresses.",
  [INP, CFG], "every run",
  "Tests see one allocation history in which fresh memory is mostly zero.",
  ["src/boxes.c", "src/generate.c", "src/remove.c", "src/parsecode.c", "src/input.c"],
  [("explicit zeroing of structures", "calloc / memset uses throughout src"), ("default design record", "src/parsecode.c: bison_args and design initialisation")], OUT)

p("B28", "A design given on the command line puts exactly that string before every line",
  "With a design created on the command line, every output line is the given string followed by the (tab-expanded, aligned and padded, by default one blank to the left) text line, one output line per input line, for every string without line breaks; no configuration file is needed. A string that cannot be used is rejected with a message.",
  [INP], "every string given, every text",
  "A handful of ASCII strings are tested.",
  ["src/boxes.c", "src/cmdline.c", "src/generate.c"],
  [("ad-hoc west-only design", "src/boxes.c: build_design"), ("option", "src/cmdline.c: command_line_design")], OUT)

p("B29", "The border consists of the design's shapes, placed as declared",
  "Every corner shows its corner shape verbatim, and each side is a sequence of that side's shapes in declared order in which non-elastic shapes appear exactly once and only elastic ones repeat, repeated contiguously; nothing but these shapes and blanks for empty shapes appears in the border. Elastic shapes of a side that appear more than once each share the available space fairly.",
  [INP, CFG], "every design (any elastic/non-elastic distribution, multi-line shapes, empty shapes) and every box size",
  "Tests draw each stock design in one or two sizes.",
  ["src/generate.c", "src/shape.c"],
  [("number of repetitions per shape", "src/generate.c: horiz_precalc, vert_precalc"), ("assembly", "src/generate.c: horiz_assemble, vert_assemble")], OUT)

open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w").write(
    "".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
