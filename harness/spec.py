def J(src, name=None, **k): return dict(src=src, name=name or src[:-2], **k)
def draw(p, **k): return J('draw.c', 'draw%02d' % p, defs=['P=%d' % p], cover=['end'], bounds='23 designs x up to 9 text templates (1-9 lines, up to 8 symbolic characters from {letters, blank, digits, border characters}) plus texts of 130 and 260 lines and a line of 700 columns for 5 designs; options as listed in harness/draw.c for P=%d' % p, **k)
NOT_APPLICABLE = {
 'B23': 'The conversion between encodings is done by libiconv tables inside libunistring; neither source nor bitcode of them is part of /repo or available here, so the part of the property that could fail cannot be encoded. The rest of the property (UTF-8) is covered by B12.',
}
T60 = {'quick': 120, 'thorough': 420}
SPEC = {
 'B13': dict(memory=True, asan=True, jobs=[J('b13_draw.c', cover=['end'], time={'quick': 150, 'thorough': 600}, bounds='15 designs x 2 of 7 (7) option sets x draw/remove/mend; text of 4 symbolic bytes (one more fixed) from three alphabets: letters, blank, tab, CR, LF, border characters; the bytes of escape sequences; the bytes of UTF-8 characters incl. broken ones and control characters')]),
}
for p in (1, 2, 3, 4, 5, 6, 29): SPEC['B%02d' % p] = dict(jobs=[J('mix.c', 'mix%02d' % p, defs=['P=%d' % p], cover=['end'], time=T60, bounds='23 designs x 60 option sets (sizes, paddings, alignments, indentation and tab modes) x 24 text templates with symbolic characters; quick tier: 5 texts per pair of design and option set'), draw(p, time=T60)])
for p in (7, 8): SPEC['B%02d' % p] = dict(jobs=[J('rt.c', 'rt%d' % p, defs=['P=%d' % p], time=T60, cover=['end'], bounds='23 designs (quick; thorough the same with more options) x 14 text templates (1-6 lines with symbolic letters, blanks, tabs, wide and combining characters, colours) x 4 (6) option sets x 3 (4) indentation modes, plus texts of 130 and 260 lines and of 700 columns; draw and then remove or mend with the same options')])
for p in (7, 8): SPEC['B%02d' % p]['jobs'].append(J('rtmix.c', 'rtmix%d' % p, defs=['P=%d' % p], time=T60, cover=['end'], bounds='23 designs x the option sets of the mixture without alignment (35) x 4 of 24 (24) text templates'))
SPEC['B08']['jobs'].append(J('mend.c', 'mend', defs=['P=8'], time=T60, cover=['mended'], bounds='23 designs x 5 texts x 2 of 6 (6) option sets, the text of one or two rows edited by inserting, deleting or overwriting up to 4 characters (symbolic letters, wide characters) at the start, middle or end; mended twice'))
SPEC['B14'] = dict(jobs=[J('opts.c', 'opts', defs=['P=14'], time=T60, cover=['align', 'pad', 'size', 'tabs', 'indent', 'eol', 'kill', 'order', 'last', 'junk', 'info'], bounds='the value of every option a symbolic string of up to 4-5 (5-7) characters from the alphabet of its syntax plus fixed extreme values; four spellings; orders of 3 options with the input file, 8 permutations; 14 options that lack an argument or do not exist')])
SPEC['B09'] = dict(jobs=[J('tabs.c', 'tabs', defs=['P=9'], time=T60, cover=['end'], bounds='4 (10) designs x 12 text templates with symbolic characters from {tab, blank, letter} x 4 (16) tab distances x keep/unexpand/expand x 3 (4) indentation modes')])
SPEC['B10'] = dict(jobs=[J('eol.c', 'eol', defs=['P=10'], time=T60, cover=['draw', 'list', 'remove'], bounds='23 designs x 4 texts of 1-4 lines, each line break solver-chosen LF or CRLF, the last one present or not, x default, LF, CRLF, CR x draw, remove, mend, list, query')])
SPEC['B11'] = dict(jobs=[J('color.c', 'color', defs=['P=11'], time=T60, cover=['end', 'remove'], bounds='6 designs, monochrome or with coloured shapes, x 17 templates with up to 5 sequences (8 concrete kinds by choice, and sequences with a symbolic parameter and any final byte 0x40-0x7e) x 4 option sets x draw, remove, mend; colour on and off')])
SPEC['B12'] = dict(jobs=[J('uni.c', 'uni', defs=['P=12'], time=T60, cover=['end'], bounds='6 designs x 4 option sets x 2 (3) characters out of 18 classes, whose last byte ranges over a whole block (CJK, CJK extension B, combining marks, Latin-1, Cyrillic, mathematical letters, emoji, Hangul and Jamo, Kana wide and narrow, box drawing), and single zero-width, full-width and variation characters')])
SPEC['B15'] = dict(jobs=[J('query.c', 'query', defs=['P=15'], time=T60, cover=['good', 'bad', 'end'], bounds='5 designs with tags; query strings built of symbolic bytes (up to 4, thorough 5) and lists of up to 4 elements with symbolic prefixes; tags of a design symbolic; all spellings of -q')])
SPEC['B20'] = dict(jobs=[J('sel.c', 'sel', defs=['P=20'], time=T60, cover=['pick', 'unknown', 'default', 'uniq', 'goodname', 'badname'], bounds='3 designs with names and up to 2 aliases out of word lists; requested name of up to 2 symbolic characters or fixed; 18 invalid names and all 3-character names over {a,Z,1,9,-,_,.,~}')])
SPEC['B19'] = dict(jobs=[J('parents.c', 'parents', defs=['P=19'], time=T60, cover=['pick', 'unknown', 'list', 'default'], bounds='4 files, all graphs in which the child declares up to two parents and the others one (thorough: all two), and 15 chosen ones (chains, diamonds, cycles, self reference, missing parents, :global:), which of 3 designs each file has, place of the declaration, letter case of names; 8 ways of asking (3 names with a symbolic letter, 3 aliases, list, default)')])
SPEC['B18'] = dict(jobs=[J('disc.c', 'disc', defs=['P=18'], time=T60, cover=['search', 'none', 'given', 'badplace', 'global', 'noglobal', 'states', 'nostates'], bounds='the state of all 24 candidates (6 directories, 4 names) symbolic: regular file or absent, for the candidates of one of the directories also directory or unreadable; and by choice the 9 documented places and 4 names: which one is the first, what stands at the earlier ones (nothing, directory, unreadable file, other file), what at the later ones, HOME and XDG_CONFIG_HOME set or not; 9 forms of a given location by -f or BOXES; 5 global places for parent :global:')])
SPEC['B28'] = dict(jobs=[J('cld.c', 'cld', defs=['P=28'], time=T60, cover=['draw', 'bad', 'remove'], bounds='strings of 1-3 (thorough: 5) symbolic bytes and 11 fixed ones (UTF-8, wide, combining, escape sequences, quotes, format characters), 7 unusable ones; 16 option sets; texts as in mix')])
SPEC['B25'] = dict(jobs=[J('kill.c', 'kill', defs=['P=25'], time=T60, cover=['kill', 'keep', 'mend'], bounds='23 designs, texts of 3-5 (thorough: 6) lines, each line solver-chosen blank or not, 4 geometries, 0-2 blank lines before and after the box, every spelling of the option')])
SPEC['B16'] = dict(jobs=[J('wf.c', 'wf', defs=['P=16'], time=T60, cover=['good', 'bad', 'good2', 'bad2'], bounds='designs: per side every subset of shapes x every elastic subset x 3 fillings of the other sides x 4 corner sets; 12 sets of shapes x 4 thicknesses x victim shape with width/height off by one x blank shapes; 46 further configurations (grammar and blocks) alone, before or after a good design')])
SPEC['B24'] = dict(jobs=[J('reg.c', 'reg', defs=['P=24'], time=T60, cover=['draw', 'remove', 'mend', 'pair'], bounds='draw, remove and round trip with up to 2 (3) rules out of 15 patterns x 8 replacements, global or once; text of one line with symbolic characters over the alphabet of the patterns')])
SPEC['B22'] = dict(jobs=[J('io.c', 'io', defs=['P=22'], time=T60, cover=['same', 'infail', 'outfail', 'args'], bounds='8 contents with symbolic characters x 11 operations x 8 ways to name the streams; 4 kinds of failing input and output each')])
SPEC['B21'] = dict(jobs=[J('list.c', 'list', defs=['P=21'], time=T60, cover=['list', 'detail'], bounds='1-3 (4) designs in one or two files with symbolic names, aliases, author, designer, samples, tags; details of 23 designs x rules, padding, tags, indentation, credits')])
SPEC['B26'] = dict(jobs=[J('auto.c', 'auto', defs=['P=26'], time=T60, cover=['find', 'none'], bounds='8 sets of 4 designs in 2 orders, each of the 4 the drawing one, 6 of 12 (12) text templates, 2 of 8 (8) option sets, remove and mend; 9 texts without box')])
SPEC['B27'] = dict(memory=True, only=('assert', 'uninit', 'replay'), jobs=[J('det.c', 'det', defs=['P=27'], time=T60, cover=['end'], bounds='23 designs x 16 invocations x 10 of 60 (60) option sets x a share of 24 (24) texts, with and without parent file; every byte of memory that the program does not initialise is tracked, two runs compared')])
SPEC['B17'] = dict(jobs=[J('status.c', 'status', defs=['P=17'], time=T60, cover=['drawn', 'fail', 'end', 'sides'], bounds='5 families: opposite sides with elastic and fixed parts of up to 4 rows or columns, 53 option lists with symbolic values x texts, 15 design extras (rules that match nothing, empty strings, broken patterns), 40 broken configurations, files and damaged boxes with symbolic bytes')])
