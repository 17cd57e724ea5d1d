COMMON_ASSUMPTIONS = [
    'memory allocation succeeds; hash-container iteration order is one fixed order (reverse insertion)',
    'std::regex, ICU UnicodeString/UnicodeSet/RegexMatcher/Normalizer2, simdjson and iostreams are replaced by the models in /verif/model; '
    'ICU character data is read from the installed ICU; sampled paths are compared with the real libraries on every run',
    'compiled at -O2 with clang 18 for x86-64; the C locale is "C" as no code sets it',
]
NOTE = ('Holds for every input within the stated bounds (Z3 verdict on every branch and assertion); nothing is claimed outside them. '
        'Trusts the executor, Z3 and the library models; sampled paths and every counterexample are replayed against the natively compiled code.')
PROPS = {
    'C02': dict(note=NOTE,
                bounds={'quick': 'encodings of 0..9 tokens with arbitrary ids; max_length and stride over all of [0,2^31) with stride<max_length or max_length=0; both directions; LongestFirst and OnlyFirst; through JSON: up to 3 tokens, max_length/stride 0..4',
                        'thorough': 'as quick with up to 14 tokens (JSON: 5)'}),
    'C03': dict(note=NOTE,
                bounds={'quick': 'encodings of 0..4 tokens with arbitrary ids and 0..2 overflowing encodings; Fixed size 0..8 or BatchLongest; multiple 0..5; both directions; arbitrary pad id and type id; through JSON: 0..2 tokens, size 0..4, multiple 0..3',
                        'thorough': 'as quick with up to 6 tokens, Fixed size 0..12, multiple 0..9'}),
}
NOT_APPLICABLE = {}
PROPS['C04'] = dict(note=NOTE, bounds={
    'quick': 'templates of 1..3 pieces (one sequence, others one of two special tokens of 1 and 0..2 ids), arbitrary ids and type ids; encodings of 0..3 tokens with arbitrary ids and 0..2 overflowing encodings; special tokens on/off; through JSON, alone and inside processor sequences: templates of 1..2 pieces',
    'thorough': 'templates of 1..4 pieces, encodings of 0..4 tokens; JSON: 1..3 pieces'})
PROPS['C20'] = dict(note=NOTE, bounds={
    'quick': 'encodings of 0..2 tokens, each 0..2 characters (0..4 for a single token) out of the byte-level space, an ASCII letter and another two-byte character; arbitrary ids; offsets over all pairs start<=end<2^30 with end at least the token length; one overflowing encoding; all option settings, also from JSON with null',
    'thorough': 'two tokens of up to 3 characters, overflowing encodings of 1..2 tokens'})
PROPS['C17'] = dict(note=NOTE, bounds={
    'quick': 'texts of 0..3 arbitrary Unicode scalar values; concatenations of 0..2 and 0..1 scalar values; every byte string of 0..4 bytes',
    'thorough': 'texts of 0..4 scalar values; concatenations 2+2; byte strings of 0..5 bytes'})
PROPS['C05'] = dict(note=NOTE, bounds={
    'quick': 'all 256 bytes; every character below U+0800; 3- and 4-byte characters with each byte varied over its whole range in turn; texts of 0..3 characters out of 9 classes (space, letter, apostrophe, contraction letter, digit, accented, newline, emoji, combining mark) with both options',
    'thorough': 'additionally every 3-byte character of the plane below U+D800; texts of 0..4 characters'})
PROPS['C16'] = dict(note=NOTE, bounds={
    'quick': 'WordPiece: 3 prefixes, cleanup on/off, 0..2 tokens of up to 3 characters out of 5, every ASCII character as a token, 1..2 contraction words with or without spaces; Replace: 5 patterns, 4 contents, tokens of up to 4 and 2 characters; Fuse: 0..3 tokens of 0..2 arbitrary bytes; Strip: 3 contents, start/stop 0..2, tokens of up to 5; ByteFallback: 0..3 tokens out of 14 bytes or plain text, every pair of ASCII characters as hex digits; sequences of 0..2 of 7 members; JSON forms',
    'thorough': 'tokens of up to 4..6 characters, 3 contraction words, 4 fallback tokens out of 40 bytes, sequences of 0..3 members'})
PROPS['C13'] = dict(note=NOTE, bounds={
    'quick': 'BERT: any one scalar value between a letter and punctuation, texts of 0..3 characters of 7 classes and of 4 characters of 4 classes; Split: 6 patterns, 5 behaviours, invert on/off, texts of 0..3 of 4 classes; byte-level: texts of 0..3 of 7 classes, both options, every contraction suffix of 0..3 letters; input pieces: whole text or cut anywhere in two with either part already tokenized; sequences of 0..2 of 5 member configurations',
    'thorough': 'BERT texts of 0..4 (7 classes) and 4..5 (4 classes), Split and byte-level texts of 0..4, sequences of 0..3 members'})

PROPS['C06'] = dict(note=NOTE, bounds={
    'quick': 'vocabularies of 0..2 entries with arbitrary ids, of 1..2 letters out of 2, with or without the continuation prefix, unknown token in or out, words of 0..4 letters, max_input_chars over all of [0,2^31); a fixed vocabulary of 11 overlapping entries with any one dropped, words of 0..4 characters out of 6 (one to four bytes); length limit 0..6 against words of 0..5 characters of 1 or 4 bytes',
    'thorough': 'up to 3 entries and a prefix that is itself a letter; words of up to 5 characters'})
PROPS['C07'] = dict(note=NOTE, bounds={
    'quick': 'every list of 2 merges over 2 letters in both orders (also with a merge result missing from the vocabulary), words of 0..5 letters; every list of 3 merges, words of 3..4; 2 lists over characters of 1..4 bytes, words of 0..4 of 4 classes; continuation prefix, end-of-word suffix and both, words of 0..4; ignore_merges, words of 1..3 of 3 classes; runs of up to 7 equal letters',
    'thorough': 'words of up to 7 (two merges), 6 (three merges in every rotation), 5 (wide, affixes), runs of up to 9'})
PROPS['C08'] = dict(note=NOTE, bounds={
    'quick': 'words of 0..3 characters out of 5 of one to four bytes (4 with affixes), byte tokens none/some/part of a character/all, unknown token present or not, fuse_unk and byte_fallback on/off, continuation prefix and end-of-word suffix; any one scalar value next to a letter; every character U+0001..U+01FF through its fallback tokens',
    'thorough': 'words of 0..4 characters; every character U+0001..U+07FF'})
PROPS['C10'] = dict(note=NOTE, bounds={
    'quick': 'all 16 option settings: any one scalar value between a letter and punctuation; texts of 0..3 characters of 8 classes; any of 29 characters at the ends of the classes next to one of 6; JSON: every option true/false/null, two field orders',
    'thorough': 'texts of 4 characters of 8 classes; any two of the 29 characters'})
PROPS['C11'] = dict(note=NOTE, bounds={
    'quick': 'Strip: texts of 0..3 of the classes, any two scalar values around a letter, all 4 settings; StripAccents: any two scalar values; Prepend and Replace: prefixes/patterns/contents of several lengths and widths, texts of 0..3 (runs of 4..5); NFD/NFKD: any scalar value between a letter and a mark; NFC/NFKC: texts of 0..3 of the form classes and every composition of U+0041..U+01FF with 2 marks; sequences of 0..2 normalizers; JSON forms',
    'thorough': 'texts one character longer; compositions of U+0200..U+24FF'})
PROPS['C12'] = dict(note=NOTE, bounds={
    'quick': 'as C10 and C11 (without JSON), the alignment compared entry by entry; a part [a,b) of texts of up to 3 characters normalized on its own and put back, also twice',
    'thorough': 'texts one character longer'})
PROPS['C14'] = dict(note=NOTE, bounds={
    'quick': 'one token of 2 characters with every flag combination in texts of 0..4 of 4 classes; any scalar value before or after it; two tokens with every whitespace/word flag and up to 2+2 characters of whitespace (three kinds) or letter between; 6 overlapping pairs with 3 flag sets each in texts of 0..4; 3 normalized tokens under 4 BERT option settings in texts of 0..3 of 7 classes; a growing and shrinking normalizer sequence in texts of 0..4; tokens added later or again with other flags',
    'thorough': 'texts one character longer; any scalar values on both sides of a token at once'})
PROPS['C15'] = dict(note=NOTE, bounds={
    'quick': 'every 2 calls of 1..2 tokens out of 3 names, 1 call of 1..2 out of 4, 3 calls of 1 out of 4, each special or not, arbitrary given ids, either call; model vocabularies of 0..2 entries with ids 0..4, also no model; lists of 0..3 tokens a vocabulary is built with',
    'thorough': '6 names (empty, known, unknown, multi-byte); 4 calls; vocabularies of 0..3 entries'})
PROPS['C01'] = dict(note=NOTE, bounds={
    'quick': 'BERT + WordPiece and byte-level BPE pipelines with two added tokens, 5 truncations, 3 paddings, with a template (and trimming) or without, special tokens on or off; texts of 0..3 out of 5 (4) classes of one to four bytes; texts of 0..4 of 4 classes with words unknown to 4 WordPiece and 3 BPE configurations (no unknown token, one that is not in the vocabulary, fallback, fusing)',
    'thorough': 'texts of 0..4; every one of 4 post-processors; no pre-tokenizer too'})
PROPS['C09'] = dict(note=NOTE, bounds={
    'quick': '5 configurations; 1 earlier operation on texts of 0..3 of 3 classes (0..2 of wide classes), 2 earlier operations on texts of 1..2 of 2, each an encode or a decode with an arbitrary id; then the same encode and decode twice against fresh instances; words of up to 65 characters after a slightly different one, any of 16 words after all of them, any of 6 of up to 520 words again by the BPE model; a tokenizer moved before or after use; 8 pairs of configurations of which another instance is made and used before or between, against the reference',
    'thorough': 'texts of 0..4 after one operation, 3 earlier operations, all 64 pairs of configurations'})
PROPS['C19'] = dict(note=NOTE, bounds={
    'quick': 'the 16 combinations of normalizer, pre-tokenizer, added tokens and model, present or absent, texts of 0..3 of 5 classes (NUL and U+1F620 among them); any scalar value in 3 places of 3 full pipelines; 4 normalizers under a character BPE with fallback, any scalar value or texts of 0..3; vocabularies that are empty or cannot represent the text; every encoding is decoded again; each access checked for bounds, each path for a step limit',
    'thorough': 'texts of 0..4; 4 places and pipelines'})
PROPS['C21'] = dict(note=NOTE, bounds={
    'quick': 'BERT + WordPiece under 4 option settings, texts of 0..4 of 8 classes (control, CJK, accented, combining mark among them); any scalar value in 3 places; three added tokens with stripping flags in texts of 0..3 of 5 classes followed by up to two of them; byte-level BPE texts of 0..3 of 6 classes; 5 other normalizers under a character BPE with fallback and fusing, texts of 0..3 of 7 classes',
    'thorough': 'texts one character longer; 6 (5) option settings'})
PROPS['C22'] = dict(note=NOTE, bounds={
    'quick': 'byte-level BPE with the whole alphabet, 4 merge lists, 3 pre-tokenizer settings, with or without a special token placed in front and skipped: texts of 0..4 of 4 classes, 1..2 of 8 classes, every character U+0000..U+01FF; WordPiece: 0..3 words of 1..2 letters, normalizer, cleanup and added tokens on or off',
    'thorough': 'texts of 0..5 (1..3 of 8 classes), every character U+0000..U+07FF, words of 1..3 letters'})
PROPS['C18'] = dict(note=NOTE, bounds={
    'quick': 'every field of both models, all normalizers, pre-tokenizers, decoders, post-processors, truncation, padding and added tokens as null/false/true, one of 8 strings (escapes, surrogate pairs, raw UTF-8), or several numbers, in 3 field orders, the other fields at base values (pairs of fields where they interact), behaviour on texts of 0..3; sequences of 3 members in every order with one of 11 unsupported types around them or nested; every section in 9 orders, null, missing, of the wrong kind; 31 fields of the wrong kind; a configuration cut at every length, without each of its structural characters; from a file',
    'thorough': 'truncation of encodings of up to 6 tokens; more replayed paths'})
PROPS['C23'] = dict(note=NOTE, san='thread', bounds={
    'quick': 'two threads; 5 configurations, 0..1 earlier encode; each thread encodes a text of 0..2 of 3 classes or decodes ids one of which is arbitrary; races: every pair of accesses of the two; results: the second thread runs at any point where the first takes or has released a lock; two tokenizers of one process',
    'thorough': 'texts of 0..3; all 64 pairs of configurations'},
    assumptions=['two threads; memory order is sequentially consistent for atomics; threads that use the tokenizer only encode and decode'])
PROPS['C24'] = dict(note=NOTE, bounds={
    'quick': 'two-merge lists over a, b (all of them), words of 0..4; 2 longer lists, words of 3..5; a word tokenized twice (1..3); affixes; characters of 1, 2 and 4 bytes (0..3); probability 1; each random draw is symbolic (dropped or not), up to 40 per word',
    'thorough': 'words one character longer'},
    assumptions=['a draw is either below or above the probability; draws are independent; generators of <random> yield numbers of [0, 1)'])
PROPS['C25'] = dict(note=NOTE, bounds={
    'quick': '6 configurations with and without added tokens; one of 3 tokens with any of the 32 flag combinations, or two (overlapping or not, 3 x 3 flag combinations) in one or two calls of either kind, with or without encoding before and between; texts of 4 (2 of 3 classes), decoding all ids 0..30',
    'thorough': 'texts of 5; 6 x 6 flag combinations'})
PROPS['C26'] = dict(note=NOTE, bounds={
    'quick': '3 pipelines (WordPiece with added tokens, byte-level and character BPE), 5 truncations, 4 post-processors, 3 paddings, each with and without special tokens; texts of 0..3 of 3 classes',
    'thorough': 'texts of 0..4'})
PROPS['C27'] = dict(note=NOTE, bounds={
    'quick': '5 configurations (BERT + WordPiece with added tokens, byte-level BPE, character BPE with fallback or fusing, BPE with continuation prefix); two parts of 0..2 and 1..2 of 5 (3..6) classes, the second also repeated in the first; any scalar value at the end of the first part (2 configurations); a word of 1..2 at 4 positions among 20 others',
    'thorough': 'parts of 0..3 and 1..3; any scalar value in 2 places of all configurations; a word of 1..3'})
PROPS['C28'] = dict(note=NOTE, bounds={
    'quick': '9 decoders (none, WordPiece with and without cleanup, Replace, Strip, byte-level, fallback sequences, Fuse) over vocabularies of 7 entries, a special token and an id of no token, skipped or not; 0..2 ids followed by 1..2 arbitrary ids of 0..8',
    'thorough': '0..3 ids followed by 1..2'})
# texts and encodings of lengths around powers of two, all but one or two values fixed
LONG = {
    'C01': 'texts of 17..260 characters through 3 pipelines with truncation to 100 and padding to multiples of 64',
    'C02': 'encodings of 17, 130 and 300 tokens cut to 1..300 with strides 0, 1, 5, 120',
    'C03': 'encodings of up to 257 tokens padded to 127..520 and multiples of up to 200',
    'C04': 'encodings of up to 260 tokens, special tokens of up to 41 ids, 20 overflowing encodings',
    'C05': 'texts of 16..257 characters with any of 7 classes at one of two places',
    'C06': 'words of 15..150 characters over entries of up to 140',
    'C07': 'words of 16..132 letters under two lists of 5 and 7 merges',
    'C08': 'runs of 7..257 characters without a token and another character first, in the middle or last',
    'C10': 'texts of 16..257 characters with any class at one of two places',
    'C11': 'texts of 16..257 characters, prefixes and contents of up to 130',
    'C12': 'texts of 16..257 characters, prefixes and contents of up to 130',
    'C13': 'texts of 16..407 characters with any class at one of two places',
    'C14': 'texts of 65..400 characters with many occurrences, 20 tokens, tokens of 17 and 130 characters',
    'C15': 'vocabularies of up to 260 entries with ids from 0, 100 or 70000, with or without gaps, 3 or 20 tokens added in one or two calls',
    'C16': '17..260 tokens of 4..43 characters and one of up to 500',
    'C17': 'texts of 15..300 characters with any scalar value in the middle',
    'C18': 'vocabularies of 17..300 entries and 17..130 merges, names of up to 430 bytes, ids up to 99000',
    'C19': 'texts of 17..200 characters through 3 pipelines',
    'C20': '140 tokens, one with 1..260 spaces at either or both ends',
    'C21': 'texts of 17..260 characters through 3 pipelines',
    'C22': 'texts of 17..260 characters',
    'C26': 'texts of 130 and 260 characters, truncation to 100 with stride 30, padding to multiples of 64',
    'C27': 'a word of 3 after a text of 65..257 characters',
    'C28': 'an arbitrary id after 17..260 others',
}
for k, v in LONG.items():
    PROPS[k]['bounds']['quick'] += '; fixed long inputs with one or two values symbolic: ' + v
