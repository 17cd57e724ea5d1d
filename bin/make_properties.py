import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
p("C01","Every encoding is well formed",
 "For every text and configuration, the encoding a tokenizer returns, and each of its overflowing encodings, has ids, type ids, tokens, word indices, offsets, special-token mask and attention mask of the same length. Masks hold only 0 and 1, every offset pair satisfies 0 <= start <= end, each id that comes from the text is the vocabulary id of the token string reported at that position, an added token reporting the text it matched, and word indices and offsets of text tokens never go backwards (a token left empty by trimming has no place in that order).",
 ["inputs","configurations"],"all texts (any code points) x pipelines assembled from the supported normalizers, pre-tokenizers, models, truncation, post-processors and padding",
 "The suite encodes two fixed sentences with one pipeline; the lengths of seven parallel arrays are maintained separately by five stages, so a slip shows only for particular text/configuration combinations.",
 ["src/tokenizer.cpp","src/utils.cpp","src/post_processor.cpp","src/common.cpp"],
 [("token to encoding flattening","src/tokenizer.cpp into_encoding"),("post-processing chain","src/tokenizer.cpp Tokenizer::do_post_process")],["Tokenizer::encode"])
p("C02","Truncation yields contiguous windows covering the whole encoding",
 "Truncating an encoding to max_length with a stride smaller than max_length always terminates; the result and every overflowing part has at most max_length tokens (every part but the last exactly that many), is a contiguous slice of the original with all parallel fields taken from the same positions, consecutive parts overlap by exactly stride tokens (the last one possibly shorter), and together they cover every original token in order from the truncation side. An encoding that already fits is returned unchanged, and max_length 0 leaves no tokens in the main encoding.",
 ["inputs","configurations"],"all encodings (any length and content) x max_length x stride x direction x strategy",
 "Two tests truncate a 2-token encoding to 1 token with stride 0, to the right; overlaps, left truncation, multiple windows, max_length 0 and termination are never exercised.",
 ["src/utils.cpp"],[("window computation","src/utils.cpp truncate"),("strategy dispatch","src/utils.cpp Truncation::truncate_encoding")],["Truncation::truncate_encoding","with_truncation","Tokenizer::encode"])
p("C03","Padding reaches the target length and never alters real tokens",
 "Padding appends (Right) or prepends (Left) exactly the number of pad entries needed to reach the fixed size, rounded up to the configured multiple, and adds none when the encoding is already that long. Pad entries carry the configured id, type id and token, offset (0,0), attention 0 and special-token mask 1; all original entries keep their values and order, and overflowing encodings are padded to the same target.",
 ["inputs","configurations"],"all encodings with overflow x direction x strategy x fixed size x multiple x pad id/type/token",
 "Two tests pad one 2-token and one 4-token encoding to the right; the left direction, overflow, exact multiples, longer-than-target and mixed cases are not reached.",
 ["src/utils.cpp"],[("pad","src/utils.cpp pad"),("target length","src/utils.cpp Padding::pad_encoding")],["Padding::pad_encoding","with_padding"])
p("C04","Template post-processing only places special tokens around the sequence",
 "With special tokens enabled, the processed encoding is the concatenation, in template order, of each special token's ids and tokens (special mask 1, attention 1, no word, offset (0,0), the template's type id) and of the sequence's entries unchanged except for the template's type id; with special tokens disabled it is the sequence alone. Overflowing encodings are kept and processed the same way. Chained processors act as their left-to-right composition.",
 ["inputs","configurations"],"all encodings x templates (any order and number of pieces, special tokens with several ids) x add_special_tokens",
 "Tests use one BERT template, one encoding and add_special_tokens=true.",
 ["src/post_processor.cpp"],[("template application","src/post_processor.cpp TemplateProcessing::process"),("composition","src/post_processor.cpp SequenceProcessing::process")],["PostProcessor::process","with_post_processor"])
p("C05","The byte-level alphabet is a lossless bijection",
 "The byte-level alphabet maps the 256 byte values one-to-one to printable characters, identically to GPT-2's table. Byte-level pre-tokenizing any text and byte-level decoding the resulting pieces gives back exactly the bytes of the text (with the prefix space if one was added), and no input text makes either direction fail.",
 ["inputs","configurations"],"all texts including non-ASCII, control and empty text x add_prefix_space x use_regex",
 "Tests run pure ASCII sentences only; every non-ASCII byte and every remapped control byte other than the space is untested.",
 ["src/common.cpp","src/pre_tokenizer.cpp","src/decoder.cpp"],[("byte alphabet","src/common.cpp bytes_char"),("byte-level split","src/pre_tokenizer.cpp ByteLevelPreTokenizer::pre_tokenize"),("inverse","src/decoder.cpp ByteLevelDecoder::decode_chain")],["PreTokenizer::pre_tokenize","Decoder::decode_chain","bytes_char"])
p("C06","WordPiece is greedy longest-match-first and all-or-nothing",
 "For every word and vocabulary the WordPiece model produces the greedy longest-match-first segmentation: each piece is the longest vocabulary entry starting there (later pieces looked up with the continuation prefix), pieces tile the word without gaps or overlap, and ids and offsets match the pieces. If any position has no match, or the word is longer than the limit, the whole word becomes one unknown token with the unknown token's id.",
 ["inputs","configurations"],"all words (any code points) x vocabularies x unk token x length limit x prefix",
 "Tests segment one fixed phrase against vocabularies of one or two entries; competing shorter/longer entries, failing suffixes and the exact length boundary are not covered.",
 ["src/model.cpp"],[("greedy matching","src/model.cpp WordPiece::tokenize")],["Model::tokenize","with_model"])
p("C07","BPE applies merges in rank order and tiles the word",
 "For every word, vocabulary and merge list the BPE model returns what the BPE algorithm defines: starting from the single characters, repeatedly merge the adjacent pair of lowest merge rank, leftmost first, until no listed pair remains. Tokens' ids and values correspond and their offsets tile the word exactly.",
 ["inputs","configurations"],"all words x vocabularies x merge lists (with any rank order, overlapping and conflicting merges)",
 "One test merges one word whose merges never compete, so any queue order passes it.",
 ["src/model.cpp","include/tokenizers/model.h"],[("merge queue","src/model.cpp Word::merge_all"),("merge priority","include/tokenizers/model.h Merge"),("merge table","src/model.cpp BPE::BPE")],["Model::tokenize","with_model"])
p("C08","BPE never loses input it cannot represent",
 "When a BPE model has an unknown token or complete byte-fallback tokens, every character of the word is accounted for: characters in the vocabulary keep their token, others become their bytes' fallback tokens or unknown tokens, one per character or one per run when fusing is on, in order, with offsets that tile the word (byte tokens carry those of their character). No word, empty or wholly unknown words included, makes tokenizing fail, with or without an unknown token.",
 ["inputs","configurations"],"all words (multi-byte characters included) x vocabularies x fuse_unk x byte_fallback x prefix/suffix options",
 "Tests cover ASCII words with at most two unknown letters; byte fallback, multi-byte characters, empty words and missing unknown tokens are not exercised.",
 ["src/model.cpp"],[("initial symbols","src/model.cpp BPE::merge_word"),("token construction","src/model.cpp BPE::word_to_tokens")],["Model::tokenize"])
p("C09","Results depend only on configuration and input, never on history",
 "Encoding, tokenizing or decoding the same input gives the same result whatever was processed before on the same instance, including repeated, related and empty inputs and inputs seen in any order; and it equals what a fresh instance with the same configuration returns. Encoding and decoding never change the set of added tokens.",
 ["histories","inputs"],"all sequences of operations on one tokenizer or model",
 "Tests make at most three calls on one instance, with different inputs; the word cache is written on every call and reused later.",
 ["src/model.cpp","src/tokenizer.cpp","src/added_vocabulary.cpp"],[("word cache","src/model.cpp BPE::tokenize_with_cache")],["Model::tokenize","Tokenizer::encode","Tokenizer::decode"],
 [("cache","word -> merged symbols","include/tokenizers/model.h BPE")])
p("C10","BERT normalization computes the documented text",
 "For every text and option setting, BERT normalization yields: control, NUL and replacement characters removed and whitespace turned into plain spaces when cleaning; each CJK ideograph surrounded by spaces when CJK handling is on; canonical decomposition with nonspacing marks dropped when accents are stripped (or lowercasing is on); and lowercase letters when lowercasing is on, applied in that order, with all other characters kept unchanged and in order.",
 ["inputs","configurations"],"all texts x the option settings",
 "Each option is tested alone on one sentence; adjacent and repeated special characters, range boundaries and option combinations are not.",
 ["src/normalizer.cpp"],[("pipeline","src/normalizer.cpp BertNormalizer::normalize"),("character classes","src/normalizer.cpp is_chinese_char, is_control, is_whitespace")],["Normalizer::normalize","with_normalizer"])
p("C11","The other normalizers compute their documented text",
 "For every text: Strip removes exactly the leading and/or trailing whitespace; StripAccents removes exactly combining diacritical marks; Prepend puts its string in front of any text that is not empty; Replace substitutes every non-overlapping occurrence of the literal pattern from left to right; NFC, NFD, NFKC and NFKD give the Unicode normalization form; and a sequence equals its normalizers applied in order.",
 ["inputs","configurations"],"all texts x patterns, contents and sequences",
 "One or two fixed sentences per normalizer; multi-character patterns, longer replacements, adjacent occurrences, empty text, whitespace-only text are not tested.",
 ["src/normalizer.cpp"],[("Replace","src/normalizer.cpp Replace::normalize"),("Strip","src/normalizer.cpp Strip::normalize"),("Prepend","src/normalizer.cpp Prepend::normalize"),("Unicode forms","src/normalizer.cpp NFC NFD NFKC NFKD ::normalize")],["Normalizer::normalize","with_normalizer"])
p("C12","Normalized text stays aligned with the original text",
 "After any normalizer, BERT normalization with any options included, there is one alignment entry per normalized character and one per normalized byte; walking through the normalized characters, the original positions they refer to never go backwards and stay inside the original text; and a character that is kept, inserted around or replaced one-for-one refers to the original character it came from; putting a part that was normalized on its own back keeps this.",
 ["inputs","configurations"],"all texts x option settings",
 "No test looks at the alignment data of a normalized string; it decides the offsets of every later token.",
 ["src/normalizer.cpp"],[("alignment edits","src/normalizer.cpp NormalizedString::transform"),("splicing","src/normalizer.cpp NormalizedString::transform_range")],["NormalizedString.offsets","NormalizedString.offset_ranges","Encoding.offsets"])
p("C13","Pre-tokenizers cut the text into ordered pieces without losing any",
 "For every text, the pieces of a pre-tokenizer are in text order, do not overlap, and each equals the text at its offsets; BERT splitting drops exactly the whitespace, makes every punctuation character its own piece and leaves no piece empty or containing both punctuation and other characters; regex splitting removes, isolates or joins to a neighbour exactly the matches (or, inverted, everything else) as its behaviour says and keeps the rest. Pieces that already carry tokens are never split again, and a sequence of pre-tokenizers equals applying them in order.",
 ["inputs","configurations"],"all texts x patterns x behaviours x sequences",
 "Fixed sentences only; adjacent, leading and trailing delimiters, whitespace-only and empty text, and already tokenized pieces are not tested.",
 ["src/pre_tokenizer.cpp"],[("match partition","src/pre_tokenizer.cpp find_matches"),("split","src/pre_tokenizer.cpp split_normalized, PreTokenizedString::split")],["PreTokenizer::pre_tokenize"])
p("C14","Added tokens are found and extracted without disturbing other text",
 "For every text, extraction cuts the text into consecutive pieces that cover it; each piece either is an added token, carrying the id of that token, or ordinary text that was normalized, found from left to right, the longest first, an occurrence that single_word rejects staying text and the scan going on after the text a token took; tokens marked normalized are looked for in the normalized text by their normalized content. single_word tokens are extracted only when no word character touches them, lstrip and rstrip tokens also take exactly the whitespace next to them, and with no added token present the pieces are the normalized text.",
 ["inputs","configurations"],"all texts x added token sets with all flag combinations x normalizer present or not",
 "One test extracts two special tokens from one sentence; the flags single_word, lstrip, rstrip and normalized, adjacent tokens and absent tokens are not tested.",
 ["src/added_vocabulary.cpp"],[("matching","src/added_vocabulary.cpp AddedVocabulary::find_matches"),("extraction","src/added_vocabulary.cpp AddedVocabulary::extract_and_normalize")],["AddedVocabulary::extract_and_normalize","Tokenizer::encode"])
p("C15","Added tokens get unique, stable ids that map back",
 "After any sequence of token additions: a token already known to the model or added before keeps its id, every new token gets an id not used by the model's vocabulary or by any other added token, looking an added token's id up gives its content back, and tokens whose special flag is set are reported special while others are not. The return value is the number of non-empty tokens given, and an empty token adds nothing.",
 ["histories","inputs","configurations"],"all sequences of additions (repeats, overlaps with the vocabulary, empty tokens, special or not) x model vocabularies including the empty one",
 "No test adds a token that the vocabulary does not contain or adds tokens twice.",
 ["src/added_vocabulary.cpp"],[("id assignment","src/added_vocabulary.cpp AddedVocabulary::add_tokens")],["AddedVocabulary::add_tokens","AddedVocabulary::id_to_token","AddedVocabulary::is_special_token","Tokenizer::add_tokens"])
p("C16","Decoding turns ids into exactly the documented text",
 "Decoding looks every id up among the added tokens and then the model, leaves out special tokens exactly when asked to, and joins the decoder's output. The WordPiece decoder prefixes every token but the first with a space unless it starts with the continuation prefix, which it removes, and with cleanup applies exactly the documented punctuation and contraction substitutions; the Replace, Fuse, Strip and ByteFallback decoders replace every occurrence, join all tokens, remove up to the given number of leading and trailing occurrences, and turn runs of byte tokens into the text they encode or one replacement character per byte; a decoder sequence equals its decoders applied in order; ids nobody knows are left out; with no decoder the tokens are joined unchanged.",
 ["inputs","configurations"],"all id sequences and token strings x decoder settings x skip_special_tokens",
 "Tests decode six fixed tokens; no test calls Tokenizer::decode at all, and most cleanup substitutions are untested.",
 ["src/decoder.cpp","src/tokenizer.cpp"],[("WordPiece decoder","src/decoder.cpp WordPieceDecoder::decode_chain"),("cleanup","src/decoder.cpp cleanup_token"),("id lookup","src/tokenizer.cpp Tokenizer::decode")],["Tokenizer::decode","Decoder::decode_chain"])
p("C17","UTF-8 conversions are exact inverses",
 "Converting any sequence of Unicode scalar values to UTF-8 gives its unique well-formed UTF-8 encoding, converting it back gives the same sequence, and concatenation is preserved in both directions; malformed UTF-8 raises an error instead of yielding text.",
 ["inputs"],"all code point sequences and byte strings",
 "Two tests convert one string each.",
 ["src/common.cpp"],[("conversions","src/common.cpp convert_to_string, convert_from_string")],["convert_to_string","convert_from_string"])
p("C18","Configuration is honoured field by field",
 "Every component built from JSON behaves as the values in the JSON say: null fields mean the documented default, strings and keys with JSON escapes mean their unescaped text, numbers and booleans keep their value whatever the order of the fields in nested maps, sequences keep the order of their members and skip unsupported ones, an unsupported type yields no component, and constructing a tokenizer from a configuration that is malformed or lacks a required section throws a standard exception instead of crashing or ignoring it.",
 ["configurations"],"all supported component configurations: any field values, nulls, missing sections, unknown types",
 "Tests fix one JSON text per component and the only malformed configuration tried is an empty object.",
 ["src/model.cpp","src/normalizer.cpp","src/pre_tokenizer.cpp","src/decoder.cpp","src/post_processor.cpp","src/utils.cpp","src/added_vocabulary.cpp","src/tokenizer.cpp"],
 [("component factories","with_model, with_normalizer, with_pre_tokenizer, with_decoder, with_post_processor, with_truncation, with_padding, with_added_vocabulary"),("tokenizer loading","src/tokenizer.cpp Tokenizer::Tokenizer")],["with_*","Tokenizer::Tokenizer"])
p("C19","No text makes a tokenizer crash, hang or corrupt memory",
 "Encoding any text, the empty text, control characters, combining marks, CJK and characters outside the basic plane included, with any valid configuration terminates without out-of-bounds access or unexpected exception; so does decoding any list of ids the tokenizer itself can produce, whichever optional components are absent.",
 ["inputs","configurations"],"all texts x pipelines with components present or absent x add_special_tokens",
 "Tests encode two well-behaved ASCII sentences; a byte-indexed or unit-indexed container is one unusual character away from an out-of-range access.",
 ["src/tokenizer.cpp","src/normalizer.cpp","src/added_vocabulary.cpp","src/pre_tokenizer.cpp","src/model.cpp"],[("pipeline","src/tokenizer.cpp Tokenizer::encode, Tokenizer::decode")],["Tokenizer::encode","Tokenizer::decode"])
p("C20","Byte-level offset trimming removes exactly the surrounding spaces",
 "With trimming enabled every token's offsets shrink by exactly its leading and trailing byte-level spaces, never crossing each other and never moving outward, except that a single leading space of a first token stays when a prefix space was added; ids, tokens and all other fields, and encodings with trimming disabled, are unchanged, and overflowing encodings are treated the same way.",
 ["inputs","configurations"],"all encodings whose tokens contain any mix of byte-level spaces and other characters x add_prefix_space x trim_offsets",
 "One test with a handful of tokens and fixed offsets.",
 ["src/post_processor.cpp"],[("trimming","src/post_processor.cpp ByteLevelProcessing::process_offsets")],["PostProcessor::process"])
p("C21","Offsets of an encoding point at the text each token came from",
 "For every text, the offsets of a token that comes from the text select exactly the characters of the original text it stands for, in characters of that text, also when normalization removed, inserted or replaced characters before it or when added tokens precede it; offsets of consecutive text tokens do not overlap unless they stand for parts of one character, and special tokens added by post-processing have offset (0,0).",
 ["inputs","configurations"],"all texts x WordPiece and BPE pipelines with BERT normalization options and added tokens",
 "The suite checks offsets of one sentence in which normalization changes no length.",
 ["src/tokenizer.cpp","src/normalizer.cpp","src/added_vocabulary.cpp","src/pre_tokenizer.cpp"],[("offset mapping","src/tokenizer.cpp into_encoding"),("alignment","src/normalizer.cpp NormalizedString::transform")],["Tokenizer::encode"])
p("C22","Encoding then decoding gives the text back",
 "With a byte-level BPE configuration whose vocabulary contains the byte alphabet, decoding the ids of an encoded text gives back exactly the text (after the prefix space, if one is configured and added), for every text and merge list; with a WordPiece configuration, decoding the ids of a text made of in-vocabulary words separated by single spaces gives the normalized text back.",
 ["inputs","configurations"],"all texts x merge lists x byte-level and WordPiece configurations",
 "No test decodes anything that was encoded.",
 ["src/tokenizer.cpp","src/model.cpp","src/decoder.cpp","src/pre_tokenizer.cpp"],[("encode","src/tokenizer.cpp Tokenizer::encode"),("decode","src/tokenizer.cpp Tokenizer::decode")],["Tokenizer::encode","Tokenizer::decode"])
p("C23","Threads sharing a tokenizer neither race nor change each other's results",
 "After a tokenizer has been constructed, several threads may encode and decode with it at the same time: no two of them access the same memory without synchronization where one of them writes, none blocks forever, and every call returns exactly what it returns when no other thread uses the tokenizer, whatever texts, ids and schedule. Threads that use different tokenizers do not affect each other either.",
 ["inputs","schedules","configurations"],"all pairs of encode/decode calls x texts x earlier calls x schedules",
 "No test uses threads; a race shows only under particular schedules.",
 ["src/model.cpp","src/tokenizer.cpp","src/added_vocabulary.cpp","src/common.cpp"],[("word cache","src/model.cpp BPE::tokenize_with_cache"),("const pipeline","src/tokenizer.cpp Tokenizer::encode")],["Tokenizer::encode","Tokenizer::decode"])
p("C24","BPE dropout only leaves merges out, whatever the random draws",
 "With a dropout probability above 0, whatever the random draws are, tokenizing a word yields tokens that cover the word contiguously, are vocabulary entries with their ids, spell the text they cover and can be reached from the initial symbols by applying merges of the list; a merge left out by a draw is tried again once another merge has been applied; when no draw leaves a merge out, the result is the ordinary BPE segmentation; when every draw does (always with probability 1), the word stays split into its initial symbols. Tokenizing a word again draws again and does not reuse an earlier outcome.",
 ["inputs","histories","configurations"],"all sequences of random outcomes x words x merge lists",
 "No test sets dropout; an outcome of the generator is one of very many.",
 ["src/model.cpp"],[("dropout","src/model.cpp Word::merge_all"),("no caching under dropout","src/model.cpp BPE::tokenize")],["BPE::tokenize","Word::merge_all"])
p("C25","A token added later behaves as one from the configuration",
 "Adding tokens of new content to a tokenizer through add_tokens or add_special_tokens, in one call or several, before or after it has encoded, leaves it encoding every text (ids, tokens, offsets, masks) and decoding every id sequence (skipping special tokens or not) exactly as a tokenizer whose configuration lists these tokens after its own, whatever their flags (single word, strip left or right, normalized, special), model, normalizer and the tokens already there; for tokens of distinct, non-empty content the call returns their number.",
 ["inputs","histories","configurations"],"all tokens, flags, orders of calls and encodes x configurations x texts and id sequences",
 "Tests add one plain token to a fresh tokenizer; flags, earlier tokens, normalizers and earlier use multiply.",
 ["src/tokenizer.cpp","src/added_vocabulary.cpp"],[("adding tokens","src/tokenizer.cpp Tokenizer::add_tokens, add_special_tokens"),("tries rebuilt","src/added_vocabulary.cpp AddedVocabulary::add_tokens, refresh_added_tokens")],["Tokenizer::add_tokens","Tokenizer::add_special_tokens","AddedVocabulary::add_tokens"])
p("C26","Encoding is truncation, then post-processing, then padding",
 "For every configuration, text and setting of add_special_tokens, the encoding (with all its fields and overflowing parts) is what the configured truncation, then post-processor, then padding, in this order and each when present, make of the encoding of the same tokenizer without the three: the text tokens are truncated before special tokens are added, every part that overflows gets its own special tokens when asked for and none otherwise, and padding comes last and pads what the others produced.",
 ["inputs","configurations"],"all texts x models, truncations, post-processors, paddings, with or without special tokens",
 "Each stage is tested alone; the ways they combine are not.",
 ["src/tokenizer.cpp"],[("the stages","src/tokenizer.cpp Tokenizer::encode")],["Tokenizer::encode"])
p("C27","Words are tokenized independently of their neighbours",
 "When the pre-tokenizer splits at whitespace (BERT, byte-level with its regex, a whitespace Split) and no added token strips whitespace, a text made of two parts joined by a space, the second beginning with a character that is not whitespace, is encoded as the first part followed by the second (for byte-level, the second with the space in front): the same ids and tokens, the offsets of the second part moved by its position, and word indices that tell the same words apart and go on increasing. This holds for any number of words, repeated or not.",
 ["inputs","configurations","histories"],"all pairs of texts x pipelines, and texts of many words",
 "A test compares one text with one list; that a word comes out the same beside any other word is a relation between runs.",
 ["src/tokenizer.cpp","src/model.cpp","src/pre_tokenizer.cpp","src/normalizer.cpp"],[("words of a text","src/model.cpp WordPiece::tokenize, BPE::tokenize"),("offsets and word indices","src/tokenizer.cpp into_encoding")],["Tokenizer::encode"])
p("C28","Decoding ids part by part gives the text of the whole",
 "For every decoder and setting of skip_special_tokens, what a sequence of ids decodes to stays as it is when more ids follow, and what those add does not depend on the ids before: the text of the whole is the text of the first part, then the text of the second (for the WordPiece decoder, and for a decoder that strips the fused text, as it is behind any other text). Only a character that byte-fallback tokens spell must not be divided.",
 ["inputs","configurations"],"all pairs of id sequences x decoders x skip_special_tokens",
 "Tests decode one list of ids; that output can be streamed is a relation between the decodings of all its prefixes.",
 ["src/tokenizer.cpp","src/decoder.cpp"],[("decoders","src/decoder.cpp decode_chain of every decoder"),("id lookup","src/tokenizer.cpp Tokenizer::decode")],["Tokenizer::decode"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    assert len(x['title'])<=80
print(len(P))
