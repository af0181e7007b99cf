MODEL = "Random search with shrinking: no proof. Trusts the reference model of the harness (written from the documented behaviour, not from the code) and pgregory.net/rapid; the domain is stated in DESIGN.md."

prop("C01", "Encode is exactly: sequences, truncation, special tokens, padding",
 "Encoding an input, single or pair, raw or pre-tokenized, gives exactly the encodings of its sequences, truncated to what the maximum length leaves after the special tokens, assembled by the post-processor (with special tokens only when asked), padded. No token is lost: what is cut is in the overflowing parts. The result never exceeds the maximum length; a request which cannot be met is an error, never a panic nor a silently different result. All entry points (Encode, EncodeCharOffsets, EncodeSingle, EncodePair, Tokenize, PostProcess of the single encodings) agree, and encoding again gives the same.",
 ["inputs", "configurations"], "All inputs of one or two sequences, over all combinations of pre-tokenizers, models, added tokens, post-processors, truncations and paddings.",
 "The tests encode a few sentences with two or three fixed tokenizers; the interplay of truncation, special tokens, padding and pairs is a product of configurations.",
 ["tokenizer.go", "util.go", "encoding.go", "processor/"],
 [("the pipeline", "tokenizer.go Encode, EncodeCharOffsets, postProcess"), ("truncation of pairs", "util.go TruncateEncodings"), ("default processing", "tokenizer.go DefaultProcess, PrepareEncodings")],
 "differential property testing against a model of the whole pipeline", MODEL)

prop("C02", "Every token of a sequence points at the text it stands for",
 "For every normalizer, pre-tokenizer, model and set of added tokens, encoding a sequence gives, for each piece the text is cut into and in their order, exactly the tokens of the model for that piece. Each token carries the offsets of the smallest stretch of the original text its chars come from, in bytes or in chars (both the same stretch, always on char boundaries and within the text), the index of the word it belongs to and the given type id. Words of pre-tokenized inputs keep the index they are given with.",
 ["inputs", "configurations"], "All texts (any script, combining marks, mixed widths), all stacks of normalizers and pre-tokenizers, four models, added tokens; raw and pre-tokenized inputs.",
 "Tests check offsets of a few sentences; any mix of multi-byte text, growing and shrinking normalizers and pre-tokenizers matters.",
 ["tokenizer.go", "pretokenizer.go", "added-vocabulary.go", "normalizer/normalized.go"],
 [("from pieces to tokens", "pretokenizer.go Tokenize, IntoEncoding"), ("byte to char offsets", "pretokenizer.go NewBytesToCharOffsetConverter"), ("pre-tokenized inputs", "tokenizer.go EncodeSingleSequence")],
 "differential property testing against a model of the whole pipeline", MODEL)

prop("C03", "Edits of a normalized text keep it aligned with the original text",
 "After any sequence of edits of a normalized text (transforming, replacing, inserting, removing, stripping, slicing, splitting, lowercasing, Unicode forms), the text is exactly what the edits say, and its alignment maps every piece of it to the piece of the original text it came from. Converting any byte range between the normalized and the original text gives the smallest range which covers it, or nothing when the range is invalid, and never panics. The original text never changes. Ranges of a text in bytes and in chars convert into each other.",
 ["inputs", "histories"], "All UTF-8 texts (and lengths up to dozens of chars), all sequences of edits, all byte ranges in either coordinate system, valid or not.",
 "The tests check a dozen fixed strings after one or two edits each; alignment errors appear for particular mixes of multi-byte chars, removals at edges and edits of already edited text.",
 ["normalizer/normalized.go", "normalizer/pattern.go"],
 [("transform of the text with its two alignment tables", "normalizer/normalized.go TransformRange"), ("range conversion", "normalizer/normalized.go ConvertOffset"), ("splitting and slicing", "normalizer/normalized.go Split, Slice, RangeOf")],
 "stateful model-based property testing (rapid) against a reference model of aligned text", MODEL)

prop("C04", "Each normalizer computes its documented text, aligned with the input",
 "Each normalizer (Unicode forms, Bert cleaning, lowercase, strip, strip accents, replace, prepend, precompiled charsmap, and any sequence of them) gives for every text exactly the text its configuration defines, and gives an error or a text, never a panic. Every piece of the result is aligned with the piece of the input it came from. A normalizer has no state: normalizing again, or another text before, makes no difference.",
 ["inputs", "configurations"], "All UTF-8 texts, all configurations of all normalizers, sequences of them nested up to depth 3.",
 "The tests run one or two sentences per normalizer with one configuration; combining marks, empty texts, removals, composed or compatibility chars and sequences are sampled hardly at all.",
 ["normalizer/bert.go", "normalizer/default.go", "normalizer/unicode.go", "normalizer/strip.go", "normalizer/replace.go", "normalizer/prepend.go", "normalizer/precompiled.go", "normalizer/sequence.go", "spm/spm-precompiled.go"],
 [("Bert cleaning, Chinese chars, accents", "normalizer/bert.go"), ("Unicode normal forms", "normalizer/normalized.go NFD..NFKC"), ("double-array trie lookup", "spm/spm-precompiled.go")],
 "differential property testing against reference normalizers (golang.org/x/text, own tables)", MODEL)

prop("C05", "Splitting a text on a pattern loses nothing and follows its behaviour",
 "A pattern (char, literal string, regular expression, predicate on chars, or the inverse of one) finds its leftmost matches, which with what lies between them partition the text exactly. Splitting a text on it gives, for each of the five behaviours (removed, isolated, merged with previous, merged with next, contiguous), exactly the pieces the behaviour defines, in order, losing only the matches when they are removed. Every piece stays aligned with the part of the original text it came from.",
 ["inputs", "configurations"], "All UTF-8 texts, normalized first or not, all kinds of patterns, the five behaviours.",
 "Each behaviour has one fixed sentence in the tests; adjacent matches, matches at the edges, empty matches, multi-byte separators and texts changed before are not reached.",
 ["normalizer/pattern.go", "normalizer/normalized.go", "pretokenizer/split.go"],
 [("matches of each kind of pattern", "normalizer/pattern.go FindMatches"), ("pieces of each behaviour", "normalizer/normalized.go Split")],
 "differential property testing against a reference splitter", MODEL)

prop("C06", "Pre-tokenizers cut a text as documented, with the right offsets in each unit",
 "Each pre-tokenizer (Bert, byte-level, whitespace, punctuation, digits, delimiter, pattern, metaspace, Unicode scripts, and sequences of them) gives for every text exactly the pieces its configuration defines, in order and without overlap, losing only what it is defined to remove. The pieces can be listed with offsets in bytes or in chars, in the original or the normalized text: the four forms designate the same, right text. Pieces which have tokens already are left alone.",
 ["inputs", "configurations"], "All UTF-8 texts, normalized first or not, all configurations of all pre-tokenizers and sequences of them nested up to depth 3.",
 "Each pre-tokenizer has a few fixed sentences in one configuration, mostly ASCII and in bytes; adjacent separators, chars of every class, edges, sequences and char offsets are not reached.",
 ["pretokenizer/bert.go", "pretokenizer/bytelevel.go", "pretokenizer/delimiter.go", "pretokenizer/digits.go", "pretokenizer/metaspace.go", "pretokenizer/punctuation.go", "pretokenizer/sequence.go", "pretokenizer/split.go", "pretokenizer/unicode-script.go", "pretokenizer/whitespace.go", "pretokenizer.go"],
 [("each pre-tokenizer", "pretokenizer/*.go PreTokenize"), ("splitting the splits", "pretokenizer.go Split"), ("listing with offsets", "pretokenizer.go GetSplits")],
 "differential property testing against reference pre-tokenizers", MODEL)

prop("C07", "Added tokens are found exactly where they occur, whatever the text",
 "A text is cut at every occurrence of an added token and nowhere else: leftmost first, special tokens before plain ones and earlier added before later added when they overlap; a single-word token only where no word char of any script adjoins it; the spaces a token strips on its left or right belong to it, never the text of another token. Tokens to be matched in normalized text are looked for after normalization, others before. What is found carries the id of the token, is never normalized nor cut further, and all pieces together are the text, in order, with their offsets.",
 ["inputs", "configurations"], "All sets of added tokens (overlapping, nested, multi-byte, spaces, marks, all flags), in any number of calls, all texts and normalizers.",
 "Tests look for a few ASCII tokens in one or two sentences.",
 ["added-vocabulary.go"],
 [("looking for tokens", "added-vocabulary.go findMatches"), ("matching sets", "added-vocabulary.go refreshAddedTokens"), ("extraction", "added-vocabulary.go ExtractAndNormalize, splitWithIndices")],
 "differential property testing against a naive left-to-right matcher", MODEL)

prop("C08", "Added tokens and the model share one id space, both ways",
 "After any history of added tokens and special tokens, every added token has one id of its own: the one of the model if the model has it, else the next free one, whatever the ids the model uses; adding a token again adds nothing and changes no id. Tokens to ids and ids to tokens are inverse of each other over the whole vocabulary, the size and the vocabulary listed count each token once and list added tokens exactly when asked, and listing changes nothing. Decoding ids gives the tokens of these ids, skips exactly the special tokens when asked and ignores ids that do not exist; decoding a batch gives what decoding each of its rows gives, in order.",
 ["histories", "inputs"], "All models, all histories of AddTokens and AddSpecialTokens (repeated, empty, already in the model, normalized or not), all lists of ids, with or without a decoder.",
 "The tests add a handful of fresh tokens once to an empty model.",
 ["added-vocabulary.go", "tokenizer.go"],
 [("ids of added tokens", "added-vocabulary.go AddTokens"), ("both directions", "added-vocabulary.go TokenToId, IdToToken; tokenizer.go GetVocab"), ("decoding ids", "tokenizer.go Decode, DecodeBatch")],
 "stateful model-based property testing against a reference map", MODEL)

prop("C09", "BPE tokenizes exactly as the merge rules define, with faithful offsets",
 "For every vocabulary and ordered list of merges, BPE gives for every word exactly the tokens obtained by applying the best ranked merge, leftmost first, until none applies; with the subword prefix, word suffix and unknown token of its configuration. Tokens have the ids of the vocabulary and offsets which cover the word in order without gap or overlap. A char which cannot be tokenized is an error, never a panic or a lost char.",
 ["inputs", "configurations"], "All vocabularies and merge lists (conflicting ranks, overlapping and chained merges), all words, with every combination of prefix, suffix, unknown token and fusing.",
 "Tests tokenize a handful of words with two tiny merge tables; chains of merges with equal ranks, repeated chars, multi-byte chars and fused unknowns need generated tables.",
 ["model/bpe/bpe.go", "model/bpe/word.go", "model/bpe/builder.go"],
 [("merging with a priority queue", "model/bpe/word.go MergeAll"), ("splitting a word into chars", "model/bpe/bpe.go MergeWord"), ("tokens and offsets", "model/bpe/bpe.go WordToTokens")],
 "differential property testing against a naive quadratic merge loop", MODEL)

prop("C10", "BPE cache, dropout and concurrent use never change what a word means",
 "Tokenizing a word gives the same tokens with or without cache, whatever was tokenized before, however small the cache is, after the cache is cleared, and from any number of goroutines at once. Dropout only skips merges: every token is still one of the vocabulary derivable by merges, and the tokens still spell the word; with dropout 0 nothing is skipped and with 1 nothing is merged; a merge which is skipped is tried again after the next one that is done; a dropout which is no probability is refused. The cache keeps what it was given under the right key and never more entries than its capacity.",
 ["inputs", "histories", "schedules"], "All sequences of words through one model with any cache capacity, dropout in [0,1], 2 to 8 goroutines under the race detector, all sequences of cache operations.",
 "Tests use one word and one goroutine; a stale or shared cached value, or a race, needs a history or a schedule.",
 ["model/bpe/bpe.go", "model/bpe/cache.go", "model/bpe/word.go"],
 [("cache of words", "model/bpe/cache.go"), ("cache use in tokenization", "model/bpe/bpe.go TokenizeWithCache"), ("dropout", "model/bpe/word.go MergeAll")],
 "stateful property testing against the uncached reference; concurrent histories under the Go race detector", MODEL + " Schedules are those the Go scheduler produced, not enumerated.")

prop("C11", "WordPiece splits greedily by longest match, and learns from a corpus",
 "For every vocabulary, prefix, unknown token and word limit, WordPiece splits a word by always taking the longest vocabulary entry at the current position (prefixed inside of a word), and gives the unknown token for the whole word when no entry matches or when it has too many chars. Tokens have the ids of the vocabulary, and offsets which cover the word in order and in bytes. A trained WordPiece model has the special tokens and the vocabulary its corpus defines, and tokenizes with it.",
 ["inputs", "configurations"], "All vocabularies, prefixes (empty, multi-byte), unknown tokens, limits and words; all small training corpora and settings.",
 "Tests tokenize a few ASCII words with one vocabulary; multi-byte chars, words at the limit, prefixes and failures late in a word are not reached.",
 ["model/wordpiece/wordpiece.go", "model/wordpiece/trainer.go"],
 [("greedy longest match", "model/wordpiece/wordpiece.go Tokenize"), ("training", "model/wordpiece/trainer.go Train")],
 "differential property testing against a reference longest-match splitter", MODEL)

prop("C12", "WordLevel gives each word its token, and the unknown token otherwise",
 "For every vocabulary, WordLevel tokenizes a word of the vocabulary to the one token with its id and offsets of the whole word in bytes, any other word to the unknown token when the vocabulary has it, and is an error otherwise; never a wrong id, a panic or a lost word.",
 ["inputs", "configurations"], "All vocabularies (with or without unknown token, ids with gaps), and words.",
 "Tests tokenize two words of one vocabulary.",
 ["model/wordlevel/wordlevel.go"],
 [("tokenizing a word", "model/wordlevel/wordlevel.go Tokenize")],
 "differential property testing against a map lookup", MODEL)

prop("C13", "Unigram finds the best scored segmentation",
 "For every list of scored pieces, Unigram segments a text into pieces whose total score is the highest possible (a char which no piece covers scoring lower than any piece), whatever the length of the pieces and of the text. The pieces spell the text in order, without gap or overlap, with their ids and with offsets in bytes; a run of unknown chars is fused into one unknown token when asked, and falls back to byte pieces when that is asked and all of its bytes have one. The same text always has the same segmentation.",
 ["inputs", "configurations"], "All vocabularies of scored pieces (overlapping, nested, multi-byte, equal scores, byte pieces), texts, unknown ids, fusing, byte fallback.",
 "Tests run a few texts over one toy vocabulary; optimality over all segmentations is not something examples decide.",
 ["model/unigram/unigram.go"],
 [("best segmentation", "model/unigram/unigram.go tokenizeWithViterbi"), ("byte fallback", "model/unigram/unigram.go tokenizeWithByteFallback"), ("ids and offsets", "model/unigram/unigram.go tokensToTokenizer")],
 "differential property testing against exhaustive and dynamic-programming segmentation", MODEL)

prop("C14", "Truncation keeps every token, in windows of the asked size",
 "Truncating an encoding to a length keeps its first tokens with everything aligned to them and moves all others, unchanged, into overflowing parts of at most that length which overlap by exactly the stride; nothing is lost and the parts share nothing with each other. Truncating a pair removes exactly as many tokens as needed, from the side(s) the strategy names (longest first: one by one from the longer side, from the second when both are as long), so that the result respects the maximum length; impossible requests are errors and never panics.",
 ["inputs", "configurations"], "All encodings (any length, with or without words, special tokens, sequence ranges, overflow), lengths, strides, pairs and strategies.",
 "Two tests truncate one encoding of three tokens; strides, exact multiples, empty sides, pairs with each strategy and previous overflow are combinations no test has.",
 ["encoding.go", "util.go", "tokenizer.go"],
 [("windows of an encoding", "encoding.go Truncate"), ("strategies for pairs", "util.go TruncateEncodings")],
 "differential property testing against a table model of encodings", MODEL)

prop("C15", "Padding brings encodings to the asked length and changes nothing else",
 "Padding an encoding to a length adds pad tokens, with the pad id and type id, attention 0, special mask 1, no word and empty offsets, on the asked side only, until the length is reached; every other token, and everything aligned to it, is unchanged and a longer encoding is left as it is. Overflowing parts are padded likewise. Padding a batch brings all of its encodings, in their order, to the longest one or to the fixed length.",
 ["inputs", "configurations"], "All encodings and batches of them, both sides, all lengths, fixed or longest.",
 "The tests pad one short encoding; left padding, words, sequence ranges and overflow are not combined.",
 ["encoding.go", "util.go"],
 [("padding of an encoding", "encoding.go Pad"), ("batch padding", "tokenizer.go PadEncodings")],
 "differential property testing against a table model of encodings", MODEL)

prop("C16", "Merging encodings concatenates them, and their overflows combine",
 "Merging encodings gives an encoding whose tokens and everything aligned to them are those of its parts in order, with the offsets of a later part shifted after the earlier ones when growing offsets are asked and untouched otherwise, and sequence ranges moved along. The overflowing parts of the merge are the combinations of the parts and of their overflowing parts. The merged encodings themselves are not changed.",
 ["inputs", "histories"], "All lists of up to 4 encodings, with or without words, ranges, overflow and pads, growing offsets or not.",
 "Tests merge two encodings of one token; words missing on one side, ranges, overflow of both sides and later use of the merged parts are not reached.",
 ["encoding.go"],
 [("merge of two encodings", "encoding.go MergeWith, Merge")],
 "differential property testing against a table model of encodings", MODEL)

prop("C17", "Lookups between chars, tokens, words and sequences of an encoding agree",
 "For every encoding, looking up the token of a char, the word of a token, the tokens or chars of a word, the sequence of a token or the chars of a token gives exactly what the aligned columns of that encoding say, for the asked sequence, and nothing when there is none. The lookups are inverse of each other, never change the encoding and never panic, whatever index is asked. A clone of an encoding has the same columns and overflowing parts and shares nothing with it; an encoding made of tokens has a row for each of them, with the given type id.",
 ["inputs"], "All encodings of one or two sequences (special tokens, pads, truncated, repeated word indices) and all indices including out of range ones.",
 "A few lookups on one fixed encoding are tested; second sequences, wordless tokens, tokens without text and bad indices are not.",
 ["encoding.go"],
 [("copies", "encoding.go Clone, NewEncoding, NewEncodingFromTokens"), ("lookups", "encoding.go Token2Word, Word2Tokens, Word2Chars, Char2Token, Char2Word, Token2Chars, Token2Sequence, SequenceRange")],
 "differential property testing against brute-force scans of the columns", MODEL)

prop("C18", "Post-processors add exactly the special tokens they are configured for",
 "For every single sequence or pair, the BERT, RoBERTa, template, byte-level and sequence post-processors give the tokens of the sequences in the order of their configuration with exactly the configured special tokens around them (none when special tokens are not asked), the configured type ids, the special mask set on the added tokens only, and every other column unchanged. The number of added tokens they announce is the number they add. Overflowing parts get the same treatment, offset trimming never crosses tokens, and sequence ranges of the result tell which tokens come from which sequence.",
 ["inputs", "configurations"], "All encodings and pairs (empty, truncated, with words), all special tokens and templates, with or without special tokens.",
 "Tests process one short pair per processor.",
 ["processor/bert.go", "processor/roberta.go", "processor/template.go", "processor/bytelevel.go", "processor/sequence.go", "pretokenizer/bytelevel.go"],
 [("templates", "processor/template.go ApplyTemplate"), ("announced tokens", "processor/*.go AddedTokens"), ("offset trimming", "pretokenizer/bytelevel.go ProcessOffsets")],
 "differential property testing against a table model of processors", MODEL)

prop("C19", "Decoders turn tokens into text as documented, alone or chained",
 "For every list of tokens, the BPE, WordPiece, CTC, Metaspace, byte-level, byte-fallback, fuse, strip and replace decoders, and any sequence of them, give the text their documentation defines: a prefix, suffix or marker is turned into a space or removed exactly where it applies, bytes which make no valid text become replacement chars, runs of bytes are decoded together, consecutive duplicates collapse in CTC. Tokens a decoder does not apply to are left as they are, decoding never panics, and a chain decodes with each decoder over the whole output of the previous one.",
 ["inputs", "configurations"], "All lists of tokens (empty, markers only, partial bytes, multi-byte), all configurations and chains of decoders, including the default ones.",
 "The tests decode one short list per decoder; empty tokens, incomplete bytes, decoders in chains and odd markers are not met.",
 ["decoder/bpe.go", "decoder/wordpiece.go", "decoder/ctc.go", "decoder/sequence.go", "decoder/byte-fallback.go", "decoder/strip.go", "decoder/fuse.go", "pretokenizer/metaspace.go", "pretokenizer/bytelevel.go", "normalizer/replace.go"],
 [("chains", "decoder/sequence.go DecodeChain"), ("bytes", "decoder/byte-fallback.go, pretokenizer/bytelevel.go DecodeChain"), ("markers", "pretokenizer/metaspace.go DecodeChain, decoder/wordpiece.go DecodeChain")],
 "differential property testing against reference decoders", MODEL)

prop("C20", "Decoding what was encoded gives the text back",
 "For every text and every scheme made to be reversible (byte-level BPE, Metaspace, WordPiece, BPE with an end of word suffix, SentencePiece style with byte fallback), decoding the ids of the encoding, and of its overflowing windows, gives the text back: exactly for byte-level, Metaspace and byte fallback, and up to the spacing the pre-tokenizer normalizes for the others, with added tokens in their place and special tokens skipped when asked.",
 ["inputs", "configurations"], "All texts (any script, spaces, invalid or incomplete markers excepted), models which cover their chars, added tokens, pairs, truncation in windows.",
 "Tests decode a few English sentences.",
 ["tokenizer.go", "added-vocabulary.go", "pretokenizer/bytelevel.go", "pretokenizer/metaspace.go", "decoder/wordpiece.go", "decoder/bpe.go", "decoder/byte-fallback.go", "model/bpe/bpe.go", "model/unigram/unigram.go"],
 [("byte-level alphabet", "pretokenizer/bytelevel.go BytesChar, CharBytes"), ("decoding", "tokenizer.go Decode")],
 "round-trip property testing", MODEL)

prop("C21", "Batches, concurrent use and earlier use do not change the answers",
 "Encoding a batch gives, in order, exactly the encodings each input has on its own, padded to the longest one or to the fixed length when padding is set, and an error when one of them cannot be encoded; decoding a batch gives what each list of ids is decoded to. A tokenizer which is only used, not reconfigured, may be used from several goroutines, without a data race and with the same answers as alone. An answer depends on the current configuration only: after any history of encodings, decodings, added tokens and changes of truncation, padding, post-processor or decoder, a tokenizer answers as a fresh one of the same configuration.",
 ["schedules", "histories", "configurations"], "All pipelines, batches up to 6 inputs, up to 6 goroutines with up to 8 tasks each, histories up to 10 steps.",
 "Tests encode one batch of two texts without comparing to the single encodings; nothing uses a tokenizer from two goroutines or twice with changes between.",
 ["tokenizer.go", "model/bpe/cache.go", "model/bpe/bpe.go", "added-vocabulary.go", "encoding.go"],
 [("batches", "tokenizer.go EncodeBatch, DecodeBatch"), ("shared caches", "model/bpe/cache.go"), ("configuration", "tokenizer.go With*")],
 "stateful and differential property testing; concurrent schedules under the race detector", MODEL)

prop("C22", "BPE training gives the vocabulary and merges that the corpus defines",
 "Training a BPE model on word counts gives the special tokens first, then the alphabet within its limit, then the merges in the order of their frequency at that step, within the vocabulary size and minimum frequency. The result does not depend on the order the words were seen in nor on how they were batched, and training twice gives the same model. Every token but the special ones occurs in the corpus, and the trained model tokenizes the corpus with it. Training a tokenizer on files counts every line of every file exactly once (of a file which is given twice, twice), whatever the number of cores and the sizes of the files; a file which cannot be read is an error which leaves the tokenizer as it was.",
 ["inputs", "configurations", "histories"], "All word counts, vocabulary sizes, minimum frequencies, limits of the alphabet, prefixes, suffixes, special tokens, orders and batches of the corpus; all sets of text files and numbers of cores.",
 "One test trains on a single fixed corpus; ties, repeated chars, incremental pair counts, limits and prefixes need generated corpora.",
 ["model/bpe/trainer.go", "model/bpe/word.go", "tokenizer.go"],
 [("alphabet", "model/bpe/trainer.go computeAlphabet"), ("incremental pair counts", "model/bpe/word.go Merge, trainer.go Train"), ("files and chunks", "tokenizer.go Train, processChunk")],
 "differential property testing against a naive trainer which recounts at each step", MODEL)

prop("C23", "A saved model is the model that was saved",
 "Saving a model writes its files into the asked directory, with the asked prefix, creating the directory when needed, and the model loaded from these files has the same vocabulary and tokenizes every text like the one which was saved. Saving again over the files gives the same files. Saving into a place which cannot be written is an error, and so is loading from a file which is missing or malformed.",
 ["inputs", "configurations"], "All models (BPE, WordPiece, WordLevel, Unigram) whose tokens the file format can hold, names and directories.",
 "One test saves a BPE of three merges and compares files.",
 ["model/bpe/bpe.go", "model/wordpiece/wordpiece.go", "model/wordlevel/wordlevel.go", "model/unigram/unigram.go"],
 [("saving", "model/*/ Save"), ("loading", "model/bpe/bpe.go NewBpeFromFiles, wordpiece.go NewWordPieceFromFile, unigram.go")],
 "round-trip property testing", MODEL)

prop("C24", "A tokenizer.json gives the pipeline it describes",
 "Loading a configuration gives a tokenizer with exactly the model, normalizer, pre-tokenizer, post-processor, decoder, added tokens, truncation and padding it describes, whatever the spelling (missing or null values, older names, merges as strings or pairs, string or regex patterns, a model without type, indentation, from a file or a reader): it has the same vocabulary and encodes, decodes, truncates and pads as the pipeline built through the API. What describes no pipeline (an unknown type or behavior, a merge which is no pair, a missing vocabulary or special token, a pattern which does not compile) is an error.",
 ["configurations", "inputs"], "All combinations of the parts a configuration can name, nested sequences of them, and texts.",
 "Tests load a few fragments and compare the kind of object created, hardly ever its behaviour.",
 ["pretrained/tokenizer.go", "pretrained/model.go", "pretrained/normalizer.go", "pretrained/pretokenizer.go", "pretrained/processor.go", "pretrained/decoder.go", "pretrained/added-tokens.go", "pretrained/truncation.go", "pretrained/padding.go"],
 [("each part", "pretrained/*.go Create*"), ("the whole", "pretrained/tokenizer.go FromReader")],
 "differential property testing against the same pipeline built through the API", MODEL)

prop("C25", "No configuration, text or list of ids makes the library panic or hang",
 "Loading any bytes as a configuration gives a tokenizer or an error: never a panic, the end of the process or an endless loop, whatever is missing, of a wrong type, out of range, misspelled or cut. A tokenizer which was accepted can be used: every text, including one which is not valid UTF-8, empty or long, is encoded to an encoding whose columns have one entry per token and whose offsets lie in the text, or is an error; and every list of ids, unknown or negative ones included, is decoded.",
 ["inputs", "configurations"], "All byte strings as configurations, mutated valid ones foremost, texts and ids.",
 "Tests load valid configurations and encode valid texts.",
 ["pretrained/tokenizer.go", "pretrained/processor.go", "tokenizer.go", "added-vocabulary.go", "normalizer/normalized.go", "encoding.go", "processor/template.go", "util/util.go"],
 [("loading", "pretrained/tokenizer.go FromReader"), ("char boundaries", "normalizer/normalized.go validateRange, util/util.go IsCharBoundary"), ("impossible truncation", "encoding.go Truncate")],
 "structure-aware fuzzing of configurations, texts and ids", MODEL)

prop("C26", "The cache returns complete files, whatever fails while fetching",
 "CachedPath returns the path of a file with exactly the content of the model file asked for: a local file, one already in the cache, or one which is downloaded. After a download, a copy or a request which fails at any point (status, cut connection, unwritable place), there is an error and nothing that a later call takes for the file; the later call succeeds once the cause is gone. A cached file is not downloaded again, concurrent calls for the same or other files do not disturb each other, and no temporary files stay.",
 ["faults", "histories", "schedules"], "All histories of up to 8 requests for several models and files with injected server failures, cut bodies and local files, and concurrent requests.",
 "The tests need the network and fetch one file.",
 ["file-util.go"],
 [("download", "file-util.go downloadFile"), ("local copy", "file-util.go copyFile"), ("lookup", "file-util.go CachedPath")],
 "stateful property testing with fault injection against a local server", MODEL)

prop("C27", "The presets tokenize as the published models they are named after",
 "The BERT presets (base uncased, large cased) tokenize every text as the original BERT tokenizer does with their vocabulary: cleaning, spaces around CJK chars, and for the uncased one lowercasing and removal of accents, splitting on spaces and punctuation, greedy WordPiece of words up to 100 chars, [CLS] and [SEP] around one or two texts. The GPT-2 and RoBERTa presets tokenize as byte-level BPE with their merges does, with the prefix space and the trimmed offsets only when asked; RoBERTa puts <s> and </s> around, with two </s> in a pair. Their decoders give the text back. Loading a preset changes nothing else in the process.",
 ["inputs", "configurations"], "All texts and pairs, with or without special tokens, the five presets with all their parameters, any list of ids.",
 "One example prints an encoding of one sentence; nothing compares a preset to the model it stands for, and most presets are never loaded by a test.",
 ["pretrained/bert.go", "pretrained/gpt2.go", "pretrained/roberta.go", "util/file.go"],
 [("presets", "pretrained/bert.go, gpt2.go, roberta.go"), ("model files", "util/file.go CdToThis, CdBack")],
 "differential property testing against reference tokenizers with the real vocabularies", MODEL)

prop("C28", "A pre-tokenized text keeps its pieces, tokens and offsets through any steps",
 "After any history of splitting, normalizing, pre-tokenizing and tokenizing, a pre-tokenized text has exactly the pieces these steps give, in order: pieces which have tokens are left as they are by every later step, even when they have been tokenized into nothing, empty pieces of a split are dropped, and every other piece is given once, with its index, to the function of the step. The offsets of each piece, in bytes or chars of the original or of the normalized text, are those of the stretch it stands for. A step whose function fails is an error and changes nothing. Turned into an encoding it gives the tokens of all pieces with their offsets in the original text in the asked unit, the given type id and the given word index, or the index of the piece when none is given; while a piece has no tokens that is an error.",
 ["histories", "inputs", "configurations"], "All texts, normalized first or not, histories of up to six steps with any pattern, behaviour, normalizer and pre-tokenizer, tokens given at once or later.",
 "Tests tokenize two or three sentences split on spaces; tokens attached before the last split, texts changed between splits and failing steps do not occur.",
 ["pretokenizer.go"],
 [("steps", "pretokenizer.go Split, Normalize, Tokenize"), ("offsets", "pretokenizer.go GetSplits, NewBytesToCharOffsetConverter"), ("encoding", "pretokenizer.go IntoEncoding")],
 "stateful model-based property testing (rapid) against a list of pieces", MODEL)
