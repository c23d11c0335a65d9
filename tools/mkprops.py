#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the statements stay in one editable place)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook,
      **({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))

p("P01","Encoding then decoding gives the text back",
"For every text and every tokenizer that can encode it, decoding the produced token ids with special tokens included yields exactly the text after the tokenizer's own normalisation steps; with no normalisation step configured it yields the text byte for byte. This holds for texts with special tokens, for ordinary encoding, at every dropout rate and for every length, and a tokenizer whose vocabulary holds all single bytes never fails to encode.",
["inputs","configurations"],"every UTF-8 text, vocabulary (valid or invalid UTF-8 tokens), processor list, special-token list and dropout rate",
"one test encodes one Chinese sentence with the 256-byte vocabulary; no multi-byte tokens, special tokens, processors or dropout are round-tripped",
["src/model.rs","src/tokenizer.rs","src/trie.rs","src/processor.rs"],
[("Viterbi over the byte trie, backtracked from the end","src/model.rs Model::encode"),("split at special tokens, process, encode each part","src/tokenizer.rs Tokenizer::encode"),("concatenate token bytes, lossy UTF-8, re-insert specials","src/tokenizer.rs Tokenizer::decode")],
["Tokenizer::encode","Tokenizer::encode_ordinary","Tokenizer::decode"])

p("P02","Encoding without dropout picks a best-scoring segmentation",
"With dropout 0, the tokens chosen for each ordinary stretch of text spell it exactly and their scores sum to the maximum over all ways of cutting it into vocabulary entries; when a byte string occurs twice in the vocabulary its newest entry is the one used. Encoding fails, with a no-path error, exactly when no such cut exists. Encoding the same text again always gives the same ids.",
["inputs","configurations"],"every vocabulary with finite scores (negative, zero or positive) and every text",
"test_encode checks one three-letter text with one two-letter token",
["src/model.rs","src/trie.rs"],
[("dynamic programme over end positions","src/model.rs Model::encode"),("prefix enumeration","src/trie.rs Trie::common_prefix_search")],
["Model::encode","Tokenizer::encode","Tokenizer::encode_ordinary"],
state=[("dp[i]","best known score, last token and its start for the prefix of length i","src/model.rs Model::encode")])

p("P03","Dropout only ever withholds multi-byte tokens",
"With dropout p the result is always a segmentation that is best-scoring among the tokens that survived, where only occurrences of tokens longer than one byte can be withheld, each independently with probability p. So p at or below 0 gives the plain best segmentation, p at or above 1 uses single-byte tokens only (failing exactly when they cannot spell the text), and a text whose bytes are all in the vocabulary can be encoded at any rate.",
["inputs","configurations"],"every vocabulary, text and dropout rate, and every outcome of the random draws",
"the only assertion is at p=1 on one text; the p=0.5 call asserts nothing",
["src/model.rs"],[("per-candidate draw in the dynamic programme","src/model.rs Model::encode"),("per-node draw when filling a lattice","src/model.rs Model::populate_nodes")],
["Model::encode with dropout","Model::populate_nodes with dropout"])

p("P04","Special tokens are recognised leftmost, atomically, and only when asked",
"When encoding with special tokens, each occurrence found scanning left to right (at one position the earliest registered matching special token wins) becomes exactly one id, the base vocabulary size plus its registration index, and is never altered by normalisation; the stretches between occurrences are normalised and encoded independently of each other. Ordinary encoding never produces a special id, and encoding terminates for every list of special tokens, overlapping, nested or empty ones included.",
["inputs","configurations"],"every text and every list of special tokens, including ones that are prefixes of, overlap or contain each other, are non-ASCII, or also occur in the vocabulary",
"test_special_tokens_splitter has five fixed strings, with no overlaps, no empty token and no multi-byte character",
["src/tokenizer.rs"],[("SpecialTokenSplitter","src/tokenizer.rs SpecialTokenSplitter::next"),("id = vocab size + index","src/tokenizer.rs Tokenizer::encode")],
["Tokenizer::encode","Tokenizer::encode_ordinary"])

p("P05","Token ids and tokens stay a coherent mapping under every history",
"After any sequence of construction, adding base tokens and adding special tokens: ids below the base size are base, ids from there up to the total size are special, every other id is neither and maps to nothing, and the sizes add up. Looking up the token of an id and then the id of that token gives the id back (the newest id if a byte string was added twice; a byte string that is both a base and a special token resolves to the base id). Adding a special token that already exists changes nothing, adding one never changes a base id, and adding base tokens never changes existing base ids, with special ids always directly following the base ids in registration order.",
["histories","inputs"],"every interleaving of constructor, add_base_tokens, add_special_tokens and lookups, with duplicates and non-UTF-8 tokens",
"no test calls any lookup, size, or add function",
["src/tokenizer.rs","src/model.rs"],[("vocab vector, reverse map and trie updated together","src/model.rs Model::add_tokens, Model::from"),("special list and map","src/tokenizer.rs Tokenizer::add_special_tokens"),("lookups","src/tokenizer.rs Tokenizer::token_to_id .. is_base")],
["all lookup and size methods of Tokenizer and Model"],
state=[("vocab","ordered base tokens","src/model.rs Model"),("special_tokens","ordered special tokens","src/tokenizer.rs Tokenizer")])

p("P06","Saving and loading a tokenizer preserves it completely",
"Writing a tokenizer out (to a string or a file) and reading it back yields a tokenizer with the same base tokens in the same order (any byte sequence, valid UTF-8 or not), (finite) scores, keep marks, special tokens in order (any characters) and normalisation steps in order, which therefore encodes and decodes every input identically. Writing the reloaded tokenizer again produces the same text.",
["inputs","histories"],"every tokenizer reachable through the API, any number of save/load cycles, string and file forms",
"one test serialises a single ASCII token and compares two of its three fields; no tokenizer is ever saved or loaded by a test",
["src/lib.rs","src/tokenizer.rs","src/processor.rs"],[("base64 for non-UTF-8 tokens, keep written only when set","src/lib.rs Serialize/Deserialize for ScoredToken"),("versioned document","src/tokenizer.rs Serialize/Deserialize for Tokenizer"),("untagged processor encoding","src/processor.rs")],
["Tokenizer::save","Tokenizer::from_file","Tokenizer::to_string","Tokenizer::from_str"])

p("P07","Broken tokenizer definitions are rejected, never half-loaded",
"Reading a definition fails with an error (never a panic, never a partial tokenizer) when its version is missing or unsupported, it has an unknown top-level or token field, a token lacks its value or score, an encoded token is not valid base64, a normalisation step is unknown, or a field has the wrong type. A definition file cut off at any byte before its end, as a crash during saving leaves it, is rejected too. Definitions that omit keep marks, or list fields in another order, load normally.",
["inputs","crash_points"],"every single-fault mutation of a valid definition and every truncation point",
"no test loads a malformed definition",
["src/lib.rs","src/tokenizer.rs","src/processor.rs"],[("version and field checks","src/tokenizer.rs TokenizerVisitor"),("field checks and base64","src/lib.rs ScoredTokenVisitor"),("type/form checks","src/processor.rs")],
["Tokenizer::from_str","Tokenizer::from_file"])

p("P08","Batch calls equal the one-by-one calls, in order, on any thread count",
"Encoding or decoding a batch returns, for every element and in the same order, exactly what the single call returns for it, for any batch size including zero and any number of worker threads; the batch fails exactly when one of its elements would. A tokenizer shared by several threads gives each of them the same answers as a lone caller.",
["schedules","inputs"],"all batch sizes and contents, thread-pool sizes and interleavings",
"no test calls a batch function or uses two threads",
["src/tokenizer.rs"],[("parallel map with ordered collection","src/tokenizer.rs encode_batch, encode_ordinary_batch, decode_batch")],
["Tokenizer::encode_batch","Tokenizer::encode_ordinary_batch","Tokenizer::decode_batch"])

p("P09","Normalisation steps do exactly what they name, in the listed order",
"Before a stretch of text is encoded, the tokenizer's normalisation steps are applied to it one after another in the listed order: 'crlf' replaces every CR LF pair by LF and nothing else, and 'nfc', 'nfd', 'nfkc', 'nfkd' apply exactly that Unicode normalisation form (so each is idempotent, and canonically equivalent texts get the same ids under any one form). Decoding applies no change to the text.",
["inputs","configurations"],"every text and every list of normalisation steps",
"no test runs a processor",
["src/processor.rs","src/tokenizer.rs","src/cli.rs"],[("preprocess per form","src/processor.rs CrlfProcessor, UnicodeProcessor"),("fold over the list","src/tokenizer.rs encode, encode_ordinary"),("names to processors","src/cli.rs load_processors")],
["Processor::preprocess","Processor::postprocess","Tokenizer::encode"])

p("P10","Decoding any id sequence is concatenation, or an error",
"Decoding succeeds exactly when every id is in range and then equals the concatenation, in order, of the special tokens' text (or nothing for them when they are excluded) and, for each maximal run of base ids, of the tokens' bytes with every invalid UTF-8 part replaced by U+FFFD. Any out-of-range id, wherever it stands, makes it fail with an out-of-bounds error and never panic.",
["inputs"],"every sequence of 32-bit ids, including ones no encoding produces, empty, invalid UTF-8 and out of range",
"the one decode test decodes ids that were just produced by encode",
["src/tokenizer.rs","src/model.rs"],[("run splitting at special ids","src/tokenizer.rs Tokenizer::decode"),("bounds check and lossy conversion","src/model.rs Model::decode")],
["Tokenizer::decode","Model::decode"])

p("P11","Prefix search finds exactly the vocabulary entries that start the text",
"Searching for the tokens that are prefixes of a text yields each non-empty vocabulary byte string that the text starts with exactly once, shortest first, with its newest id and its length, and nothing else. This stays true after tokens are added, and for tokens of any length and content.",
["inputs","histories"],"every vocabulary built in any order, and every text",
"no test calls the prefix search directly; encode tests reach a handful of one-letter paths",
["src/trie.rs","src/model.rs"],[("byte trie","src/trie.rs Trie::push, TrieIterator::next"),("Model wrapper","src/model.rs Model::common_prefix_search")],
["Model::common_prefix_search"])

p("P12","The lattice returns the true best and n-best segmentations",
"For every model and sentence that can be segmented, the lattice's best path spells the sentence with vocabulary tokens and has the maximal total score, and asking for the n best returns the n highest-scoring distinct segmentations (all of them if there are fewer), in non-increasing score order, beginning with a best one. This does not depend on which sentences the same lattice and pool processed before, nor on some positions of the sentence being unreachable.",
["inputs","histories"],"every vocabulary, sentence, n, and sequence of reuses of one lattice",
"the lattice has no running test (its only test is commented out)",
["src/lattice.rs","src/model.rs"],[("Viterbi","src/lattice.rs Lattice::viterbi"),("A* over suffixes","src/lattice.rs Lattice::nbest"),("reset and pooling","src/lattice.rs Lattice::from, VecPool")],
["Lattice::viterbi","Lattice::nbest"],
state=[("begin_nodes/end_nodes","nodes starting/ending at each position","src/lattice.rs Lattice")])

p("P13","Lattice marginals equal the exact posterior over all segmentations",
"For every model and segmentable sentence, the returned normaliser is the log of the summed probability of all segmentations, and the amount added to each token's expected count is exactly its expected number of occurrences under the posterior over segmentations; amounts accumulate over sentences. This does not depend on earlier uses of the lattice, nor on some positions of the sentence being unreachable.",
["inputs","histories"],"every vocabulary, sentence and sequence of reuses",
"no test computes a marginal",
["src/lattice.rs","src/model.rs"],[("forward/backward log-sum-exp","src/lattice.rs Lattice::populate_marginal"),("node population","src/model.rs Model::populate_nodes")],
["Lattice::populate_marginal"])

p("P14","Filtering removes only what it may, lowest scores first",
"Filtering a tokenizer removes only tokens whose score is strictly below the minimum score, never a token marked keep unless forced, and never takes the vocabulary below the requested size; it removes as many tokens as those rules permit, lowest scores first. Every surviving token keeps its bytes, score and mark, survivors are ordered by descending score, and special tokens and normalisation steps are unchanged; with no minimum score, or a vocabulary already small enough, nothing is removed.",
["inputs","configurations"],"every vocabulary, minimum score, size and force setting",
"the filter has no test",
["src/filter.rs","src/cli.rs"],[("VocabularyFilter::filter","src/filter.rs"),("filter_cmd","src/cli.rs")],
["tokengeex filter: output tokenizer"])

p("P15","Merging only appends the most frequent permitted pairs, and ends",
"Merging keeps every existing token, id, score and mark, and appends at most the requested number of new distinct tokens: in each round the samples are encoded with the current vocabulary and up to one step of adjacent pairs is added in order of frequency, skipping any whose joined bytes exceed the length limit, fail the allow pattern or already exist. Each new token's score is the sum of its parts' scores times the scale factor and it is not marked keep. The command always terminates, stopping early when no pair can be added.",
["inputs","configurations"],"every starting vocabulary, sample set, allow pattern, step, merge count, scale factor and length limit",
"merge has no test",
["src/merge.rs","src/cli.rs"],[("pair counting and round loop","src/merge.rs ModelVocabularyMerger::merge"),("merge_cmd","src/cli.rs")],
["tokengeex merge: output tokenizer, termination"])

p("P16","Pruning keeps protected tokens, drops the least useful, and ends",
"Pruning yields a subset of the input's tokens (by bytes) that contains every token marked keep, still marked; it stops at or below the requested size, or (with a shrink factor below 1) when nothing more can be removed, and it always terminates and never fails on samples whose every byte is itself a token marked keep. In each round all unused replaceable tokens are dropped, then those whose replacement by their next-best segmentation costs the samples' likelihood least, until the size is down to the larger of the target and the shrink factor times the current size. Each round judges tokens under the scores just re-estimated, by their best segmentations without dropout, whatever dropout is used for re-estimation. Special tokens and normalisation steps are unchanged, and when anything was pruned the result is ordered by descending score.",
["inputs","configurations"],"every vocabulary with protected single-byte tokens, sample set, target size, shrink factor and EM setting",
"the only prune test prints digamma values and asserts nothing",
["src/prune.rs","src/cli.rs","src/lattice.rs"],[("prune loop","src/prune.rs ModelVocabularyPruner::prune"),("selection by loss","src/prune.rs prune_vocab"),("prune_cmd","src/cli.rs")],
["tokengeex prune: output tokenizer, termination"])

p("P17","Pruning re-estimates scores by exact expectation-maximisation",
"One re-estimation step during pruning gives every surviving token the score digamma(f) - digamma(F), where f is its expected count over all samples under the current model (at least 0.5) and F the sum of f over the survivors; tokens expected fewer than 0.5 times are dropped unless marked keep. Several steps in one round do the same one after another, each under the model the step before it left. Every sample contributes all of its bytes exactly once, however samples are distributed over threads and however long they are.",
["inputs","configurations","schedules"],"every vocabulary, sample set (including very long samples) and thread count, without dropout",
"no test runs an E-step or M-step",
["src/prune.rs","src/lattice.rs"],[("E-step accumulation","src/prune.rs run_e_step"),("M-step","src/prune.rs run_m_step, digamma")],
["tokengeex prune: scores in the output tokenizer"])

p("P18","Generated vocabularies hold all bytes and only permitted tokens",
"A generated vocabulary contains each of the 256 single bytes, marked keep; then, as far as the requested size allows, the added tokens (marked keep), the suggested tokens, and the most frequent other substrings of the samples; no byte string twice and never more tokens than the larger of 256 and the requested size. Every other token is a substring, on character boundaries, of a sample (of one split part when a split pattern is given), is no longer than the length limit in bytes, and matches the allow pattern.",
["inputs","configurations"],"every sample set, size, allow and split pattern, added and suggested lists, length limit and insertion probability",
"test_generate asserts that one suggested word is present",
["src/generate.rs","src/cli.rs"],[("candidate enumeration","src/generate.rs VocabularyGenerator::feed"),("assembly","src/generate.rs VocabularyGenerator::generate")],
["tokengeex generate: output tokenizer"])

p("P19","Generated scores are normalised log-frequencies of exact counts",
"With insertion probability 1, a token's frequency is exactly the number of samples, over all sources, that contain it as a candidate or as an added or suggested token (the latter two count one extra per listing), and candidates are admitted in order of that frequency. Scores are the logarithms of frequency times byte length (single bytes: the highest frequency), normalised so that the probabilities sum to one, and the vocabulary is ordered by descending score. The result does not depend on the number of threads.",
["inputs","schedules"],"every multiset of samples, distribution over sources and thread count",
"test_generate looks at no score or count",
["src/generate.rs","src/cli.rs"],[("per-sample set, shared map","src/generate.rs VocabularyGenerator::feed"),("logprobs","src/generate.rs logprobs")],
["tokengeex generate: scores and order in the output tokenizer"])

p("P20","Mining returns the truly most frequent idioms",
"Mining returns the n strings with the highest total number of non-overlapping left-to-right matches of any of the patterns over all samples, most frequent first, each once, fewer only if fewer distinct matches exist. The counts do not depend on how samples are spread over sources, chunks or threads.",
["inputs","schedules"],"every sample multiset, pattern list, n and thread count",
"test_mine uses four samples, which one chunk each handles",
["src/mine.rs","src/regex.rs","src/cli.rs"],[("chunk-local counts merged into a shared map","src/mine.rs IdiomMiner::mine"),("pattern union","src/regex.rs build_mine_regex")],
["tokengeex mine: output list"])

p("P21","A composed pattern file accepts exactly the union of its patterns",
"The pattern file built from a list of named or custom patterns, used as an allow pattern, accepts a token exactly when the whole token matches at least one of the listed patterns, whatever alternations or repetitions the patterns contain and however many are listed (each pattern a regular expression written on one line, without inline verbose mode). Each named pattern accepts exactly the strings its name and published definition describe.",
["inputs","configurations"],"every list of patterns and every candidate string",
"the only regex test stops at a wrong example; no test composes patterns or uses the file",
["src/regex.rs","src/cli.rs","src/generate.rs"],[("anchored union","src/regex.rs build_allow_regex"),("named patterns","src/regex.rs PATTERNS"),("load_regex","src/cli.rs")],
["tokengeex regex: output file; tokengeex generate --allow: output tokenizer"])

p("P22","Training commands read exactly the samples they are given",
"Every training command uses, from each source, exactly the first floor(proportion x n), at most n, of its n non-empty NUL-separated samples (all of them when no proportion is given; the product is a floating-point one), each put through the tokenizer's normalisation steps in order, from all sources together; empty samples never count. No sample is dropped, duplicated, truncated or split.",
["inputs","configurations"],"every set of source files, proportions and normalisation steps",
"no test loads a source",
["src/cli.rs"],[("load_sources","src/cli.rs load_sources"),("shuffled_train_samples","src/cli.rs")],
["tokengeex generate / mine / merge / prune outputs as functions of the source files"])

p("P23","Training pipelines preserve what the tokenizer promises",
"Through any sequence of generate, prune, filter (unforced) and merge commands, each started from the previous output: special tokens and normalisation steps stay as they were, every token marked keep survives with its mark, no byte string appears twice, scores stay finite, and every text can still be encoded and decoded back. Only merging ever introduces a byte string that was not there before.",
["histories","configurations"],"every sequence of commands with every parameter choice, over every corpus",
"no test runs a command, let alone two in sequence",
["src/cli.rs","src/generate.rs","src/prune.rs","src/filter.rs","src/merge.rs"],[("load, transform, save with processors and specials carried over","src/cli.rs *_cmd"),("keep marks","src/prune.rs, src/filter.rs, src/merge.rs, src/generate.rs")],
["tokenizer files between commands"],
state=[("tokenizer file","vocabulary with keep marks, specials, processors","src/tokenizer.rs serialisation")])

p("P24","The Python module behaves exactly like the Rust library",
"Every method of the Python tokenizer returns what the Rust library returns for the same call: encoding, decoding, batches, lookups, sizes, prefix search, adding special tokens, loading and string form. Library errors surface as the module's TokenGeeXError, which the module exports; a save that fails raises an exception and a save that succeeds can be loaded; a pickled tokenizer unpickles to an equal one, a state that is set replaces all that was there, and one that cannot be read changes nothing.",
["inputs","histories"],"every method, argument and call sequence",
"the binding has no tests at all",
["bindings/python/src/lib.rs","bindings/python/tokengeex.pyi"],[("pyo3 wrappers","bindings/python/src/lib.rs PyTokenizer"),("error conversion","bindings/python/src/lib.rs PyTokenGeeXError"),("pickling","bindings/python/src/lib.rs __getstate__/__setstate__")],
["the tokengeex Python module"])

p("P25","Training results do not depend on threads or scheduling",
"For fixed inputs and no randomised option, mining, generating, merging and pruning give the same result (up to the order of exact ties and rounding) for every number of worker threads, every distribution of samples over them and every interleaving of their updates: each sample is counted exactly once and no concurrent update is lost.",
["schedules","configurations"],"every thread count, sample count (hence chunking), sample order and interleaving of the accumulating workers",
"tests feed at most four samples, so every chunk has one sample and contention never matters; no test varies the thread count",
["src/task.rs","src/prune.rs","src/merge.rs","src/generate.rs","src/mine.rs"],[("chunking","src/task.rs par_chunk_size"),("lock-protected accumulation","src/prune.rs, src/merge.rs"),("sharded map entry updates","src/generate.rs, src/mine.rs")],
["outputs of the training commands under different thread counts"])

p("P26","Random training options act per occurrence at exactly their rate",
"In generate, each occurrence of an admissible candidate in a sample (each start position inside a part; each non-overlapping occurrence of an added or suggested token) is drawn independently with the insertion probability, and a sample counts a candidate once when at least one of its draws succeeds; probability 1 counts every candidate and probability 0 only the one extra per listing. In prune, each place where a multi-byte token fits in a sample is withheld independently with the dropout probability while expected counts are collected, single bytes never; with dropout 0 nothing is withheld.",
["inputs","schedules","configurations"],"every corpus, candidate and probability between 0 and 1",
"test_generate uses probability 1 and test_prune dropout 0 only; no test looks at a rate",
["src/generate.rs","src/prune.rs","src/model.rs","src/cli.rs"],[("insertion draws","src/generate.rs VocabularyGenerator::feed"),("dropout draws","src/prune.rs, src/model.rs / src/lattice.rs population of nodes")],
["frequencies readable from the scores tokengeex generate writes; expected counts readable from the scores tokengeex prune writes"])

p("P27","Training commands succeed completely or fail visibly",
"When any input of a command is missing, unreadable or malformed (the tokenizer file, a sample file, a source or proportion, a pattern, a pattern file, an added, suggested or special token list, a processor name, an option's value), the command exits with failure and leaves the output path as it was. It exits with success only when its output has been written completely, replacing whatever was there, be it longer, shorter or the command's own input; if the output cannot be written it exits with failure. Inputs that are not the output are never changed.",
["inputs","configurations","fault_sequences"],"every command, every input that may be broken, every way of breaking it and every previous state of the output path",
"no test runs a command",
["src/cli.rs","src/tokenizer.rs"],[("loading","src/cli.rs load_sources, load_regex, load_vocab"),("saving","src/tokenizer.rs save; src/cli.rs *_cmd")],
["exit status and files of tokengeex generate / prune / filter / merge / mine / regex"],
state=[("output path","absent, a previous file, the command's own input, or not writable","file system")])

open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P),"properties ok", max(len(x["title"]) for x in P))
