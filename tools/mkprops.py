#!/usr/bin/env python3
"""Writes properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

p("C01", "Combinators parse exactly the language their documentation describes",
  "For every grammar built from the library's combinators and every input, a parse succeeds or fails, produces the value, consumes the tokens and is committed or merely peeked as the documented meaning of the grammar says: ordered choice that only moves on after an alternative which consumed nothing, attempt as the only way to backtrack over consumed input, greedy repetition and separation with their minimum and maximum counts, left and right associative chains, and look-ahead that consumes nothing.",
  ["programs", "inputs"], "all grammars composed from the combinators (with the documented side condition that repeated parsers consume input), all inputs",
  "Tests try each combinator alone or in a few compositions on a handful of inputs; the meaning has to hold for every composition, and most of the defects found lie in compositions (a peeking parser under escaped, a dropped operator in chainr1).",
  ["src/parser/sequence.rs", "src/parser/choice.rs", "src/parser/repeat.rs", "src/parser/combinator.rs", "src/parser/token.rs", "src/parser/mod.rs", "src/parser/range.rs"],
  [("peek/commit results", "src/error.rs ParseResult, Commit"), ("sequencing", "src/parser/sequence.rs tuple_parser!, Then*"), ("choice", "src/parser/choice.rs do_choice!, slice_parse_mode"), ("repetition", "src/parser/repeat.rs"), ("tokens and look-ahead", "src/parser/token.rs, src/parser/combinator.rs")],
  ["Parser::parse_stream result and the remaining input"])

p("C02", "How the input is split into parts never changes what is parsed",
  "Decoding an input that arrives in parts, resuming with the kept partial state whenever more input is needed, gives the same value, consumes the same total input and fails on the same inputs as parsing all of it at once, for every parser and every way of splitting the input. A request for more input never removes more than was available, and is never made once the input is known to be complete.",
  ["programs", "inputs", "histories"], "all grammars, all inputs, all partitions of the input into parts (also empty parts and single tokens)",
  "tests/async.rs splits the input of about twenty hand written parsers; resumption has to be right at every boundary inside every combinator, and the state kept at one boundary interacts with the next.",
  ["src/parser/mod.rs", "src/parser/sequence.rs", "src/parser/repeat.rs", "src/parser/choice.rs", "src/parser/combinator.rs", "src/parser/range.rs", "src/stream/mod.rs"],
  [("partial state", "Parser::PartialState, parse_mode!, PartialMode/FirstMode in src/parser/mod.rs"), ("need-more signal", "src/stream/mod.rs decode, wrap_stream_error, uncons, uncons_while")],
  ["the results of decode and the bytes it says to remove"])

p("C03", "Reader-driven decoding is independent of how the reader delivers bytes",
  "Parsing messages from a synchronous or asynchronous reader through a decoder yields exactly the messages of the byte stream, in order, each once, however the reader splits, interrupts or delays its data; the bytes that were read equal the bytes consumed by messages plus the bytes still buffered. A reader error is reported as such, loses no data, and decoding can continue after it; parse errors and the end of the input are reported where they occur.",
  ["inputs", "schedules", "fault_sequences"], "all byte streams, all sequences of short reads, Pending, Interrupted and hard errors, buffered or unbuffered readers of any capacity, all supported I/O flavours",
  "The tests drive a few parsers with random short reads and no faults; losing or repeating a byte needs a particular interleaving of reads, errors and message boundaries.",
  ["src/stream/decoder.rs", "src/stream/buf_reader.rs", "src/stream/mod.rs", "src/parser/mod.rs"],
  [("decode loop", "src/stream/mod.rs decode!, decode_tokio!, decode_tokio_02!, decode_tokio_03!, decode_futures_03!"), ("decoder state", "src/stream/decoder.rs Decoder"), ("buffering", "src/stream/buf_reader.rs Buffer, Bufferless, BufReader")],
  ["the messages, errors and Decoder::buffer() seen by the caller, the calls the reader saw"])

p("C04", "Codec-style decoding takes exactly one message at a time off a buffer",
  "A codec that repeatedly offers its buffer to decode (or decode_tokio), drops the number of bytes it is told to and keeps the state in between produces the same messages as cutting the byte stream at message ends; bytes after a finished message are left alone. At the end of the stream an empty remainder is a clean end for decode_tokio, and an incomplete message of which bytes are left in the buffer is an error, never a message.",
  ["inputs", "histories"], "all byte streams (complete, truncated, or corrupt), all arrival patterns, several messages sharing a buffer",
  "The existing async tests frame one message kind and assert final values only; byte conservation at every call and the behaviour at a truncated end are not observed.",
  ["src/stream/mod.rs", "examples/async.rs"],
  [("removal count", "src/stream/mod.rs decode, decode_tokio: input.distance"), ("clean end", "src/stream/mod.rs decode_tokio, input_at_eof")],
  ["every (message, removed) pair returned to the codec"])

p("C05", "Parsers and their state leave nothing behind",
  "A parser value can be used any number of times, on any inputs and after any mix of successes and failures, and each use behaves as if the parser (and, after it produced a value or failed without consuming input, its partial state) were new. Iterating a parser over an input yields the same values as parsing one after the other.",
  ["programs", "histories"], "all grammars, all histories of uses of one parser value with succeeding and failing inputs",
  "Tests build a fresh parser for each input; a value left in partial state by an earlier message only shows up when a later message happens to reach the same parser.",
  ["src/parser/mod.rs", "src/parser/sequence.rs", "src/parser/repeat.rs", "src/parser/choice.rs", "src/parser/combinator.rs"],
  [("state reset", "PartialState of every combinator"), ("iteration", "src/parser/repeat.rs Iter")],
  ["results of successive uses compared with fresh parsers"])

p("C06", "Every kind of stream over the same tokens gives the same parse",
  "Parsing the same token sequence from a string, a byte or character slice, a slice of references, an iterator, a reader, or any of these wrapped with positions, buffering, user state, easy errors, spans or a completeness marker gives the same outcome, value and amount of consumed input. Wrappers never change which tokens are seen, and user state attached to a stream is only changed by the user's own functions.",
  ["programs", "inputs", "configurations"], "all grammars, all inputs, all stream types and wrappers (ranges where the stream has them)",
  "Tests use one or two stream types per combinator; each stream implements uncons, ranges, checkpoints and distance separately, some with unrolled loops.",
  ["src/stream/mod.rs", "src/stream/position.rs", "src/stream/buffered.rs", "src/stream/read.rs", "src/stream/easy.rs", "src/stream/state.rs", "src/stream/span.rs"],
  [("StreamOnce/ResetStream/RangeStreamOnce implementations", "src/stream/*.rs")],
  ["parse_stream results over each stream type"])

p("C07", "Range parsers return exactly the window of the input they matched",
  "Every range that is returned is the very part of the input that was consumed (same place in memory, no copy), consecutive ranges are adjacent, and a string is only ever split between characters. Taking while a predicate holds asks the predicate about each token once, in order, and stops at the first token it rejects; asking for more than there is fails and consumes nothing.",
  ["inputs", "programs"], "all inputs including multi-byte text and lengths around the unrolled blocks, all sequences of range operations, all range streams",
  "The loops are unrolled by eight and advance raw slices; tests use short ASCII inputs, so block boundaries and multi-byte characters at them are not reached.",
  ["src/stream/mod.rs", "src/parser/range.rs", "src/stream/position.rs", "src/stream/easy.rs"],
  [("windows", "src/stream/mod.rs RangeStreamOnce for &str, &[T], SliceStream; slice_uncons_while*, str_uncons_while"), ("range parsers", "src/parser/range.rs")],
  ["addresses and lengths of the returned ranges, calls of the predicate"])

p("C08", "The reported position is a function of what has been consumed",
  "At every point of every parse the position of a stream equals the position computed from the consumed prefix alone: number of tokens for index positions, line and column (a newline starts a new line at column one, any other character advances the column by one) for source positions, and the offset from the start for slices. It does not matter whether tokens were consumed one by one or as ranges, or how often the parser backtracked.",
  ["inputs", "programs", "histories"], "all inputs, all mixtures of token and range operations with checkpoints and resets, all positioned streams",
  "Positions are updated incrementally in several places (tokens, ranges, wrappers); tests check the position of a few errors.",
  ["src/stream/position.rs", "src/stream/mod.rs", "src/stream/easy.rs", "src/stream/state.rs", "src/stream/span.rs", "src/parser/token.rs"],
  [("positioners", "src/stream/position.rs IndexPositioner, SourcePosition"), ("pointer offsets", "src/stream/mod.rs PointerOffset::translate_position")],
  ["Positioned::position after every operation, positions in errors"])

p("C09", "Error reports name the real culprit and what was really acceptable",
  "When a parse fails, the error's position is where the parser could not continue (the start, for a literal of several tokens) and the unexpected item is the token found there, or the end of the input exactly if nothing is left. Every token listed as expected is one which the grammar accepts at that place: putting it there gets the parse further. Everything the parser that failed accepts there is listed, with the parsers before it that matched nothing, and so are the names given with expected and the messages given with message when their parser is the one that fails without consuming input; what could have continued a part that was already complete may be listed too.",
  ["programs", "inputs"], "all grammars whose decisions are local (one token of look-ahead), all failing inputs",
  "Error sets are merged lazily across sequences, choices and repetitions with offsets; tests pin about fifty literal error values, and combinations beyond those are unchecked.",
  ["src/error.rs", "src/parser/sequence.rs", "src/parser/choice.rs", "src/parser/repeat.rs", "src/parser/combinator.rs", "src/parser/error.rs", "src/stream/easy.rs"],
  [("lazy errors", "Parser::add_error, add_committed_expected_error, Tracked/ErrorOffset"), ("merging", "src/stream/easy.rs Errors::merge, src/error.rs ParseError::merge")],
  ["easy::Errors of failing parses"])

p("C10", "The error type changes only the report, never the parse; errors merge lawfully",
  "Choosing another error representation (the detailed one, a single error, the unexpected-only, string and reader errors, or a user's own which keeps little or nothing) changes neither the outcome nor the value nor the consumed input of any parse, and where the detailed error tells that the end of the input was reached so do the small ones. Merging detailed errors keeps the one further into the input and unites the information of errors at the same position without duplicates, regardless of order and grouping; merging or adding to an error without a position never forgets that the end of the input was reached or that a reader failed. Conversions between representations keep the position where both have one, the information where both can hold it, and whether the end of the input was reached.",
  ["programs", "inputs", "configurations"], "all grammars, all inputs, all error types; all pairs and triples of errors",
  "Tests use the detailed errors nearly everywhere; the parse consults errors (end of input, commitment), so a representation that answers differently silently changes what is parsed.",
  ["src/error.rs", "src/stream/easy.rs", "src/stream/mod.rs", "src/stream/read.rs", "src/stream/span.rs"],
  [("error types", "src/error.rs UnexpectedParse, StringStreamError, (); src/stream/easy.rs Error, Errors"), ("conversion", "ParseError::into_other, StreamError::into_other, map_position/map_token/map_range")],
  ["outcomes over streams that differ in the error type only; merged and converted errors"])

p("C11", "Buffered streams backtrack exactly within their look-ahead or refuse",
  "A buffered stream over an iterator or reader returns every item of its source exactly once and in order however a parser backtracks, gives back the same items and positions after a reset to any checkpoint no further back than its look-ahead, and refuses with an error, or still gives back the same items, after a reset further back, but never returns other items. It never asks its source for an item again nor for more than the parser has asked for, and an error of the source is reported to whoever asks for the item where it occurred.",
  ["histories", "inputs", "configurations"], "all look-ahead sizes, all sequences of reads, checkpoints and resets, all sources including failing ones",
  "Tests use one or two reset patterns; the ring buffer's arithmetic depends on the whole history of reads and resets.",
  ["src/stream/buffered.rs", "src/stream/read.rs", "src/stream/mod.rs"],
  [("ring buffer", "src/stream/buffered.rs Stream::uncons/reset"), ("sources", "src/stream/read.rs Stream, src/stream/mod.rs IteratorStream")],
  ["items, positions and errors seen by the parser, calls seen by the source"])

p("C12", "Binary number parsers decode every value of every width and byte order",
  "Each fixed-width integer and float parser consumes exactly the bytes of its width and returns the value which those bytes encode in its byte order, bit for bit; with fewer bytes it fails and consumes nothing, and the result does not depend on the kind of stream or on how the bytes arrive.",
  ["inputs", "configurations"], "all byte patterns (boundary and random) for all widths, signs, byte orders and byte streams, all ways of splitting the bytes",
  "The unit tests decode one literal each for a few widths.",
  ["src/parser/byte.rs"], [("number parsers", "src/parser/byte.rs num module, integer_parser!")],
  ["values and consumed bytes compared with the standard library's from_*_bytes"])

p("C13", "Character and byte class parsers agree with the standard definitions",
  "Each character or byte class parser (digits, hexadecimal and octal digits, letters, alphanumerics, upper and lower case, spaces, newlines, tabs) accepts exactly the characters or bytes of its class over the whole range of values and consumes exactly one of them. Fixed strings, compared exactly or with a user's comparison, match exactly the inputs they denote and consume nothing when the first token already differs.",
  ["inputs"], "all 256 bytes, all Unicode scalar values, all fixed strings and inputs that share prefixes with them",
  "Tests try a few characters per class; an error in one of a thousand code points or in one byte stays unseen.",
  ["src/parser/char.rs", "src/parser/byte.rs", "src/parser/token.rs"],
  [("classes", "src/parser/char.rs, src/parser/byte.rs"), ("strings", "src/parser/token.rs tokens, tokens_cmp; string, string_cmp, bytes, bytes_cmp")],
  ["acceptance over the exhaustive alphabet"])

p("C14", "Searches for delimiters stop at the first occurrence",
  "Taking bytes or ranges up to one of the given delimiters (single bytes, any of two or three bytes, byte strings, ranges, or a user-provided search) returns exactly the input before the first occurrence and leaves the delimiter unconsumed; without an occurrence it fails, or waits for more input if more may come. The result does not depend on how the input was split.",
  ["inputs", "histories"], "all haystacks and delimiters (overlapping, repeated, self-similar, multi-byte), all splits",
  "The searches mix memchr fast paths with restarting scans; tests use one occurrence in short inputs.",
  ["src/parser/byte.rs", "src/parser/range.rs", "src/parser/repeat.rs"],
  [("byte searches", "src/parser/byte.rs take_until_byte, take_until_byte2, take_until_byte3, take_until_bytes"), ("generic searches", "src/parser/range.rs take_until_range, take_fn; src/parser/repeat.rs take_until")],
  ["returned prefix and remaining input compared with a naive search"])

p("C15", "Regex parsers return what the regex engine matches at the current place",
  "Matching, finding, finding many and capturing with a regular expression return exactly what the regex engine finds in the remaining input, consume the input up to the end of the match, and fail without consuming anything if there is none; this holds for strings and byte slices, borrowed and owned regexes, and inside any surrounding parser.",
  ["inputs", "programs"], "all regexes (anchored, empty-matching, with groups) and inputs, also after other parsers consumed a prefix and for streams with positions",
  "The unit tests have one regex and one input per parser.",
  ["src/parser/regex.rs"], [("regex parsers", "src/parser/regex.rs match_, find, find_many, captures, captures_many; Regex trait")],
  ["values and consumed input compared with direct calls of the regex crate"])

p("C16", "No undefined behaviour, and every value is dropped exactly once",
  "No use of the safe API executes undefined behaviour: no access outside the input, no use of uninitialised or freed memory, no misuse of pinned or raw buffers, also if user functions panic or partial parses are abandoned at any point. Every value produced during a parse is either returned or dropped, exactly once.",
  ["programs", "inputs", "schedules", "fault_sequences"], "all grammars and inputs, abandoned and resumed partial parses, panicking callbacks, readers that misbehave within the I/O contract",
  "Undefined behaviour and double drops are invisible to assertions; the unsafe blocks (unchecked slicing, unreachable_unchecked, uninitialised read buffers, pin projections) rely on invariants spread over several functions.",
  ["src/stream/mod.rs", "src/parser/sequence.rs", "src/stream/buf_reader.rs", "src/parser/mod.rs", "src/parser/choice.rs"],
  [("unchecked slices", "src/stream/mod.rs slice_uncons_while"), ("unchecked unwrap", "src/parser/sequence.rs SequenceState::unwrap_value"), ("raw buffers", "src/stream/buf_reader.rs poll_buf, extend_buf_sync")],
  ["Miri, AddressSanitizer, a drop ledger"])

p("C17", "Every parse terminates, never panics, and uses resources in proportion",
  "No input makes a parser built from well-formed parts panic or loop forever, also not hostile counts, lengths, offsets or encodings in the grammar, from the user's functions or in the data. The number of stream operations and the memory allocated by a parse are bounded by a fixed multiple of the input length, the work the grammar asks for and the size of the result, never by numbers that merely appear in the grammar or the input, and the stack does not grow with the length of the input.",
  ["programs", "inputs"], "all well-formed grammars and all inputs including very long ones and extreme counts",
  "Tests use small well-behaved inputs; overflow, quadratic rescans and allocations of a claimed size need extreme ones.",
  ["src/parser/repeat.rs", "src/parser/sequence.rs", "src/parser/range.rs", "src/error.rs", "src/stream/easy.rs", "src/parser/choice.rs"],
  [("allocation bound", "src/parser/repeat.rs suggest_size_hint"), ("error offsets", "src/error.rs ErrorOffset, src/parser/sequence.rs parser_count")],
  ["panics, stream operation counts, bytes allocated per parse"])

p("C18", "All ways of running or wrapping a parser give the same parse",
  "Parsing through parse, easy_parse, parse_with_state, parse_stream, the lazy and the partial entry points, a mutable reference, a boxed or otherwise type-erased parser, an opaque, lazy, factory-made or function parser, a spanned or partial-state-erased one, or after mapping its output gives the same outcome, value and consumed input, whether given whole or in parts, and running the failing parse for its error report does not change it. The error is at the same position (spanned changes it by design), and parsers which only pass on what another says (references, boxes, map, left/right, partial-state erasure, no_partial) report the same. A parser composed of statically known types does what the same grammar behind trait objects does.",
  ["programs", "inputs", "configurations"], "all grammars, all inputs, all entry points and identity wrappers nested in any way",
  "Each entry point and wrapper forwards half a dozen methods by hand or macro; tests call most parsers through one of them.",
  ["src/parser/mod.rs", "src/parser/combinator.rs", "src/parser/function.rs", "src/parser/choice.rs"],
  [("entry points", "src/parser/mod.rs Parser, EasyParser; src/lib.rs"), ("forwarding", "src/parser/mod.rs forward_parser!, src/parser/combinator.rs AnyPartialState, Opaque, Lazy, Factory, no_partial")],
  ["results and error reports through each path"])

p("C19", "A buffered reader is transparent",
  "Reading through a buffered reader, with any mixture of reads into buffers of any size, vectored reads, fill/consume steps and parser-driven extension, delivers exactly the bytes of the wrapped reader in order, each once, and passes on its errors, its end and its not being ready exactly where they occur: nothing which has been buffered is lost by them. While something is buffered reads are served from it; the wrapped reader is asked only if nothing is, or if the buffer is told to extend, and then once. What is written, flushed or shut down through it reaches the wrapped writer, and its answers come back, unchanged and without touching what is buffered.",
  ["histories", "schedules", "fault_sequences"], "all capacities, all sequences of operations, all behaviours of the wrapped reader including errors, Pending and zero-length reads, all supported I/O flavours",
  "The reader is only exercised through decoders in tests; direct mixes of its operations are not.",
  ["src/stream/buf_reader.rs"], [("buffer bookkeeping", "src/stream/buf_reader.rs BufReader, poll_fill_buf, consume, CombineRead for BufReader/Buffer/Bufferless")],
  ["bytes returned to the caller, calls seen by the wrapped reader"])

p("C20", "Parsers written with the macros behave like the combinators they stand for",
  "Parsers written with the parser!, choice!, dispatch!, opaque! and struct_parser! macros give the same outcome, value, consumed input and resumption behaviour as the same grammar written out with combinators, and the same error report, where parser! and opaque! stand for lazy (which does not say how many parsers there are in it). That includes definitions with parameters, generic ones, any kind of partial state, recursion, ignored fields, patterns with guards, and as many alternatives or fields as are supported.",
  ["programs", "inputs", "histories"], "all definitions in the supported forms over all inputs and all splits of them",
  "tests/parser_macro.rs mostly checks that definitions compile.",
  ["src/lib.rs", "src/parser/sequence.rs", "src/parser/choice.rs", "src/parser/combinator.rs"],
  [("macros", "src/lib.rs parser!, combine_parser_impl!; src/parser/choice.rs choice!, dispatch!; src/parser/combinator.rs opaque!; src/parser/sequence.rs struct_parser!")],
  ["results of macro-built and hand-built twins"])

p("C21", "User functions run once per accepted item, in input order, also when resumed",
  "In a parse of the whole input, the functions given to map, map_input, and_then, flat_map, then, then_ref, satisfy, satisfy_map, produce, factory, take_while and the chain parsers are called exactly when a reading of the grammar says so, in the order of the input, by every entry point. A parse that is resumed part by part makes the same calls for items that consumed input, once each, except where a parser goes back over its input or keeps no state between parts by design (attempt, look-ahead, searches, count, skip_count, chainr1, escaped, alternatives retried because nothing was consumed); a factory is asked once for each parser, also when several messages are decoded with the same parser and state.",
  ["programs", "inputs", "histories"], "all grammars without backtracking parsers, all inputs, all partitions of the input into parts",
  "Tests compare final values; a function that runs twice for one item or again after a resumption goes unnoticed unless its effects are recorded.",
  ["src/parser/combinator.rs", "src/parser/sequence.rs", "src/parser/repeat.rs", "src/parser/choice.rs"],
  [("kept results", "PartialState of sequences and repetitions")],
  ["the recorded log of calls"])

p("C22", "The same behaviour without std, with alloc alone, and with std",
  "Every parser and stream that exists in a build of combine without its features, or with alloc alone, gives the same outcome, value, consumed input, resumption behaviour and error contents as in the std build, for every grammar, input and split into parts. That includes the parsers which are written separately for builds without std (length_prefix) and those whose search routines are chosen by the features (take_until_byte and its kin).",
  ["programs", "inputs", "histories"], "all grammars over the streams of each configuration, all inputs, all partitions, the configurations none, alloc and std",
  "The test suite needs std for most of its tests (they are compiled out without it), so the other configurations are only known to compile.",
  ["src/lib.rs", "src/parser/range.rs", "src/parser/combinator.rs", "src/parser/mod.rs", "src/error.rs", "src/stream/mod.rs"],
  [("feature gates", "cfg(feature = \"std\"), cfg(feature = \"alloc\") throughout"), ("two definitions of length_prefix", "src/parser/range.rs"), ("core or std", "src/lib.rs mod lib")],
  ["parse and decode results in each build"])

p("C23", "What is printed of an error is exactly what it contains",
  "Displaying a detailed error prints, in this order, where it occurred, every unexpected item on a line of its own, one line with the list of everything expected (commas between, \"or\" before the last), and every message or foreign error, each exactly as often as the error contains it, with tokens and ranges between backquotes, whatever they contain and however many there are; it never changes the error, and the failure of the writer is passed on with nothing written after it. The small, reader's and decoder's errors print which of their cases they are, or what the I/O error inside says. Translating an error's pointer gives the offset of its place in the input, and turning a decoder's error into a detailed one keeps its position and its cause.",
  ["inputs"], "all errors of any number of entries with any contents and positions, all writers, all failing parses, all places of an input",
  "The tests compare a few printed reports of two or three entries; what is lost with many entries, odd contents or a writer that fails can not be seen in them.",
  ["src/stream/easy.rs", "src/stream/mod.rs", "src/stream/decoder.rs", "src/stream/read.rs", "src/stream/position.rs", "src/error.rs"],
  [("fmt_errors and the Display impls", "src/stream/easy.rs"), ("translate_position", "src/stream/mod.rs PointerOffset"), ("decoder::Error", "src/stream/decoder.rs")],
  ["Display of every public error type, PointerOffset::translate_position, From<decoder::Error>"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    assert x["statement"].count(". ") <= 2, x["id"]
