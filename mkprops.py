#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

U="lib/uri/uri.cpp"; UH="include/uri/uri.hpp"; R="include/uri/rule.hpp"; RC="lib/uri/rule.cpp"
PH="include/uri/parts.hpp"; PC="lib/uri/parts.cpp"; EN="include/uri/pctencode.hpp"; ENC="lib/uri/pctencode.cpp"
DE="include/uri/pctdecode.hpp"; PU="include/uri/punycode.hpp"; PUC="lib/uri/punycode.cpp"; IC="include/uri/icubaby.hpp"
FL="include/uri/find_last.hpp"; SW="include/uri/starts_with.hpp"; TOOL="tools/uri-split/uri-split.cpp"

prop("C01","Parsing accepts exactly the RFC 3986 language",
 "For every byte string, parsing it as a URI succeeds if and only if the whole string matches the RFC 3986 `URI` production, and parsing it as a URI reference succeeds if and only if it matches `URI-reference` (every host form included: IPv6 with each elision shape and IPv4 tail, IPvFuture, IPv4-looking and ordinary registered names). Strings with embedded NULs, bytes above 0x7F, incomplete escapes or any trailing text are rejected, and ABNF literals match case-insensitively.",
 ["inputs"],"all byte strings of any length",
 "The tests check a few hundred hand-picked strings; the language is infinite and ordered choice plus greedy repetition makes wrong commits show only on particular combinations.",
 [U,R,RC],[("split / split_reference over the URI and URI_reference rules",U),("ordered-choice, greedy repetition combinators",R)],
 observe=["return value of split and split_reference"])
prop("C02","Parsing decomposes the text into exactly the right components",
 "When parsing succeeds, scheme, userinfo, host, port, path, query and fragment are exactly the substrings that RFC 3986 assigns to them, with an absent component distinguished from an empty one (`?` with nothing after it is an empty query, a missing `//` is no authority), the path marked absolute iff its text starts with `/`, and its segments being exactly the text between slashes, empty ones included. Every non-empty component is a view of its own place in the caller's string, so they are in order and do not overlap, and nothing is left over from alternatives the parser tried and abandoned.",
 ["inputs"],"all accepted strings","Tests sample a few URIs; presence/absence of seven optional components times path shapes times abandoned alternatives is a product they do not cover.",
 [U,UH,R,RC],[("acceptor callbacks run only for the matched derivation",RC),("append_dir / append_segment / record_initial_segment",U)],
 state=[("acceptors","deferred actions of the derivation matched so far",R)],observe=["parts returned by split and split_reference"])
prop("C03","Composing a parsed URI gives back the original text",
 "For every string that parses (as a URI or as a reference), composing the parsed components reproduces the input byte for byte, and parsing that result again gives equal components. Composing to a string, composing to a stream and inserting into a stream all write the same text; inserting just the authority or just the path writes exactly that part of the text.",
 ["inputs"],"all accepted strings","A round trip over a handful of examples does not cover combinations of empty-but-present components, empty segments and authority/path junctions.",
 [U],[("compose, operator<< for parts, authority and path",U)],observe=["compose(split(s)) against s","text written to streams"])
prop("C04","The validity predicate accepts exactly the components that recompose safely",
 "For arbitrary component values, including ones no parser would produce, the validity predicate is true if and only if a scheme is present, every present component matches its RFC 3986 production, and the composed text parses back into the same component texts (so a path beginning `//` without an authority is not valid). The separate authority and path predicates are true iff their own components match their productions.",
 ["inputs"],"all combinations of component values: absent, empty, legal, illegal, any bytes; any segment list; either value of the absolute flag",
 "Tests call the predicate on four values; its meaning is an equivalence over all component tuples.",
 [U,UH],[("parts::valid, authority::valid, path::valid",U)],observe=["valid() against compose followed by split"])
prop("C05","Reference resolution follows RFC 3986 section 5.2",
 "For every base URI and reference, resolving gives the target of RFC 3986 5.2.2 (with merging per 5.2.3, dot-segment removal per 5.2.4 and a fragment taken only from the reference), and in non-strict mode a reference scheme equal to the base's is ignored. Resolving two strings gives no result iff the base is not a URI or the reference is not a URI reference, and otherwise equals resolving their parsed components; the inputs are never modified. (For a target without authority whose path before dot-segment removal does not start with a slash, a `..` that climbs past the first segment may resolve either to the literal 5.2.4 result or to the same path without its leading slash.)",
 ["inputs"],"all pairs of base and reference, both modes, the same object passed for both",
 "The RFC's 40 example pairs all share one base URI with an authority and a three-segment path; other base shapes are untested.",
 [U],[("join, merge",U),("parts::path::remove_dot_segments",U)],observe=["join results recomposed and per component"])
prop("C06","Dot-segment removal matches RFC 3986 section 5.2.4",
 "For every absolute path, removing dot segments gives exactly the output of the RFC 3986 5.2.4 algorithm on the path's text: no `.` or `..` segment remains, empty segments are preserved or removed exactly as the RFC does, a trailing dot segment leaves a trailing slash, and the path stays absolute. Removal is idempotent, never climbs above the root, and segments other than `.` and `..` (such as `...`, `.a`, `%2e`) are ordinary text.",
 ["inputs"],"all segment lists","Tests cover about twenty lists; interactions of empty segments with dot segments need particular sequences.",
 [U],[("parts::path::remove_dot_segments",U)],observe=["segments and text after the call"])
prop("C07","Percent-encoding escapes exactly the bytes of the chosen encode set",
 "Percent-encoding copies every byte outside the chosen encode set unchanged and replaces every byte in it by `%` and two uppercase hexadecimal digits, for each of the 256 byte values and each of the named sets (C0 controls, space and bytes from 0x7F up always; the set's listed ASCII punctuation; `%` in every set but the empty one; never letters or digits). The answer to whether a byte, iterator range or string needs encoding is true iff encoding would change it, encoding preserves order and length exactly, and for every set but the empty one the result percent-decodes to the original.",
 ["inputs"],"all byte strings, all encode sets","Tests check one table over single characters and a few strings; conversions for bytes >= 0x80 and for long mixed strings are sampled.",
 [EN,ENC],[("needs_pctencode table lookup",ENC),("pctencode",EN)],state=[("encode","bit table per ASCII punctuation",ENC)],observe=["needs_pctencode, pctencode results"])
prop("C08","Percent-decoding decodes every well-formed escape once and nothing else",
 "For every byte string, percent-decoding replaces each `%` followed by two hexadecimal digits (either case) by the one byte they denote, scanning left to right, and leaves everything else, malformed or truncated escapes included, unchanged; decoded output is never scanned again. The string function, the iterators, the range wrapper and the lazy view give the same bytes however they are traversed (pre- or post-increment, repeated dereference, copies, several passes, move access), without reading outside the input; whether decoding is needed is true iff a `%` occurs.",
 ["inputs"],"all byte strings, all ways of traversal","Tests decode about fifteen strings, always front to back once.",
 [DE],[("deref / increment helpers",DE),("pctdecode_iterator, pctdecoder, pctdecode_view",DE)],state=[("hex_","decoded byte cached in the iterator",DE)],observe=["bytes produced by each access path"])
prop("C09","Encoding then decoding URI components is lossless and field-exact",
 "Encoding a set of components gives, field by field, the percent-encoding of userinfo, path segments, query and fragment under their own sets and the IDNA ASCII form of the host, and leaves a scheme and port made of legal characters alone; decoding that result gives back the original components whenever the host is valid UTF-8 without `xn--` labels. This holds for any number of segments (below, at and above any internal bookkeeping limit), any mix of absent, empty and default-constructed fields, each field independently of the others; presence of fields and the path's absolute flag are preserved.",
 ["inputs"],"all component tuples, any bytes, any number of segments","Tests encode and decode around ten hand-written component sets with at most three segments.",
 [PH,PC],[("encode, decode two-pass size/convert",PH),("needs_encoding bitset",PH)],state=[("needs_encoding","which fields must be rewritten; only 32 positions",PH)],observe=["parts returned by encode and decode"])
prop("C10","Punycode encoding and decoding follow RFC 3492 and are mutually inverse",
 "Encoding any sequence of code points gives exactly the RFC 3492 string (lower-case digits; a plain-ASCII input is returned unchanged when plain output is allowed), reports whether any code point was non-ASCII, consumes the whole input and decodes back to the same sequence. Decoding any string gives exactly the RFC 3492 result (digits in either case; a delimiter with nothing before it may be skipped) or an error: bad input for a non-ASCII literal part, an invalid digit or a truncated integer, overflow when a value cannot be represented; it never returns wrong text instead of an error, and error codes carry the punycode category with a non-empty message.",
 ["inputs"],"all sequences of code points up to U+10FFFF; all byte strings as encoded input","Tests use the RFC's 19 samples plus a few; bias adaptation, large deltas, repeated code points and overflow boundaries are a continuum.",
 [PU,PUC,FL],[("encode, encode_vli, adapt",PU),("decode, decode_vli, decode_loop",PU)],observe=["results and error codes of encode and decode"])
prop("C11","Hosts are converted to and from IDNA ASCII form label by label",
 "Encoding a host splits it on `.` and replaces exactly the labels that contain a non-ASCII character by `xn--` and their punycode, copying ASCII labels and every dot unchanged; decoding replaces exactly the labels starting with `xn--` by the UTF-8 of their decoded text. A label that is not valid punycode makes decoding return an error and no components; a host that needs no change is returned as it was, ill-formed UTF-8 in a host turns into U+FFFD in the encoded form and never drops neighbouring characters, and the encoded host is always ASCII.",
 ["inputs"],"all host byte strings, any number and placement of empty, ASCII, non-ASCII and xn-- labels","Tests convert two or three host names.",
 [PH,PU,IC],[("puny_encoded, puny_decoded",PH),("idna_prefix",PH)],observe=["authority host after encode and decode"])
prop("C12","No input makes the library touch memory or types illegally",
 "Whatever bytes, lengths, component values and container contents are passed to any public operation (parsing, resolving, composing, validating, encoding, decoding, transcoding, path conversion), it never reads outside the given ranges or uninitialised memory, never writes outside its results, never leaks, never passes an out-of-range value to a C library classification function, never trips an assertion or undefined behaviour, and always returns. Inputs need not be NUL-terminated and may be empty or contain any byte.",
 ["inputs","histories","configurations"],"all inputs to all public functions, debug and release builds, both installed compilers",
 "The test suite runs without sanitizers, on NUL-terminated literals.",
 [U,UH,R,RC,PH,PC,EN,ENC,DE,PU,IC,FL,SW],[("string_view bounds kept by combinators",R),("iterator end checks",DE),("fixed-size output buffers of the transcoding view",IC)],observe=["ASan, UBSan, LSan, valgrind, libstdc++ debug mode, ctype argument monitor"])
prop("C13","Concurrent use from several threads is race-free and gives sequential results",
 "Any number of threads may call any of the library's functions at the same time on separate objects, or on shared read-only inputs, including the very first calls in the process, without data races. Each call returns what the same call returns when run alone.",
 ["schedules"],"all interleavings of concurrent calls, including first use of lazily initialised statics","No test starts a thread.",
 [ENC,PUC,U,R],[("function-local const statics",ENC),("function-local error category",PUC),("no mutable globals",U)],observe=["ThreadSanitizer reports","results compared to sequential digests"])
prop("C14","Running out of memory is reported, never turned into a wrong result",
 "If any single memory allocation fails during parsing, resolving, composing to a string, path to string conversion, percent-coding, punycode or component encoding/decoding, the call ends by throwing the allocation failure: it does not crash, leak, return truncated or partial results, or change its const inputs. The same call succeeds with the normal result once memory is available. (The predicates declared not to throw, the Unicode transcoders, caller-supplied streams and the standard library's own filesystem path are excluded.)",
 ["fault_sequences"],"every allocation site in every call: failure injected at the k-th allocation for all k","No test injects allocation failures.",
 [U,PH,R,EN,DE,PU],[("RAII containers",U),("compose through a string stream",U)],observe=["outcome of each call with the k-th allocation failing","live allocation count"])
prop("C15","The grammar combinators implement their documented matching semantics",
 "For any grammar built from the combinators (sequence, ordered alternative, optional, bounded greedy repetition, single characters and character classes) and any input, a match succeeds and consumes exactly what a direct reading of the documentation says: greedy repetition between its minimum and maximum, first matching alternative, case-insensitive single characters, no backtracking into completed items. The accept actions of the successful derivation run exactly once each, in input order of completion with the exact matched text, only when the whole input was consumed, and never for abandoned attempts; matching always terminates, also when a repeated item matches empty text.",
 ["programs","inputs"],"all grammars expressible with the combinators times all inputs","Tests use a dozen fixed little grammars.",
 [R,RC],[("concat, optional, star, alternative, matched, done",R)],state=[("tail","remaining input or failure",R),("acceptors","pending accept actions",R)],observe=["done() result, accept action log"])
prop("C16","Results do not depend on the process locale",
 "Every operation gives the same result whatever locale the process has selected: bytes above 0x7F are never letters, digits or case variants, and ASCII letters keep their ASCII case mapping. Selecting any C or C++ global locale before or between calls changes nothing that is accepted, decomposed, encoded or composed.",
 ["configurations","inputs"],"all C and C++ global locales, including single-byte ones with letters above 0x7F and ones with unusual case mapping","The tests run in one locale only.",
 [R,U],[("character classification in the grammar",R)],observe=["digest of results under each locale"])
prop("C17","Unicode transcoding is exact on well-formed text and safe on ill-formed text",
 "For each pair of UTF-8, UTF-16 and UTF-32, feeding well-formed text through a transcoder yields exactly the same code points in the target encoding, reports well-formed, and is not partial afterwards. For ill-formed input the output is always well-formed: each maximal ill-formed UTF-8 subsequence, each unpaired surrogate and each out-of-range UTF-32 unit becomes one U+FFFD, all well-formed text around it is preserved, the transcoder reports not well-formed (and stays so), and a sequence cut off by the end of input is reported as partial until the end is signalled. After that nothing is pending: signalling the end again yields nothing, and another text fed to the same transcoder gives the same output as alone. Results do not depend on how the input is chunked, nor on whether the transcoder was copied on the way; a transcoder told on creation that earlier text was not well formed gives the same output and stays not well formed.",
 ["inputs","histories"],"all code point sequences and all code unit sequences, all nine encoding pairs","icubaby's own tests are not in this repository; the unit tests only use it incidentally.",
 [IC],[("UTF-8 decoder automaton table",IC),("surrogate pair state",IC)],state=[("state_, code_point_","decoder state",IC),("high_, has_high_","pending surrogate",IC)],observe=["output units, well_formed, partial"])
prop("C18","Byte-stream input is decoded according to its byte order mark",
 "A byte stream is decoded as UTF-8, UTF-16 or UTF-32 of either byte order according to the byte order mark it starts with (FF FE 00 00 being UTF-32), as UTF-8 when there is none; the mark is removed and everything else decoded exactly as the same units fed to the corresponding transcoder. Bytes examined while looking for a mark are never lost, duplicated or invented, also when the stream ends early, the encoding reported is the one used, and a code unit cut off at the end makes the stream ill-formed. Once the encoding is known, the stream is reported as partial exactly while a code unit or code point is incomplete; once its end has been signalled nothing is pending and signalling it again yields nothing. A copy of the transcoder made at any byte continues independently with the same result, and writing through the output-iterator adaptor is the same as calling it.",
 ["inputs"],"all byte streams, including every prefix and near miss of each mark","Not tested in this repository at all.",
 [IC],[("byte transcoder state machine",IC)],state=[("state_","detection/run state",IC),("buffer_","bytes held back",IC)],observe=["output units, selected_encoding, well_formed"])
prop("C19","The lazy transcoding view yields the same text as the transcoder",
 "Iterating a transcoding view over any input range whose iterators can be copied (single-pass ones included), of any supported pair of encodings or from bytes, yields exactly the code units that feeding the same input to the transcoder and then signalling its end yields: no unit lost, duplicated or invented at the start or end, whether the input ends mid-sequence, produces no output at all, or produces several units for one input unit. Afterwards the view reports well-formed iff the transcoder does, also while the text is read again. Over a multi-pass range, iterating again gives the same units, and iterators may be kept, copied and advanced in any order: each gives the unit at its own position, two compare equal exactly when they are at the same position (also between the units of one code point), and a post-increment returns the old position.",
 ["inputs","histories"],"all code unit sequences, all twelve encoding pairs, contiguous and non-contiguous ranges, common and non-common","Not tested in this repository except through host encoding.",
 [IC],[("transcode_view iterator state refill",IC)],state=[("out_, first_, last_","buffered output units",IC)],observe=["units yielded by the view"])
prop("C20","Work, memory and stack grow linearly with input size",
 "Parsing, validating, resolving, composing, converting paths, removing dot segments, percent-coding, transcoding between Unicode encodings, comparing, and encoding or decoding ASCII components take work and memory at most proportional to input length, for every shape of input (many segments, many dot segments, long single components, deep failures, many escapes), and stack use that does not grow with it. No short input is disproportionately expensive.",
 ["inputs"],"all input families as their length grows","Tests use inputs of a few dozen bytes, where quadratic or exponential behaviour is invisible.",
 [U,R,RC,PH,DE],[("iterative repetition",R),("acceptor list concatenation",R)],observe=["basic blocks executed, bytes allocated, stack depth per call"])
prop("C21","The command line splitter reports every line's components or fails",
 "Given files or standard input, the command line tool prints for each line, in order, the line itself and then its scheme, userinfo, host, port, path, query and fragment exactly as the library splits them, with an absent component shown as None and a present one in quotes. It exits with success iff all of the input could be read, every line is a URI and the whole report could be written; at the first line that is not a URI, or the first input that cannot be opened or read to its end, it stops with a failure status and prints no components for it, and it never reports components of text that is only part of a line.",
 ["inputs","histories"],"all sequences of files and lines, all points at which reading or writing fails","The tool has no tests.",
 [TOOL],[("read_stream, main",TOOL)],observe=["stdout, stderr, exit status"])
prop("C22","The generic search helpers agree with their specification on every range",
 "Finding the last occurrence of a value gives the subrange from that occurrence to the end, or the empty range at the end when there is none, for forward, bidirectional and random-access ranges, arrays, views and sentinels, with or without a projection; testing for a prefix is true iff the second range is, element by element under the predicate and projections, a prefix of the first. Neither ever reads outside its ranges or modifies them.",
 ["inputs","programs"],"all ranges, iterator categories, projections and predicates","Tests use five-element sequences.",
 [FL,SW],[("find_last_forward / find_last_bidi",FL),("starts_with_fn",SW)],observe=["returned subrange and boolean"])
prop("C23","Path conversion keeps every segment and the leading slash",
 "Converting a path to a string joins its segments with single slashes, with a leading slash iff the path is absolute and has segments. Converting to a filesystem path appends the segments in order below `/` (absolute) or nothing (relative) with the filesystem library's own appending rules, and both conversions leave the path unchanged.",
 ["inputs"],"all segment lists, absolute or not","Tests convert a few short paths.",
 [U,UH],[("path::operator std::string, operator std::filesystem::path",U)],observe=["resulting text"])
prop("C24","Equality of components is an equivalence that agrees with the composed text",
 "Equality of component sets, authorities and paths is reflexive, symmetric and transitive, depends on the text and presence of every component, segment by segment for paths (an absent component differs from an empty one, the segments a/b and c from a and b/c) but not on where the text is stored, and inequality is its negation. Two parsed references are equal iff their original texts are identical; with an authority on both sides the path's absolute flag is ignored because the composed text is the same.",
 ["inputs"],"all pairs and triples of component sets","Tests compare a few pairs.",
 [U,UH],[("operator== of parts, authority, path",U)],observe=["results of == and !="])
prop("C25","Results refer only to the caller's text and inputs are never modified",
 "Every text in a result of parsing or resolving lies inside the caller's original string(s), and every text in a result of encoding or decoding components lies inside the supplied store or inside the original text, so it stays valid exactly as long as those do. No temporary storage is referenced, fields that need no conversion are returned as the original view, no operation writes to its const inputs, and earlier content of the store does not matter.",
 ["inputs","histories"],"all inputs; all sequences of calls reusing a store or chaining results","Tests keep every intermediate alive, so a dangling view would go unnoticed.",
 [U,PH],[("views into the input",U),("store reserved to its exact final size before views are taken",PH)],state=[("store","caller-supplied character container",PH)],observe=["address of each returned view; write-protected inputs"])
prop("C26","Code points are counted and located exactly",
 "For every well-formed sequence in UTF-8, UTF-16 or UTF-32, counting gives the number of its code points, and looking up position n gives the first code unit of the n-th code point or the end when there are fewer, for ranges and iterator pairs of every category (single-pass included), with or without a projection. A code unit is classified as starting a code point iff it is not a UTF-8 continuation byte, not a low surrogate, or (in UTF-32) is a scalar value, and surrogates are exactly D800-DBFF (high) and DC00-DFFF (low). On ill-formed input nothing outside the range is touched and the answers agree with that classification.",
 ["inputs"],"all code unit sequences in the three encodings, all positions","Not tested in this repository at all.",
 [IC],[("is_code_point_start, is_surrogate",IC),("length, index",IC)],observe=["counts, iterators and classifications returned"])
prop("C27","A result depends on nothing but the arguments' contents",
 "Every call's result is determined by the contents of its arguments. It is the same whatever was called before in the process: calls with other arguments, with the same memory holding other bytes, or with the same bytes stored elsewhere, calls ended by an allocation failure, and tens of thousands of repetitions; whatever the clock, the environment variables or random numbers say; and also when it is made from within another library call (from an output iterator, input range, stream buffer, match or accept function). Transcoders, decoding iterators, views and stores used in alternation each give what they give when used alone, and results already returned do not change when further calls are made.",
 ["histories","inputs"],"all sequences, nestings and alternations of calls","Each test makes a few calls on fresh data in a fixed order; state kept between calls shows only on particular sequences.",
 [U,RC,PH,EN,DE,PU,IC],[("free functions without state between calls",U),("per-object state of transcoders and iterators",IC),("mutable digit cache of decoding iterators",DE)],state=[("store","cleared at the start of each encode/decode",PH)],observe=["results of each call against the same call made first in a fresh process"])
prop("C28","Exceptions from the caller's own code pass through cleanly",
 "When code supplied by the caller (an output iterator, an input iterator or range, a container used as a store, a stream buffer, a match or accept function, a predicate or projection) throws while a library function not declared noexcept is using it, that same exception reaches the caller. Output delivered before it is a prefix of what a complete run delivers, nothing is leaked, arguments passed as const are unchanged, and the same call made again on the same arguments gives its normal result. A stream that becomes full while components are written to it holds a prefix of the text and is no longer good.",
 ["inputs","crash_points"],"all inputs and every point at which the library calls back","No test throws from a callback.",
 [EN,DE,PU,PH,R,RC,U,FL,SW,IC],[("concat, star, alternative, optional, done",R),("pctencode / encode_vli through output iterators",EN),("stream insertion",U)],observe=["exception caught, text delivered so far, live allocations, later results"])
prop("C29","A call leaves nothing behind but its result",
 "No library call, the first in a process included, has an effect beyond its result and what its arguments let it write: it performs no input or output and asks the operating system for nothing but memory; it leaves the locales, environment, standard streams, handlers, rounding mode and the rand() sequence as they were; and once its result is gone it holds no more memory than before, however many different arguments it has been given. Text written to a caller's stream is the composed text whatever formatting flags, fill, precision or locale the stream has (with width zero), nothing is written to a stream that has failed, and apart from the text the stream is unchanged.",
 ["inputs","histories"],"all inputs, all sequences of calls","Tests look at returned values; a stray trace line, a growing cache or a changed stream flag leaves those as they are.",
 [U,R,RC,PH,EN,DE,PU,IC],[("compose, operator<<",U),("trace output",RC),("function-local statics",EN)],observe=["system calls trapped by a filter, process state before and after, live heap bytes"])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
