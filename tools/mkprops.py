#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, rerun, commit both."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                  "observe_at": observe or ["include/cppp/reiconv.h.in: reiconv_iconv()"], "hook_needed": None}})
LOOP="lib/loop_unicode.h"; API="lib/iconv.c"; CONV="lib/converters/"
ST=[("istate","decoder shift state / pending decoded character","lib/reiconv_defines.h conv_struct"),
    ("ostate","encoder shift state / pending encoded bytes","lib/reiconv_defines.h conv_struct"),
    ("ibyteorder","byte order learnt from a byte-order mark","lib/reiconv_defines.h conv_struct")]
p("C01","Short reads: how the input is cut up never changes the result",
  "For every pair of encodings, flag and byte string, handing the input to a descriptor in pieces cut at any byte positions (re-presenting the unconsumed tail together with the next piece) yields exactly the same output bytes, the same flush output, the same final verdict (complete, invalid, incomplete) and the same stopping position in the input (of the first offending unit, counting shift sequences and marks in front of it as passed whether or not a call has already taken them in) as handing it over in one call.",
  ["schedules","inputs","configurations"],"all source/target encodings and flags, all inputs (valid, corrupted, random), all segmentations into reads including empty and one-byte reads",
  "The tests convert whole strings in one call, so no multi-byte character, escape sequence, byte-order mark or composed pair is ever split between two calls.",
  [LOOP,CONV,"lib/reiconv_defines.h"],[("incomplete-sequence return code leaves state untouched beyond complete shift sequences","lib/converters/*.h xxx_mbtowc, RET_TOOFEW"),("loop cases 2 and 3",LOOP+" unicode_loop_convert")],ST)
p("C02","Back-pressure: a full output buffer loses, repeats and alters nothing",
  "For every pair of encodings, flag and byte string, converting through output buffers of any sequence of sizes (including zero), retrying with the remaining input whenever the library reports that the output is full, yields exactly the bytes, verdict and stopping position of converting with one ample buffer. A call that reports a full output has consumed precisely the input whose output it delivered (up to a character held back because the next one may combine with it).",
  ["schedules","fault_sequences","inputs","configurations"],"all encodings and flags, all inputs, all sequences of output capacities, combined with arbitrary input cuts",
  "Tests always provide ample output (one test fills the buffer once, after one character of four Unicode encodings); full output in the middle of an escape sequence, a composed pair or a multi-unit character is never reached.",
  [LOOP,CONV],[("E2BIG path restores the decoder state",LOOP+" unicode_loop_convert outcount_ok"),("RET_TOOSMALL before any state is committed","lib/converters/*.h xxx_wctomb")],ST)
p("C03","Conversion stays inside the caller's buffers and accounts exactly",
  "Whatever the input bytes, buffer sizes, encodings, flags and preceding calls on the descriptor, a conversion, flush or one-shot call never crashes or aborts, never reads outside the given input, never writes outside the given output and never modifies the input; pointers and remaining counts move by equal amounts and never past the ends; success means the whole input was consumed, and failure carries an errno that names the cause.",
  ["inputs","histories","fault_sequences","configurations"],"all byte strings, all input lengths and output capacities from 0 upwards, all call histories on a descriptor, all encodings",
  "Tests run a few well-formed texts with roomy buffers; none probes buffer edges, garbage input in a non-initial state, or flushing into a too-small buffer.",
  [LOOP,CONV,API],[("n checks in xxx_mbtowc/xxx_wctomb/xxx_reset","lib/converters/*.h"),("outcount<=outleft and incount<=inleft checks",LOOP)],ST)
p("C04","Reset or flush returns a descriptor to its initial state",
  "After any history of calls on a descriptor - complete, cut short by a full buffer, by invalid or by incomplete input - a reset, or a flush that succeeds, makes it convert everything that follows exactly as a newly opened descriptor would, except that a byte order already learnt from a byte-order mark is kept. Consequently each flushed piece of output is self-contained: pieces produced by one descriptor, concatenated in order, decode to the concatenation of their texts.",
  ["histories","fault_sequences","inputs"],"all histories of feeds, errors, resets and flushes, all stop points, all encodings",
  "The tests use each descriptor once, or reset it only in the byte-order test for four encodings.",
  [LOOP,CONV],[("clearing both states",LOOP+" unicode_loop_reset"),("shift back to initial state","lib/converters/*.h xxx_reset")],ST)
p("C05","Flushing delivers the pending tail exactly once, however small the buffers",
  "At any point of any stream, the flush call delivers the still-buffered character and the return-to-initial shift sequence exactly once: if the buffer is too small it reports that and can be repeated with more room, any sequence of buffer sizes (including zero) yields in total the same bytes as one ample flush, nothing that was taken in is missing from the flushed stream, and a second flush yields nothing.",
  ["histories","fault_sequences","inputs"],"all stream prefixes, all sequences of flush capacities including zero, all encoding pairs with a buffering decoder or stateful encoder",
  "Tests never flush into a small buffer; with ample buffers the retry path is dead code.",
  [LOOP,CONV],[("flushwc + restore on failure",LOOP+" unicode_loop_reset"),("xxx_flushwc / xxx_reset","lib/converters/flushwc.h, lib/converters/*.h")],ST)
p("C06","Descriptors are independent under every interleaving of threads",
  "Calls on different descriptors, name and codepage lookups, opens and closes may be interleaved and preempted at any point by any number of threads, and successive calls on one descriptor may come from different threads, without any call returning anything other than what it would return if each descriptor were used alone.",
  ["schedules","histories"],"all interleavings of calls of several threads with preemption inside the calls, all assignments of non-overlapping calls to threads",
  "All tests are single-threaded and use one descriptor at a time.",
  [API,LOOP,CONV,"lib/reiconv.cpp","lib/generated/aliases.h"],[("all mutable state lives in the descriptor or on the stack","lib/reiconv_defines.h conv_struct; const tables")],ST)
p("C07","A failing allocation is reported cleanly and costs nothing",
  "If any memory allocation inside any call fails, the call either still delivers its correct result or reports the failure as documented (failure value with errno ENOMEM from the C functions, an exception from the C++ functions); it never crashes, never leaks or double-frees, leaves caller-visible buffers either valid or null, and the same call repeated once memory is available succeeds with the correct result. Without faults, every descriptor and buffer handed out is fully released by its documented release call.",
  ["fault_sequences","histories"],"all failure points of all allocations over all sequences of opens, one-shot conversions (C and C++) and closes",
  "No test injects an allocation failure or checks for leaks on error paths.",
  [API,"lib/reiconv.cpp"],[("NULL check after malloc",API+" reiconv_open_from_index, reiconv_convert"),("closing the descriptor on every exit","lib/reiconv.cpp reiconv::convert")],observe=["reiconv_open*", "reiconv_convert", "reiconv::convert"])
p("C08","One-shot conversions agree exactly with streaming conversion",
  "For every pair of encodings, flag and input, the size query, the fixed-buffer conversion, the allocating conversion and the C++ conversion agree with streaming the same bytes through a descriptor and flushing it: they succeed exactly when streaming consumes everything without error, with the same bytes and exactly their length, and otherwise report failure with errno EILSEQ (EINVAL is allowed for incomplete input; C++: std::system_error with that code). A fixed buffer too small for the result is reported as full (E2BIG), a buffer of exactly the queried size suffices, and whatever a larger buffer held behind the result is left as it was.",
  ["inputs","configurations","histories","fault_sequences"],"all inputs and lengths (including ones crossing internal buffer boundaries), all encodings, flags and output capacities",
  "Tests check the C++ conversion on a few snippets; sizes, fixed buffers, multi-block lengths, byte-order marks mid-text and failures are not compared.",
  [API,"lib/reiconv.cpp"],[("two-pass size then convert",API+" reiconv_result_size, reiconv_convert_static_size, reiconv_convert"),("C++ wrapper","lib/reiconv.cpp")],ST,["reiconv_result_size","reiconv_convert_static_size","reiconv_convert","reiconv::convert"])
p("C09","One-shot calls leave no trace on the descriptor",
  "On a descriptor used only for one-shot calls, the result of each call is the same as on a newly opened descriptor, whatever one-shot calls preceded it and however they ended (success, full buffer, invalid or truncated input, failed allocation), apart from a byte order learnt from a byte-order mark. Asking for a result size never changes what the descriptor does next, even in the middle of a stream.",
  ["histories","fault_sequences"],"all histories of one-shot calls with all outcomes, and size queries at any point of a stream",
  "Tests use each descriptor for a single one-shot call.",
  [API],[("return to the initial state after success and failure",API+" reiconv_convert_static_size, reiconv_result_size")],ST,["reiconv_result_size","reiconv_convert_static_size","reiconv_convert"])
p("C10","The discard flag drops exactly the inconvertible units",
  "A descriptor opened to discard illegal sequences never reports invalid input, and under any input cuts and output sizes produces exactly what a strict decoder and encoder produce when every invalid input unit (4 bytes for 32-bit, 2 bytes for 16-bit encodings, 1 byte otherwise) and every character missing from the target are skipped and nothing else is.",
  ["inputs","schedules","configurations"],"all corrupted inputs, all encodings, all cuts and capacities",
  "One test checks two 7-byte inputs for one encoding pair.",
  [LOOP],[("discard_ilseq branches",LOOP+" unicode_loop_convert, unicode_loop_reset"),("flag decoding",API+" reiconv_open, reiconv_open_from_index")],ST)
p("C11","Invalid input stops the stream precisely and resumably",
  "When strict conversion meets invalid or inconvertible input it stops in front of it (up to shift sequences, which produce no output) having delivered the output of everything before it and of nothing after it; repeating the call on the same remaining bytes reports the same error again without consuming or producing anything; and after skipping the offending unit (1 byte; 2 or 4 in the 16- and 32-bit encodings) conversion resumes with the shift state intact, in any history of faults. A character held back for possible combination counts as before the error and is delivered at the latest by the next flush.",
  ["inputs","histories","fault_sequences"],"all corruption points, all encodings and states, repeated errors and resumptions, with short reads and writes",
  "One test checks the stopping position for two 7-byte inputs of one pair.",
  [LOOP,CONV],[("EILSEQ paths restoring or advancing the state",LOOP+" unicode_loop_convert case 1 and RET_ILUNI"),("RET_SHIFT_ILSEQ","lib/converters/*.h")],ST)
p("C12","Converting directly equals converting in two stages through Unicode",
  "For any encodings A and B and any text, converting from A to B directly gives the same bytes and verdict as a pipeline of two descriptors, A to Unicode and Unicode to B, connected by a bounded buffer whose two ends are served in any order and in any portions.",
  ["schedules","inputs","configurations"],"all pairs (A,B), all inputs, all interleavings and portion sizes of the two stages",
  "Tests only convert to and from UTF-8; no pair of two legacy encodings and no pipeline is exercised.",
  [LOOP,API,CONV],[("Unicode pivot loop",LOOP)],ST)
p("C13","Supported text survives a round trip over a faulty byte pipe",
  "For every encoding, every text made of characters the encoding supports, encoded and decoded again by two descriptors connected by a pipe with arbitrary short reads, short writes and full buffers, comes back identical (in the encodings that decode a base letter and a combining mark to one composed character: up to that composition), and the encoded stream is accepted without error.",
  ["inputs","schedules","configurations"],"all supported characters of all encodings in any order and length, all pipe schedules",
  "Stateless table tests check single characters, stateful tests one snippet per encoding, always in one call; sequences mixing character sets, and encodings without a test, are not covered.",
  [CONV,LOOP],[("mbtowc/wctomb pairs","lib/converters/*.h")],ST)
p("C14","Progress: given room and input, every stream finishes in bounded work",
  "A full output is only reported when input is left and fewer than 32 bytes of room remain, and a room of exactly the size the result takes is enough; success is only reported with all input consumed, and however badly reads, writes and errors behaved before, once ample room and the rest of the input are provided the stream reaches its end or its error in one call per buffer and a number of steps bounded linearly by the bytes handled; every one-shot call terminates.",
  ["histories","fault_sequences","inputs"],"all inputs and histories, all encodings; step counts measured in executed basic blocks",
  "A test that hangs or crawls on some state is only seen if that state is reached; tests reach very few.",
  [LOOP,API],[("loop consumes or stops at every turn",LOOP),("retry loops",API+" reiconv_result_size, reiconv_convert_static_size")])
p("C15","Byte order: marks are honoured, kept for life, and written once",
  "Decoding UTF-16, UTF-32, UCS-2 and UCS-4 follows a reference model under any cuts, capacities, resets and errors: big-endian until a byte-order mark says otherwise, a mark anywhere switches the order and yields no character, and the order stays with the descriptor across resets and flushes. Encoding UTF-16 and UTF-32 writes one big-endian mark at the start of each stream and none elsewhere; UCS-2 and UCS-4 write none.",
  ["histories","schedules","inputs"],"all texts with marks at any place, all cuts, capacities and resets",
  "One test covers a mark at the very start followed by one reset.",
  ["lib/converters/utf16.h","lib/converters/utf32.h","lib/converters/ucs2.h","lib/converters/ucs4.h",LOOP],[("ibyteorder","lib/converters/utf16.h utf16_mbtowc"),("ostate BOM flag","lib/converters/utf16.h utf16_wctomb")],ST)
p("C16","Truncation is always noticed",
  "Ending valid input (as the library's own encoder writes it, flush included) after any byte is never mistaken for invalid input and never passes silently: streaming consumes and delivers exactly the complete characters and shift sequences before the cut and reports the remainder as incomplete, keeping it available for continuation, and the one-shot functions fail exactly when a remainder is left.",
  ["crash_points","inputs","configurations"],"every cut point of every valid text in every encoding, with short reads before the cut",
  "Tests never present truncated input.",
  [LOOP,CONV,API],[("RET_TOOFEW","lib/converters/*.h xxx_mbtowc"),("EINVAL handling",API+" reiconv_result_size, reiconv_convert_static_size")],ST)
p("C17","Opening is all-or-nothing, and every route opens the same conversion",
  "For any encoding names of any length and spelling, any codepage numbers and any memory state, each way of opening either returns a fresh descriptor in its initial state that behaves exactly like the one opened by index for the same encodings and flag, or returns failure with errno EINVAL (unknown) or ENOMEM; nothing else happens, whatever was opened, used and closed before.",
  ["inputs","histories","fault_sequences"],"all names (any case, any '-' and '_', any length, '//IGNORE' suffix), all integers as codepages, all histories of opens and closes with recycled, dirty memory and failing allocations",
  "Tests open a handful of spellings, on fresh zeroed memory.",
  [API,"lib/generated/aliases.h","lib/codepage_to_ei.h","lib/reiconv.cpp"],[("alias hash lookup","lib/generated/aliases.h aliases_lookup"),("codepage table","lib/codepage_to_ei.h"),("descriptor initialisation",API+" reiconv_open_from_index")],observe=["reiconv_open*","reiconv_lookup_from_*","reiconv::Encoding"])
p("C18","Stateful output is well-formed wherever the stream is cut by a flush",
  "Output in the shift-state encodings (ISO-2022 family, HZ, UTF-7) contains only 7-bit bytes and, read by an independent decoder that follows the published specification of the encoding, is well formed, denotes the text that was converted and is back in the initial shift state after every flush, under any output sizes and flush points.",
  ["inputs","histories","schedules"],"all texts over the supported characters, all flush points and output capacities",
  "Tests compare one snippet per encoding, converted in one call.",
  [CONV+"iso2022_jp.h",CONV+"iso2022_jp1.h",CONV+"iso2022_jp2.h",CONV+"iso2022_jp3.h",CONV+"iso2022_jpms.h",CONV+"iso2022_cn.h",CONV+"iso2022_cnext.h",CONV+"iso2022_kr.h",CONV+"hz.h",CONV+"utf7.h"],[("designation and shift bookkeeping","xxx_wctomb, xxx_reset")],ST)
p("C19","Locale charset always reports the current locale's encoding",
  "The locale query returns the encoding of the locale in effect at the time of the call, for any history of locale changes and from any thread, through both the C and the C++ function.",
  ["histories","schedules"],"all sequences of locale changes and queries",
  "There is no test of the locale query.",
  ["lib/locale_charset.c","lib/locale_charset.cpp"],[("nl_langinfo(CODESET) on every call","lib/locale_charset.c")],observe=["locale_charset","reiconv::locale_charset"])
p("C20","Character mappings agree with the published tables",
  "Every single character maps to and from the byte sequence given by the published mapping table of the encoding.",
  ["inputs"],"all characters of all encodings, each in isolation",
  "The stateless tests enumerate most tables; the remaining ones have no test.",
  [CONV],[("mapping tables","lib/converters/*.h")])
p("C21","Loss is never silent: every replaced or dropped character is counted",
  "Whatever the encodings, flag, reads and rooms, a conversion or flush call that succeeds returns exactly the number of characters it took in that the target encoding lacks (language tags, which are never written, are not counted; nor are invalid input units skipped by the discard flag); each of them appears in the output as U+FFFD in strict mode if the target has that character, stops the call as invalid if it has not, and is absent in discarding mode; everything else is delivered as if they had not been there. A return of 0 therefore means that nothing was lost.",
  ["inputs","schedules","configurations"],"all pairs of encodings, both flags, all texts mixing characters the target has and lacks, all reads and rooms, including characters held back until the flush",
  "Tests ignore the return value of conversions except for being an error.",
  [LOOP],[("irreversible counter",LOOP+" unicode_loop_convert result, unicode_loop_reset"),("U+FFFD substitution",LOOP+" RET_ILUNI branches")],ST)
p("C22","Unicode forms are read and written exactly as specified, and ill-formed ones rejected",
  "Reading UTF-8, UTF-16BE/LE, UTF-32BE/LE, the fixed-order forms of UCS-2 and UCS-4, and JAVA and C99 escapes follows a reference model of these forms for every byte string under any reads and rooms: well-formed sequences yield exactly their characters; overlong or cut sequences, lone or misplaced surrogates and values above U+10FFFF (in UCS-2: surrogates; left open in UCS-4 and in eight-digit C99 escapes) are reported as invalid at exactly their position, or skipped by unit when discarding; backslash sequences that are no complete escape are plain text. Well-formed UTF-7 is read as RFC 2152 says. Writing any code point value yields exactly the bytes of the form, and never a surrogate or a value out of range.",
  ["inputs","schedules"],"all byte strings and all 32-bit values, all reads and rooms, both flags",
  "Tests hold a dozen ill-formed UTF-8 strings and whole tables of well-formed single characters, each in one call.",
  [CONV+"utf8.h",CONV+"utf16be.h",CONV+"utf16le.h",CONV+"utf32be.h",CONV+"utf32le.h",CONV+"ucs2be.h",CONV+"ucs2le.h",CONV+"ucs2internal.h",CONV+"ucs2swapped.h",CONV+"ucs4be.h",CONV+"ucs4le.h",CONV+"utf7.h",CONV+"java.h",CONV+"c99.h"],[("validity checks","xxx_mbtowc, xxx_wctomb")],ST)
p("C23","Whatever is accepted can be written back and reads the same again",
  "For every encoding and any byte string, whatever text its decoder delivers before it stops is accepted in full by the encoder of the same encoding, and what that writes is read back without error as the same text, under any reads and rooms in all three stages (a combining mark following a composed character in CP1255, CP1258 and TCVN may compose further; excepted are the backslash of JAVA and C99, which has no form of its own, and the JIS X 0201 Roman characters U+00A5 and U+203E of ISO-2022-JP-MS, which are read but by design never written). In particular no decoder lets unassigned or out-of-range codes pass as characters.",
  ["inputs","schedules","configurations"],"all byte strings (valid, corrupted, random, escape sequences in any order) in all encodings, all reads and rooms",
  "Tests decode the codes listed in the expected tables one at a time from the initial state; codes in other shift states, after errors or outside the tables in stateful encodings are not tried, and nothing is written back.",
  [CONV,LOOP],[("mbtowc acceptance checks and wctomb coverage","lib/converters/*.h")],ST)
p("C24","A character the encoding lacks is never written as another one",
  "For every encoding and any text over all of Unicode, strict or discarding, under any reads and rooms: each character is either refused, counted as lost (dropped, or replaced by U+FFFD), or written so that reading the output yields that very character. Nothing is silently written as a different character, apart from a fixed list of compatibility spellings (such as U+FF5E in CP932, the private-use characters of GB18030:2005) and the escape and shift controls in the ISO-2022 encodings, the backslash of JAVA and C99, combining marks in CP1255, CP1258 and TCVN, and U+FEFF in the byte-order-aware forms.",
  ["inputs","schedules","configurations"],"all texts over all Unicode characters, whether the encoding has them or not, all encodings, both flags, all reads and rooms",
  "Tests try the characters one at a time from the initial state, only for encodings with a table, in one call.",
  [CONV,LOOP],[("wctomb range checks and page tables","lib/converters/*.h")],ST)
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
