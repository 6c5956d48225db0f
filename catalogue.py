"""What each check explores (for its evidence file) and its budgets per tier: (runs, wall-clock cap of the search in seconds)."""
P = ["C%02d" % i for i in range(1, 25) if i != 20]
# quick: fixed numbers of runs (about 45 s of search on 8 idle cores), so that a seed gives the same verdict on every machine
QUICK = {p: (n * 1000, 300) for p, n in {'C01': 8000, 'C02': 5000, 'C03': 3000, 'C04': 5600, 'C05': 14000, 'C06': 1100, 'C07': 1300, 'C08': 450, 'C09': 1350, 'C10': 8000, 'C11': 2400, 'C12': 5500, 'C13': 4800, 'C14': 1300, 'C15': 11000, 'C16': 3100, 'C17': 9000, 'C18': 3800, 'C19': 14000, 'C21': 10000, 'C23': 9000, 'C24': 9000, 'C22': 16000}.items()}
THOROUGH = {p: (10 ** 9, 1500) for p in P}
RULES = {
 "C01": "One run: a pair of encodings, the discard flag, an input (encoded text, corrupted, spliced, truncated or random bytes, token streams of escape sequences) and up to five read schedules (cuts at any byte, empty and one-byte reads), each on its own descriptor and compared with the whole input in one call.",
 "C02": "One run: as C01 with up to five schedules of output rooms from 0 upwards (growing byte by byte while nothing moves, so that every threshold is met), combined with read cuts; after reports of a full output the consumed prefix is converted alone and compared; also rooms and inputs announced as 2 GB, 4 GB and more.",
 "C03": "One run: a history of 1 to 12 calls (feeds, whole streams, flushes, resets, size queries, one-shot conversions) on one descriptor with arbitrary input and rooms; every buffer is an exact window, everything around it poisoned; pointers, counts, errno and the input are checked after every call; buffers announced as 2 GB, 4 GB and more; and four runs of a gigabyte of nothing but shift sequences or marks in one call.",
 "C04": "One run: a history of calls on one descriptor ending anywhere (error, full output, incomplete), then a reset or a flush into small buffers, then a probe stream compared with a new descriptor; or 2 to 5 flushed pieces compared with a new descriptor's and decoded together; now and then hundreds or 65 thousand equal calls come before.",
 "C05": "One run: two descriptors fed alike; one flushed with ample room, one through a sequence of small rooms including 0; then flushed again; or a stream with something held back, flushed, and compared with what a continuation of the same stream delivers, or read back, and, where the target has shift states, an ASCII byte put behind the flush must read as that character.",
 "C06": "One run: 2 to 4 sessions (own descriptor, scripts of opens, feeds, flushes, resets, one-shots, lookups, C++ calls, closes) first alone in a freshly loaded library, then by 2 to 4 threads whose preemption points (any basic block or memory access of the library) and session hand-overs are drawn from the seed; every result is compared with the one obtained alone; descriptors are also opened by iconv name and by codepage, and names canonicalised; some runs open and close a few encodings all the time by the same few name constants.",
 "C07": "One run: one kind of operation (open by index, name, iconv name; allocating conversion with and without a buffer; C++ conversion) repeated with the n-th allocation failing (one, two, or all following ones, or only large ones); result, errno or exception, live blocks and the repetition afterwards are checked.",
 "C08": "One run: an input (also empty, and up to several internal buffers long), streamed under a random schedule; size query, fixed buffers (exact, larger, too small), allocating and C++ conversion (also without a place for the result) compared with the stream, errors by cause; announced rooms past 2 and 4 GB; one size query whose result passes 2 or 4 GB.",
 "C09": "One run: 1 to 4 one-shot calls with random outcomes (too small, invalid, truncated, failed allocation) on a descriptor, then one-shot calls compared with a new descriptor's; or size queries between the two halves of a stream compared with the same stream without them; now and then hundreds or 65 thousand equal one-shot calls come before; buffers are refilled in place with other text of the same length.",
 "C10": "One run: an input, converted by a discarding descriptor under three schedules, against a strict decoder and a strict encoder driven character by character with explicit skips; or one invalid unit put between two characters of valid text and discarded, against the text without it.",
 "C11": "One run: an input; stopping position and output against the prefix converted alone; resumption behind every error with repeated calls, short reads and small rooms against the undisturbed one; skipping by hand against the discarding decoder; or one invalid unit put between two characters of valid text and skipped, against the text without it.",
 "C12": "One run: an input converted directly and by two descriptors joined by a bounded queue whose ends are served in an order and portions drawn from the seed.",
 "C13": "One run: text of supported characters (classes of every encoding, pairs, shift changes), encoder and decoder joined by a bounded pipe served in drawn order and portions.",
 "C14": "One run: a history of calls with measured basic blocks per call, reports of a full output checked for the room left, then ample room and the rest of the input; and an input converted into exactly the room it takes; also rooms announced as 2 GB, 4 GB and more.",
 "C15": "One run: marks, surrogates, out-of-range values and characters of both byte orders through UTF-16, UTF-32, UCS-2 or UCS-4 in several streams separated by flushes, resets and errors, against a reference decoder; or texts encoded in several flushed streams against the expected bytes.",
 "C16": "One run: supported text, its encoding cut at four places, each streamed under a schedule, given to all one-shot calls, and continued.",
 "C17": "One run: descriptors opened, used and closed before; then one way of opening or looking up with drawn spelling (case, '-' and '_', any length, unknown and non-ASCII names, codepages of any value, //IGNORE), memory recycled dirty, the allocation possibly failing; the descriptor is compared with one opened by index; names also in buffers that held other names before, many descriptors open at once, many opened before, and the public index constants.",
 "C18": "One run: 1 to 4 flushed pieces of text in a shift-state encoding under read and room schedules, with language tags and discarded characters in between, read by decoders written from the published specifications; also from encodings that hold a character back, dropped or delivered by the flush.",
 "C23": "One run: bytes (encoded text, corrupted, spliced, random, token streams, neighbouring codes) read by a strict decoder, what it accepted written back by the encoder of the same encoding and read again, each stage under its own schedule of reads and rooms.",
 "C24": "One run: text of any characters (supported ones, their neighbours, same low bits in other planes, runs, anything) written strictly or discarding under a schedule of reads and rooms, stepping over refusals; what was taken in without being reported lost must be read back as itself.",
 "C21": "One run: an input, half of the time with characters the target lacks, converted strictly or discarding under a schedule of reads and rooms, each call compared with a decoder fed the same bytes and an encoder given only what the target has; now and then 254 to 131 thousand losses in one call.",
 "C22": "One run: bytes in a Unicode form (boundary values, surrogates, overlong and cut sequences, escapes) read, or 32-bit values written, strictly or discarding, under a schedule of reads and rooms, against an independent model; UTF-7 is read against RFC 2152; long texts, and other Unicode forms or the same one as target.",
 "C19": "One run: 2 to 24 queries and locale switches by 1 to 4 threads preempted inside the query, against the simulated locale subsystem; also the code path without nl_langinfo against the environment.",
}
PROBES = ["flush_delivers_pending", "full_inside_character", "cut_inside_character", "invalid_input", "incomplete_input", "input_larger_than_internal_buffer", "error_while_shifted", "flush_reports_inconvertible", "several_errors_in_one_stream", "one_shot_fails", "byte_order_switch"]
REAL = ["lib/iconv.c with every converter, table, lookup and loop", "lib/reiconv.cpp (C++ interface)", "lib/locale_charset.c and .cpp", "C and C++ runtime except the stubs"]
STUBS = {"*": ["allocator: simulated heap with exact bounds, dirty contents, address reuse, drawn failures", "callers with their buffers, files and pipes: simulated", "clock and randomness: simulated, never called by the library"],
 "C06": ["thread scheduler: real threads released one at a time by the simulator", "mutexes, once and static-initialisation guards: cooperative stand-ins (the library uses none)", "allocator: simulated heap"],
 "C19": ["nl_langinfo, setlocale, uselocale, getenv: simulated process locale and environment", "thread scheduler: real threads released one at a time by the simulator", "allocator: simulated heap"]}
