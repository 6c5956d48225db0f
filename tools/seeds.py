"""The planted changes: written from the property texts and the code. See mkseed.py."""
L = "lib/loop_unicode.h"; I = "lib/iconv.c"; C = "lib/converters/"
SEEDS = []
def s(id, property, needs, breaks, edits, demo, **k): SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

s("c01-cn-designation-lost", "C01", "a read that ends right after a designation or shift-out of ISO-2022-CN, the rest arriving with the next read",
  "the shift sequence is consumed but its effect is forgotten, so the characters that follow are misread",
  [(C + "iso2022_cn.h", "none:\n    COMBINE_STATE;\n    conv->istate = state;\n    return RET_TOOFEW(count);", "none:\n    conv->istate = state;\n    return RET_TOOFEW(count);")],
  """
int main() {
    S in = "\\x1b$)A\\x0e\\x52\\x3b\\x52\\x3b\\x0f."; S want = once("ISO-2022-CN", "UTF-8", in);
    for (size_t k = 1; k < in.size(); k++) {
        Cd c("ISO-2022-CN", "UTF-8"); size_t u = c.feed(in.substr(0, k)); c.feed(in.substr(u)); c.flush(); eq("cut", c.out, want);
    }
    return bad;
}
""")
s("c01-utf7-base64-tail", "C01", "UTF-7 input whose read ends exactly between '+' and the first base64 digit",
  "the '+' is consumed without entering base64 mode",
  [(C + "utf7.h", "        if (n < count+2)\n          goto none;\n        if (s[1] == '-') {", "        if (n < count+2) {\n          /* The '+' has been seen; wait for the rest. */\n          count++;\n          goto none;\n        }\n        if (s[1] == '-') {")],
  """
int main() {
    S in = "A+ThY-B"; S want = once("UTF-7", "UTF-8", in);
    for (size_t k = 1; k < in.size(); k++) { Cd c("UTF-7", "UTF-8"); size_t u = c.feed(in.substr(0, k)); c.feed(in.substr(u)); c.flush(); eq("cut", c.out, want); }
    return bad;
}
""", also=["C16"])
s("c02-full-output-keeps-state", "C02", "an output buffer that fills up in front of a multi-byte character decoded from a composing or shift-state encoding",
  "the decoder state of the character that did not fit is kept, so the retry decodes it from the wrong state",
  [(L, "            if (outcount < 0)\n            {\n                cd->istate = last_istate;\n                errno = E2BIG;\n                result = -1;\n                break;", "            if (outcount < 0)\n            {\n                errno = E2BIG;\n                result = -1;\n                break;")],
  """
int main() {
    S in = "a\\xcc" "b\\xcc"; S want = once("CP1258", "UTF-16BE", in);        // a + grave, b + grave
    for (size_t room = 1; room < 5; room++) {
        Cd c("CP1258", "UTF-16BE"); size_t at = 0; int n = 0;
        while (at < in.size() && n++ < 100) { size_t u = c.feed(in.substr(at), n == 1 ? room : 64); at += u; }
        c.flush(); eq("small room", c.out, want);
    }
    return bad;
}
""", also=["C05", "C12"])
s("c02-jisx0213-commit-early", "C02", "EUC-JISX0213 output with room for the pending character but not for the one after it",
  "the pending character is marked as written although the call reports a full output, and is lost",
  [(C + "euc_jisx0213.h", "                /* JISX 0213 plane 2. */\n                if (n >= count + 3)", "                /* JISX 0213 plane 2. */\n                conv->ostate = 0;\n                if (n >= count + 3)")],
  """
int main() {
    S in = "\\xe3\\x81\\x8b\\xf0\\xa0\\x82\\x89";                     // U+304B (held back), U+20089 (plane 2)
    S want = once("UTF-8", "EUC-JISX0213", in);
    for (size_t room = 1; room < 8; room++) { Cd c("UTF-8", "EUC-JISX0213"); size_t u = c.feed(in, room); c.feed(in.substr(u)); c.flush(); eq("room", c.out, want); }
    return bad;
}
""")
s("c03-hkscs-room", "C03", "BIG5-HKSCS output with a held-back character and room for exactly two or three bytes, followed by a two-byte character",
  "two bytes are written past the end of the caller's buffer",
  [(C + "big5hkscs2008.h", "if (n >= count + 2)", "if (n >= 2)", 0)],
  """
int main() {
    S in = "\\xc3\\x8a\\xe4\\xb8\\xad\\xe4\\xb8\\xad";
    for (size_t room = 0; room < 7; room++) {
        static char buf[256]; memset(buf, 0x55, sizeof buf); Cd c("UTF-8", "BIG5-HKSCS:2008");
        if (fork_ok(c, in, room)) bad = 1;
    }
    return bad;
}
""".replace("int main", """#include <sys/wait.h>
#include <unistd.h>
static int fork_ok(Cd &c, const S &in, size_t room) { fflush(stdout); pid_t p = fork(); if (!p) { c.feed(in, room); fflush(stdout); _exit(bad); } int st; waitpid(p, &st, 0); if (st) printf("FAIL room %zu status %d\\n", room, st); return st != 0; }
int main"""), also=["C02"])
s("c03-utf7-flush-room", "C03", "flushing UTF-7 output with pending bits into a buffer with one byte of room",
  "the flush writes two bytes into room for one",
  [(C + "utf7.h", "    unsigned int count = ((state & 3) >= 2 ? 1 : 0) + 1;\n    if (n < count)", "    unsigned int count = ((state & 3) >= 2 ? 1 : 0) + 1;\n    if (n < 1)")],
  """
#include <sys/wait.h>
#include <unistd.h>
int main() {
    for (size_t room = 0; room < 4; room++) {
        Cd c("UTF-8", "UTF-7"); c.feed("\\xe4\\xb8\\xad"); fflush(stdout);
        pid_t p = fork(); if (!p) { c.flush(room); fflush(stdout); _exit(bad); } int st; waitpid(p, &st, 0); if (st) { printf("FAIL room %zu status %d\\n", room, st); bad = 1; }
    }
    return bad;
}
""", also=["C05", "C18"])
s("c04-reset-keeps-output-state", "C04", "a reset (without output buffer) in the middle of output in a shift-state encoding, then more text",
  "the encoder believes it is still in the old shift state, so what follows is garbage to the reader",
  [(L, "        /* Reset the states. */\n        memset(&cd->istate, '\\0', sizeof(state_t));\n        memset(&cd->ostate, '\\0', sizeof(state_t));\n        return 0;", "        /* Reset the states. */\n        memset(&cd->istate, '\\0', sizeof(state_t));\n        return 0;")],
  """
int main() {
    Cd c("UTF-8", "ISO-2022-JP"); c.feed("\\xe3\\x81\\x82"); c.reset(); c.take(); c.feed("\\xe3\\x81\\x82"); c.flush(); eq("after reset", c.out, once("UTF-8", "ISO-2022-JP", "\\xe3\\x81\\x82"));
    return bad;
}
""", also=["C09", "C07"])
s("c04-flush-keeps-tag", "C04", "a language tag in the text converted to ISO-2022-JP-2 before a flush, then more text on the same descriptor",
  "the language preference survives the flush, so later text is encoded differently from a new descriptor",
  [(L, "            *outbuf = (char *)(outptr + outcount);\n            *outbytesleft = outleft - outcount;\n        }\n        memset(&cd->istate, '\\0', sizeof(state_t));\n        memset(&cd->ostate, '\\0', sizeof(state_t));", "            *outbuf = (char *)(outptr + outcount);\n            *outbytesleft = outleft - outcount;\n            if (outcount == 0)\n                goto done; /* Already in the initial state. */\n        }\n        memset(&cd->ostate, '\\0', sizeof(state_t));\n    done:\n        memset(&cd->istate, '\\0', sizeof(state_t));")],
  """
int main() {
    Cd c("UTF-8", "ISO-2022-JP-2"); c.feed("\\xf3\\xa0\\x80\\x81\\xf3\\xa0\\x81\\xba\\xf3\\xa0\\x81\\xa8"); c.flush(); c.take(); c.feed("\\xe4\\xb8\\xad"); c.flush(); eq("after flush", c.out, once("UTF-8", "ISO-2022-JP-2", "\\xe4\\xb8\\xad"));
    return bad;
}
""", also=["C05", "C15", "C18"])
s("c05-flush-retry-loses-char", "C05", "a flush whose buffer is too small for the held-back character, repeated with more room",
  "the held-back character is forgotten when the first flush reports a full buffer",
  [(L, "                if (outcount < 0)\n                {\n                    cd->istate = last_istate;\n                    errno = E2BIG;\n                    return -1;", "                if (outcount < 0)\n                {\n                    errno = E2BIG;\n                    return -1;")],
  """
int main() {
    for (size_t room = 1; room < 5; room++) { Cd c("CP1258", "UTF-16BE"); c.feed("a"); c.flush(room); c.flush(); eq("flush", c.out, S("\\0a", 2)); }
    return bad;
}
""")
s("c05-hz-partial-flush", "C05", "flushing HZ output into a buffer with room for one byte",
  "the flush writes part of the shift-back sequence and reports success with only that part",
  [(C + "hz.h", "        if (n < 2)\n            return RET_TOOSMALL;\n        r[0] = '~';\n        r[1] = '}';\n        /* conv->ostate = 0; will be done by the caller */\n        return 2;", "        if (n < 1)\n            return RET_TOOSMALL;\n        r[0] = '~';\n        if (n < 2)\n            return 1;\n        r[1] = '}';\n        /* conv->ostate = 0; will be done by the caller */\n        return 2;")],
  """
int main() {
    for (size_t room = 0; room < 4; room++) { Cd c("UTF-8", "HZ"); c.feed("\\xe4\\xb8\\xad"); c.flush(room); c.flush(); eq("flush", c.out, once("UTF-8", "HZ", "\\xe4\\xb8\\xad")); }
    return bad;
}
""")
s("c06-static-scratch", "C06", "two threads encoding ISO-2022-CN-EXT at the same time, one preempted between filling and reading the scratch bytes",
  "one descriptor's output contains the other thread's character",
  [(C + "iso2022_cnext.h", "    SPLIT_STATE;\n    unsigned char buf[3];\n    int ret;", "    SPLIT_STATE;\n    static unsigned char buf[3];\n    int ret;")],
  """
#include <thread>
#include <atomic>
static std::atomic<int> wrong;
static void work(S in, S want) { for (int k = 0; k < 60000 && !wrong; k++) { Cd c("UTF-8", "ISO-2022-CN-EXT"); c.feed(in, 64 * 40); c.flush(64); if (c.out != want) wrong = 1; } }
int main() {
    S a, b; for (int k = 0; k < 60; k++) { a += "\\xe4\\xb8\\xad"; b += "\\xe6\\x96\\x87"; }
    S wa = once("UTF-8", "ISO-2022-CN-EXT", a), wb = once("UTF-8", "ISO-2022-CN-EXT", b);
    std::vector<std::thread> t; for (int k = 0; k < 3; k++) { t.emplace_back(work, a, wa); t.emplace_back(work, b, wb); } for (auto &x : t) x.join();
    if (wrong) puts("FAIL output of another thread"); return wrong;
}
""")
s("c06-lookup-cache", "C06", "two threads looking up different names, one preempted between the two stores of the cache",
  "a lookup returns the encoding of another thread's name",
  [(I, "    const struct alias *ap = aliases_lookup(buf, buf_len);\n    return ap ? ap->encoding_index : -1;", "    // Most callers ask for the same name again and again.\n    static char last_name[MAX_WORD_LENGTH + 2];\n    static int last_index = -1;\n    if (strcmp(last_name, buf) == 0)\n    {\n        return last_index;\n    }\n    const struct alias *ap = aliases_lookup(buf, buf_len);\n    int index = ap ? (int)ap->encoding_index : -1;\n    if (index != -1)\n    {\n        strcpy(last_name, buf);\n        last_index = index;\n    }\n    return index;")],
  """
#include <thread>
#include <atomic>
static std::atomic<int> wrong;
static void work(const char *n, int want) { for (int k = 0; k < 3000000 && !wrong; k++) if (reiconv_lookup_from_name(n) != want) wrong = 1; }
int main() {
    const char *n[] = {"UTF-8", "UTF-7", "CP1258", "EUC-JP", "EUC-KR", "EUC-CN"}; std::vector<std::thread> t; int w[6]; for (int k = 0; k < 6; k++) w[k] = reiconv_lookup_from_name(n[k]);
    for (int k = 0; k < 6; k++) t.emplace_back(work, n[k], w[k]); for (auto &x : t) x.join();
    if (wrong) puts("FAIL lookup gave another thread's encoding"); return wrong;
}
""", also=["C17"])
s("c07-open-without-check", "C07", "malloc failing inside reiconv_open_from_index",
  "a null pointer is written through instead of reporting ENOMEM",
  [(I, "    if (cd == NULL)\n    {\n        errno = ENOMEM;\n        return (reiconv_t)(-1);\n    }\n\n    // Initialize the input", "    // Initialize the input")],
  """
#include <sys/wait.h>
#include <unistd.h>
static int fail;
extern "C" void *__real_malloc(size_t); extern "C" void *__wrap_malloc(size_t n) { if (fail) { errno = ENOMEM; return nullptr; } return __real_malloc(n); }
int main() {
    pid_t p = fork(); if (!p) { fail = 1; reiconv_t c = reiconv_open_from_index(0, 1, REICONV_NO_FLAGS); int e = errno; fail = 0; _exit(c == (reiconv_t)-1 && e == ENOMEM ? 0 : 1); }
    int st; waitpid(p, &st, 0); if (st) printf("FAIL open without memory: status %d\\n", st); return st != 0;
}
""", flags="-Wl,--wrap=malloc", also=["C17"])
s("c08-substitution-is-failure", "C08", "a one-shot conversion of text with a character that the target can only replace (U+FFFD or, with the discard flag, nothing)",
  "the size query, and with it every allocating one-shot conversion, fails where streaming succeeds",
  [(I, "        if (res == (size_t)(-1) && errno != E2BIG)\n        {\n            if (errno == EINVAL)", "        if (res != 0 && errno != E2BIG)\n        {\n            if (errno == EINVAL)")],
  """
int main() {
    Cd c("UTF-8", "ASCII", true); errno = 0; eqn("size", (long)reiconv_result_size(c.cd, "a\\xc3\\xa9z", 4), 2);
    char *o = nullptr; size_t n = 0; errno = 0; eqn("convert", reiconv_convert(c.cd, "a\\xc3\\xa9z", 4, &o, &n), 0); free(o); return bad;
}
""", also=["C09"])
s("c09-flush-leaves-encoder-state", "C09", "two one-shot conversions on one descriptor whose target is a stateful encoding without a shift-back sequence",
  "the second conversion is treated as the continuation of the first (no byte-order mark, designations missing)",
  [(L, "            *outbuf = (char *)(outptr + outcount);\n            *outbytesleft = outleft - outcount;\n        }\n        memset(&cd->istate, '\\0', sizeof(state_t));\n        memset(&cd->ostate, '\\0', sizeof(state_t));", "            *outbuf = (char *)(outptr + outcount);\n            *outbytesleft = outleft - outcount;\n            memset(&cd->ostate, '\\0', sizeof(state_t));\n        }\n        memset(&cd->istate, '\\0', sizeof(state_t));")],
  """
int main() {
    Cd c("UTF-8", "UTF-16"); S r[2];
    for (int k = 0; k < 2; k++) { char b[4] = {}; if (reiconv_convert_static_size(c.cd, "A", 1, b, 4)) bad = 1; r[k] = S(b, 4); }
    eq("second conversion", r[1], r[0]); return bad;
}
""", also=["C04", "C15"])
s("c10-discard-unit", "C10", "an invalid unit in UCS-2-SWAPPED or UTF-32LE input with the discard flag",
  "one byte is skipped instead of the whole unit, so everything after it is misaligned",
  [(L, "                    case ei_ucs2internal:\n                    case ei_ucs2swapped:\n                        incount += 2;", "                    case ei_ucs2internal:\n                        incount += 2;")],
  """
int main() {
    S in("\\0a\\0b", 4); S x = S("\\0A\\xd8\\x00\\0B\\0C", 8);
    S got = once("UCS-2-SWAPPED", "UTF-8", x, true), got2 = once("UCS-2BE", "UTF-8", x, true);
    if (once("UCS-2-SWAPPED", "UTF-8", S("\\0A", 2)) == "A") eq("discard", got, got2);
    return bad;
}
""")
s("c10-discard-flush", "C10", "a held-back character that the target lacks at the end of the stream, with the discard flag",
  "the flush reports an error instead of discarding the character",
  [(L, "                result++;\n                if (cd->discard_ilseq)\n                {\n                    outcount = 0;\n                    goto outcount_ok;\n                }\n                outcount = cd->ofuncs.xxx_wctomb(cd, outptr, 0xFFFD, outleft);", "                result++;\n                outcount = cd->ofuncs.xxx_wctomb(cd, outptr, 0xFFFD, outleft);")],
  """
int main() {
    Cd c("CP1255", "ASCII", true); c.feed("a\\xe9"); c.flush(); eqn("flush error", c.err, 0); eq("text", c.out, "a"); return bad;
}
""", also=["C08"])
s("c11-ilseq-keeps-state", "C11", "a character the target lacks, decoded from an encoding whose decoder holds a character back",
  "after the error the decoder has already moved on, so repeating the call reports something else",
  [(L, "            cd->istate = last_istate;\n            errno = EILSEQ;\n            result = -1;\n            break;\n        outcount_ok:", "            errno = EILSEQ;\n            result = -1;\n            break;\n        outcount_ok:")],
  """
int main() {
    S in = "\\xe9zz"; Cd c("CP1255", "ASCII"); size_t u1 = c.feed(in); int e1 = c.err; S o1 = c.take(); size_t u2 = c.feed(in.substr(u1)); int e2 = c.err; S o2 = c.take();
    eqn("first error", e1, EILSEQ); eqn("second error", e2, EILSEQ); eqn("consumed by the repeated call", (long)u2, 0); eq("output of the repeated call", o2, ""); return bad;
}
""", also=["C01", "C12"])
s("c12-source-dependent", "C12", "U+FF5E arriving from GBK with a target that lacks it",
  "converting directly gives another result than converting via Unicode",
  [(L, "            if (outcount != RET_ILUNI)\n                goto outcount_ok;\n            /* Handle Unicode tag characters (range U+E0000..U+E007F). */\n            if ((wc >> 7) == (0xe0000 >> 7))\n                goto outcount_zero;\n            result++;\n            if (cd->discard_ilseq)\n            {\n                outcount = 0;\n                goto outcount_ok;\n            }\n            outcount = cd->ofuncs.xxx_wctomb(cd, outptr, 0xFFFD, outleft);\n            if (outcount != RET_ILUNI)\n                goto outcount_ok;\n            cd->istate", "            if (outcount != RET_ILUNI)\n                goto outcount_ok;\n            /* Chinese mapping of the wave dash. */\n            if (cd->iindex == ei_ces_gbk && wc == 0xff5e)\n            {\n                outcount = cd->ofuncs.xxx_wctomb(cd, outptr, 0x301c, outleft);\n                if (outcount != RET_ILUNI)\n                    goto outcount_ok;\n            }\n            /* Handle Unicode tag characters (range U+E0000..U+E007F). */\n            if ((wc >> 7) == (0xe0000 >> 7))\n                goto outcount_zero;\n            result++;\n            if (cd->discard_ilseq)\n            {\n                outcount = 0;\n                goto outcount_ok;\n            }\n            outcount = cd->ofuncs.xxx_wctomb(cd, outptr, 0xFFFD, outleft);\n            if (outcount != RET_ILUNI)\n                goto outcount_ok;\n            cd->istate")],
  """
int main() {
    const char *to[] = {"ISO-2022-JP", "SHIFT_JIS", "EUC-KR", "BIG5"};
    for (auto t : to) { Cd a("GBK", t), b("GBK", "UTF-8"), c("UTF-8", t); a.feed("\\xa1\\xab"); b.feed("\\xa1\\xab"); c.feed(b.out); eqn(t, a.err, c.err); eq(t, a.out, c.out); }
    return bad;
}
""", also=["C13", "C10"])
s("c13-cnext-newline", "C13", "text in ISO-2022-CN-EXT with a plane 3-7 character on two lines",
  "the designation is not repeated on the second line although the reader forgets it at the newline",
  [(C + "iso2022_cnext.h", "                state3 = STATE3_NONE;\n                state4 = STATE3_NONE;\n            }\n            COMBINE_STATE;\n            conv->ostate = state;", "                state3 = STATE3_NONE;\n            }\n            COMBINE_STATE;\n            conv->ostate = state;")],
  """
int main() {
    S ch; for (int k = 0; k < 94 * 94 && ch.empty(); k++) { S in = {(char)0x8e, (char)0xa3, (char)(0xa1 + k / 94), (char)(0xa1 + k % 94)}; Cd c("EUC-TW", "UTF-8"); c.feed(in); if (c.err) continue; S w = once("UTF-8", "ISO-2022-CN-EXT", c.out); if (w.find("\\x1bO") != S::npos) ch = c.out; }
    if (ch.empty()) { puts("no plane 3 character"); return 3; }
    S t = ch + "\\n" + ch; Cd e("UTF-8", "ISO-2022-CN-EXT"); e.feed(t); e.flush(); if (e.err) { puts("cannot encode"); return 3; }
    Cd d("ISO-2022-CN-EXT", "UTF-8"); d.feed(e.out); d.flush(); eqn("decode error", d.err, 0); eq("round trip", d.out, t); return bad;
}
""", also=["C18"])
s("c13-hangul-run", "C13", "JOHAB text in which a particular jamo follows; one value of a final-consonant table", "",
  [], "int main(){return 0;}") if False else None
s("c14-size-query-spins", "C14", "a size query or one-shot call on input that ends inside a character",
  "the query never returns",
  [(I, "        if (res == (size_t)(-1) && errno != E2BIG)\n        {\n            if (errno == EINVAL)\n            {\n                errno = EILSEQ;\n            }\n            return (size_t)(-1);\n        }", "        if (res == (size_t)(-1) && errno == EILSEQ)\n        {\n            return (size_t)(-1);\n        }")],
  """
#include <unistd.h>
int main() { alarm(5); Cd c("UTF-8", "UTF-16LE"); eqn("size of truncated input", (long)reiconv_result_size(c.cd, "a\\xe4\\xb8", 3), -1); return bad; }
""", also=["C08", "C16", "C07"])
s("c15-second-swap", "C15", "UTF-16 input with two swapped marks (two little-endian pieces with a big-endian one between, or a mark read after the order was learnt)",
  "a mark cannot switch the order back",
  [(C + "utf16.h", "            state ^= 1;", "            state = 1;")],
  """
int main() { eq("marks", once("UTF-16", "UTF-8", S("\\xff\\xfe" "a\\0" "\\xfe\\xff" "\\0b" "\\xff\\xfe" "c\\0", 12)), "abc"); return bad; }
""")
s("c15-order-lost-on-error", "C15", "a byte-order mark directly followed by an invalid unit at the start of UTF-32 input",
  "the mark is consumed but the byte order it announced is not kept",
  [(C + "utf32.h", "                conv->ibyteorder = state;\n                return RET_SHIFT_ILSEQ(count);", "                return RET_SHIFT_ILSEQ(count);")],
  """
int main() { S in("\\xff\\xfe\\0\\0" "\\0\\xd8\\0\\0" "a\\0\\0\\0", 12); Cd c("UTF-32", "UTF-8"); size_t u = c.feed(in); eqn("error", c.err, EILSEQ); u += 4 ; if (u > 8) u = 8; c.feed(in.substr(8)); eq("text", c.out, "a"); return bad; }
""", also=["C11", "C10", "C01"])
s("c16-java-half-pair", "C16", "JAVA input that ends after the first escape of a surrogate pair and the backslash of the second",
  "the truncated pair is passed through as literal backslash text instead of being reported as incomplete",
  [(C + "java.h", "    if (n < 8)\n        return RET_TOOFEW(0);\n    if (s[7] != 'u')", "    if (n < 8 || s[7] != 'u')")],
  """
int main() { Cd c("JAVA", "UTF-8"); c.feed("\\\\ud83d\\\\"); eqn("error", c.err, EINVAL); eq("output", c.out, ""); return bad; }
""", also=["C01"])
s("c17-dirty-byteorder", "C17", "opening a descriptor in recycled memory that is not zero",
  "a new UCS-4 descriptor reads little-endian without having seen a mark",
  [(I, "    cd->ostate = 0;\n    cd->ibyteorder = 0;", "    cd->ostate = 0;\n    if (fromcode == ei_utf16 || fromcode == ei_utf32 || fromcode == ei_ucs2)\n    {\n        cd->ibyteorder = 0; // Only the encodings with a byte-order mark use it.\n    }")],
  """
extern "C" void *__real_malloc(size_t); extern "C" void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) memset(p, 0xa5, n); return p; }
int main() { eq("new descriptor", once("UCS-4", "UTF-8", S("\\0\\0\\0a", 4)), "a"); return bad; }
""", flags="-Wl,--wrap=malloc", also=["C15", "C06", "C04"])
s("c17-stale-alias", "C17", "opening by one particular alias",
  "one alias opens a neighbouring encoding",
  [("lib/generated/aliases.h", "stringpool_str3885, ei_ebcdic1141}", "stringpool_str3885, ei_ebcdic1142}")],
  """
int main() { char n[64]; eqn("alias", 0, 0); int a = reiconv_lookup_from_name("EBCDIC1141"), b = reiconv_lookup_from_name("EBCDIC1142"); for (const char *x : {"IBM1141", "CP1141", "IBM-1141", "EBCDIC-CP-DE-EURO", "1141", "EBCDICDE273EURO", "CCSID01141", "EBCDIC-DE-273+EURO"}) { int k = reiconv_lookup_from_name(x); if (k >= 0 && k == reiconv_lookup_from_name("EBCDIC1142")) { printf("FAIL %s\\n", x); bad = 1; } if (k >= 0 && k == reiconv_lookup_from_name("CP1142")) { printf("FAIL %s\\n", x); bad = 1; } } (void)n; (void)a; (void)b; return bad; }
""")
s("c18-jp2-newline-g2", "C18", "ISO-2022-JP-2 text with a G2 (Latin-1 or Greek) character on two lines",
  "the G2 designation is not repeated after the newline, which RFC 1554 requires",
  [(C + "iso2022_jp2.h", "state2 = STATE_G2_NONE;", "state2 = state2;", "all")],
  """
int main() { S w = once("UTF-8", "ISO-2022-JP-2", "\\xc2\\xab\\n\\xc2\\xab"); size_t p = w.find('\\n'); if (p == S::npos || w.find("\\x1b.A", p) == S::npos) { printf("FAIL no designation after the newline: %s\\n", hex(w).c_str()); bad = 1; } return bad; }
""")
s("c18-kr-shift-at-flush", "C18", "ISO-2022-KR output flushed after a newline that follows Korean text",
  "output is left shifted out",
  [(C + "iso2022_kr.h", "    if (state1 != STATE_ASCII)\n    {\n        if (n < 1)", "    if (state1 != STATE_ASCII && state2 == 0)\n    {\n        if (n < 1)")],
  """
int main() { S w = once("UTF-8", "ISO-2022-KR", "\\xea\\xb0\\x80"); if (w.empty() || w.back() != 0x0f) { printf("FAIL not shifted back: %s\\n", hex(w).c_str()); bad = 1; } return bad; }
""", also=["C04", "C13"])
s("c19-cached-codeset", "C19", "a locale change between two queries",
  "the second query returns the encoding of the old locale",
  [("lib/locale_charset.c", "    return nl_langinfo(CODESET);", "    static char cached[64];\n    if (cached[0] == '\\0')\n    {\n        strncpy(cached, nl_langinfo(CODESET), sizeof(cached) - 1);\n    }\n    return cached;")],
  """
#include <clocale>
int main() {
    setlocale(LC_ALL, "C"); S a = locale_charset(); const char *u = setlocale(LC_ALL, "C.UTF-8"); if (!u) u = setlocale(LC_ALL, "C.utf8"); if (!u) { puts("no UTF-8 locale"); return 0; }
    S b = locale_charset(); printf("%s %s\\n", a.c_str(), b.c_str()); if (a == b) { puts("FAIL stale"); bad = 1; } return bad;
}
""", pre='gcc -O1 -DHAVE_LANGINFO_CODESET=1 -I"$here" -I"$PWD/lib" -I"$PWD/_build/include" -c "$PWD/lib/locale_charset.c" -o "$t/lc.o" || exit 2', flags='"$t/lc.o"', files={"cppp/cppp-platform.h": open(__file__.rsplit("/", 2)[0] + "/sim/cppp-platform.h.in").read()})
SEEDS = [x for x in SEEDS if x["edits"]]

s("c21-flush-not-counted", "C21", "a character held back by a composing decoder that the target lacks, delivered by the flush",
  "the flush replaces or drops the character but reports that nothing was lost",
  [(L, "        memset(&cd->ostate, '\\0', sizeof(state_t));\n        return result;\n    }", "        memset(&cd->ostate, '\\0', sizeof(state_t));\n        /* Everything has been delivered. */\n        return 0;\n    }")],
  r"""
int main() {
    reiconv_t h = reiconv_open("ISO-8859-1//IGNORE", "CP1255"); char in[] = "\xe0", out[64]; char *i = in, *o = out; size_t il = 1, ol = 64;
    size_t r = reiconv_iconv(h, &i, &il, &o, &ol), f = reiconv_iconv(h, nullptr, nullptr, &o, &ol); if (r + f != 1) { printf("FAIL counts %zd %zd\n", (ssize_t)r, (ssize_t)f); bad = 1; } reiconv_handle_close(h); return bad;
}
""")
s("c22-utf16le-high-high", "C22", "UTF-16LE input in which a high surrogate is followed by another high surrogate",
  "the two are accepted and yield a character that was never encoded",
  [(C + "utf16le.h", "if (!(wc2 >= 0xdc00 && wc2 < 0xe000))", "if (!(wc2 >= 0xd800 && wc2 < 0xe000))")],
  r"""
int main() {
    Cd c("UTF-16LE", "UTF-8"); size_t u = c.feed(S("\x3d\xd8\x3d\xd8\0\xde", 6)); if (u != 0 || !c.out.empty()) { printf("FAIL consumed %zu\n", u); bad = 1; } return bad;
}
""")
s("c22-utf8-beyond-range", "C22", "a four-byte UTF-8 sequence for a value above U+10FFFF whose lead byte is f4",
  "it is accepted as a character",
  [(C + "utf8.h", "          && (c < 0xf4 || (c == 0xf4 && s[1] < 0x90))))", "          && (c < 0xf4 || (c == 0xf4 && s[1] <= 0x90))))")],
  r"""
int main() {
    Cd c("UTF-8", "UCS-4BE"); size_t u = c.feed("a\xf4\x90\x80\x80z"); if (u != 1) { printf("FAIL consumed %zu\n", u); bad = 1; } return bad;
}
""")
s("c23-jp3-katakana-range", "C23", "ISO-2022-JP-3 input that, in the JIS X 0201 Katakana state, holds one of the unassigned codes 0x60..0x7f",
  "unassigned codes are read as characters which the encoding cannot write",
  [(C + "iso2022_jp3.h", "        if (c < 0x80) {\n          unsigned char buf = c+0x80;\n          int ret = jisx0201_mbtowc(conv,pwc,&buf,1);\n          if (ret == RET_ILSEQ)\n            goto ilseq;\n          if (ret != 1) abort();\n          conv->istate = state;", "        if (c >= 0x21 && c < 0x80) {\n          /* Half-width Katakana are contiguous in Unicode. */\n          *pwc = (ucs4_t) c + 0xff40;\n          conv->istate = state;")],
  r"""
int main() {
    Cd c("ISO-2022-JP-3", "UCS-4BE"); c.feed("\x1b(I\x31\x60\x31"); eq("only the assigned code", c.out, S("\0\0\xff\x71", 4)); return bad;
}
""")
s("c24-jpms-user-area-end", "C24", "the character U+E758, right behind the user-defined area of ISO-2022-JP-MS",
  "it is written, as a code no decoder accepts, instead of being refused",
  [(C + "iso2022_jpms.h", "    if (wc >= 0xe3ac && wc < 0xe758)", "    if (wc >= 0xe3ac && wc <= 0xe758)")],
  r"""
int main() {
    Cd c("UCS-4BE", "ISO-2022-JP-MS"); size_t u = c.feed(S("\0\0\0A\0\0\xe7\x58", 8)); if (u != 4) { printf("FAIL consumed %zu\n", u); bad = 1; } return bad;
}
""")
s("c14-cp950-needs-three", "C14", "an output buffer with exactly two bytes left in front of one of the CP950 extension characters",
  "the buffer is reported as full although the character fits, so that a buffer of exactly the right size never suffices",
  [(C + "cp950.h", "    if (ret != RET_ILUNI)\n    {\n        if (ret != 2)\n            abort();\n        if (n < 2)\n            return RET_TOOSMALL;\n        r[0] = buf[0];\n        r[1] = buf[1];\n        return 2;\n    }\n\n    return RET_ILUNI;", "    if (ret != RET_ILUNI)\n    {\n        if (ret != 2)\n            abort();\n        if (n < 3)\n            return RET_TOOSMALL;\n        r[0] = buf[0];\n        r[1] = buf[1];\n        return 2;\n    }\n\n    return RET_ILUNI;")],
  r"""
int main() {
    char out[2]; reiconv_t h = reiconv_open("CP950", "UTF-8"); char in[] = "\xe7\xa2\x81"; char *i = in, *o = out; size_t il = 3, ol = 2; S all = once("UTF-8", "CP950", S(in));
    if (all.size() != 2) return 2;
    size_t r = reiconv_iconv(h, &i, &il, &o, &ol); if (r != 0) { printf("FAIL full with room\n"); bad = 1; } reiconv_handle_close(h); return bad;
}
""")
s("c17-remembered-pointer", "C17", "a second open whose target name lies in the same buffer as the previous one's but is a different name",
  "the target encoding of the previous open is used",
  [(I, "    int from_index = reiconv_lookup_from_name(fromcode);\n    int to_index = reiconv_lookup_from_name(tocode);\n", "    static const char *last_name;\n    static int last_index = -1;\n    int from_index = reiconv_lookup_from_name(fromcode);\n    int to_index = last_name == tocode ? last_index : reiconv_lookup_from_name(tocode);\n    last_name = tocode;\n    last_index = to_index;\n")],
  r"""
int main() {
    char name[64]; strcpy(name, "UTF-16BE"); { Cd c("UTF-8", name); c.feed("A"); eq("first", c.out, S("\0A", 2)); }
    strcpy(name, "UTF-16LE"); { Cd c("UTF-8", name); c.feed("A"); eq("second", c.out, S("A\0", 2)); } return bad;
}
""", also=["C06"])
s("c22-utf8-copied", "C22", "at least 256 bytes of UTF-8 converted to UTF-8, among them an ill-formed sequence",
  "the bytes are copied without being checked",
  [(L, "    while (inleft > 0)\n    {\n        state_t last_istate", "    if (cd->iindex == cd->oindex && cd->iindex == ei_utf8 && inleft >= 256 && outleft >= inleft)\n    {\n        /* Nothing to convert. */\n        memcpy(outptr, inptr, inleft);\n        *inbuf += inleft;\n        *inbytesleft = 0;\n        *outbuf += inleft;\n        *outbytesleft = outleft - inleft;\n        return 0;\n    }\n    while (inleft > 0)\n    {\n        state_t last_istate")],
  r"""
int main() {
    for (size_t n : {20, 200, 300, 3000}) { Cd c("UTF-8", "UTF-8"); size_t u = c.feed(S(n, 'x') + "\xc0\x80" + S(n, 'y'), 20000); eqn("stops at the bad byte", u, n); eqn("invalid", c.err, EILSEQ); } return bad;
}
""", also=["C12"])
s("c21-sixteen-bit-count", "C21", "one call that replaces or drops at least 65536 characters",
  "the number returned is taken modulo 65536",
  [(L, "    size_t result = 0;\n    const unsigned char *inptr", "    unsigned short lost = 0;\n    size_t result = 0;\n    const unsigned char *inptr"),
   (L, "            result++;\n            if (cd->discard_ilseq)\n            {\n                outcount = 0;\n                goto outcount_ok;\n            }\n            outcount = cd->ofuncs.xxx_wctomb(cd, outptr, 0xFFFD, outleft);\n            if (outcount != RET_ILUNI)\n                goto outcount_ok;\n            cd->istate", "            result = ++lost;\n            if (cd->discard_ilseq)\n            {\n                outcount = 0;\n                goto outcount_ok;\n            }\n            outcount = cd->ofuncs.xxx_wctomb(cd, outptr, 0xFFFD, outleft);\n            if (outcount != RET_ILUNI)\n                goto outcount_ok;\n            cd->istate")],
  r"""
int main() {
    for (size_t n : {5, 300, 65536, 70000}) { Cd c("UTF-8", "ASCII", true); S in; for (size_t k = 0; k < n; k++) in += "\xc3\xa9"; c.feed(in, 16); eqn("losses", c.ret, n); } return bad;
}
""")
s("c11-cn-single-shift-designation", "C11", "ISO-2022-CN text whose G2 designation is followed by an invalid byte that the caller skips, and then by more G2 characters",
  "the designation is forgotten, so that the characters behind the error are refused",
  [(C + "iso2022_cn.h", "ilseq:\n    COMBINE_STATE;\n    conv->istate = state;", "ilseq:\n    state3 = STATE3_NONE;\n    COMBINE_STATE;\n    conv->istate = state;")],
  r"""
int main() {
    Cd e("UTF-8", "ISO-2022-CN"); e.feed("\xe4\xb9\x82"); e.flush(); S good = e.out; size_t at = good.find("\x1bN"); if (at == S::npos) return 2;
    S two = good.substr(0, at + 4); S ch = good.substr(at, 4);
    Cd p("ISO-2022-CN", "UTF-8"); p.feed(two + ch); Cd c("ISO-2022-CN", "UTF-8"); S in = two + "\xa0" + ch; size_t u = c.feed(in); eqn("stops", u, two.size()); c.feed(in.substr(u + 1)); eq("behind the error", c.out, p.out); return bad;
}
""", also=["C10"])
s("c05-flush-stops-at-loss", "C05", "a flush that replaces or drops the held-back character while the target is in a shifted state",
  "the sequence that returns to the initial state is left out",
  [(L, "        if (cd->ofuncs.xxx_reset)\n        {", "        if (cd->ofuncs.xxx_reset && result == 0)\n        {")],
  r"""
int main() {
    int held = 0;
    for (int r = 0xa1; r < 0xb0; r++) for (int c = 0xa1; c < 0xff; c++) {
        reiconv_t h = reiconv_open_from_name("EUC-JISX0213", "ISO-2022-CN", REICONV_DISCARD_ILSEQ); S t = S("\xc3\xe6") + (char)r + (char)c; char out[64]; char *i = t.data(), *o = out; size_t il = 4, ol = 64;
        ssize_t a = reiconv_iconv(h, &i, &il, &o, &ol), b = reiconv_iconv(h, nullptr, nullptr, &o, &ol); reiconv_handle_close(h); if (a != 0 || b != 1) continue; held++;
        S s(out, o - out); Cd d("ISO-2022-CN", "UTF-8"); d.feed(s + "AB"); size_t n = d.out.size(); if (n < 2 || d.out.substr(n - 2) != "AB") { printf("FAIL [%s]\n", hex(s).c_str()); return 1; }
    }
    return held ? 0 : 2;
}
""", also=["C18"])
s("c16-jp3-four-byte-escape", "C16", "an ISO-2022-JP-3 read, or a truncated input, that ends inside ESC $ ( O",
  "the incomplete escape sequence is reported as invalid input",
  [(C + "iso2022_jp3.h", "            if (n < count+4)\n              goto none;\n            if (s[3] == 'O'", "            if (n < count+4)\n              goto ilseq;\n            if (s[3] == 'O'")],
  r"""
int main() {
    S in = "A\x1b$(O"; for (size_t k = 2; k < 5; k++) { Cd c("ISO-2022-JP-3", "UTF-8"); size_t u = c.feed(in.substr(0, k)); eqn("consumed", u, 1); eqn("incomplete", c.err, EINVAL); } return bad;
}
""", also=["C01"])
