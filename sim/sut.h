// The system under test as the simulated callers see it, and what the callers' world can do.
#pragma once
#include "core.h"
#include <cppp/reiconv.h>
#include <functional>
#include <set>
#include <string_view>

struct Enc {
    std::string id, name;                 // C name and canonical name
    std::vector<std::string> aliases;
    std::vector<int> codepages; std::vector<std::pair<uint32_t, uint32_t>> holes; std::set<uint32_t> oneway;   // written, but read as something else
    int index = -1;                       // index in the tree under test (-1: not found there)
    int pinned = -1;
    uint32_t total = 0;
    struct Cls { const uint32_t *v; uint32_t n; };
    std::vector<Cls> cls;
    int unit = 1;                         // bytes a discard skips
    bool bom = false;                     // decoder learns the byte order
    bool bom_out = false;                 // encoder writes a mark
    bool composes = false;                // decoder composes across characters
    bool lags = false;                    // encoder or decoder holds back a character
    bool stateful = false;
};
extern std::vector<Enc> encs;
extern std::vector<int> all_ok, stateful_ids, lag_ids, wide_ids, shift_ids, multi_ids;
int enc_id(const char *cname);            // position in encs
extern int E_UCS4, E_UTF8;                // UCS-4-INTERNAL, UTF-8
struct Const { std::string name; int value, enc; };          // index constants of the public headers
extern std::vector<Const> consts;
bool in_repertoire(int e, uint32_t cp);
const std::vector<uint32_t> &repertoire(int e);             // sorted; a sample for the big ones
struct Charset { std::string name; const uint32_t *t; };
const Charset *charset(const char *name);
void model_load(const char *rep, const char *cs, const char *names);
void model_resolve();                     // look names up in the tree under test

// ---- calls -------------------------------------------------------------------------------------------------
struct CallR { size_t ret = 0; int err = 0; size_t used = 0; Bytes out; bool ok() const { return ret != (size_t)-1; } };
enum { V_OK = 0, V_ILSEQ = 1, V_INCOMPLETE = 2, V_FULL = 3, V_OTHER = 4 };
const char *vname(int v);
int verdict_of(const CallR &r);
extern bool strict_accounting;            // C03: every accounting slip is a violation
struct Cd {
    reiconv_t h = nullptr; int from = 0, to = 0, flag = 0; bool open = false; Bytes last;
    Cd() {}
    Cd(int f, int t, int fl) { open_index(f, t, fl); }
    Cd(const Cd &) = delete; Cd &operator=(const Cd &) = delete;
    ~Cd() { if (open) close(); }
    void open_index(int f, int t, int fl);
    void close();
    CallR iconv(const Bytes &in, size_t cap);              // one conversion call
    CallR flush(size_t cap);                               // one flush call
    void reset(int how = 0);                               // 0: all NULL, 1: pointer to NULL buffers
    size_t result_size(const Bytes &in, int &err);
    int convert_static(const Bytes &in, size_t cap, Bytes &out_window, int &err, size_t &end_hint);
    CallR iconv_huge(const Bytes &in, uint64_t inlen, uint64_t cap);      // announced sizes far beyond what is there: zeros behind the input, unlimited room
    CallR flush_huge(uint64_t cap);
    int static_huge(const Bytes &in, uint64_t cap, size_t look, Bytes &out, int &err);
    int convert(const Bytes &in, bool preallocated, Bytes &out, int &err, int &state);   // state: 0 ptr null, 1 valid
};
CallR feed_repeated(Cd &cd, const Bytes &unit, uint64_t count);                         // that many units in a row in one call
size_t result_size_repeated(Cd &cd, const Bytes &unit, uint64_t count, int &err);      // of that many units in a row
uint64_t huge_size(bool many = false);                      // a size at which some integer type wraps
static inline size_t ample(size_t n) { return 96 + 32 * n; }

// ---- streams under a schedule ----------------------------------------------------------------------------------
struct Sched {                            // how the caller's reads and writes behave
    std::vector<uint32_t> reads, caps;    // used cyclically; empty = everything at once / ample
    std::string text() const;
};
Sched gen_sched(bool cut, bool small, size_t inlen);
struct StreamR { Bytes out; size_t used = 0; int verdict = 0; Bytes fl; int flv = 0; uint64_t calls = 0; };
// runs the input through cd; stops at the end or at the first invalid unit (stepping over shift sequences and marks that
// produce nothing: whether the library has taken those in already is not observable as output)
typedef std::function<void(size_t used, const Bytes &out)> FullHook;
StreamR stream(Cd &cd, const Bytes &in, const Sched &s, bool do_flush = true, const FullHook *on_full = nullptr);
Bytes flush_all(Cd &cd, const std::vector<uint32_t> &caps, int &verdict);
bool same(const StreamR &a, const StreamR &b, std::string &why);
size_t settle(Cd &cd, const Bytes &in, size_t pos);         // after an invalid verdict: step over such sequences to the offending unit
std::string show(const StreamR &r);

// plain whole-input helpers (ample room, fresh descriptor)
StreamR whole(int from, int to, int flag, const Bytes &in, bool do_flush = true);
Bytes ucs4(const std::vector<uint32_t> &t);
std::vector<uint32_t> from_ucs4(const Bytes &b);
Bytes encode(int enc, const std::vector<uint32_t> &t);      // drops what the encoding lacks
std::string cps(const std::vector<uint32_t> &t);

// ---- generators --------------------------------------------------------------------------------------------------
typedef std::vector<uint32_t> Text;
struct GenOpt { bool only_supported = false, combining = true, wild = true, tags = true; uint32_t maxlen = 24; };
Text gen_text(int enc, int other, const GenOpt &o);
Bytes gen_valid(int enc, int other, const GenOpt &o);
Bytes gen_bytes(int enc, int other, uint32_t maxlen = 24);
Bytes maybe_big(const Bytes &b, uint32_t num, uint32_t den, size_t lo = 3800, size_t hi = 13000);
void pick_pair(int &from, int &to);
int pick_enc();
bool is_pair_lead(uint32_t c);
bool is_combining(uint32_t c);

typedef void (*PropFn)();
// rare conditions worth counting
enum Probe { P_PENDING_FLUSH, P_FULL_MIDCHAR, P_CUT_MIDCHAR, P_ILSEQ, P_INCOMPLETE, P_BIG, P_SHIFTED_ERROR, P_FLUSH_ILSEQ, P_MULTI_ERR, P_ONESHOT_FAIL, P_BOM_SWITCH };
struct Prop { const char *id; PropFn fn; };
extern const Prop props[]; extern const int nprops;
extern bool threaded_build;
