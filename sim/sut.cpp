#include <map>
#include "sut.h"
#include <cerrno>
#include <cstdlib>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>

std::vector<Enc> encs;
std::vector<int> all_ok, stateful_ids, lag_ids, wide_ids, shift_ids, multi_ids;
int E_UCS4, E_UTF8;
bool strict_accounting;
static std::vector<Charset> charsets;
static std::vector<std::vector<uint32_t>> rep_sorted;

static const char *map_file(const char *p, size_t &n) {
    int fd = open(p, O_RDONLY); struct stat st;
    if (fd < 0 || fstat(fd, &st)) { perror(p); _exit(70); }
    n = st.st_size; void *m = mmap(nullptr, n, PROT_READ, MAP_PRIVATE, fd, 0);
    if (m == MAP_FAILED) { perror(p); _exit(70); }
    close(fd); return (const char *)m;
}
int enc_id(const char *c) { for (size_t i = 0; i < encs.size(); i++) if (encs[i].id == c) return (int)i; fprintf(stderr, "no encoding %s\n", c); _exit(70); }
const Charset *charset(const char *n) { for (auto &c : charsets) if (c.name == n) return &c; fprintf(stderr, "no charset %s\n", n); _exit(70); }
static bool is(const Enc &e, std::initializer_list<const char *> l) { for (auto s : l) if (e.id == s) return true; return false; }
std::vector<Const> consts;
void model_load(const char *rep, const char *cs, const char *names) {
    std::ifstream f(names); std::string line; std::map<std::string, int> constenc;
    while (std::getline(f, line)) {
        std::istringstream is(line); std::string k; is >> k;
        if (k == "E") { Enc e; int i; is >> i >> e.id; e.pinned = i; std::string a; while (is >> a) e.aliases.push_back(a); e.name = e.aliases[0]; encs.push_back(e); }
        else if (k == "P") { int cp, i; is >> cp >> i; encs[i].codepages.push_back(cp); }
        else if (k == "H") { int i; uint32_t a, b; is >> i >> a >> b; encs[i].holes.push_back({a, b}); }
        else if (k == "C") { std::string n; int e; is >> n >> e; constenc[n] = e; }
        else if (k == "I") { int i; uint32_t a; is >> i >> a; encs[i].oneway.insert(a); }
    }
    { std::string cn = names; cn.replace(cn.rfind('/') + 1, std::string::npos, "consts.txt"); std::ifstream g(cn); std::string c; int v; while (g >> c >> v) if (constenc.count(c)) consts.push_back({c, v, constenc[c]}); }
    size_t n; const char *p = map_file(rep, n);
    const uint32_t *w = (const uint32_t *)p; size_t k = 2;
    if (w[0] != 0x31504552 || w[1] != encs.size()) { fprintf(stderr, "bad model\n"); _exit(70); }
    for (auto &e : encs) {
        e.total = w[k++]; uint32_t nc = w[k++];
        std::vector<uint32_t> all;
        for (uint32_t c = 0; c < nc; c++) { uint32_t m = w[k++]; e.cls.push_back({w + k, m}); all.insert(all.end(), w + k, w + k + m); k += m; }
        std::sort(all.begin(), all.end()); rep_sorted.push_back(std::move(all));
    }
    p = map_file(cs, n); uint32_t m = *(const uint32_t *)p; p += 4;
    for (uint32_t i = 0; i < m; i++) { charsets.push_back({std::string(p), (const uint32_t *)(p + 16)}); p += 16 + 94 * 94 * 8; }
    for (auto &e : encs) {
        if (is(e, {"ucs4", "ucs4be", "ucs4le", "utf32", "utf32be", "utf32le", "ucs4internal", "ucs4swapped"})) e.unit = 4;
        if (is(e, {"ucs2", "ucs2be", "ucs2le", "utf16", "utf16be", "utf16le", "ucs2internal", "ucs2swapped"})) e.unit = 2;
        e.bom = is(e, {"utf16", "utf32", "ucs2", "ucs4"});
        e.bom_out = is(e, {"utf16", "utf32"});
        bool hk = e.id.rfind("big5hkscs", 0) == 0;
        bool jx = is(e, {"euc_jisx0213", "shift_jisx0213", "iso2022_jp3"});
        e.composes = is(e, {"cp1255", "cp1258", "tcvn"}) || hk || jx;
        e.lags = e.composes;
        bool shift = e.id.rfind("iso2022", 0) == 0 || is(e, {"hz", "utf7"});
        e.stateful = e.bom || e.composes || shift;
    }
}
void model_resolve() {
    for (auto &e : encs) { LibScope s; e.index = reiconv_lookup_from_name(e.name.c_str()); }
    for (size_t i = 0; i < encs.size(); i++) {
        auto &e = encs[i];
        if (e.index < 0) continue;
        all_ok.push_back(i);
        if (e.stateful) stateful_ids.push_back(i);
        if (e.lags) lag_ids.push_back(i);
        if (e.unit > 1) wide_ids.push_back(i);
        if (e.total > 300) multi_ids.push_back(i);
        if (e.id.rfind("iso2022", 0) == 0 || e.id == "hz" || e.id == "utf7") shift_ids.push_back(i);
    }
    E_UCS4 = enc_id("ucs4internal"); E_UTF8 = enc_id("utf8");
    if (encs[E_UCS4].index < 0 || encs[E_UTF8].index < 0) { fprintf(stderr, "UCS-4-INTERNAL or UTF-8 cannot be looked up\n"); shm->status = 2; snprintf(shm->cls, sizeof shm->cls, "lookup-broken"); snprintf(shm->msg, sizeof shm->msg, "lookup of UCS-4-INTERNAL or UTF-8 fails"); _exit(67); }
}
const std::vector<uint32_t> &repertoire(int e) { return rep_sorted[e]; }
bool in_repertoire(int e, uint32_t c) {
    const Enc &x = encs[e];
    if (c >= 0xd800 && c < 0xe000) return false;
    if (x.total > 60000) {
        for (auto &h : x.holes) if (c >= h.first && c <= h.second) return false;
        return x.total > 1000000 ? c < 0x110000 : c < 0x10000;
    }
    return std::binary_search(rep_sorted[e].begin(), rep_sorted[e].end(), c);
}

// ---- guarded buffer pool -----------------------------------------------------------------------------------
enum { NG = 24 };
static Guard pool[NG]; static bool pool_init; static std::vector<int> pool_free; static uint32_t pool_tick;
struct GuardRef {
    int k; char *p;
    GuardRef(size_t n) {
        if (!pool_init) { for (auto &g : pool) g.init(6u << 20); for (int i = 0; i < NG; i++) pool_free.push_back(i); pool_init = true; }
        if (pool_free.empty()) throw EndRun();
        // alternate between two places so that callers' buffers move from call to call
        size_t at = pool_free.size() - 1; if (pool_free.size() > 2 && (pool_tick++ & 1)) { at--; fault(F_RELOCATE); }
        k = pool_free[at]; pool_free.erase(pool_free.begin() + at);
        p = pool[k].open(n, (pool_tick >> 1) % 5 == 4 ? (pool_tick >> 3) & 7 : 0);
    }
    ~GuardRef() { pool[k].close(); pool_free.push_back(k); }
};
void pool_reset() { if (pool_init) { pool_free.clear(); for (auto &g : pool) g.close(); for (int i = 0; i < NG; i++) pool_free.push_back(i); } pool_tick = 0; }

static const int errno_noise[] = {0, E2BIG, EILSEQ, EINVAL, ENOMEM, EINTR};
static void dirty_errno() { errno = errno_noise[pool_tick % 6]; fault(F_ERRNO_NOISE); }

const char *vname(int v) { static const char *n[] = {"complete", "invalid", "incomplete", "full", "other-error"}; return n[v]; }
int verdict_of(const CallR &r) {
    if (r.ok()) return V_OK;
    if (r.err == EILSEQ) return V_ILSEQ;
    if (r.err == EINVAL) return V_INCOMPLETE;
    if (r.err == E2BIG) return V_FULL;
    return V_OTHER;
}
static uint64_t step_budget(size_t n) { return 4000000ull + 200000ull * n; }

void Cd::open_index(int f, int t, int fl) {
    from = f; to = t; flag = fl;
    LibScope s;
    h = reiconv_open_from_index(encs[f].index, encs[t].index, (enum ConvertFlag)fl);
    open = h != (reiconv_t)-1;
    if (!open && !alloc_plan.on) throw EndRun();
}
void Cd::close() { if (!open) return; open = false; LibScope s; reiconv_handle_close(h); }

CallR Cd::iconv(const Bytes &in, size_t cap) {
    CallR r; GuardRef gi(in.size()), go(cap);
    memcpy(gi.p, in.data(), in.size());
    char *ip = gi.p, *op = go.p; size_t il = in.size(), ol = cap;
    dirty_errno();
    { LibScope s(step_budget(in.size() + cap)); r.ret = reiconv_iconv(h, &ip, &il, &op, &ol); r.err = errno; }
    if (ip < gi.p || ip > gi.p + in.size() || op < go.p || op > go.p + cap)
        fail("accounting", "pointers left the buffers: consumed %td of %zu, produced %td of %zu (%s -> %s)", ip - gi.p, in.size(), op - go.p, cap, encs[from].name.c_str(), encs[to].name.c_str());
    r.used = ip - gi.p; r.out.assign(go.p, op - go.p);
    if (strict_accounting) {
        REQUIRE(r.used + il == in.size(), "accounting", "input count: consumed %zu, left %zu, given %zu", r.used, il, in.size());
        REQUIRE(r.out.size() + ol == cap, "accounting", "output count: produced %zu, left %zu, given %zu", r.out.size(), ol, cap);
        REQUIRE(memcmp(gi.p, in.data(), in.size()) == 0, "input-modified", "the call changed its input");
        if (r.ok()) { REQUIRE(il == 0, "accounting", "success with %zu bytes unconsumed", il);
            REQUIRE(r.ret <= in.size() + 1, "accounting", "success value %zu larger than the number of bytes given", r.ret); }
        else REQUIRE(r.err == E2BIG || r.err == EILSEQ || r.err == EINVAL, "errno", "failure with errno %d", r.err);
        if (!r.ok()) REQUIRE(il > 0, "errno", "errno %d with no input left", r.err);
    }
    shm->bytes_in += r.used; shm->bytes_out += r.out.size();
    mix(r.ok() ? r.ret * 8 + 1 : (uint64_t)r.err * 8 + 2); mix(r.used); mix(r.out);
    if (verbose) logf("  iconv(in=[%s], room=%zu) -> %s%s consumed=%zu out=[%s]", hex(in, 40).c_str(), cap, r.ok() ? "ok" : "error ", r.ok() ? "" : strerror(r.err), r.used, hex(r.out, 48).c_str());
    return r;
}
CallR Cd::flush(size_t cap) {
    CallR r; GuardRef go(cap); char *op = go.p; size_t ol = cap;
    char *nul = nullptr; size_t z = 0; bool form = (pool_tick >> 2) & 1;
    dirty_errno();
    { LibScope s(step_budget(cap)); r.ret = form ? reiconv_iconv(h, &nul, &z, &op, &ol) : reiconv_iconv(h, nullptr, nullptr, &op, &ol); r.err = errno; }
    if (op < go.p || op > go.p + cap) fail("accounting", "flush left the buffer: produced %td of %zu", op - go.p, cap);
    r.out.assign(go.p, op - go.p);
    if (strict_accounting) {
        REQUIRE(r.out.size() + ol == cap, "accounting", "flush count: produced %zu, left %zu, given %zu", r.out.size(), ol, cap);
        if (!r.ok()) REQUIRE(r.err == E2BIG || r.err == EILSEQ, "errno", "flush failure with errno %d", r.err);
    }
    mix(r.ok() ? r.ret * 8 + 3 : (uint64_t)r.err * 8 + 4); mix(r.out);
    if (verbose) logf("  flush(room=%zu) -> %s%s out=[%s]", cap, r.ok() ? "ok" : "error ", r.ok() ? "" : strerror(r.err), hex(r.out, 48).c_str());
    return r;
}
void Cd::reset(int how) {
    char *nul = nullptr; size_t z = 0; size_t ret;
    dirty_errno();
    { LibScope s; ret = how ? reiconv_iconv(h, &nul, &z, &nul, &z) : reiconv_iconv(h, nullptr, nullptr, nullptr, nullptr); }
    if (verbose) logf("  reset(form %d) -> %zd", how, (ssize_t)ret);
    mix(0x2E5E7); mix(ret);
}
size_t Cd::result_size(const Bytes &in, int &err) {
    GuardRef gi(in.size()); memcpy(gi.p, in.data(), in.size()); size_t r;
    dirty_errno();
    { LibScope s(step_budget(in.size() * 4)); r = reiconv_result_size(h, gi.p, in.size()); err = errno; }
    if (strict_accounting) REQUIRE(memcmp(gi.p, in.data(), in.size()) == 0, "input-modified", "the size query changed its input");
    if (r != (size_t)-1) err = 0;
    mix(r * 2 + 5); mix(err);
    if (verbose) logf("  result_size([%s]) -> %zd%s%s", hex(in, 40).c_str(), (ssize_t)r, err ? " " : "", err ? strerror(err) : "");
    return r;
}
int Cd::convert_static(const Bytes &in, size_t cap, Bytes &win, int &err, size_t &hint) {
    GuardRef gi(in.size()), go(cap); memcpy(gi.p, in.data(), in.size());
    for (size_t i = 0; i < cap; i++) go.p[i] = (char)(0xA5 ^ (i * 7));
    int r; dirty_errno();
    { LibScope s(step_budget(in.size() * 2 + cap)); r = reiconv_convert_static_size(h, gi.p, in.size(), go.p, cap); err = errno; }
    if (strict_accounting) REQUIRE(memcmp(gi.p, in.data(), in.size()) == 0, "input-modified", "the fixed-buffer conversion changed its input");
    win.assign(go.p, cap); hint = cap; while (hint > 0 && (unsigned char)win[hint - 1] == (unsigned char)(0xA5 ^ ((hint - 1) * 7))) hint--;
    if (r == 0) err = 0;
    mix(r * 2 + 7); mix(err); if (r == 0) mix(win.substr(0, hint));
    if (verbose) logf("  convert_static([%s], room=%zu) -> %d%s%s out=[%s]", hex(in, 40).c_str(), cap, r, err ? " " : "", err ? strerror(err) : "", hex(win.substr(0, hint), 48).c_str());
    return r;
}
int Cd::convert(const Bytes &in, bool pre, Bytes &out, int &err, int &state) {
    GuardRef gi(in.size()); memcpy(gi.p, in.data(), in.size());
    char *p = nullptr; size_t len = 0x5a5a;
    if (pre) { bool was = alloc_plan.on; alloc_plan.on = false; p = (char *)sim_malloc(1 + in.size() % 50); alloc_plan.on = was; }
    int r; dirty_errno();
    { LibScope s(step_budget(in.size() * 8)); r = reiconv_convert(h, gi.p, in.size(), &p, &len); err = errno; }
    if (r == 0) err = 0;
    out.clear(); state = p != nullptr;
    if (r == 0) {
        if (p == nullptr && len != 0) fail("convert-result", "success with a null buffer and length %zu", len);
        if (p) {
            if (!heap_owns(p)) fail("convert-result", "the returned buffer is not a live allocation");
            if (len > (3u << 20)) fail("convert-result", "absurd result length %zu", len);
            out.assign(p, len);
        }
    }
    if (p) { if (!heap_owns(p)) fail("convert-dangling", "after the call (%d) the caller's buffer pointer is not null and not a live allocation", r); sim_free(p); }
    mix(r * 2 + 9); mix(err); mix(out);
    if (verbose) logf("  convert([%s], buffer=%s) -> %d%s%s out=[%s]", hex(in, 40).c_str(), pre ? "given" : "null", r, err ? " " : "", err ? strerror(err) : "", hex(out, 48).c_str());
    return r;
}

// ---- announced sizes of gigabytes: address space without memory behind it, except where it is touched -----------------------------
static const uint64_t HUGE_MAX = (4ull << 30) + (1ull << 20), HUGE_FRONT = 1u << 20;
static char *huge_map(int which) {
    static char *m[2];
    if (!m[which]) { void *p = mmap(nullptr, HUGE_MAX + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) throw EndRun(); m[which] = (char *)p; }
    return m[which];
}
struct HugeUse { int w; char *p; HugeUse(int which) : w(which), p(huge_map(which)) {} ~HugeUse() { madvise(p, HUGE_FRONT, MADV_DONTNEED); } };
uint64_t huge_size(bool many) {
    static const uint64_t b[] = {1ull << 32, 1ull << 31, 1ull << 16, 1ull << 15};
    return b[draw(many ? 4 : 2)] + draw(48) - (draw(3) == 2 ? 1 : 0);
}
CallR Cd::iconv_huge(const Bytes &in, uint64_t inlen, uint64_t cap) {
    CallR r; HugeUse gi(0), go(1); memcpy(gi.p, in.data(), in.size()); char *ip = gi.p, *op = go.p; size_t il = inlen, ol = cap; dirty_errno();
    { LibScope s(20000000); r.ret = reiconv_iconv(h, &ip, &il, &op, &ol); r.err = errno; }
    if (ip < gi.p || ip > gi.p + inlen || op < go.p || op > go.p + cap || op > go.p + HUGE_FRONT) fail("accounting", "pointers left the buffers: consumed %td of %llu, produced %td of %llu (%s -> %s)", ip - gi.p, (unsigned long long)inlen, op - go.p, (unsigned long long)cap, encs[from].name.c_str(), encs[to].name.c_str());
    r.used = ip - gi.p; r.out.assign(go.p, op - go.p);
    REQUIRE(r.used + il == inlen && r.out.size() + ol == cap, "accounting", "counts: consumed %zu of %llu, %zu said to be left; produced %zu into room %llu, %zu said to be left", r.used, (unsigned long long)inlen, il, r.out.size(), (unsigned long long)cap, ol);
    mix(r.ok() ? r.ret * 8 + 1 : (uint64_t)r.err * 8 + 2); mix(r.used); mix(r.out);
    if (verbose) logf("  iconv(in=[%s] and so on, %llu bytes, room=%llu) -> %s%s consumed=%zu out=[%s]", hex(in, 40).c_str(), (unsigned long long)inlen, (unsigned long long)cap, r.ok() ? "ok" : "error ", r.ok() ? "" : strerror(r.err), r.used, hex(r.out, 48).c_str());
    return r;
}
CallR Cd::flush_huge(uint64_t cap) {
    CallR r; HugeUse go(1); char *op = go.p; size_t ol = cap; dirty_errno();
    { LibScope s; r.ret = reiconv_iconv(h, nullptr, nullptr, &op, &ol); r.err = errno; }
    if (op < go.p || op > go.p + HUGE_FRONT) fail("accounting", "flush left the buffer");
    r.out.assign(go.p, op - go.p); REQUIRE(r.out.size() + ol == cap, "accounting", "flush count: produced %zu into room %llu, %zu said to be left", r.out.size(), (unsigned long long)cap, ol);
    mix(r.ok() ? r.ret * 8 + 3 : (uint64_t)r.err * 8 + 4); mix(r.out);
    if (verbose) logf("  flush(room=%llu) -> %s%s out=[%s]", (unsigned long long)cap, r.ok() ? "ok" : "error ", r.ok() ? "" : strerror(r.err), hex(r.out, 48).c_str());
    return r;
}
int Cd::static_huge(const Bytes &in, uint64_t cap, size_t look, Bytes &out, int &err) {
    GuardRef gi(in.size()); HugeUse go(1); memcpy(gi.p, in.data(), in.size()); int r; dirty_errno();
    { LibScope s(step_budget(in.size() * 4)); r = reiconv_convert_static_size(h, gi.p, in.size(), go.p, cap); err = errno; }
    if (r == 0) err = 0;
    out.assign(go.p, look); mix(r * 2 + 7); mix(err); mix(out);
    if (verbose) logf("  convert_static([%s], room=%llu) -> %d%s%s out=[%s]", hex(in, 40).c_str(), (unsigned long long)cap, r, err ? " " : "", err ? strerror(err) : "", hex(out, 48).c_str());
    return r;
}
// one stretch of memory mapped over and over
struct Repeated {
    char *m; uint64_t len, total;
    Repeated(const Bytes &unit, uint64_t count) {
        size_t ch = unit.size() * 4096 * 256; int fd = memfd_create("rep", 0); if (fd < 0 || ftruncate(fd, ch)) throw EndRun();
        char *c = (char *)mmap(nullptr, ch, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (c == MAP_FAILED) { close(fd); throw EndRun(); }
        for (size_t i = 0; i < ch; i += unit.size()) memcpy(c + i, unit.data(), unit.size());
        munmap(c, ch); len = unit.size() * count; uint64_t n = (len + ch - 1) / ch; total = n * ch; m = (char *)mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); bool ok = m != MAP_FAILED;
        for (uint64_t k = 0; ok && k < n; k++) ok = mmap(m + k * ch, ch, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED;
        close(fd); if (!ok) { if (m != MAP_FAILED) munmap(m, total); throw EndRun(); }
    }
    ~Repeated() { munmap(m, total); }
};
size_t result_size_repeated(Cd &cd, const Bytes &unit, uint64_t count, int &err) {
    Repeated in(unit, count); size_t r; dirty_errno();
    { LibScope s(400ull * count); r = reiconv_result_size(cd.h, in.m, in.len); err = r == (size_t)-1 ? errno : 0; }
    mix(r * 2 + 5); mix(err); if (verbose) logf("  result_size(%llu times [%s]) -> %zd%s%s", (unsigned long long)count, hex(unit).c_str(), (ssize_t)r, err ? " " : "", err ? strerror(err) : "");
    return r;
}
CallR feed_repeated(Cd &cd, const Bytes &unit, uint64_t count) {
    Repeated in(unit, count); GuardRef go(256); CallR r; char *ip = in.m, *op = go.p; size_t il = in.len, ol = 256; dirty_errno();
    if (verbose) logf("  iconv(%llu times [%s], %llu bytes, room=256)", (unsigned long long)count, hex(unit).c_str(), (unsigned long long)in.len);
    { LibScope s(1000000 + 400ull * count); r.ret = reiconv_iconv(cd.h, &ip, &il, &op, &ol); r.err = errno; }
    if (ip < in.m || ip > in.m + in.len || op < go.p || op > go.p + 256 || (uint64_t)(ip - in.m) + il != in.len || (uint64_t)(op - go.p) + ol != 256) fail("accounting", "consumed %td of %llu, %zu said to be left; produced %td into 256, %zu said to be left", ip - in.m, (unsigned long long)in.len, il, op - go.p, ol);
    r.used = ip - in.m; r.out.assign(go.p, op - go.p);
    mix(r.ok() ? r.ret * 8 + 1 : (uint64_t)r.err * 8 + 2); mix(r.used); mix(r.out);
    if (verbose) logf("    -> %s%s consumed=%zu out=[%s]", r.ok() ? "ok" : "error ", r.ok() ? "" : strerror(r.err), r.used, hex(r.out, 48).c_str());
    return r;
}

// ---- streams -------------------------------------------------------------------------------------------------
std::string Sched::text() const {
    std::string s = "reads="; if (reads.empty()) s += "all"; for (size_t i = 0; i < reads.size() && i < 24; i++) s += (i ? "," : "") + std::to_string(reads[i]);
    s += " rooms="; if (caps.empty()) s += "ample"; for (size_t i = 0; i < caps.size() && i < 24; i++) s += (i ? "," : "") + std::to_string(caps[i]);
    return s;
}
Sched gen_sched(bool cut, bool small, size_t n) {
    Sched s; uint32_t sc = n > 400 ? (uint32_t)(n / 24) : 1;
    if (cut) {
        switch (draw(6)) {
        case 0: s.reads = {(uint32_t)draw((uint32_t)n + 1), 1u << 30}; break;
        case 1: s.reads = {1 * sc}; break;
        case 2: for (int k = range(1, 6); k > 0; k--) s.reads.push_back(range(1, 4) * sc); break;
        case 3: for (int k = range(1, 6); k > 0; k--) s.reads.push_back(draw(8) * sc); s.reads.push_back(1 * sc); break;
        case 4: { uint32_t a = draw((uint32_t)n + 1); s.reads = {a, (uint32_t)draw((uint32_t)(n - a) + 1), 1u << 30}; break; }
        default: s.reads = {(uint32_t)range(1, 3) * sc, 0, (uint32_t)range(1, 9) * sc}; break;
        }
    }
    if (small) {
        switch (draw(8)) {
        case 0: s.caps = {(uint32_t)draw(24) * sc, 1u << 20}; break;
        case 6: s.caps = {n > 400 ? sc : 0u}; fault(F_SIZE_SWEEP); break;      // every character meets every room from 0 up
        case 1: s.caps = {(uint32_t)range(1, 12) * sc}; break;
        case 2: for (int k = range(1, 6); k > 0; k--) s.caps.push_back(draw(13) * sc); break;
        case 3: for (int k = range(1, 6); k > 0; k--) s.caps.push_back(draw(40) * sc); break;
        case 4: s.caps = {0, (uint32_t)range(1, 8) * sc}; break;
        case 5: s.caps = {1 * sc}; break;
        default: { uint32_t a = draw((uint32_t)std::min<size_t>(n * 4, 200) + 1); s.caps = {a, (uint32_t)draw(10), 1u << 20}; break; }
        }
    }
    return s;
}
StreamR stream(Cd &cd, const Bytes &in, const Sched &s, bool do_flush, const FullHook *on_full) {
    StreamR R; size_t pos = 0, fed = 0, ri = 0, ci = 0; uint32_t stuck = 0; size_t limit = 400 + 40 * in.size();
    auto feed = [&]() {
        size_t left = in.size() - fed;
        if (s.reads.empty()) { fed = in.size(); return; }
        size_t k = s.reads[ri++ % s.reads.size()];
        if (k < left) fault(k ? F_SHORT_READ : F_EMPTY_READ);
        fed += std::min(k, left);
    };
    auto room = [&]() -> size_t {
        size_t full = ample(fed - pos);
        if (s.caps.empty()) return full;
        size_t k = s.caps[ci % s.caps.size()] + stuck;         // grows by one while nothing moves: finds the exact threshold
        if (k < full) fault(k ? F_SHORT_WRITE : F_FULL_ZERO);
        return std::min(k, full);
    };
    feed();
    for (;;) {
        CallR r = cd.iconv(in.substr(pos, fed - pos), room());
        R.calls++; pos += r.used; R.out += r.out;
        if (R.calls > limit) fail("no-progress", "%s -> %s: stream makes no progress after %llu calls", encs[cd.from].name.c_str(), encs[cd.to].name.c_str(), (unsigned long long)R.calls);
        int v = verdict_of(r);
        if (v == V_FULL) { if (r.out.empty() && r.used == 0 && stuck) shm->probe[P_FULL_MIDCHAR]++; if (on_full) (*on_full)(pos, R.out); if (r.used || !r.out.empty()) { stuck = 0; ci++; } else stuck++; continue; }
        stuck = 0;
        if (v == V_OK || v == V_INCOMPLETE) {
            if (v == V_OK && pos != fed) fail("accounting", "success but %zu of %zu consumed", pos, fed);
            if (fed == in.size()) { R.verdict = v; break; }
            if (v == V_INCOMPLETE) shm->probe[P_CUT_MIDCHAR]++;
            ci++; feed(); continue;
        }
        R.verdict = v; if (v == V_ILSEQ) pos = settle(cd, in, pos); break;
    }
    R.used = pos;
    if (do_flush) { R.fl = flush_all(cd, s.caps, R.flv); if (R.verdict == V_ILSEQ && !R.fl.empty()) shm->probe[P_SHIFTED_ERROR]++; if (!R.fl.empty()) shm->probe[P_PENDING_FLUSH]++; if (R.flv == V_ILSEQ) shm->probe[P_FLUSH_ILSEQ]++; }
    if (R.verdict == V_INCOMPLETE) shm->probe[P_INCOMPLETE]++; if (in.size() > 4096) shm->probe[P_BIG]++;
    return R;
}
Bytes flush_all(Cd &cd, const std::vector<uint32_t> &caps, int &v) {
    Bytes o; size_t ci = 0; uint32_t stuck = 0; int calls = 0;
    for (;;) {
        size_t full = 64, k = caps.empty() ? full : caps[ci % caps.size()] + stuck; if (k > full) k = full;
        if (k < full) fault(F_FLUSH_SMALL);
        CallR r = cd.flush(k); o += r.out; v = verdict_of(r);
        if (v != V_FULL) break;
        if (k >= full && r.out.empty()) break;
        if (r.out.empty()) stuck++; else { stuck = 0; ci++; }
        if (++calls > 400) fail("no-progress", "flush into %s never completes", encs[cd.to].name.c_str());
    }
    return o;
}
std::string show(const StreamR &r) { return "out=[" + hex(r.out) + "] verdict=" + vname(r.verdict) + " consumed=" + std::to_string(r.used) + " flush=[" + hex(r.fl) + "]/" + vname(r.flv); }
bool same(const StreamR &a, const StreamR &b, std::string &why) {
    if (a.verdict != b.verdict) { why = "verdict"; return false; }
    if (a.used != b.used) { why = "position"; return false; }
    if (a.out != b.out) { why = "output"; return false; }
    if (a.flv != b.flv) { why = "flush verdict"; return false; }
    if (a.fl != b.fl) { why = "flush output"; return false; }
    return true;
}
size_t settle(Cd &cd, const Bytes &in, size_t pos) {
    shm->probe[P_ILSEQ]++;
    if (pos < in.size()) {
        CallR q = cd.iconv(in.substr(pos), 64); const char *f = encs[cd.from].name.c_str(), *t = encs[cd.to].name.c_str();
        if (verdict_of(q) != V_ILSEQ || q.used || !q.out.empty()) fail("error-not-stable", "%s -> %s: repeating the call at the invalid position %zu of [%s] gives %s, consumes %zu and produces [%s]", f, t, pos, hex(in).c_str(), vname(verdict_of(q)), q.used, hex(q.out).c_str());
    }
    for (size_t n = 1; pos < in.size(); ) {
        CallR r = cd.iconv(in.substr(pos, n), 64); int v = verdict_of(r);
        if (!r.out.empty()) fail("error-not-precise", "%s -> %s: reported invalid at %zu of [%s], but the bytes there convert to [%s]", encs[cd.from].name.c_str(), encs[cd.to].name.c_str(), pos, hex(in).c_str(), hex(r.out).c_str());
        pos += r.used;
        if (v == V_ILSEQ) { if (r.used == 0) return pos; n = 1; continue; }
        if (v == V_OK || r.used) { n = 1; continue; }
        if (v != V_INCOMPLETE || pos + n >= in.size() || n > 64) fail("error-vanishes", "%s -> %s: reported invalid in [%s], but at %zu %zu bytes give %s", encs[cd.from].name.c_str(), encs[cd.to].name.c_str(), hex(in).c_str(), pos, n, vname(v));
        n++;
    }
    return pos;
}
StreamR whole(int from, int to, int flag, const Bytes &in, bool fl) { Cd cd(from, to, flag); Sched s; return stream(cd, in, s, fl); }
Bytes ucs4(const std::vector<uint32_t> &t) { return Bytes((const char *)t.data(), t.size() * 4); }
std::vector<uint32_t> from_ucs4(const Bytes &b) { std::vector<uint32_t> t(b.size() / 4); memcpy(t.data(), b.data(), t.size() * 4); return t; }
Bytes encode(int enc, const std::vector<uint32_t> &t) {
    bool v = verbose; verbose = false; Bytes r;
    try { StreamR R = whole(E_UCS4, enc, REICONV_DISCARD_ILSEQ, ucs4(t)); r = R.out + R.fl; } catch (...) { verbose = v; throw; }
    verbose = v; return r;
}
std::string cps(const std::vector<uint32_t> &t) { std::string s; char b[16]; for (size_t i = 0; i < t.size() && i < 40; i++) { snprintf(b, 16, "%sU+%04X", i ? " " : "", t[i]); s += b; } if (t.size() > 40) s += " ..."; return s; }
