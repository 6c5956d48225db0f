// C06: several caller threads, several descriptors, every preemption decided by the tape.
#include "sut.h"
#include "simsched.h"
#include <cppp/reiconv.hpp>
#include <cerrno>
#include <memory>
#include <map>
namespace {
enum OpKind { O_OPEN, O_OPEN_NAME, O_FEED, O_FLUSH, O_RESET, O_SIZE, O_STATIC, O_CONVERT, O_CLOSE, O_LOOKUP, O_CODEPAGE, O_CPP, O_CPP_ENC, O_CANON };
const char *op_name[] = {"open", "open-by-name", "feed", "flush", "reset", "size", "static", "convert", "close", "lookup", "codepage", "C++ convert", "C++ encoding", "canonicalize"};
struct Op { int kind; Bytes in; size_t cap = 0; std::string name, name2; int cp = 0; bool pre = false; };
struct Session {
    int from, to, flag; std::vector<Op> ops;
    size_t next = 0; bool busy = false; int last_tid = -1; Cd cd; Bytes tail; std::vector<std::string> log;
    void rewind() { cd.close(); next = 0; busy = false; last_tid = -1; tail.clear(); log.clear(); }
};
std::string text(const CallR &r, bool fl) { return std::string(vname(verdict_of(r))) + " ret " + std::to_string(r.ok() ? (long)r.ret : -1L) + (fl ? "" : " consumed " + std::to_string(r.used)) + " [" + hex(r.out, 200) + "]"; }
// equal names live at the same address, as string constants of a program do
std::map<std::string, std::string> names;
const char *at(const std::string &n) { return names.emplace(n, n).first->second.c_str(); }
// one library call; everything the caller can see goes into the transcript
std::string do_op(Session &s, const Op &o) {
    Bytes out; int err = 0, st = 0; size_t h;
    if (!s.cd.open && o.kind >= O_FEED && o.kind <= O_CLOSE) return "no descriptor";
    switch (o.kind) {
    case O_OPEN: s.cd.open_index(s.from, s.to, s.flag); return "opened";
    case O_OPEN_NAME: {
        reiconv_t d; const char *nm = at(o.name), *nm2 = at(o.name2); { LibScope l; d = o.cp == 1 ? reiconv_open(nm2, nm) : o.cp == 2 ? reiconv_open_from_codepage(encs[s.from].codepages[0], encs[s.to].codepages[0], (enum ConvertFlag)s.flag) : reiconv_open_from_name(nm, nm2, (enum ConvertFlag)s.flag); err = errno; }
        if (d == (reiconv_t)-1) return "failed " + std::to_string(err);
        s.cd.h = d; s.cd.from = s.from; s.cd.to = s.to; s.cd.flag = s.flag; s.cd.open = true; return "opened"; }
    case O_FEED: { Bytes in = s.tail + o.in; CallR r = s.cd.iconv(in, o.cap); s.tail = in.substr(r.used); if (verdict_of(r) == V_ILSEQ) s.tail.erase(0, encs[s.from].unit); if (s.tail.size() > 64) s.tail.resize(64); return text(r, false); }
    case O_FLUSH: { CallR r = s.cd.flush(o.cap); return text(r, true); }
    case O_RESET: s.cd.reset(o.pre); s.tail.clear(); return "reset";
    case O_SIZE: { size_t n = s.cd.result_size(o.in, err); return std::to_string((long)n) + " errno " + std::to_string(err); }
    case O_STATIC: { int r = s.cd.convert_static(o.in, o.cap, out, err, h); return std::to_string(r) + " errno " + std::to_string(err) + (r == 0 ? " [" + hex(out.substr(0, h), 400) + "]" : ""); }
    case O_CONVERT: { int r = s.cd.convert(o.in, o.pre, out, err, st); return std::to_string(r) + " errno " + std::to_string(err) + " [" + hex(out, 400) + "]"; }
    case O_CLOSE: s.cd.close(); return "closed";
    case O_LOOKUP: { int i; const char *nm = at(o.name); { LibScope l; i = reiconv_lookup_from_name(nm); } return std::to_string(i); }
    case O_CODEPAGE: { int i; { LibScope l; i = reiconv_lookup_from_codepage(o.cp); } return std::to_string(i); }
    case O_CPP: {
        int r = 0; alignas(std::string) char store[sizeof(std::string)]; std::string *res = nullptr; std::string txt;
        { LibScope l(400u * 1000 * 1000);
          try { res = new (store) std::string(reiconv::convert(reiconv::Encoding((reiconv::Encodings)encs[s.from].index), reiconv::Encoding((reiconv::Encodings)encs[s.to].index), std::string_view(o.in.data(), o.in.size()), (reiconv::ConvertFlag)s.flag)); }
          catch (std::exception &) { r = 1; } }
        if (res) { txt.assign(res->data(), res->size()); res->~basic_string(); }
        return (r ? "exception" : "[" + hex(txt, 400) + "]"); }
    case O_CANON: { char buf[64]; size_t n; const char *nm = at(o.name); { LibScope l; n = reiconv_name_canonicalize(nm, buf); } return std::to_string(n) + " " + std::string(buf, strnlen(buf, 63)); }
    default: { int i = -3; const char *nm = at(o.name); { LibScope l; try { i = reiconv::Encoding(nm); } catch (std::exception &) { i = -2; } } return std::to_string(i); }
    }
}
void perform(Session &s, int tid, int id) {
    const Op &o = s.ops[s.next]; s.busy = true;
    if (s.last_tid >= 0 && s.last_tid != tid) { fault(F_MIGRATE); shm->migrations++; }
    s.last_tid = tid;
    if (verbose) logf(" thread %d, session %d: %s", tid, id, op_name[o.kind]);
    std::string r;
    // a schedule cut short must not leave the session half done
    r = do_op(s, o);
    s.log.push_back(r); s.next++; s.busy = false; mix(0xC06 + id); mix(Bytes(r));
    if (verbose) logf(" thread %d, session %d: %s -> %s", tid, id, op_name[o.kind], r.c_str());
}
std::string mangle(std::string n) { for (auto &c : n) if (c >= 'A' && c <= 'Z' && draw(2)) c = (char)(c + 32); if (draw(3) == 2) n.insert(n.size() / 2, draw(2) ? "-" : "_"); return n; }
}
void c06() {
    int bf, bt; pick_pair(bf, bt); int n = (int)range(2, 4), nt = (int)range(2, 4); alloc_reuse = draw(4) != 3; names.clear();
    bool hot = draw(5) == 4; int hots[3] = {bf, bt, pick_enc()};           // the same few encodings opened and closed by the same few names all the time
    static const uint32_t grans[] = {40, 6, 200, 1500}; uint32_t gran = grans[draw(4)];
    std::vector<std::unique_ptr<Session>> ss;
    for (int i = 0; i < n; i++) {
        auto s = std::make_unique<Session>(); s->from = bf; s->to = bt;
        if (draw(2)) { if (draw(2)) pick_pair(s->from, s->to); else if (draw(2)) s->from = pick_enc(); else s->to = pick_enc(); }
        if (hot) { s->from = hots[draw(3)]; s->to = hots[draw(3)]; }
        s->flag = draw(4) == 3 ? (int)REICONV_DISCARD_ILSEQ : 0;
        auto named = [&](Op &o) { if (hot) { auto &a = encs[s->from].aliases, &b = encs[s->to].aliases; o.name = a[draw((uint32_t)std::min<size_t>(a.size(), 2))]; o.name2 = b[draw((uint32_t)std::min<size_t>(b.size(), 2))]; return; } o.name = mangle(encs[s->from].aliases[draw((uint32_t)encs[s->from].aliases.size())]); o.name2 = mangle(encs[s->to].aliases[draw((uint32_t)encs[s->to].aliases.size())]); };
        auto open = [&]() { Op o; o.kind = draw(3) == 2 || hot ? O_OPEN_NAME : O_OPEN; if (o.kind == O_OPEN_NAME) { named(o); o.cp = draw(3); if (o.cp == 2 && (encs[s->from].codepages.empty() || encs[s->to].codepages.empty())) o.cp = 1; if (o.cp == 1 && s->flag) o.name2 += "//IGNORE"; } s->ops.push_back(o); };
        bool cdless = draw(6) == 5; if (!cdless) open();
        for (uint32_t k = range(1, 6); k > 0; k--) {
            Op o; uint32_t q = cdless ? 12 + draw(4) : hot && draw(2) ? 15 : draw(16);
            if (q < 6) { o.kind = O_FEED; o.in = gen_bytes(s->from, s->to, 10); o.cap = draw(3) ? ample(o.in.size() + 64) : draw(16); }
            else if (q < 8) { o.kind = O_FLUSH; o.cap = draw(3) ? 64 : draw(8); }
            else if (q < 9) { o.kind = O_RESET; o.pre = draw(2); }
            else if (q < 10) { o.kind = O_SIZE; o.in = maybe_big(gen_bytes(s->from, s->to, 10), 1, 80, 500, 5000); }
            else if (q < 11) { o.kind = O_STATIC; o.in = gen_bytes(s->from, s->to, 10); o.cap = draw(3) ? ample(o.in.size()) : draw(24); }
            else if (q < 12) { o.kind = O_CONVERT; o.in = gen_bytes(s->from, s->to, 10); o.pre = draw(2); }
            else if (q < 13) { o.kind = O_LOOKUP; int e = hot ? hots[draw(3)] : all_ok[draw((uint32_t)all_ok.size())]; o.name = hot ? encs[e].aliases[0] : draw(6) == 5 ? "NOSUCHNAME" : mangle(encs[e].aliases[draw((uint32_t)encs[e].aliases.size())]); }
            else if (q < 14) { { uint32_t w = draw(5); o.kind = w < 2 ? O_CODEPAGE : w < 4 ? O_CPP_ENC : O_CANON; } int e = all_ok[draw((uint32_t)all_ok.size())]; o.cp = encs[e].codepages.empty() ? 437 : encs[e].codepages[0]; o.name = mangle(encs[e].aliases[draw((uint32_t)encs[e].aliases.size())]); }
            else if (q < 15 || cdless) { o.kind = O_CPP; o.in = maybe_big(gen_bytes(s->from, s->to, 10), 1, 80, 500, 5000); }
            else { Op c; c.kind = O_CLOSE; s->ops.push_back(c); open(); if (!hot) continue; o.kind = O_FEED; o.in = gen_bytes(s->from, s->to, 6); o.cap = 200; }
            s->ops.push_back(o);
        }
        mix(s->from); mix(s->to); mix(s->flag);
        ss.push_back(std::move(s));
    }
    // each session alone, in a freshly loaded library
    std::vector<std::vector<std::string>> alone;
    bool v = verbose; verbose = false;
    for (auto &s : ss) { lib_restore(); s->rewind(); while (s->next < s->ops.size()) perform(*s, -1, 0); alone.push_back(s->log); s->rewind(); }
    verbose = v; lib_restore();
    if (verbose) { logf("%d threads, %d sessions, preemption every %u accesses at most (mostly)", nt, n, gran); for (int i = 0; i < n; i++) logf(" session %d: %s -> %s flag=%d, %zu operations", i, encs[ss[i]->from].name.c_str(), encs[ss[i]->to].name.c_str(), ss[i]->flag, ss[i]->ops.size()); }
    bool sticky = draw(2);
    sched_run(nt, gran, [&](int tid) -> bool {
        int c[8], m = 0; bool more = false;
        for (int i = 0; i < n; i++) { Session &s = *ss[i]; if (s.next >= s.ops.size()) continue; more = true; if (!s.busy) c[m++] = i; }
        if (!more) return false;
        if (!m) { sched_block(); return true; }
        int k = -1; if (sticky && draw(4)) for (int i = 0; i < m; i++) if (ss[c[i]]->last_tid == tid || ss[c[i]]->last_tid < 0) { k = c[i]; break; }
        if (k < 0) k = c[draw(m)];
        perform(*ss[k], tid, k);
        // the transcript is compared while the run proceeds
        Session &s = *ss[k]; size_t i = s.log.size() - 1;
        if (s.log[i] != alone[k][i]) fail("interference", "%s -> %s flag=%d, operation %zu (%s): alone it returns %.500s, among %d threads and %d sessions it returns %.500s; input [%s]", encs[s.from].name.c_str(), encs[s.to].name.c_str(), s.flag, i, op_name[s.ops[i].kind], alone[k][i].c_str(), nt, n, s.log[i].c_str(), hex(s.ops[i].in).c_str());
        return true;
    });
    for (auto &s : ss) s->rewind();
    shm->runs_nontrivial++;
}
