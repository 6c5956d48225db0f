// One simulated run per property. A run draws a configuration, a workload and a fault schedule from the tape,
// drives the real library and judges the history.
#include <memory>
#include "sut.h"
#include <cppp/reiconv.hpp>
#include <cerrno>
#include <algorithm>
#include <system_error>
#include <new>
#define NM(e) encs[e].name.c_str()
static const int DISC = REICONV_DISCARD_ILSEQ;
static int pick_flag() { return draw(4) == 3 ? DISC : 0; }
static void head(const char *what, int from, int to, int flag, const Bytes &in) {
    mix(from); mix(to); mix(flag); mix(in);
    if (verbose) logf("%s: %s -> %s%s input=[%s]", what, NM(from), NM(to), flag ? " (discard)" : "", hex(in, 200).c_str());
}
static void nontrivial() { shm->runs_nontrivial++; }
// probes: rare conditions worth counting

// ============================================================ C01: short reads
static void c01() {
    int from, to; pick_pair(from, to); int flag = pick_flag();
    Bytes in = gen_bytes(from, to); in = maybe_big(in, 1, 400, 300, 3000);
    if (in.empty()) throw EndRun();
    head("short reads", from, to, flag, in);
    StreamR ref = whole(from, to, flag, in);
    
    int rounds = in.size() > 200 ? 2 : 5;
    for (int k = 0; k < rounds; k++) {
        Sched s = gen_sched(true, false, in.size());
        if (verbose) logf(" schedule %s", s.text().c_str());
        Cd cd(from, to, flag); StreamR r = stream(cd, in, s); std::string why;
        if (!same(ref, r, why)) fail("short-read", "%s -> %s flag=%d: %s depends on how the input is cut; input=[%s] %s\n   one call: %s\n   in pieces: %s", NM(from), NM(to), flag, why.c_str(), hex(in).c_str(), s.text().c_str(), show(ref).c_str(), show(r).c_str());
    }
    nontrivial();
}
// ============================================================ C02: back-pressure
// Sizes at which an integer type wraps: the announced size must not matter beyond what is there. On two descriptors with the same past.
static void huge_sizes(const char *cls) {
    int from, to; pick_pair(from, to); int flag = pick_flag(); Bytes in = gen_bytes(from, to, 16); if (in.empty()) throw EndRun();
    head("sizes", from, to, flag, in); Cd a(from, to, flag), b(from, to, flag); bool by_input = draw(3) == 2; fault(F_SIZE_SWEEP);
    if (!by_input) {
        uint64_t x = huge_size(true); CallR r = a.iconv(in, ample(in.size())), q = b.iconv_huge(in, in.size(), x);
        if (r.ret != q.ret || r.err != q.err || r.used != q.used || r.out != q.out) fail(cls, "%s -> %s flag=%d: with room for %llu bytes the call returns %zd (errno %d), consumes %zu, gives [%s]; with room for %zu: %zd (errno %d), %zu, [%s]; input=[%s]", NM(from), NM(to), flag, (unsigned long long)x, (ssize_t)q.ret, q.err, q.used, hex(q.out).c_str(), ample(in.size()), (ssize_t)r.ret, r.err, r.used, hex(r.out).c_str(), hex(in).c_str());
        x = huge_size(true); r = a.flush(96); q = b.flush_huge(x);
        if (r.ret != q.ret || r.err != q.err || r.out != q.out) fail(cls, "%s -> %s flag=%d: flushed into room for %llu bytes: %zd (errno %d) [%s]; into 96: %zd (errno %d) [%s]; after [%s]", NM(from), NM(to), flag, (unsigned long long)x, (ssize_t)q.ret, q.err, hex(q.out).c_str(), (ssize_t)r.ret, r.err, hex(r.out).c_str(), hex(in).c_str());
    } else {
        uint32_t room = draw(24); uint64_t x = huge_size(); CallR r = a.iconv(in + Bytes(768, '\0'), room);
        if (flag || r.ok() || r.err == EINVAL || r.used + 256 > in.size() + 768) throw EndRun();        // stops somewhere for a reason that lies before the end
        CallR q = b.iconv_huge(in, x + 1024, room);
        if (r.ret != q.ret || r.err != q.err || r.used != q.used || r.out != q.out) fail(cls, "%s -> %s flag=%d room=%u: of %llu bytes of input the call consumes %zu, returns %zd (errno %d), gives [%s]; of %zu bytes: %zu, %zd (errno %d), [%s]; input=[%s] and zeros", NM(from), NM(to), flag, room, (unsigned long long)x + 1024, q.used, (ssize_t)q.ret, q.err, hex(q.out).c_str(), in.size() + 768, r.used, (ssize_t)r.ret, r.err, hex(r.out).c_str(), hex(in).c_str());
    }
    nontrivial();
}
static void c02() {
    if (draw(700) == 699) { huge_sizes("room-beyond-use"); return; }
    int from, to; pick_pair(from, to); int flag = pick_flag();
    Bytes in = gen_bytes(from, to); in = maybe_big(in, 1, 400, 300, 3000);
    if (in.empty()) throw EndRun();
    head("back-pressure", from, to, flag, in);
    StreamR ref = whole(from, to, flag, in);
    int rounds = in.size() > 200 ? 2 : 5;
    for (int k = 0; k < rounds; k++) {
        Sched s = gen_sched(draw(3) == 2, true, in.size());
        if (verbose) logf(" schedule %s", s.text().c_str());
        int checked = 0;
        FullHook hook = [&](size_t used, const Bytes &out) {
            if (checked >= 3 || in.size() > 200) return; checked++;
            bool v = verbose; verbose = false;
            StreamR p = whole(from, to, flag, in.substr(0, used)); verbose = v;
            // bytes kept back for what follows (a held-back character, a look-ahead) may be handed out once that is seen
            bool match = p.out == out || ((encs[from].composes || flag || p.verdict == V_INCOMPLETE) && out.compare(0, p.out.size(), p.out) == 0);
            if (!match || !(p.verdict == V_OK || p.verdict == V_INCOMPLETE)) fail("full-not-atomic", "%s -> %s flag=%d: after a full output the descriptor has consumed %zu bytes and delivered [%s], but those bytes alone give %s; input=[%s] %s", NM(from), NM(to), flag, used, hex(out).c_str(), show(p).c_str(), hex(in).c_str(), s.text().c_str());
        };
        Cd cd(from, to, flag); StreamR r = stream(cd, in, s, true, &hook); std::string why;
        if (!same(ref, r, why)) fail("back-pressure", "%s -> %s flag=%d: %s depends on the room in the output; input=[%s] %s\n   ample: %s\n   small: %s", NM(from), NM(to), flag, why.c_str(), hex(in).c_str(), s.text().c_str(), show(ref).c_str(), show(r).c_str());
    }
    nontrivial();
}
// ============================================================ random histories on one descriptor
// a long life: the same step many times over, past what small counters hold
static void age(Cd &cd, bool oneshots, bool only = false) {
    if (draw(600) != 599) return;
    uint32_t n = draw(8) == 7 ? 65500 + draw(100) : 250 + draw(300), k = only ? 5 + draw(3) : draw(oneshots ? 8 : 5); Bytes in = k < 2 ? gen_bytes(cd.from, cd.to, 3) : encode(cd.from, Text{'A'}), o; int err; size_t h; bool v = verbose; fault(F_STATE_PRELOAD);
    if (verbose) logf(" %u times: %s [%s]", n, k < 2 ? "feed and flush" : k == 2 ? "feed" : k == 3 ? "flush" : k == 4 ? "reset" : k == 5 ? "size query" : k == 6 ? "fixed-buffer conversion" : "fixed-buffer conversion that does not fit", hex(in).c_str());
    for (verbose = false; n > 0; n--) {
        if (k < 3) cd.iconv(in, 64); 
        if (k < 2 || k == 3) cd.flush(64);
        if (k == 4) cd.reset(0); else if (k == 5) cd.result_size(in, err); else if (k >= 6) cd.convert_static(in, k == 6 ? 64 : 0, o, err, h);
    }
    verbose = v;
}
// the caller's buffer filled again: as long as before, most often at the same address, but not the same text
static Bytes refilled(int from, const Bytes &was) {
    Bytes b = was; size_t u = encs[from].unit, n = b.size() / u; if (!n) return b;
    for (uint32_t k = range(1, 4); k > 0; k--) {
        size_t i = draw((uint32_t)n) * u; uint32_t how = draw(3);
        if (how == 0) { size_t j = draw((uint32_t)n) * u; for (size_t x = 0; x < u; x++) std::swap(b[i + x], b[j + x]); }
        else if (how == 1) { if (u == 1) b[i] = (char)range(0x20, 0x7e); else { bool le = b[i + u - 1] == 0; b[le ? i : i + u - 1] = (char)draw(256); } }
        else b[i + draw((uint32_t)u)] = (char)draw(256);
    }
    fault(F_CORRUPT); return b;
}
static void random_op(Cd &cd, Bytes &tail, bool oneshots) {
    uint32_t k = draw(oneshots ? 10 : 7);
    if (k < 3) {                                     // one read, one write
        Bytes in = tail.empty() && !cd.last.empty() && draw(6) == 5 ? refilled(cd.from, cd.last) : tail + gen_bytes(cd.from, cd.to, 10); tail.clear(); cd.last = in;
        CallR r = cd.iconv(in, draw(3) ? draw(24) : ample(in.size()));
        if (draw(2)) tail = in.substr(r.used).substr(0, 64);
    } else if (k < 4) {
        Bytes in = maybe_big(gen_bytes(cd.from, cd.to, 16), 1, 60, 2000, 5000); Sched s = gen_sched(draw(2), draw(2), in.size());
        StreamR r = stream(cd, in, s, draw(3) == 2); tail = in.substr(r.used).substr(0, 64);
    } else if (k < 6) { fault(F_FLUSH_SMALL); CallR r = cd.flush(draw(3) == 2 ? 64 : draw(12)); if (r.ok()) tail.clear(); }
    else if (k < 7) { fault(F_RESET_MID); cd.reset(draw(2)); tail.clear(); }
    else {
        Bytes in = !cd.last.empty() && draw(6) == 5 ? refilled(cd.from, cd.last) : maybe_big(gen_bytes(cd.from, cd.to, 16), 1, 30); int err, st; Bytes o; size_t h; cd.last = in;
        if (k == 7) cd.result_size(in, err); else if (k == 8) cd.convert_static(in, draw(3) ? draw(40) : ample(in.size()), o, err, h); else cd.convert(in, draw(2), o, err, st);
        tail.clear();
    }
}
// ============================================================ C03: bounds and accounting
// A gigabyte of nothing but shift sequences or byte-order marks in one call: past what the converters' own counts hold.
static void c03_shifts() {
    static const struct { const char *enc, *unit; int n; } u[] = {{"iso2022_jp", "\x1b(B\x1b$B\x1b(B", 9}, {"utf16", "\xfe\xff", 2}, {"utf32", "\0\0\xfe\xff", 4}, {"hz", "~{~}", 4}, {"iso2022_cn", "\x1b$)A\x0e\x0f", 6}, {"iso2022_cn_ext", "\x1b$)A", 4}, {"iso2022_jp3", "\x1b$(O\x1b(B", 7}, {"iso2022_jp2", "\x1b$(D\x1b(B", 7}, {"iso2022_jp1", "\x1b$(D\x1b(B", 7}, {"iso2022_jpms", "\x1b$B\x1b(B", 6}, {"ucs2", "\xfe\xff", 2}, {"iso2022_kr", "\x1b$)C", 4}, {"hz", "~\n", 2}};
    auto &s = u[draw(sizeof u / sizeof *u)]; int from = -1; for (int e : all_ok) if (encs[e].id == s.enc) from = e;
    if (from < 0) throw EndRun();
    Bytes unit(s.unit, s.n), a = encode(from, Text{'A'}); Text none; head("shifts", from, E_UTF8, 0, unit); Cd few(from, E_UTF8, 0), many(from, E_UTF8, 0);
    CallR r = few.iconv(unit + unit + unit + unit, 256); if (!r.ok() || !r.out.empty()) throw EndRun();
    CallR q = feed_repeated(many, unit, ((1ull << 30) + range(16, 400)) / s.n);
    if (!q.ok() || q.ret || !q.out.empty()) fail("many-shifts", "%s: %zu bytes of [%s] in one call: returns %zd (errno %d), gives [%s]", NM(from), q.used, hex(unit).c_str(), (ssize_t)q.ret, q.err, hex(q.out).c_str());
    r = few.iconv(a, 256); q = many.iconv(a, 256); if (r.ret != q.ret || r.out != q.out) fail("many-shifts", "%s: after a gigabyte of [%s] the character that follows is read as [%s] instead of [%s]", NM(from), hex(unit).c_str(), hex(q.out).c_str(), hex(r.out).c_str());
    nontrivial();
}
static void c03() {
    if (long_kind()) { c03_shifts(); return; }
    strict_accounting = true; if (draw(700) == 699) { huge_sizes("accounting"); return; }
    int from, to; pick_pair(from, to); int flag = pick_flag();
    head("bounds", from, to, flag, "");
    Cd cd(from, to, flag); Bytes tail;
    for (uint32_t n = range(1, 12); n > 0; n--) random_op(cd, tail, true);
    cd.close(); nontrivial();
}
// ============================================================ C04: reset and flush give a fresh descriptor
static Bytes with_bom(int enc, const Bytes &b) {
    if (!encs[enc].bom) return b;
    Bytes m = encs[enc].unit == 2 ? Bytes("\xfe\xff", 2) : Bytes("\0\0\xfe\xff", 4); if (draw(2)) std::reverse(m.begin(), m.end()); return m + b;
}
static void c04() {
    int from, to;
    if (draw(4) == 3) {                              // pieces are self-contained
        int enc = draw(3) ? shift_ids[draw((uint32_t)shift_ids.size())] : pick_enc();
        GenOpt o; o.only_supported = true; o.combining = false; o.tags = false; o.maxlen = 10;
        Cd cd(E_UCS4, enc, 0); Bytes wire; Text all; mix(enc);
        if (verbose) logf("self-contained pieces in %s", NM(enc));
        for (uint32_t n = range(2, 5); n > 0; n--) {
            Text t = gen_text(enc, -1, o);
            if (encs[enc].composes) { Text q; for (auto c : t) if (!is_combining(c) && !is_pair_lead(c)) q.push_back(c); t = q; }
            if (t.empty()) continue;
            Sched s = gen_sched(draw(2), draw(2), t.size() * 4);
            if (verbose) logf(" piece %s, %s", cps(t).c_str(), s.text().c_str());
            StreamR r = stream(cd, ucs4(t), s);
            if (r.verdict != V_OK || r.flv != V_OK) throw EndRun();
            // alone, the piece must be what a fresh descriptor produces and decode to its text
            StreamR f = whole(E_UCS4, enc, 0, ucs4(t)); 
            if (f.out + f.fl != r.out + r.fl) fail("piece-differs", "%s: piece %s written by a flushed descriptor is [%s], by a new one [%s]", NM(enc), cps(t).c_str(), hex(r.out + r.fl).c_str(), hex(f.out + f.fl).c_str());
            StreamR alone = whole(enc, E_UCS4, 0, r.out + r.fl);
            if (alone.out + alone.fl != ucs4(t)) throw EndRun();     // the round trip itself belongs to C13
            wire += r.out + r.fl; all.insert(all.end(), t.begin(), t.end());
        }
        if (wire.empty()) throw EndRun();
        StreamR d = whole(enc, E_UCS4, 0, wire);
        if (d.verdict != V_OK || d.out + d.fl != ucs4(all)) fail("pieces-not-self-contained", "%s: concatenated pieces [%s] decode to %s instead of %s", NM(enc), hex(wire).c_str(), cps(from_ucs4(d.out + d.fl)).c_str(), cps(all).c_str());
        nontrivial(); return;
    }
    pick_pair(from, to); int flag = pick_flag();
    head("reset/flush", from, to, flag, "");
    Cd cd(from, to, flag); Bytes tail; bool oneshots = draw(3) == 2;
    for (uint32_t rounds = range(1, 2); rounds > 0; rounds--) {
        age(cd, oneshots); for (uint32_t n = range(1, 4); n > 0; n--) random_op(cd, tail, oneshots);
        int v = V_OK; bool hard = draw(2) == 0;
        if (!hard) { Sched s = gen_sched(false, draw(2), 4); flush_all(cd, s.caps, v); if (v != V_OK) hard = true; }
        if (hard) { fault(F_RESET_MID); cd.reset(draw(2)); }
        Bytes probe = with_bom(from, !cd.last.empty() && draw(5) == 4 ? refilled(from, cd.last) : gen_bytes(from, to, 12));
        Sched s = gen_sched(draw(3) == 2, draw(3) == 2, probe.size());
        if (verbose) logf(" probe [%s] %s", hex(probe).c_str(), s.text().c_str());
        StreamR a = stream(cd, probe, s); Cd fresh(from, to, flag); StreamR b = stream(fresh, probe, s); std::string why;
        if (!same(a, b, why)) fail(hard ? "reset-not-fresh" : "flush-not-fresh", "%s -> %s flag=%d: after a %s the %s differs from a new descriptor's; probe=[%s]\n   used: %s\n   new: %s", NM(from), NM(to), flag, hard ? "reset" : "flush", why.c_str(), hex(probe).c_str(), show(a).c_str(), show(b).c_str());
    }
    nontrivial();
}
// ============================================================ C05: flushing
static void c05_tail();
static void c05() {
    if (draw(5) == 4) return c05_tail();
    int from, to;
    switch (draw(4)) { case 0: from = lag_ids[draw((uint32_t)lag_ids.size())]; to = pick_enc(); break; case 1: from = lag_ids[draw((uint32_t)lag_ids.size())]; to = stateful_ids[draw((uint32_t)stateful_ids.size())]; break; case 2: to = stateful_ids[draw((uint32_t)stateful_ids.size())]; from = draw(2) ? E_UTF8 : E_UCS4; break; default: pick_pair(from, to); }
    int flag = pick_flag();
    Bytes in = gen_bytes(from, to, 12); head("flush", from, to, flag, in);
    Sched feed = gen_sched(draw(3) == 2, draw(3) == 2, in.size());
    Cd a(from, to, flag), b(from, to, flag);
    StreamR ra = stream(a, in, feed, false); StreamR rb = stream(b, in, feed, false); (void)ra; (void)rb;
    int va, vb; Bytes fa = flush_all(a, {}, va);
    Sched s; do s = gen_sched(false, true, 4); while (s.caps.empty());
    if (!fa.empty()) shm->probe[P_PENDING_FLUSH]++; if (va == V_ILSEQ) shm->probe[P_FLUSH_ILSEQ]++;
    if (verbose) logf(" small flush %s", s.text().c_str());
    Bytes fb = flush_all(b, s.caps, vb);
    if (va != vb || fa != fb) fail("flush-small", "%s -> %s flag=%d: flushing into small buffers (%s) gives [%s]/%s, into an ample one [%s]/%s; input=[%s]", NM(from), NM(to), flag, s.text().c_str(), hex(fb).c_str(), vname(vb), hex(fa).c_str(), vname(va), hex(in).c_str());
    REQUIRE(va == V_OK || va == V_ILSEQ, "flush-verdict", "%s -> %s: ample flush reports %s", NM(from), NM(to), vname(va));
    if (va == V_OK) {
        CallR r = a.flush(draw(2) ? 64 : 0); REQUIRE(r.ok() && r.out.empty(), "flush-twice", "%s -> %s: a second flush reports %s and yields [%s]; input=[%s]", NM(from), NM(to), vname(verdict_of(r)), hex(r.out).c_str(), hex(in).c_str());
        // the flush has closed the stream: an ASCII byte put behind it reads as that character
        if (encs[to].stateful && encs[to].unit == 1 && (ra.verdict == V_OK || flag) && whole(E_UCS4, to, 0, ucs4(Text{'A'})).out == "A") {
            Text seen; { Cd d(from, E_UCS4, flag); StreamR t = stream(d, in, Sched()); seen = from_ucs4(t.out + t.fl); } bool shifts = false; for (uint32_t c : seen) if (c == 0x0e || c == 0x0f || c == 0x1b || (c >= 0xd800 && c < 0xe000)) shifts = true;      // UTF-7 passes on stray surrogates
            if (!shifts) { Bytes wire = ra.out + fa; StreamR x = whole(to, E_UCS4, 0, wire), y = whole(to, E_UCS4, 0, wire + "A"); Text ty = from_ucs4(y.out + y.fl), tx = from_ucs4(x.out + x.fl); tx.push_back('A');
                REQUIRE(y.verdict == V_OK && ty == tx, "flush-leaves-open", "%s -> %s flag=%d: [%s] is written as [%s] and flushed with [%s]; an 'A' put behind reads as %s (%s); input=[%s]", NM(from), NM(to), flag, cps(seen).c_str(), hex(ra.out).c_str(), hex(fa).c_str(), cps(ty).c_str(), vname(y.verdict), hex(in).c_str()); }
        }
        r = b.flush(draw(2) ? 64 : 0); REQUIRE(r.ok() && r.out.empty(), "flush-twice", "%s -> %s: a second flush (after small ones) reports %s and yields [%s]; input=[%s]", NM(from), NM(to), vname(verdict_of(r)), hex(r.out).c_str(), hex(in).c_str());
    }
    nontrivial();
}
// the tail is really delivered: nothing is missing once the stream has been flushed
static void c05_tail() {
    GenOpt o; o.only_supported = true; o.maxlen = 10;
    if (draw(2)) {                                    // a decoder that waits for a combining character
        static std::vector<int> held; if (held.empty()) for (int e : lag_ids) if (encs[e].composes) held.push_back(e);
        int enc = held[draw((uint32_t)held.size())], to = draw(2) ? E_UCS4 : E_UTF8; Bytes in = gen_valid(enc, -1, GenOpt());
        if (in.empty()) throw EndRun(); head("flushed tail", enc, to, 0, in);
        Sched s = gen_sched(draw(2), draw(2), in.size()); Cd a(enc, to, 0); StreamR r = stream(a, in, s); if (r.verdict != V_OK) throw EndRun();
        bool esc = encs[enc].id == "iso2022_jp3"; Bytes more = in + (esc ? "\x1b(BA" : "A"); StreamR w = whole(enc, to, 0, more); Bytes A = to == E_UCS4 ? ucs4(Text{'A'}) : Bytes("A"), all = w.out + w.fl;
        REQUIRE(r.flv == V_OK && w.verdict == V_OK && r.out + r.fl + A == all, "tail-lost", "%s -> %s: [%s] and a flush deliver [%s] + [%s]/%s, but followed by 'A' the same bytes deliver [%s]; %s", NM(enc), NM(to), hex(in).c_str(), hex(r.out).c_str(), hex(r.fl).c_str(), vname(r.flv), hex(all).c_str(), s.text().c_str());
        nontrivial(); return;
    }
    int enc = draw(3) ? stateful_ids[draw((uint32_t)stateful_ids.size())] : pick_enc(); const Enc &x = encs[enc]; Text t = gen_text(enc, -1, o);
    if (x.id == "cp1255" || x.id == "cp1258" || x.id == "tcvn") throw EndRun();      // they compose what they read
    if (x.composes) { Text q; for (uint32_t c : t) if (!is_combining(c)) q.push_back(c); t = q; if (draw(2)) { uint32_t lead[] = {0xca, 0xea, 0x304b, 0x30ab, 0xe6, 0x2e9}; uint32_t c = lead[draw(6)]; if (in_repertoire(enc, c)) t.push_back(c); } }
    if (t.empty()) throw EndRun();
    mix(enc); mix(ucs4(t)); Sched s = gen_sched(draw(2), draw(2), t.size() * 4); if (verbose) logf("flushed tail of %s in %s; %s", cps(t).c_str(), NM(enc), s.text().c_str());
    Cd a(E_UCS4, enc, 0); StreamR r = stream(a, ucs4(t), s); Bytes wire = r.out + r.fl;
    REQUIRE(r.verdict == V_OK && r.flv == V_OK, "tail-lost", "%s: supported text %s is refused (%s/%s)", NM(enc), cps(t).c_str(), vname(r.verdict), vname(r.flv));
    bool ascii = x.unit == 1 && whole(E_UCS4, enc, 0, ucs4(Text{'A'})).out == "A"; if (ascii) { wire += "A"; t.push_back('A'); }   // in the initial state this is an A
    StreamR w = whole(enc, E_UCS4, 0, wire);
    REQUIRE(w.verdict == V_OK && w.flv == V_OK && w.out + w.fl == ucs4(t), "tail-lost", "%s: %s%s is written and flushed as [%s] + [%s], which reads %s (%s)", NM(enc), cps(t).c_str(), ascii ? " (the A appended as a byte)" : "", hex(r.out).c_str(), hex(r.fl).c_str(), cps(from_ucs4(w.out + w.fl)).c_str(), vname(w.verdict));
    nontrivial();
}
// ============================================================ C07: failing allocations
static int cpp_convert(int from, int to, const Bytes &in, int flag, Bytes &out, std::string &what) {
    // 0 ok, 1 system_error, 2 bad_alloc, 3 other exception
    int r = 0, code = 0; out.clear(); what.clear();
    std::string *res = nullptr; alignas(std::string) char store[sizeof(std::string)];
    {
        LibScope s(400u * 1000 * 1000);
        try {
            res = new (store) std::string(reiconv::convert(reiconv::Encoding((reiconv::Encodings)encs[from].index), reiconv::Encoding((reiconv::Encodings)encs[to].index), std::string_view(in.data(), in.size()), (reiconv::ConvertFlag)flag));
        } catch (std::system_error &e) { r = 1; code = e.code().value(); }
        catch (std::bad_alloc &) { r = 2; }
        catch (std::exception &e) { r = 3; }
        catch (EndRun &) { throw; }
        catch (...) { r = 4; }
    }
    if (res) { out.assign(res->data(), res->size()); res->~basic_string(); }
    what = r == 0 ? "ok" : r == 1 ? "std::system_error(" + std::to_string(code) + ")" : r == 2 ? "std::bad_alloc" : r == 3 ? "another std::exception" : "an unknown exception";
    mix(r); mix(out);
    if (verbose) logf("  reiconv::convert([%s]) -> %s [%s]", hex(in, 40).c_str(), what.c_str(), hex(out, 48).c_str());
    return r;
}
static void c07() {
    int from, to; pick_pair(from, to); int flag = pick_flag();
    Bytes in = maybe_big(gen_bytes(from, to, 16), 1, 12, 600, 6000); int kind = draw(7); bool pre = draw(2);
    head("allocation failure", from, to, flag, in); mix(kind);
    StreamR ref = whole(from, to, flag, in); bool good = ref.verdict == V_OK && ref.flv == V_OK; Bytes want = ref.out + ref.fl;
    const std::string &na = encs[from].aliases[draw((uint32_t)encs[from].aliases.size())], &nb = encs[to].aliases[draw((uint32_t)encs[to].aliases.size())];
    auto attempt = [&](bool faulty) {
        uint32_t fired0 = alloc_plan.fired;
        if (kind <= 2) {                              // open, use, close
            reiconv_t h; int err; errno = 0; std::string nto = nb + (flag ? "//IGNORE" : "");
            { LibScope s; if (kind == 0) h = reiconv_open_from_index(encs[from].index, encs[to].index, (enum ConvertFlag)flag); else if (kind == 1) h = reiconv_open_from_name(na.c_str(), nb.c_str(), (enum ConvertFlag)flag); else h = reiconv_open(nto.c_str(), na.c_str()); err = errno; }
            bool fired = alloc_plan.fired > fired0;
            if (verbose) logf("  open by %s -> %s", kind == 0 ? "index" : kind == 1 ? "name" : "iconv name", h == (reiconv_t)-1 ? "failed" : "ok");
            if (h == (reiconv_t)-1) { REQUIRE(fired, "open-fails", "opening %s -> %s fails although no allocation failed", NM(from), NM(to)); REQUIRE(err == ENOMEM, "open-errno", "failed allocation reported with errno %d instead of ENOMEM", err); return; }
            bool was = alloc_plan.on; alloc_plan.on = false;
            Cd cd; cd.h = h; cd.from = from; cd.to = to; cd.flag = flag; cd.open = true; StreamR r = stream(cd, in, Sched()); std::string why; cd.close();
            alloc_plan.on = was;
            REQUIRE(same(ref, r, why), "after-fault", "%s -> %s: descriptor opened %s behaves differently: %s", NM(from), NM(to), faulty ? "under memory pressure" : "again", why.c_str());
        } else if (kind <= 3) {                       // allocating one-shot
            bool was = alloc_plan.on; alloc_plan.on = false; Cd cd(from, to, flag); alloc_plan.on = was;
            Bytes o; int err, st; int r = cd.convert(in, pre, o, err, st);
            bool fired = alloc_plan.fired > fired0; alloc_plan.on = false;
            if (r == 0) REQUIRE(good && o == want, "wrong-result", "%s -> %s: conversion %s yields [%s] instead of [%s]", NM(from), NM(to), faulty ? "with a failed allocation" : "after a failed allocation", hex(o).c_str(), good ? hex(want).c_str() : "an error");
            else if (fired) REQUIRE(err == ENOMEM || !good, "oom-errno", "failed allocation reported with errno %d instead of ENOMEM", err);
            else REQUIRE(!good, "oneshot-fails", "%s -> %s: conversion fails with errno %d although nothing is wrong", NM(from), NM(to), err);
            if (fired && !faulty) {}
            // the same call again, memory being available
            if (encs[from].bom && r == 0) { cd.close(); alloc_plan.on = was; return; }     // a byte order learnt from a mark is kept
            Cd *again = &cd; Cd other; if (encs[from].bom) { other.open_index(from, to, flag); again = &other; }
            r = again->convert(in, pre, o, err, st); other.close();
            REQUIRE((r == 0) == good && (!good || o == want), "after-fault", "%s -> %s: repeating the conversion once memory is available gives %d [%s]", NM(from), NM(to), r, hex(o).c_str());
            alloc_plan.on = was; cd.close();
        } else if (kind == 6) {                       // streaming, size query and fixed buffer on an open descriptor
            bool was = alloc_plan.on; alloc_plan.on = false; Cd cd(from, to, flag), c2(from, to, flag), c3(from, to, flag); alloc_plan.on = was;
            Bytes o, w; int err; size_t hint; auto nomem = [&](int e) { return alloc_plan.fired > fired0 && e == ENOMEM; };
            size_t n = c2.result_size(in, err); REQUIRE(nomem(err) || n == (good ? want.size() : (size_t)-1), "wrong-result", "%s -> %s: size query %s gives %zd, expected %zd", NM(from), NM(to), faulty ? "with failing allocations" : "after failing allocations", (ssize_t)n, good ? (ssize_t)want.size() : (ssize_t)-1);
            int q = c3.convert_static(in, good ? want.size() : ample(in.size()), w, err, hint); REQUIRE(nomem(err) || (good ? q == 0 && w == want : q == -1), "wrong-result", "%s -> %s: fixed-buffer conversion %s gives %d", NM(from), NM(to), faulty ? "with failing allocations" : "after failing allocations", q);
            CallR c = cd.iconv(in, ample(in.size())); if (!nomem(c.err)) REQUIRE(ref.out.compare(0, c.out.size(), c.out) == 0 && verdict_of(c) == ref.verdict, "wrong-result", "%s -> %s: streaming %s gives [%s] (%s)", NM(from), NM(to), faulty ? "with failing allocations" : "after failing allocations", hex(c.out).c_str(), vname(verdict_of(c)));
            was = alloc_plan.on; alloc_plan.on = false; cd.close(); c2.close(); c3.close(); alloc_plan.on = was;
        } else {                                      // C++
            Bytes o; std::string what; int r = cpp_convert(from, to, in, flag, o, what);
            bool fired = alloc_plan.fired > fired0;
            if (r == 0) REQUIRE(good && o == want, "wrong-result", "%s -> %s: C++ conversion yields [%s] instead of [%s]", NM(from), NM(to), hex(o).c_str(), good ? hex(want).c_str() : "an error");
            else if (fired) REQUIRE(r <= 2, "oom-exception", "failed allocation surfaces as %s", what.c_str());
            else REQUIRE(!good && r == 1, "cpp-fails", "%s -> %s: C++ conversion throws %s (streaming %s)", NM(from), NM(to), what.c_str(), good ? "succeeds" : "fails");
        }
    };
    attempt(false);
    uint64_t c0 = heap_count(); size_t live0 = heap_live();
    attempt(false);
    uint32_t per = (uint32_t)(heap_count() - c0);
    REQUIRE(heap_live() <= live0, "leak", "%s -> %s kind %d: %zu blocks live after the first, %zu after the second identical operation without any fault (%zu bytes)", NM(from), NM(to), kind, live0, heap_live(), heap_live_bytes());
    size_t base = heap_live();
    for (uint32_t n = range(1, 3); n > 0; n--) {
        alloc_plan = AllocPlan(); alloc_plan.on = true; alloc_plan.skip = draw(per ? per : 1); alloc_plan.count = draw(3) == 2 ? 1000 : range(1, 2); if (draw(5) == 4) alloc_plan.min_size = draw(2) ? 64 : 200;
        if (verbose) logf(" fault plan: fail allocation %u, %u in a row, at least %llu bytes", alloc_plan.skip + 1, alloc_plan.count, (unsigned long long)alloc_plan.min_size);
        attempt(true);
        alloc_plan.on = false;
        REQUIRE(heap_live() <= base, "leak", "%s -> %s kind %d: a failed allocation leaks %zu block(s), %zu bytes live", NM(from), NM(to), kind, heap_live() - base, heap_live_bytes());
        attempt(false);
        REQUIRE(heap_live() <= base, "leak", "%s -> %s kind %d: after a failed allocation the next operation leaks", NM(from), NM(to), kind);
    }
    nontrivial();
}
// ============================================================ C08: one-shot = streaming
// a result of more than 4 GB, asked for only
static void c08_count() {
    static const struct { const char *from; const char *unit; } src[] = {{"utf8", "\xf0\x9f\x98\x80"}, {"utf16be", "\xd8\x3d\xde\x42"}, {"gb18030_2022", "\x94\x39\xfc\x36"}};
    auto &s = src[draw(3)]; int from = enc_id(s.from), to = enc_id("java"); if (encs[from].index < 0 || encs[to].index < 0) throw EndRun();
    uint64_t count = ((draw(2) ? 1ull << 31 : 1ull << 32) + 11) / 12 + draw(30); Bytes unit(s.unit, 4); head("very long result", from, to, 0, unit);
    Cd cd(from, to, 0); int err; size_t one = cd.result_size(unit, err); if (one != 12) throw EndRun();
    size_t n = result_size_repeated(cd, unit, count, err); REQUIRE(n == 12 * count, "size-query", "%s -> %s: %llu times [%s]: the size query gives %zd (errno %d), expected %llu", NM(from), NM(to), (unsigned long long)count, hex(unit).c_str(), (ssize_t)n, err, (unsigned long long)(12 * count));
    nontrivial();
}
static void c08() {
    if (long_kind()) { c08_count(); return; }
    int from, to; pick_pair(from, to); int flag = pick_flag();
    Bytes in = draw(40) == 39 ? Bytes() : maybe_big(gen_bytes(from, to), 1, 8);
    head("one-shot", from, to, flag, in);
    Cd sc(from, to, flag); Sched ss = gen_sched(draw(2), draw(2), in.size()); 
    StreamR ref = stream(sc, in, ss); bool good = ref.verdict == V_OK && ref.flv == V_OK; Bytes want = ref.out + ref.fl;
    if (!good) shm->probe[P_ONESHOT_FAIL]++;
    bool cut = ref.verdict == V_INCOMPLETE; auto names = [&](int e) { return e == EILSEQ || (cut && e == EINVAL); };   // errno of a failure
    std::string ctx = std::string(NM(from)) + " -> " + NM(to) + (flag ? " (discard)" : "") + " input=[" + hex(in) + "] streaming: " + (good ? "[" + hex(want) + "]" : std::string("fails: ") + vname(ref.verdict != V_OK ? ref.verdict : ref.flv));
    { Cd cd(from, to, flag); int err; size_t n = cd.result_size(in, err);
      if (good) REQUIRE(n == want.size(), "size-query", "size query gives %zd, expected %zu; %s", (ssize_t)n, want.size(), ctx.c_str());
      else REQUIRE(n == (size_t)-1, "size-query", "size query gives %zd although streaming fails; %s", (ssize_t)n, ctx.c_str());
      if (!good) REQUIRE(names(err), "cause", "size query fails with errno %d; %s", err, ctx.c_str()); }
    { Cd cd(from, to, flag); Bytes w; int err; size_t h; size_t cap = good ? want.size() : ample(in.size());
      int r = cd.convert_static(in, cap, w, err, h);
      if (good) REQUIRE(r == 0 && w == want, "static", "fixed buffer of exactly %zu bytes gives %d [%s]; %s", cap, r, hex(w).c_str(), ctx.c_str());
      else REQUIRE(r == -1, "static", "fixed-buffer conversion succeeds with [%s]; %s", hex(w.substr(0, h)).c_str(), ctx.c_str());
      if (!good) REQUIRE(names(err), "cause", "fixed-buffer conversion fails with errno %d; %s", err, ctx.c_str()); }
    if (good) {
        Cd cd(from, to, flag); Bytes w; int err; size_t h; size_t cap = want.size() + range(1, 80); int r = cd.convert_static(in, cap, w, err, h);
        REQUIRE(r == 0 && w.compare(0, want.size(), want) == 0, "static", "fixed buffer of %zu bytes gives %d; %s", cap, r, ctx.c_str());
        for (size_t i = want.size(); i < cap; i++) REQUIRE((unsigned char)w[i] == (unsigned char)(0xA5 ^ (i * 7)), "static-rest", "byte %zu of %zu changed; %s", i, cap, ctx.c_str());
        if (draw(100) == 99) { Cd c3(from, to, flag); uint64_t x = huge_size(); Bytes o; r = c3.static_huge(in, x, want.size() + 16, o, err); REQUIRE(r == 0 && o == want + Bytes(16, '\0'), "static", "fixed buffer of %llu bytes gives %d errno %d [%s]; %s", (unsigned long long)x, r, err, hex(o).c_str(), ctx.c_str()); }
        if (!want.empty()) {
            Cd c2(from, to, flag); cap = draw(2) ? want.size() - 1 : draw((uint32_t)want.size()); fault(F_SHORT_WRITE); r = c2.convert_static(in, cap, w, err, h);
            REQUIRE(r == -1 && err == E2BIG, "static-full", "fixed buffer of %zu bytes for a result of %zu gives %d errno %d; %s", cap, want.size(), r, err, ctx.c_str());
        }
    }
    { Cd cd(from, to, flag); Bytes o; int err, st; int r = cd.convert(in, draw(2), o, err, st);
      if (good) REQUIRE(r == 0 && o == want, "convert", "allocating conversion gives %d [%s]; %s", r, hex(o).c_str(), ctx.c_str());
      else REQUIRE(r == -1, "convert", "allocating conversion succeeds with [%s]; %s", hex(o).c_str(), ctx.c_str());
      if (!good) REQUIRE(names(err), "cause", "allocating conversion fails with errno %d; %s", err, ctx.c_str()); }
    if (draw(8) == 7) {                               // no place to put the result
        Cd cd(from, to, flag); int r, err; size_t len = 0; char *p = nullptr; bool nolen = draw(2), nodata = !nolen || draw(3) == 2;
        { LibScope s(400u * 1000 * 1000); r = reiconv_convert(cd.h, in.data(), in.size(), nodata ? nullptr : &p, nolen ? nullptr : &len); err = errno; }
        if (verbose) logf("  convert(data pointer %s, length pointer %s) -> %d", nodata ? "null" : "given", nolen ? "null" : "given", r);
        if (nodata) REQUIRE(r == -1 && (good ? err == EINVAL : names(err)), "convert-null", "allocating conversion without a buffer pointer gives %d errno %d; %s", r, err, ctx.c_str());
        else { if (r == 0) REQUIRE(good && p && memcmp(p, want.data(), want.size()) == 0, "convert-null", "allocating conversion without a length pointer delivers something else; %s", ctx.c_str()); if (p) { if (!heap_owns(p)) fail("convert-dangling", "without a length pointer (%d) the buffer pointer is not a live allocation; %s", r, ctx.c_str()); sim_free(p); } }
    }
    { Bytes o; std::string what; int r = cpp_convert(from, to, in, flag, o, what);
      if (good) REQUIRE(r == 0 && o == want, "cpp", "C++ conversion gives %s [%s]; %s", what.c_str(), hex(o).c_str(), ctx.c_str());
      else REQUIRE(r == 1, "cpp", "C++ conversion gives %s [%s]; %s", what.c_str(), hex(o).c_str(), ctx.c_str());
      if (!good) REQUIRE(what == "std::system_error(" + std::to_string(EILSEQ) + ")" || (cut && what == "std::system_error(" + std::to_string(EINVAL) + ")"), "cause", "C++ conversion gives %s; %s", what.c_str(), ctx.c_str()); }
    nontrivial();
}
// ============================================================ C09: one-shot calls leave no trace
struct Shot { int kind; Bytes in; size_t cap; bool pre; };
static std::string do_shot(Cd &cd, const Shot &s) {
    Bytes o; int err = 0, st, r = 0; size_t h;
    if (s.kind == 0) { size_t n = cd.result_size(s.in, err); return "size=" + std::to_string((long)n) + " errno=" + std::to_string(err); }
    if (s.kind == 1) { r = cd.convert_static(s.in, s.cap, o, err, h); return "static=" + std::to_string(r) + " errno=" + std::to_string(err) + (r == 0 ? " [" + hex(o, 4096) + "]" : ""); }
    r = cd.convert(s.in, s.pre, o, err, st); return "convert=" + std::to_string(r) + " errno=" + std::to_string(err) + (r == 0 ? " [" + hex(o, 4096) + "]" : "");
}
static Shot gen_shot(int from, int to) {
    Shot s; s.kind = draw(3); s.in = maybe_big(gen_bytes(from, to, 14), 1, 40); s.cap = draw(2) ? ample(s.in.size()) : draw(30); s.pre = draw(2); return s;
}
static void c09() {
    int from, to; pick_pair(from, to); int flag = pick_flag(); head("no trace", from, to, flag, "");
    if (draw(3) == 2) {                               // size query in the middle of a stream
        Bytes in = gen_bytes(from, to), q; Bytes a, b; size_t cut = in.empty() ? 0 : draw((uint32_t)in.size() + 1);
        Cd x(from, to, flag), y(from, to, flag); Sched s1 = gen_sched(draw(2), draw(2), cut);
        StreamR p = stream(x, in.substr(0, cut), s1, false); StreamR p2 = stream(y, in.substr(0, cut), s1, false); (void)p2;
        for (uint32_t n = range(1, 2); n > 0; n--) { int err; fault(F_QUERY_MID); x.result_size(maybe_big(gen_bytes(from, to, 14), 1, 30), err); }
        Bytes rest = p.verdict == V_ILSEQ ? gen_bytes(from, to, 10) : in.substr(p.used); Sched s2 = gen_sched(draw(2), draw(2), rest.size());
        StreamR r1 = stream(x, rest, s2), r2 = stream(y, rest, s2); std::string why;
        if (!same(r1, r2, why)) fail("query-disturbs", "%s -> %s flag=%d: a size query in mid-stream changes the %s of what follows; fed [%s], then [%s]\n   with query: %s\n   without: %s", NM(from), NM(to), flag, why.c_str(), hex(in.substr(0, p.used)).c_str(), hex(rest).c_str(), show(r1).c_str(), show(r2).c_str());
        nontrivial(); return;
    }
    Cd cd(from, to, flag); std::string hist; Bytes prev; age(cd, true, true);
    for (uint32_t n = range(1, 4); n > 0; n--) {
        Shot s = gen_shot(from, to); if (prev.size() && draw(3) == 2) s.in = refilled(from, prev);
        prev = s.in;
        if (s.kind == 2 && draw(3) == 2) { alloc_plan = AllocPlan(); alloc_plan.on = true; alloc_plan.count = 1; alloc_plan.skip = draw(2); }
        std::string r = do_shot(cd, s); alloc_plan.on = false; hist += (s.kind == 0 ? " size([" : s.kind == 1 ? " static([" : " convert([") + hex(s.in, 32) + "])=" + r.substr(0, 60) + ";";
    }
    for (int k = 0; k < 2; k++) {
        Shot s = gen_shot(from, to); s.in = with_bom(from, draw(2) && prev.size() ? refilled(from, prev) : s.in);
        Cd fresh(from, to, flag); std::string a = do_shot(cd, s), b = do_shot(fresh, s);
        if (a != b) fail("trace-left", "%s -> %s flag=%d: a one-shot call of [%s] (room %zu) on a used descriptor gives %.300s, on a new one %.300s; history:%.800s", NM(from), NM(to), flag, hex(s.in).c_str(), s.cap, a.c_str(), b.c_str(), hist.c_str());
    }
    nontrivial();
}
// ============================================================ C10: the discard flag
static bool encodable(int to, uint32_t c) {
    bool v = verbose; verbose = false; Cd t(E_UCS4, to, 0); CallR r = t.iconv(Bytes((char *)&c, 4), 64); bool ok = r.ok() && r.ret == 0; if (ok) { CallR f = t.flush(64); ok = f.ok() && f.ret == 0; } verbose = v; return ok;
}
static bool encodable2(int to, uint32_t p, uint32_t c) {     // as the second half of a pair
    uint32_t t[2] = {p, c}; bool v = verbose; verbose = false; Cd e(E_UCS4, to, 0); CallR r = e.iconv(Bytes((char *)t, 8), 64); bool ok = r.ok() && r.ret == 0; verbose = v; return ok;
}
// Noise in valid text: one invalid unit put between two characters, and skipped, must leave the text around it as it is.
static void noise(bool disc) {
    int enc = pick_enc(), to = draw(2) ? E_UCS4 : draw(2) ? E_UTF8 : pick_enc(); if (encs[enc].id == "utf7") throw EndRun();      // there the stray byte ends the base64 run
    Text t = gen_text(enc, to, GenOpt()); if (t.empty()) throw EndRun(); size_t at = draw((uint32_t)t.size() + 1), unit = encs[enc].unit; Bytes P, S, J;
    { Cd e(E_UCS4, enc, DISC); for (size_t i = 0; i < t.size(); i++) { CallR r = e.iconv(Bytes((char *)&t[i], 4), 64); (i < at ? P : S) += r.out; } CallR f = e.flush(64); S += f.out; }
    if (unit == 1) { static const unsigned char js[] = {0xff, 0x80, 0x1b, 0x0e, '~', 0x8e, 0xa0}; J += (char)(draw(2) ? js[draw(7)] : draw(256)); }
    else if (unit == 2) { uint32_t w = 0xd800 + draw(0x800); J += (char)(draw(2) ? w >> 8 : w); J += (char)(w >> 8); }
    else for (int i = 0; i < 4; i++) J += (char)(draw(2) ? 0xff : draw(256));
    Bytes in = P + J + S; head("noise", enc, to, disc ? DISC : 0, in); if (verbose) logf(" unit [%s] put in at %zu", hex(J).c_str(), P.size());
    StreamR plain = whole(enc, to, disc ? DISC : 0, P + S); if (plain.verdict != V_OK || plain.flv != V_OK) throw EndRun();
    if (!disc) { Cd q(enc, to, 0); StreamR r = stream(q, in, Sched(), false); if (r.verdict != V_ILSEQ || r.used != P.size()) throw EndRun(); }      // merged with its surroundings
    { Cd q(enc, E_UCS4, 0); StreamR r = stream(q, in, Sched(), false); if (r.verdict != V_ILSEQ || r.used != P.size()) throw EndRun(); }  // invalid in itself, not merely inconvertible
    Sched s = gen_sched(draw(2), draw(2), in.size()); fault(F_CORRUPT);
    if (disc) {
        Cd q(enc, to, DISC); StreamR r = stream(q, in, s);
        REQUIRE(r.verdict == V_OK && r.flv == V_OK && r.out + r.fl == plain.out + plain.fl, "noise-changes-text", "%s -> %s: with the invalid unit [%s] at %zu discarded, [%s] gives %s; without it %s; %s", NM(enc), NM(to), hex(J).c_str(), P.size(), hex(in).c_str(), show(r).c_str(), show(plain).c_str(), s.text().c_str());
    } else {
        Cd q(enc, to, 0); StreamR a = stream(q, in, s, false);
        REQUIRE(a.verdict == V_ILSEQ && a.used == P.size(), "error-position", "%s -> %s: stops at %zu (%s) instead of %zu in [%s]; %s", NM(enc), NM(to), a.used, vname(a.verdict), P.size(), hex(in).c_str(), s.text().c_str());
        StreamR b = stream(q, S, gen_sched(draw(2), draw(2), S.size()));
        REQUIRE(b.verdict == V_OK && b.flv == V_OK && a.out + b.out + b.fl == plain.out + plain.fl, "noise-changes-text", "%s -> %s: skipping the invalid unit [%s] at %zu of [%s] gives [%s] and then %s; without it %s; %s", NM(enc), NM(to), hex(J).c_str(), P.size(), hex(in).c_str(), hex(a.out).c_str(), show(b).c_str(), show(plain).c_str(), s.text().c_str());
    }
    nontrivial();
}
static void c10() {
    if (draw(4) == 3) return noise(true);
    int from, to; pick_pair(from, to); Bytes in = gen_bytes(from, to); if (in.empty()) throw EndRun();
    head("discard", from, to, DISC, in);
    // reference: strict decoder, strict encoder, explicit skips
    Bytes text; size_t pos = 0; int end = V_OK; uint32_t errs = 0;
    { Cd d(from, E_UCS4, 0);
      for (;;) {
          CallR r = d.iconv(in.substr(pos), ample(in.size() - pos)); pos += r.used; text += r.out; int v = verdict_of(r);
          if (v == V_ILSEQ) { errs++; size_t left = in.size() - pos; pos += std::min<size_t>(encs[from].unit, left); if (errs > in.size() + 1) throw EndRun(); continue; }
          end = v; break;
      }
      if (end == V_FULL || end == V_OTHER) throw EndRun();
      int fv; Bytes f = flush_all(d, {}, fv); 
      // the flushed character is delivered by the flush of the pair
      Bytes out, fl; Cd e(E_UCS4, to, 0); uint32_t prev = 0;
      auto put = [&](const Bytes &t4, Bytes &o) {
          for (uint32_t c : from_ucs4(t4)) {
              bool tag = (c >> 7) == (0xe0000 >> 7);
              if (!tag && !encodable(to, c) && !(encs[to].lags && prev && encodable2(to, prev, c))) { errs++; continue; }
              if (!tag) prev = c;                   // a tag is dropped and leaves a held-back character alone
              CallR r = e.iconv(Bytes((char *)&c, 4), 64); o += r.out; if (!r.ok()) { if (verbose) logf("  model: encoder refuses U+%04X", c); }
          }
      };
      put(text, out); put(f, fl); int ev; fl += flush_all(e, {}, ev);
      if (errs > 1) shm->probe[P_MULTI_ERR]++;
      for (int k = 0; k < 3; k++) {
          Sched s = k == 0 ? Sched() : gen_sched(draw(2), draw(2), in.size()); if (verbose) logf(" discard run %s", s.text().c_str());
          Cd cd(from, to, DISC); StreamR r = stream(cd, in, s);
          REQUIRE(r.verdict != V_ILSEQ && r.flv != V_ILSEQ, "discard-reports-invalid", "%s -> %s: discarding conversion reports invalid input at %zu of [%s]", NM(from), NM(to), r.used, hex(in).c_str());
          if (r.verdict != end || r.used != pos || r.out != out || r.fl != fl)
              fail("discard-differs", "%s -> %s: discarding [%s] (%s) gives %s; skipping the invalid units by hand gives out=[%s] verdict=%s consumed=%zu flush=[%s]", NM(from), NM(to), hex(in).c_str(), s.text().c_str(), show(r).c_str(), hex(out).c_str(), vname(end), pos, hex(fl).c_str());
      }
    }
    nontrivial();
}
// ============================================================ C11: precise, resumable errors
struct Resume { std::vector<size_t> at; Bytes out; int end; size_t used; Bytes fl; int flv; };
static Resume resume_run(Cd &cd, const Bytes &in, const std::vector<Sched> &ss, bool retries, const char *names) {
    Resume R; size_t pos = 0; size_t k = 0;
    for (;;) {
        StreamR r = stream(cd, in.substr(pos), ss[k++ % ss.size()], false); R.out += r.out; pos += r.used;
        if (r.verdict != V_ILSEQ) { R.end = r.verdict; break; }
        if (retries) for (int t = 0; t < 2; t++) {
            CallR q = cd.iconv(in.substr(pos), t ? 40 : ample(in.size() - pos));
            REQUIRE(verdict_of(q) == V_ILSEQ && q.used == 0 && q.out.empty(), "error-not-stable", "%s: repeating the call at the invalid position %zu of [%s] gives %s, consumes %zu and produces [%s]", names, pos, hex(in).c_str(), vname(verdict_of(q)), q.used, hex(q.out).c_str());
        }
        R.at.push_back(pos);
        size_t left = in.size() - pos; if (left == 0) { R.end = V_ILSEQ; break; }
        pos += std::min<size_t>(encs[cd.from].unit, left);
        if (R.at.size() > in.size() + 2) fail("error-loops", "%s: invalid positions never end in [%s]", names, hex(in).c_str());
    }
    R.used = pos; R.fl = flush_all(cd, {}, R.flv); return R;
}
static void c11() {
    if (draw(4) == 3) return noise(false);
    int from, to; pick_pair(from, to); Bytes in = maybe_big(gen_bytes(from, to), 1, 400, 250, 900); if (in.empty()) throw EndRun();
    std::string nm = std::string(NM(from)) + " -> " + NM(to); head("errors", from, to, 0, in);
    Cd a(from, to, 0); Resume ra = resume_run(a, in, {Sched()}, false, nm.c_str());
    if (ra.at.empty() && draw(4)) return noise(false);
    if (ra.at.size() > 1) shm->probe[P_MULTI_ERR]++;
    // stops exactly in front: the part before the first error alone gives the same output
    if (!ra.at.empty()) {
        Sched s = gen_sched(draw(2), draw(2), in.size()); Cd c(from, to, 0); StreamR e = stream(c, in, s, false); size_t p = ra.at[0]; e.fl = flush_all(c, {}, e.flv);
        StreamR pre = whole(from, to, 0, in.substr(0, p));
        REQUIRE(e.verdict == V_ILSEQ && e.used == p, "error-position", "%s: stops at %zu (%s) instead of %zu in [%s]; %s", nm.c_str(), e.used, vname(e.verdict), p, hex(in).c_str(), s.text().c_str());
        // a held-back character, or a look-ahead that the invalid unit settled, may have been handed out by then: as output or by the flush
        std::string det = " up to the invalid position " + std::to_string(p) + " of [" + hex(in) + "] the output is [" + hex(e.out) + "] and the flush [" + hex(e.fl) + "], but those bytes alone give " + show(pre) + "; " + s.text();
        REQUIRE(pre.verdict == V_OK || pre.verdict == V_INCOMPLETE, "error-not-precise", "%s:%s", nm.c_str(), det.c_str());
        bool held = encs[from].composes || pre.verdict == V_INCOMPLETE;
        REQUIRE(held ? e.out.compare(0, pre.out.size(), pre.out) == 0 : e.out == pre.out, "error-not-precise", "%s:%s", nm.c_str(), det.c_str());
        if (pre.verdict == V_OK && pre.flv == V_OK) REQUIRE(pre.out + pre.fl == e.out + e.fl && e.flv == V_OK, "error-state", "%s:%s", nm.c_str(), det.c_str());
    }
    // resumable under faults and retries
    for (int k = 0; k < 2; k++) {
        std::vector<Sched> ss; for (uint32_t n = range(1, 3); n > 0; n--) ss.push_back(gen_sched(draw(2), draw(2), in.size()));
        Cd b(from, to, 0); Resume rb = resume_run(b, in, ss, true, nm.c_str());
        if (ra.at != rb.at || ra.out != rb.out || ra.end != rb.end || ra.used != rb.used || ra.fl != rb.fl || ra.flv != rb.flv)
            fail("resume-differs", "%s: resuming after errors with short reads, small rooms (%s) and repeated calls gives out=[%s]+[%s] (%zu errors, %s at %zu), undisturbed out=[%s]+[%s] (%zu errors, %s at %zu); input=[%s]", nm.c_str(), ss[0].text().c_str(), hex(rb.out).c_str(), hex(rb.fl).c_str(), rb.at.size(), vname(rb.end), rb.used, hex(ra.out).c_str(), hex(ra.fl).c_str(), ra.at.size(), vname(ra.end), ra.used, hex(in).c_str());
    }
    // shift state intact: to Unicode, skipping by hand equals the discarding conversion
    { Cd s(from, E_UCS4, 0), d(from, E_UCS4, DISC); Resume h = resume_run(s, in, {gen_sched(draw(2), draw(2), in.size())}, draw(2), nm.c_str()); StreamR r = stream(d, in, Sched());
      if (h.end != V_ILSEQ) REQUIRE(h.out == r.out && h.fl == r.fl && h.used == r.used, "shift-state-lost", "%s: after skipping invalid units the text is [%s], the discarding decoder gives [%s]; input=[%s]", NM(from), cps(from_ucs4(h.out + h.fl)).c_str(), cps(from_ucs4(r.out + r.fl)).c_str(), hex(in).c_str()); }
    nontrivial();
}
// ============================================================ pipelines
struct PipeR { Bytes out, fl; int v1 = V_OK, v2 = V_OK; Bytes mid; };
static PipeR pipe2(Cd &a, Cd &b, const Bytes &in) {
    PipeR P; Bytes q; size_t pos = 0, fed = 0; bool a_done = false, a_flushed = false; uint32_t cap = draw(2) ? range(1, 24) : range(24, 400), idle = 0; size_t steps = 0;
    size_t big = in.size() > 400 ? in.size() / 24 : 1;
    while (true) {
        if (++steps > 4000 + 60 * in.size()) fail("no-progress", "pipeline %s -> %s -> %s makes no progress", NM(a.from), NM(a.to), NM(b.to));
        bool moved = false;
        if (draw(2) == 0 && !(a_done && a_flushed)) {           // serve the writer
            size_t room = cap + idle > q.size() ? cap + idle - q.size() : 0;
            if (!a_done) {
                if (fed < in.size() && draw(2)) { size_t k = draw(6) * big; if (k < in.size() - fed) fault(F_SHORT_READ); fed = std::min(in.size(), fed + k); if (k) moved = true; }
                if (room < 32) fault(F_SHORT_WRITE);
                CallR r = a.iconv(in.substr(pos, fed - pos), room); pos += r.used; q += r.out; P.mid += r.out; int v = verdict_of(r);
                if (r.used || !r.out.empty()) moved = true;
                if (v == V_ILSEQ || v == V_OTHER) { P.v1 = v; a_done = a_flushed = true; moved = true; }
                else if ((v == V_OK || v == V_INCOMPLETE) && fed == in.size()) { P.v1 = v; a_done = true; moved = true; }
            } else { CallR r = a.flush(room); q += r.out; P.mid += r.out; if (!r.out.empty()) moved = true; if (r.ok()) { a_flushed = true; moved = true; } else if (r.err != E2BIG) { P.v1 = V_OTHER; a_flushed = true; moved = true; } }
        } else {                                               // serve the reader
            size_t k = draw(3) ? q.size() : draw((uint32_t)q.size() + 1); size_t room = draw(3) ? ample(k) : draw(20) + idle;
            CallR r = b.iconv(q.substr(0, k), room); q.erase(0, r.used); P.out += r.out; int v = verdict_of(r);
            if (r.used || !r.out.empty()) moved = true;
            if (v == V_ILSEQ || v == V_OTHER) { P.v2 = v; return P; }
            if (a_done && a_flushed && (q.empty() || (v == V_INCOMPLETE && k == q.size() + r.used && r.used == 0))) { P.v2 = q.empty() ? V_OK : V_INCOMPLETE; break; }
        }
        idle = moved ? 0 : idle + 1;
    }
    if (P.v1 == V_OK || P.v1 == V_INCOMPLETE) { Sched s = gen_sched(false, draw(2), 4); int fv; P.fl = flush_all(b, s.caps, fv); if (fv != V_OK) P.v2 = fv; }
    return P;
}
// ============================================================ C12: direct = via Unicode
static void c12() {
    int from = pick_enc(), to = pick_enc(); if (draw(3) == 2) pick_pair(from, to);
    int flag = pick_flag(); Bytes in = maybe_big(gen_bytes(from, to), 1, 300, 300, 1500); if (in.empty()) throw EndRun();
    head("pipeline", from, to, flag, in);
    static int mids[4] = {-1}; if (mids[0] < 0) { mids[0] = E_UCS4; mids[1] = enc_id("ucs4be"); mids[2] = enc_id("ucs4le"); mids[3] = enc_id("ucs4swapped"); }
    int mid = mids[draw(4)];
    StreamR d = whole(from, to, flag, in);
    Cd a(from, mid, flag), b(mid, to, flag); PipeR p = pipe2(a, b, in);
    int pv = p.v2 == V_ILSEQ ? V_ILSEQ : p.v1;
    std::string det = std::string(NM(from)) + " -> " + NM(to) + (flag ? " (discard)" : "") + " input=[" + hex(in) + "] direct: " + show(d) + " pipeline via " + NM(mid) + ": out=[" + hex(p.out) + "] flush=[" + hex(p.fl) + "] " + vname(p.v1) + "/" + vname(p.v2) + " text " + cps(from_ucs4(p.mid));
    bool flush_err = d.flv == V_ILSEQ && d.verdict != V_ILSEQ;      // pending character not encodable: seen by the flush only
    if (flush_err) { REQUIRE(p.v2 == V_ILSEQ && p.out == d.out, "pipeline", "%s", det.c_str()); }
    else if (d.verdict == V_ILSEQ) REQUIRE(pv == V_ILSEQ && p.out == d.out, "pipeline", "%s", det.c_str());
    else REQUIRE(pv == d.verdict && p.v2 == V_OK && p.out + p.fl == d.out + d.fl, "pipeline", "%s", det.c_str());
    nontrivial();
}
// ============================================================ C13: round trip over a faulty pipe
// the text as UCS-4-INTERNAL, UTF-8, UTF-16 or UTF-32, written here, not by the library
static Bytes own_unicode(int e, const Text &t) {
    const std::string &id = encs[e].id; Bytes b;
    auto w = [&](uint32_t v, int n, bool le) { for (int i = 0; i < n; i++) b += (char)(v >> (8 * (le ? i : n - 1 - i))); };
    for (uint32_t c : t) {
        if (e == E_UCS4 || id == "utf32le") w(c, 4, true);
        else if (id == "utf16be" || id == "utf16le") { bool le = id == "utf16le"; if (c < 0x10000) w(c, 2, le); else { w(0xd800 + ((c - 0x10000) >> 10), 2, le); w(0xdc00 + ((c - 0x10000) & 0x3ff), 2, le); } }
        else if (c < 0x80) b += (char)c;
        else if (c < 0x800) { b += (char)(0xc0 | c >> 6); b += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { b += (char)(0xe0 | c >> 12); b += (char)(0x80 | (c >> 6 & 63)); b += (char)(0x80 | (c & 63)); }
        else { b += (char)(0xf0 | c >> 18); b += (char)(0x80 | (c >> 12 & 63)); b += (char)(0x80 | (c >> 6 & 63)); b += (char)(0x80 | (c & 63)); }
    }
    return b;
}
static void c13() {
    int enc = pick_enc(); GenOpt o; o.only_supported = true; o.maxlen = 30; Text t = gen_text(enc, -1, o);
    const Enc &x = encs[enc]; bool law2 = x.id == "cp1255" || x.id == "cp1258" || x.id == "tcvn"; bool fix = false;
    if (law2) { if (draw(2)) { Text q; for (size_t i = 0; i < t.size(); i++) if (!is_combining(t[i])) q.push_back(t[i]); t = q; } else { fix = true; for (uint32_t n = draw(4); n > 0; n--) { static const uint32_t cb[] = {0x300, 0x301, 0x303, 0x309, 0x323, 0x5b4, 0x5bc, 0x5c1, 0x5c2, 0x5b7}; uint32_t c = cb[draw(10)]; if (in_repertoire(enc, c)) t.insert(t.begin() + draw((uint32_t)t.size() + 1), c); }
        // marks on marks: which of them is composed first depends on the spelling, so such text has no settled form
        Text q; for (uint32_t c : t) if (!is_combining(c) || (!q.empty() && (!is_combining(q.back()) || x.id == "cp1255"))) q.push_back(c); t = q; } }
    else if (x.lags && draw(2)) for (uint32_t n = range(1, 4); n > 0; n--) { static const uint32_t pr[][2] = {{0xca, 0x304}, {0xea, 0x30c}, {0x304b, 0x309a}, {0x30ab, 0x309a}, {0xe6, 0x300}, {0x254, 0x301}, {0x2e9, 0x2e5}, {0x2e5, 0x2e9}, {0xca, 'A'}, {0x304b, 0x304b}}; auto &p = pr[draw(10)]; if (in_repertoire(enc, p[0])) { size_t at = draw((uint32_t)t.size() + 1); t.insert(t.begin() + at, p[0]); if (draw(4) && (in_repertoire(enc, p[1]) || p[1] == 0x304 || p[1] == 0x30c || p[1] == 0x309a || p[1] == 0x300 || p[1] == 0x301)) { if (in_repertoire(enc, p[1]) || true) t.insert(t.begin() + at + 1, p[1]); } } }
    if (t.empty()) throw EndRun();
    if (!law2) for (uint32_t c : t) if (!in_repertoire(enc, c)) { // only as second half of a pair
        size_t i = &c - &c; (void)i; }
    static int src[5] = {-1}; if (src[0] < 0) { src[0] = E_UCS4; src[1] = E_UTF8; src[2] = enc_id("utf16be"); src[3] = enc_id("utf32le"); src[4] = enc_id("utf16le"); }
    int s = src[draw(5)];
    Bytes in = own_unicode(s, t); if (draw(40) == 39) { size_t one = in.size(); Bytes big; while (big.size() < 2500) big += in; in = big; Text tt; size_t k = in.size() / one; for (size_t i = 0; i < k; i++) tt.insert(tt.end(), t.begin(), t.end()); t = tt; }
    mix(enc); mix(s); mix(in); if (verbose) logf("round trip of %s through %s (source %s)", cps(t).c_str(), x.name.c_str(), NM(s));
    bool pairsecond = false; for (size_t i = 0; i < t.size(); i++) if (!in_repertoire(enc, t[i])) pairsecond = true;
    Cd a(s, enc, 0), b(enc, s, 0);
    PipeR p = pipe2(a, b, in); Bytes back = p.out + p.fl;
    if (pairsecond && p.v1 != V_OK) throw EndRun();
    if (fix) {
        REQUIRE(p.v1 == V_OK && p.v2 == V_OK, "roundtrip-error", "%s: supported text %s is rejected on the way (%s/%s)", x.name.c_str(), cps(t).c_str(), vname(p.v1), vname(p.v2));
        StreamR e2 = whole(s, enc, 0, back), d2 = whole(enc, s, 0, e2.out + e2.fl);
        REQUIRE(d2.out + d2.fl == back, "roundtrip", "%s: text %s settles on [%s] and then on [%s]", x.name.c_str(), cps(t).c_str(), hex(back).c_str(), hex(d2.out + d2.fl).c_str());
    } else {
        if (p.v1 == V_OK && p.v2 == V_OK && back == in) { nontrivial(); return; }
        if (pairsecond) throw EndRun();               // second half of a pair standing alone is not supported text
        fail("roundtrip", "%s: text %s (%s) comes back as [%s] (%s/%s), sent as [%s], on the wire [%s]", x.name.c_str(), cps(t).c_str(), NM(s), hex(back).c_str(), vname(p.v1), vname(p.v2), hex(in).c_str(), hex(p.mid).c_str());
    }
    nontrivial();
}
// ============================================================ C14: progress
extern double steps_worst;
static void c14() {
    if (draw(400) == 399) { huge_sizes("full-with-room"); return; }
    int from, to; pick_pair(from, to); int flag = pick_flag(); head("progress", from, to, flag, "");
    Cd cd(from, to, flag); Bytes tail;
    auto judged = [&](const Bytes &in, size_t cap, bool fl) {
        CallR r = fl ? cd.flush(cap) : cd.iconv(in, cap); int v = verdict_of(r);
        if (v == V_FULL) REQUIRE(cap - r.out.size() < 32, "full-with-room", "%s -> %s: reports a full output with %zu bytes of room left (input [%s])", NM(from), NM(to), cap - r.out.size(), hex(in).c_str());
        if (v == V_FULL && !fl) REQUIRE(r.used < in.size(), "full-without-input", "%s -> %s: reports a full output with no input left (input [%s], room %zu)", NM(from), NM(to), hex(in).c_str(), cap);
        if (v == V_OK && !fl) REQUIRE(r.used == in.size(), "success-unconsumed", "%s -> %s: success with %zu of %zu consumed", NM(from), NM(to), r.used, in.size());
        double per = (double)lib_steps / (r.used + r.out.size() + 24); if (per > steps_worst) steps_worst = per;
        REQUIRE(lib_steps <= 60000 + 4000ull * (r.used + r.out.size() + 24), "superlinear", "%s -> %s: %llu basic blocks for %zu bytes consumed and %zu produced", NM(from), NM(to), (unsigned long long)lib_steps, r.used, r.out.size());
        return r;
    };
    for (uint32_t n = range(0, 6); n > 0; n--) {
        uint32_t k = draw(6);
        if (k < 4) { Bytes in = tail; bool idle = draw(12) == 11; if (!idle) in += gen_bytes(from, to, 10); CallR r = judged(in, idle ? draw(3) : draw(4) ? draw(48) : ample(in.size()), false); tail = in.substr(r.used).substr(0, 100); if (verdict_of(r) == V_ILSEQ && draw(2)) tail.clear(); }
        else if (k == 4) { CallR r = judged("", draw(40), true); if (r.ok()) tail.clear(); }
        else { fault(F_RESET_MID); cd.reset(draw(2)); tail.clear(); }
    }
    // faults stop: ample room and the rest of the input; one call reaches the end or the next error, error by error
    Bytes rest = tail + maybe_big(gen_bytes(from, to), 1, 20, 500, 60000); uint32_t calls = 0;
    while (true) {
        CallR r = judged(rest, ample(rest.size()), false); calls++; int v = verdict_of(r);
        REQUIRE(v != V_FULL, "no-finish", "%s -> %s: reports a full output with ample room", NM(from), NM(to));
        if (v != V_ILSEQ) { REQUIRE(v == V_OK || v == V_INCOMPLETE, "no-finish", "%s -> %s: ends with errno %d", NM(from), NM(to), r.err); if (v == V_INCOMPLETE) REQUIRE(rest.size() - r.used <= 24, "incomplete-too-long", "%s -> %s: %zu bytes [%s] reported as an incomplete character", NM(from), NM(to), rest.size() - r.used, hex(rest.substr(r.used)).c_str()); break; }
        REQUIRE(flag == 0, "discard-stops", "%s -> %s: discarding conversion stops at invalid input", NM(from), NM(to));
        if (r.used == rest.size()) break;
        rest.erase(0, std::min(rest.size(), r.used + encs[from].unit));
        if (rest.empty() || calls > 60) break;
    }
    if (draw(2)) {                    // exactly the room it takes is room enough
        Bytes in = gen_bytes(from, to, 10); Cd c1(from, to, flag), c2(from, to, flag); CallR w = c1.iconv(in, ample(in.size())), g = c2.iconv(in, w.out.size()), wf = c1.flush(64), gf = c2.flush(wf.out.size()); fault(F_SIZE_SWEEP);
        if (w.ok() && !w.ret && wf.ok() && !wf.ret && (g.out != w.out || (g.ok() && gf.out != wf.out))) fail("exact-room", "%s -> %s%s: [%s] takes %zu and %zu bytes, but in a room of just that size it yields [%s] (%s), then [%s] (%s)", NM(from), NM(to), flag ? " (discard)" : "", hex(in).c_str(), w.out.size(), wf.out.size(), hex(g.out).c_str(), vname(verdict_of(g)), hex(gf.out).c_str(), vname(verdict_of(gf)));
    }
    CallR f = judged("", 64, true); REQUIRE(verdict_of(f) != V_FULL, "no-finish", "%s -> %s: flush never completes", NM(from), NM(to));
    // one-shots terminate within the step budget (enforced inside the call)
    if (draw(4) == 3) { Bytes in = maybe_big(gen_bytes(from, to), 1, 3, 3000, 9000); Cd c2(from, to, flag); int err, st; size_t h; Bytes o; c2.result_size(in, err);
        REQUIRE(lib_steps <= 200000 + 8000ull * (in.size() + 24) * 4, "superlinear", "size query of %zu bytes takes %llu basic blocks", in.size(), (unsigned long long)lib_steps);
        c2.convert_static(in, draw(2) ? ample(in.size()) : draw(60), o, err, h); c2.convert(in, false, o, err, st); }
    nontrivial();
}
double steps_worst;
// ============================================================ C15: byte order
namespace bo {
struct Model { int unit; bool utf16; bool utf32; bool swapped = false; };   // swapped = little endian
// decodes one unit group; returns consumed (0 = incomplete), -1 invalid; cp = -1 when a mark was eaten
static int step(Model &m, const unsigned char *s, size_t n, long &cp) {
    if (n < (size_t)m.unit) return 0;
    auto get = [&](const unsigned char *p) -> uint32_t { if (m.unit == 2) return m.swapped ? p[0] | p[1] << 8 : p[0] << 8 | p[1]; return m.swapped ? (uint32_t)p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24 : (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; };
    uint32_t w = get(s);
    if (w == 0xfeff) { cp = -1; return m.unit; }
    if (w == (m.unit == 2 ? 0xfffeu : 0xfffe0000u)) { m.swapped = !m.swapped; cp = -1; shm->probe[P_BOM_SWITCH]++; return m.unit; }
    if (m.unit == 2) {
        if (m.utf16) {
            if (w >= 0xd800 && w < 0xdc00) { if (n < 4) return 0; uint32_t w2 = get(s + 2); if (w2 < 0xdc00 || w2 >= 0xe000) return -1; cp = 0x10000 + ((w - 0xd800) << 10) + (w2 - 0xdc00); return 4; }
            if (w >= 0xdc00 && w < 0xe000) return -1;
        } else if (w >= 0xd800 && w < 0xe000) return -1;
        cp = w; return 2;
    }
    if (m.utf32) { if (w >= 0x110000 || (w >= 0xd800 && w < 0xe000)) return -1; } else if (w > 0x7fffffff) return -1;
    cp = w; return 4;
}
}
static void c15() {
    static const char *ids[] = {"utf16", "utf32", "ucs2", "ucs4"}; int which = draw(4); int enc = enc_id(ids[which]); if (encs[enc].index < 0) throw EndRun();
    bo::Model m; m.unit = encs[enc].unit; m.utf16 = which == 0; m.utf32 = which == 1;
    mix(enc);
    if (draw(3) == 2) {                               // encoding
        if (verbose) logf("byte order: encoding %s", NM(enc));
        int src = draw(2) ? E_UCS4 : E_UTF8; Cd cd(src, enc, 0);
        for (uint32_t n = range(1, 4); n > 0; n--) {
            GenOpt o; o.combining = false; o.tags = false; Text t = gen_text(enc, -1, o); Text q; for (auto c : t) if (in_repertoire(src, c) && c != 0xfffe && (c >> 7) != (0xe0000 >> 7) && (c < 0x10000 || m.utf16 || m.unit == 4)) q.push_back(c); 
            if (src == E_UCS4 && which != 3 && draw(3) == 2) for (uint32_t k = range(1, 3); k > 0; k--) { static const uint32_t ed[] = {0x110000, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0x10ffff, 0x10000, 0x110001, 0x1fffff, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xd7ff, 0xe000, 0x10ffff}; q.insert(q.begin() + draw((uint32_t)q.size() + 1), ed[draw(15)]); }
            Bytes in = src == E_UCS4 ? ucs4(q) : encode(src, q); for (auto &c : q) if (c >= 0x110000 || (c >= 0xd800 && c < 0xe000) || (which == 2 && c >= 0x10000)) c = 0xfffd; Sched s = gen_sched(draw(2), draw(2), in.size()); StreamR r = stream(cd, in, s, true);
            Bytes want; auto put = [&](uint32_t w) { if (m.unit == 2) { want += (char)(w >> 8); want += (char)w; } else { want += (char)(w >> 24); want += (char)(w >> 16); want += (char)(w >> 8); want += (char)w; } };
            if (encs[enc].bom_out && !q.empty()) put(0xfeff);
            for (auto c : q) { if (m.utf16 && c >= 0x10000) { put(0xd800 + ((c - 0x10000) >> 10)); put(0xdc00 + ((c - 0x10000) & 0x3ff)); } else put(c); }
            REQUIRE(r.verdict == V_OK && r.out + r.fl == want, "byte-order-out", "%s: text %s in stream is written as [%s], expected [%s]; %s", NM(enc), cps(q).c_str(), hex(r.out + r.fl).c_str(), hex(want).c_str(), s.text().c_str());
            if (draw(3) == 2) { fault(F_RESET_MID); cd.reset(draw(2)); }
        }
        nontrivial(); return;
    }
    Cd cd(enc, E_UCS4, 0); if (verbose) logf("byte order: decoding %s", NM(enc));
    for (uint32_t n = range(1, 4); n > 0; n--) {
        Bytes in; bool le = draw(2);
        for (uint32_t k = range(1, 8); k > 0; k--) {
            uint32_t w; uint32_t q = draw(8);
            if (q == 0) w = 'A'; else if (q < 3) w = 0xfeff; else if (q == 3) { w = m.unit == 2 ? 0xfffe : 0xfffe0000u; fault(F_BOM_MID); } else if (q == 4) w = 0xd800 + draw(0x800); else if (q == 5) w = 0xe9; else if (q == 6 && draw(3) == 2) { static const uint32_t ed[] = {0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x1fffff, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xdbff, 0xdc00, 0xdfff, 0xd800}; w = ed[draw(15)]; if (m.unit == 2) w &= 0xffff; } else if (q == 6) w = m.unit == 2 ? draw(0x10000) : draw(0x120000); else { w = m.unit == 2 ? 0xd83d : 0x10ffff; }
            if (m.unit == 2) { in += (char)(le ? w : w >> 8); in += (char)(le ? w >> 8 : w); if (q == 7) { w = 0xde00; in += (char)(le ? w : w >> 8); in += (char)(le ? w >> 8 : w); } }
            else for (int b = 0; b < 4; b++) in += (char)(w >> (8 * (le ? b : 3 - b)));
        }
        if (draw(6) == 5) { in.resize(draw((uint32_t)in.size() + 1)); fault(F_TRUNCATE); }
        Text want; size_t p = 0; int v = V_OK;
        while (p < in.size()) { long c; int k = bo::step(m, (const unsigned char *)in.data() + p, in.size() - p, c); if (k == 0) { v = V_INCOMPLETE; break; } if (k < 0) { v = V_ILSEQ; break; } if (c >= 0) want.push_back((uint32_t)c); p += k; }
        Sched s = gen_sched(draw(2), draw(2), in.size()); bool fl = draw(2); StreamR r = stream(cd, in, s, fl);
        REQUIRE(r.verdict == v && r.used == p && r.out + r.fl == ucs4(want), "byte-order-in", "%s: [%s] (%s order at start) decodes to %s, %s at %zu; expected %s, %s at %zu; %s", NM(enc), hex(in).c_str(), "learnt", cps(from_ucs4(r.out)).c_str(), vname(r.verdict), r.used, cps(want).c_str(), vname(v), p, s.text().c_str());
        if (!fl && draw(2)) { fault(F_RESET_MID); cd.reset(draw(2)); }
    }
    nontrivial();
}
// ============================================================ C21: loss is never silent
// Does the target lack c (behind prev)? Judged by what a discarding encoder writes, not by the counts under test.
static bool lacks(int to, uint32_t prev, uint32_t c) {
    if ((c >> 7) == (0xe0000 >> 7)) return false;
    if (!encs[to].lags || !prev) return encode(to, Text{c}).empty();
    return encode(to, Text{prev, c}) == encode(to, Text{prev});
}
static void c21() {
    if (draw(15000) == 14999) {                       // more losses in one call than small counters hold
        int to = all_ok[draw((uint32_t)all_ok.size())], flag = draw(2) ? DISC : 0, from = draw(2) ? E_UCS4 : E_UTF8; uint32_t c = draw(2) ? 0x4e00 + draw(0x5000) : 0x10000 + draw(0x2fff0); if (encs[to].lags || !lacks(to, 0, c)) throw EndRun();
        Bytes rep = encode(to, Text{0xfffd}); if (!flag && rep.empty()) throw EndRun();
        static const uint32_t base[] = {254, 510, 65534, 131070}; uint32_t n = base[draw(4)] + draw(4); Text t(n, c); bool v = verbose; verbose = false; Bytes in = from == E_UCS4 ? ucs4(t) : encode(E_UTF8, t); verbose = v; mix(to); mix(n); mix(c);
        if (verbose) logf("loss of U+%04X %u times, %s -> %s%s", c, n, NM(from), NM(to), flag ? " (discard)" : "");
        Cd cd(from, to, flag); CallR r = cd.iconv(in, 64 + (flag ? 0 : 6 * n));
        REQUIRE(r.ret == n, "loss-count", "%s -> %s%s: U+%04X, which the target lacks, %u times in one call: returns %zu (errno %d)", NM(from), NM(to), flag ? " (discard)" : "", c, n, r.ret, r.err);
        nontrivial(); return;
    }
    int from, to; pick_pair(from, to); for (int k = 0; k < 3 && encs[to].total > 60000; k++) if (draw(4)) to = pick_enc();      // targets that have everything lose nothing
    int flag = draw(2) ? DISC : 0;
    Bytes in = maybe_big(gen_bytes(from, draw(2) ? -1 : to, 12), 1, 400, 200, 900); if (in.empty()) throw EndRun();      // half of the texts ignore what the target has
    head("loss", from, to, flag, in);
    bool held = encs[from].composes;                  // a character held back is handed out when the next one is seen: no small rooms there
    Sched s = gen_sched(draw(2), !held && draw(2), in.size()); if (verbose) logf(" schedule %s", s.text().c_str());
    int v = V_OK;
    // the reader of the same bytes into Unicode, and an encoder that is given only what the target has
    Cd cd(from, to, flag), d(from, E_UCS4, flag), e(E_UCS4, to, 0);
    uint32_t prev = 0; bool fffd = !encode(to, Text{0xfffd}).empty(); Bytes want, got; size_t pos = 0, fed = 0, ri = 0, ci = 0; uint32_t stuck = 0; int calls = 0;
    auto take = [&](const Bytes &t4, bool ok) -> size_t {          // characters taken in by a call: counts the lost ones, writes the rest
        size_t lost = 0;
        for (uint32_t c : from_ucs4(t4)) {
            bool l = lacks(to, prev, c);
            if (l) { lost++; if (flag || !fffd) { if (!flag) fail("loss-passed", "%s -> %s: U+%04X has no code in the target, yet the conversion went past it; input=[%s] %s", NM(from), NM(to), c, hex(in).c_str(), s.text().c_str()); continue; } c = 0xfffd; }
            if ((c >> 7) != (0xe0000 >> 7)) prev = c;
            CallR r = e.iconv(Bytes((char *)&c, 4), 64); want += r.out; if (!r.ok()) throw EndRun();
        }
        return lost;
    };
    auto feed = [&]() { if (s.reads.empty()) { fed = in.size(); return; } size_t k = s.reads[ri++ % s.reads.size()], left = in.size() - fed; if (k < left) fault(k ? F_SHORT_READ : F_EMPTY_READ); fed += std::min(k, left); };
    feed();
    for (;;) {
        size_t full = ample(fed - pos), k = s.caps.empty() ? full : std::min<size_t>(full, s.caps[ci % s.caps.size()] + stuck); if (k < full) fault(k ? F_SHORT_WRITE : F_FULL_ZERO);
        Bytes piece = in.substr(pos, fed - pos); CallR r = cd.iconv(piece, k); v = verdict_of(r); got += r.out; pos += r.used;
        if (++calls > 400 + 40 * (int)in.size()) throw EndRun();
        // the same bytes through the decoder; a call cut short has taken in only what it consumed
        CallR t = d.iconv(v == V_OK || v == V_INCOMPLETE ? piece : piece.substr(0, r.used), ample(piece.size())); if (t.used != r.used || t.ret == (size_t)-1 && verdict_of(t) == V_OTHER) throw EndRun();
        size_t lost = take(t.out, r.ok());
        if (r.ok()) REQUIRE(r.ret == lost, "loss-count", "%s -> %s%s: a call returns %zu, but %zu of the characters it took in (%s) have no code in the target; input=[%s] piece=[%s] %s", NM(from), NM(to), flag ? " (discard)" : "", r.ret, lost, cps(from_ucs4(t.out)).c_str(), hex(in).c_str(), hex(piece).c_str(), s.text().c_str());
        if (v == V_FULL) { if (r.used || !r.out.empty()) { stuck = 0; ci++; } else stuck++; continue; }
        stuck = 0;
        if (v == V_OK || v == V_INCOMPLETE) { if (fed == in.size()) break; ci++; feed(); continue; }
        break;
    }
    REQUIRE(held && v == V_ILSEQ ? got.compare(0, want.size(), want) == 0 : got == want, "loss-output", "%s -> %s%s: output [%s], expected [%s] (what the target lacks %s); input=[%s] %s", NM(from), NM(to), flag ? " (discard)" : "", hex(got).c_str(), hex(want).c_str(), flag ? "dropped" : "replaced by U+FFFD", hex(in).c_str(), s.text().c_str());
    // the flush counts what it replaces or drops itself
    if (!(held && v == V_ILSEQ)) { CallR r = cd.flush(64), t = d.flush(64); if (r.ok() && t.ok()) { size_t lost = take(t.out, true); REQUIRE(r.ret == lost, "loss-count-flush", "%s -> %s%s: the flush returns %zu, but %zu of the characters it delivered (%s) have no code in the target; input=[%s]", NM(from), NM(to), flag ? " (discard)" : "", r.ret, lost, cps(from_ucs4(t.out)).c_str(), hex(in).c_str()); } 
      else if (t.ok() && r.err == EILSEQ) { Text q = from_ucs4(t.out); REQUIRE(!flag && !fffd && q.size() == 1 && lacks(to, prev, q[0]), "flush-refuses", "%s -> %s%s: the flush refuses %s; input=[%s]", NM(from), NM(to), flag ? " (discard)" : "", cps(q).c_str(), hex(in).c_str()); } }
    nontrivial();
}
// ============================================================ C22: ill-formed Unicode is neither accepted nor produced
namespace uni {
enum Form { F8, F16, F32, FU2, FU4, FJAVA, FC99 };
struct Def { const char *id; Form f; bool le; };
static const Def defs[] = {{"utf8", F8, false}, {"utf16be", F16, false}, {"utf16le", F16, true}, {"utf32be", F32, false}, {"utf32le", F32, true}, {"ucs2be", FU2, false}, {"ucs2le", FU2, true}, {"ucs2internal", FU2, true}, {"ucs2swapped", FU2, false}, {"java", FJAVA, false}, {"c99", FC99, false}, {"utf8", F8, false}, {"ucs4be", FU4, false}, {"ucs4le", FU4, true}, {"ucs4internal", FU4, true}, {"ucs4swapped", FU4, false}};
static bool scalar(uint32_t c) { return c < 0x110000 && !(c >= 0xd800 && c < 0xe000); }
static uint32_t w16(bool le, const unsigned char *s) { return le ? s[0] | s[1] << 8 : s[0] << 8 | s[1]; }
static uint32_t w32(bool le, const unsigned char *s) { return le ? s[0] | s[1] << 8 | s[2] << 16 | (uint32_t)s[3] << 24 : (uint32_t)s[0] << 24 | s[1] << 16 | s[2] << 8 | s[3]; }
// reads one character: > 0 consumed, 0 more bytes needed, -1 ill-formed; soft: ill-formed, but not yet as long as the lead announces
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static int esc(const unsigned char *s, size_t n, int digits, uint32_t &v) { v = 0; for (int i = 0; i < digits; i++) { if (n <= (size_t)i) return 0; int h = hexv(s[i]); if (h < 0) return -1; v = v << 4 | h; } return 1; }
static int step(const Def &d, const unsigned char *s, size_t n, uint32_t &c, bool &soft) {
    soft = false;
    if (d.f == F8) {
        if (s[0] < 0x80) { c = s[0]; return 1; }
        int len = s[0] >= 0xc2 && s[0] <= 0xdf ? 2 : s[0] >= 0xe0 && s[0] <= 0xef ? 3 : s[0] >= 0xf0 && s[0] <= 0xf4 ? 4 : 0;
        if (!len) { soft = s[0] >= 0xf0 && n < 6; return -1; }
        bool bad = false; c = s[0] & (0xff >> (len + 1));
        for (int i = 1; i < len && i < (int)n; i++) { if ((s[i] & 0xc0) != 0x80) bad = true; c = c << 6 | (s[i] & 0x3f); }
        if ((int)n < len) { soft = true; return bad ? -1 : 0; }
        static const uint32_t least[] = {0, 0, 0x80, 0x800, 0x10000}; if (bad || c < least[len] || !scalar(c)) return -1;
        return len;
    }
    if (d.f == F16 || d.f == FU2) {
        if (n < 2) return 0; uint32_t w = w16(d.le, s); c = w;
        if (w < 0xd800 || w >= 0xe000) return 2;
        if (d.f == FU2 || w >= 0xdc00) return -1;
        if (n < 4) return 0; uint32_t x = w16(d.le, s + 2); if (x < 0xdc00 || x >= 0xe000) return -1;
        c = 0x10000 + ((w - 0xd800) << 10) + (x - 0xdc00); return 4;
    }
    if (d.f == FU4) { if (n < 4) return 0; c = w32(d.le, s); return 4; }
    if (d.f == F32) { if (n < 4) return 0; c = w32(d.le, s); return scalar(c) ? 4 : -1; }
    if (d.f == FC99 && s[0] >= 0xa0) return -1;
    if (s[0] != '\\') { c = s[0]; return 1; }
    if (n < 2) return 0;
    uint32_t v; c = '\\';
    if (s[1] == 'u') {
        int k = esc(s + 2, n - 2, 4, v); if (k == 0) return 0; if (k < 0) { c = '\\'; return 1; }
        if (d.f == FC99) { if (!scalar(v) || (v < 0xa0 && v != 0x24 && v != 0x40 && v != 0x60)) return -1; c = v; return 6; }
        if (scalar(v)) { c = v; return 6; }
        if (v >= 0xdc00) return 1;
        if (n < 7) return 0; if (s[6] != '\\') return 1; if (n < 8) return 0; if (s[7] != 'u') return 1;
        uint32_t x; k = esc(s + 8, n - 8, 4, x); if (k == 0) return 0; if (k < 0 || x < 0xdc00 || x >= 0xe000) return 1;
        c = 0x10000 + ((v - 0xd800) << 10) + (x - 0xdc00); return 12;
    }
    if (d.f == FC99 && s[1] == 'U') { int k = esc(s + 2, n - 2, 8, v); if (k == 0) return 0; if (k < 0) return 1; if (v >= 0x110000) throw EndRun(); if ((v < 0xa0 && v != 0x24 && v != 0x40 && v != 0x60) || (v >= 0xd800 && v < 0xe000)) return -1; c = v; return 10; }
    return 1;
}
static const uint32_t edge[] = {'A', 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff, 0x110000, 0x1fffff, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xd83d, 0xde00, 0xe9, 0x9f, 0xa0};
static uint32_t any() { switch (draw(4)) { case 0: return edge[draw(sizeof edge / sizeof *edge)]; case 1: return draw(0x80); case 2: return draw(0x10000); default: return draw(0x118000); } }
static void put(const Def &d, uint32_t c, Bytes &b) {
    auto u2 = [&](uint32_t w) { if (d.le) { b += (char)w; b += (char)(w >> 8); } else { b += (char)(w >> 8); b += (char)w; } };
    char t[24];
    switch (d.f) {
    case F8: if (c < 0x80) b += (char)c; else if (c < 0x800) { b += (char)(0xc0 | c >> 6); b += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { b += (char)(0xe0 | c >> 12); b += (char)(0x80 | (c >> 6 & 63)); b += (char)(0x80 | (c & 63)); } else { b += (char)(0xf0 | (c >> 18 & 7)); b += (char)(0x80 | (c >> 12 & 63)); b += (char)(0x80 | (c >> 6 & 63)); b += (char)(0x80 | (c & 63)); } break;
    case F16: if (c < 0x10000) u2(c); else { u2(0xd800 + ((c - 0x10000) >> 10)); u2(0xdc00 + ((c - 0x10000) & 0x3ff)); } break;
    case FU2: u2(c); break;
    case F32: case FU4: if (d.le) { u2(c); u2(c >> 16); } else { u2(c >> 16); u2(c); } break;
    case FJAVA: if (c < 0x80) b += (char)c; else if (c < 0x10000) { snprintf(t, 24, "\\u%04x", c); b += t; } else { snprintf(t, 24, "\\u%04x\\u%04x", 0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 0x3ff)); b += t; } break;
    case FC99: if (c < 0xa0) b += (char)c; else { snprintf(t, 24, c < 0x10000 ? "\\u%04x" : "\\U%08x", c); b += t; } break;
    }
}
static bool has(const Def &d, uint32_t c) { return d.f == FC99 ? true : d.f == FU2 ? scalar(c) && c < 0x10000 : d.f == FJAVA ? c < 0x110000 : scalar(c); }
static Bytes raw(const Def &d) {          // one piece of input: well-formed, nearly so, or not at all
    Bytes b; uint32_t c = any(), k = draw(6);
    if (d.f == FU4) { put(d, scalar(c) ? c : 'A', b); return b; }      // what else may be in there is left open
    if (k < 3) { put(d, d.f == F32 || d.f == F8 ? c : c & 0x1fffff, b); return b; }
    if (d.f == F8) {
        static const unsigned char lead[] = {0xe4, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfc, 0xfe, 0xff, 0x80}, cont[] = {0x80, 0x7f, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 'A'};
        b += (char)lead[draw(sizeof lead)]; for (uint32_t n = draw(5); n > 0; n--) b += (char)(draw(3) ? cont[draw(sizeof cont)] : range(0x80, 0xbf)); return b;
    }
    if (d.f == FJAVA || d.f == FC99) {
        static const char *tk[] = {"\\", "\\u", "\\U", "u", "\\\\", "\\ud83d", "\\ude00", "\\u00e9", "\\u00EG", "\\uzebr", "\\users", "\\U0001F600", "\\U0001f6", "\\u0041", "\\u0024", "\\uDFFF", "00", "fF", "gG", "\xe9", "\\ud83d\\u0041", "\\ud83d\\x", "\\U0000d800"};
        for (uint32_t n = range(1, 3); n > 0; n--) b += tk[draw(sizeof tk / sizeof *tk)]; return b;
    }
    int u = d.f == F32 ? 4 : 2;
    if (k == 5) { for (uint32_t n = range(1, 3); n > 0; n--) b += (char)draw(256); return b; }
    if (u == 2) { uint32_t w = draw(2) ? 0xd800 + draw(0x800) : c & 0xffff; b += (char)(d.le ? w : w >> 8); b += (char)(d.le ? w >> 8 : w); } else { uint32_t w = c; for (int i = 0; i < 4; i++) b += (char)(w >> (8 * (d.le ? i : 3 - i))); }
    return b;
}
}
// UTF-7 (RFC 2152): characters in front of the first ill-formed place, and whether there is one; throws where the RFC leaves it open
static int utf7_read(const Bytes &in, Text &t) {
    static const char direct[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'(),-./:? \t\n\r!\"#$%&*;<=>@[]^_`{|}", b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    size_t p = 0; bool on = false; uint32_t acc = 0, nb = 0, cnt = 0, high = 0;
    while (p < in.size()) {
        unsigned char c = in[p];
        if (!on) {
            if (c == '+') {
                if (p + 1 == in.size()) return V_INCOMPLETE;
                if (in[p + 1] == '-') { t.push_back('+'); p += 2; continue; }
                if (!in[p + 1] || !strchr(b64, in[p + 1])) throw EndRun();         // "+" in front of something else: read leniently
                on = true; acc = nb = cnt = high = 0; p++; continue;
            }
            if (!c || !strchr(direct, c)) return V_ILSEQ;
            t.push_back(c); p++; continue;
        }
        const char *q = c ? strchr(b64, c) : nullptr;
        if (!q) { if (cnt || acc) return V_ILSEQ; on = false; if (c == '-') p++; continue; }
        acc = acc << 6 | (uint32_t)(q - b64); nb += 6; cnt++; p++;
        if (nb < 16) continue;
        uint32_t w = acc >> (nb - 16); nb -= 16; acc &= (1u << nb) - 1;
        if (high) { if (w < 0xdc00 || w >= 0xe000) return V_ILSEQ; t.push_back(0x10000 + ((high - 0xd800) << 10) + (w - 0xdc00)); high = 0; cnt = 0; }
        else if (w >= 0xd800 && w < 0xdc00) high = w;
        else if (w >= 0xdc00 && w < 0xe000) throw EndRun();                   // lone low surrogates are passed on
        else { t.push_back(w); cnt = 0; }
    }
    if (on && cnt) return V_INCOMPLETE;
    if (on && acc) throw EndRun();                     // the bits of an unfinished run
    return V_OK;
}
static void c22_utf7() {
    int enc = enc_id("utf7"); if (encs[enc].index < 0) throw EndRun(); static const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; Bytes in;
    for (uint32_t n = range(1, 6); n > 0; n--) switch (draw(8)) {
        case 0: in += (char)(draw(8) ? range(0x20, 0x7e) : draw(256)); break;
        case 1: in += draw(2) ? "+-" : "-"; break;
        case 2: { Bytes r = "+"; for (uint32_t k = range(1, 9); k > 0; k--) r += draw(3) ? b64[draw(64)] : 'A'; if (draw(2)) r += draw(3) ? '-' : ' '; in += r; break; }
        default: { Text q; for (uint32_t k = range(1, 4); k > 0; k--) { uint32_t c = draw(3) ? range(0xa1, 0x3fff) : uni::any(); if (uni::scalar(c)) q.push_back(c); } Bytes r = encode(enc, q);
            uint32_t m = draw(8); if (!r.empty() && m == 7) r.insert(draw((uint32_t)r.size() + 1), 1, b64[draw(4) ? 0 : draw(64)]); if (!r.empty() && m == 6) r.erase(draw((uint32_t)r.size()), 1); if (!r.empty() && m == 5) r[draw((uint32_t)r.size())] = (char)range(0x20, 0x7e); if (m >= 5) fault(F_CORRUPT); in += r; }
    }
    if (draw(8) == 7) { in.resize(draw((uint32_t)in.size() + 1)); fault(F_TRUNCATE); }
    if (in.empty()) throw EndRun();
    mix(in); Text want; int v = utf7_read(in, want); Sched s = gen_sched(draw(2), draw(2), in.size()); if (verbose) logf("reading [%s] '%s' as UTF-7; %s", hex(in).c_str(), in.c_str(), s.text().c_str());
    Cd cd(enc, E_UCS4, 0); StreamR r = stream(cd, in, s);
    REQUIRE(r.verdict == v && r.out + r.fl == ucs4(want) && (v != V_OK || r.used == in.size()), "ill-formed-in", "UTF-7: '%s' [%s] is read as %s, %s at %zu; expected %s, %s; %s", in.c_str(), hex(in).c_str(), cps(from_ucs4(r.out)).c_str(), vname(r.verdict), r.used, cps(want).c_str(), vname(v), s.text().c_str());
    nontrivial();
}
static void c22() {
    if (draw(9) == 8) return c22_utf7();
    const uni::Def &d = uni::defs[draw(sizeof uni::defs / sizeof *uni::defs)]; int enc = enc_id(d.id); if (encs[enc].index < 0) throw EndRun(); mix(enc);
    if (draw(3) == 2) {                               // writing: any 32-bit values
        bool disc = draw(2); Cd cd(E_UCS4, enc, disc ? DISC : 0); Text t; for (uint32_t n = range(1, 10); n > 0; n--) t.push_back(uni::any());
        if (d.f == uni::FC99 || d.f == uni::FJAVA || d.f == uni::FU4) { Text q; for (uint32_t c : t) if (uni::scalar(c)) q.push_back(c); t = q; if (t.empty()) throw EndRun(); }
        Bytes want; for (uint32_t c : t) { if (!uni::has(d, c)) { if (disc || (c >> 7) == (0xe0000 >> 7)) continue; c = 0xfffd; } uni::put(d, c, want); }
        Sched s = gen_sched(draw(2), draw(2), t.size() * 4); if (verbose) logf("writing %s as %s%s; %s", cps(t).c_str(), NM(enc), disc ? " (discard)" : "", s.text().c_str());
        StreamR r = stream(cd, ucs4(t), s);
        REQUIRE(r.verdict == V_OK && r.out + r.fl == want, "ill-formed-out", "%s: %s%s is written as [%s] (%s), expected [%s]; %s", NM(enc), cps(t).c_str(), disc ? " (discard)" : "", hex(r.out + r.fl).c_str(), vname(r.verdict), hex(want).c_str(), s.text().c_str());
        nontrivial(); return;
    }
    Bytes in; for (uint32_t n = range(1, 8); n > 0; n--) in += uni::raw(d);
    if (draw(400) == 399) { Bytes w; uni::put(d, 'a', w); Bytes pad; for (uint32_t n = range(60, 700); n > 0; n--) pad += w; in = draw(2) ? pad + in : in + pad; }
    const uni::Def *td = nullptr; if (draw(4) == 3) { static const int full[] = {0, 1, 2, 3, 4}; td = &uni::defs[full[draw(5)]]; if (draw(2) && (d.f == uni::F8 || d.f == uni::F16 || d.f == uni::F32)) td = &d; if (encs[enc_id(td->id)].index < 0) td = nullptr; }      // not always by way of UCS-4
    if (draw(6) == 5) { in.resize(draw((uint32_t)in.size() + 1)); fault(F_TRUNCATE); }
    if (in.empty()) throw EndRun();
    bool disc = draw(3) == 2; if (disc && d.f == uni::F8) in += "AAAAAA";   // no doubtful tail
    mix(in); Cd cd(enc, td ? enc_id(td->id) : E_UCS4, disc ? DISC : 0); int unit = encs[enc].unit;
    Text want; size_t p = 0; int v = V_OK; bool soft = false;
    while (p < in.size()) {
        uint32_t c; int k = uni::step(d, (const unsigned char *)in.data() + p, in.size() - p, c, soft);
        if (k > 0) { want.push_back(c); p += k; continue; }
        if (k == 0) { v = V_INCOMPLETE; break; }
        if (soft && d.f == uni::F8) { v = V_OTHER; break; }        // too short to tell: invalid or incomplete
        if (!disc) { v = V_ILSEQ; break; }
        p += std::min<size_t>(unit, in.size() - p);
    }
    Sched s = gen_sched(draw(2), draw(2), in.size()); if (verbose) logf("reading [%s] as %s%s; %s", hex(in).c_str(), NM(enc), disc ? " (discard)" : "", s.text().c_str());
    if (v == V_OTHER) {                               // judge what is in front of the doubtful tail
        in.resize(p); v = V_OK; if (in.empty()) throw EndRun();
    }
    StreamR r = stream(cd, in, s); Bytes wb; if (td) for (uint32_t c : want) uni::put(*td, c, wb); else wb = ucs4(want);
    REQUIRE(r.verdict == v && r.used == p && r.out + r.fl == wb, "ill-formed-in", "%s: [%s]%s is read as %s[%s], %s at %zu; expected %s, %s at %zu; %s", NM(enc), hex(in).c_str(), disc ? " (discard)" : "", td ? td->id : "UCS-4 ", hex(r.out).c_str(), vname(r.verdict), r.used, cps(want).c_str(), vname(v), p, s.text().c_str());
    nontrivial();
}
// ============================================================ C23: whatever is accepted can be written back
static void c23() {
    int enc = draw(3) == 2 ? all_ok[draw((uint32_t)all_ok.size())] : pick_enc(); const Enc &x = encs[enc]; if (x.id == "java" || x.id == "c99") throw EndRun();      // a backslash has no form of its own there
    Bytes in = maybe_big(gen_bytes(enc, -1, 20), 1, 300, 200, 3000); if (in.empty()) throw EndRun(); mix(enc);
    bool law2 = x.id == "cp1255" || x.id == "cp1258" || x.id == "tcvn";
    Cd a(enc, E_UCS4, 0); Sched s1 = gen_sched(draw(2), draw(2), in.size()); if (verbose) logf("accepted and written back: [%s] as %s; %s", hex(in).c_str(), NM(enc), s1.text().c_str());
    StreamR r = stream(a, in, s1); Text t = from_ucs4(r.out + r.fl); if (t.empty() || r.flv != V_OK) throw EndRun();
    if (x.id == "iso2022_jpms") for (uint32_t c : t) if (c == 0x203e || c == 0xa5) throw EndRun();   // read in JIS X 0201, never written
    Sched s2 = gen_sched(draw(2), draw(2), t.size() * 4), s3 = gen_sched(draw(2), draw(2), in.size());
    Cd b(E_UCS4, enc, 0), c(enc, E_UCS4, 0); StreamR w = stream(b, ucs4(t), s2);
    REQUIRE(w.verdict == V_OK && w.flv == V_OK, "not-writable", "%s: [%s] is read as %s, which the same encoding cannot write (%s at character %zu)", NM(enc), hex(in).c_str(), cps(t).c_str(), vname(w.verdict), w.used / 4);
    if (law2) { law2 = false; for (uint32_t c : t) law2 |= is_combining(c); }    // a mark on a composed character may compose further
    StreamR q = stream(c, w.out + w.fl, s3); Text u = from_ucs4(q.out + q.fl);
    REQUIRE(q.verdict == V_OK && q.flv == V_OK && (u == t || law2), "not-stable", "%s: [%s] is read as %s, written back as [%s] and then read as %s (%s)", NM(enc), hex(in).c_str(), cps(t).c_str(), hex(w.out + w.fl).c_str(), cps(u).c_str(), vname(q.verdict));
    nontrivial();
}
// ============================================================ C24: never another character
static uint32_t near_char(int enc) {          // what the encoding has, its neighbours, its look-alikes in other planes, anything
    const auto &rep = repertoire(enc); uint32_t c = rep.empty() ? 'A' : rep[draw((uint32_t)rep.size())];
    switch (draw(6)) {
    case 0: break;
    case 1: c += draw(9); c = c > 4 ? c - 4 : c; break;
    case 2: c = (c & 0xffff) + (draw(17) << 16); break;
    case 3: c = (c & ~63u) + draw(64); break;
    case 4: c = (c & 0xff) | draw(0x110000 >> 8) << 8; break;
    default: c = draw(2) ? draw(0x10000) : draw(0x110000);
    }
    return c < 0x110000 && !(c >= 0xd800 && c < 0xe000) ? c : 0x2603;
}
static void c24() {
    int enc = draw(2) ? all_ok[draw((uint32_t)all_ok.size())] : pick_enc(); for (int k = 0; k < 2 && encs[enc].total > 60000; k++) enc = pick_enc();
    const Enc &x = encs[enc]; bool law2 = x.id == "cp1255" || x.id == "cp1258" || x.id == "tcvn"; Text t, q;
    if (draw(5) == 4) { GenOpt o; o.tags = false; o.combining = !law2; t = gen_text(enc, -1, o); } else if (draw(4) == 3) { uint32_t c = draw(2) ? draw(0x3400) : draw(0x110000); for (uint32_t n = range(4, 60); n > 0; n--) t.push_back(c++); } else for (uint32_t n = range(1, 24); n > 0; n--) t.push_back(near_char(enc));
    for (uint32_t c : t) if (c < 0x110000 && !(c >= 0xd800 && c < 0xe000) && (c >> 7) != (0xe0000 >> 7) && !x.oneway.count(c) && !(law2 && is_combining(c))) q.push_back(c);
    t = q; if (t.empty()) throw EndRun(); int flag = draw(3) == 2 ? DISC : 0;
    Sched s = gen_sched(draw(2), draw(2), t.size() * 4), s2 = gen_sched(draw(2), draw(2), t.size() * 2); mix(enc); if (verbose) logf("writing %s as %s%s; %s", cps(t).c_str(), NM(enc), flag ? " (discard)" : "", s.text().c_str());
    Cd a(E_UCS4, enc, flag), b(enc, E_UCS4, 0); Bytes wire, in = ucs4(t); Text kept; size_t pos = 0, lost = 0, ri = 0, ci = 0, fed = 0; uint32_t stuck = 0; bool uncounted = false;
    for (int calls = 0; pos < in.size();) {
        if (++calls > 4000) throw EndRun();
        if (s.reads.empty()) fed = in.size(); else { size_t k = s.reads[ri++ % s.reads.size()]; if (k < in.size() - fed) fault(k ? F_SHORT_READ : F_EMPTY_READ); fed += std::min(k, in.size() - fed); }
        size_t full = ample(fed - pos), k = s.caps.empty() ? full : std::min<size_t>(full, s.caps[ci % s.caps.size()] + stuck); if (k < full) fault(k ? F_SHORT_WRITE : F_FULL_ZERO);
        CallR r = a.iconv(in.substr(pos, fed - pos), k); wire += r.out; pos += r.used; int v = verdict_of(r);
        if (r.ok()) lost += r.ret; else if (r.used) uncounted = true;
        if (v == V_FULL) { if (r.used || !r.out.empty()) { stuck = 0; ci++; } else stuck++; uncounted = true; continue; }
        stuck = 0;
        if (v == V_ILSEQ) { REQUIRE(!flag && pos % 4 == 0 && pos < in.size(), "refusal-place", "%s: %s%s is refused at byte %zu", NM(enc), cps(t).c_str(), flag ? " (discard)" : "", pos); t[pos / 4] = 0xffffffffu; fault(F_UNENCODABLE); pos += 4; if (fed < pos) fed = pos; uncounted = true; }
        else if (v == V_OTHER) throw EndRun();
    }
    { int v; wire += flush_all(a, {}, v); if (v != V_OK) throw EndRun(); }
    StreamR r = stream(b, wire, s2); Text u = from_ucs4(r.out + r.fl); kept.clear(); for (uint32_t c : t) if (c != 0xffffffffu) kept.push_back(c);
    // what was lost was refused, or is counted (calls that ended otherwise than by success count nothing)
    bool ok = r.verdict == V_OK && r.flv == V_OK;
    if (ok && !flag) { ok = u.size() == kept.size(); size_t sub = 0; for (size_t i = 0; ok && i < u.size(); i++) if (u[i] != kept[i]) { if (u[i] != 0xfffd) ok = false; else sub++; } if (ok && !uncounted) ok = sub == lost; }
    else if (ok) { size_t i = 0; for (uint32_t c : kept) if (i < u.size() && u[i] == c) i++; ok = i == u.size() && (uncounted || kept.size() - u.size() == lost); }
    REQUIRE(ok, "another-character", "%s: of %s%s, %s were taken in with %zu reported lost, written as [%s], which is read as %s (%s); %s", NM(enc), cps(from_ucs4(in)).c_str(), flag ? " (discard)" : "", cps(kept).c_str(), lost, hex(wire).c_str(), cps(u).c_str(), vname(r.verdict), s.text().c_str());
    nontrivial();
}
// ============================================================ C16: truncation
static void c16() {
    int enc = pick_enc(); GenOpt o; o.only_supported = true; o.maxlen = 16; Text t = gen_text(enc, -1, o);
    const Enc &x = encs[enc];
    bool law2 = x.id == "cp1255" || x.id == "cp1258" || x.id == "tcvn";     // there, composed characters are written as several
    if (x.composes) { Text q; for (auto c : t) if (!is_combining(c) && !is_pair_lead(c) && (!law2 || encode(enc, Text{c}).size() == 1)) q.push_back(c); t = q; }
    if (t.empty()) throw EndRun();
    mix(enc); mix(ucs4(t));
    // character boundaries on the wire
    std::vector<size_t> bound; Bytes wire; 
    { Cd e(E_UCS4, enc, 0); for (uint32_t c : t) { CallR r = e.iconv(Bytes((char *)&c, 4), 64); if (!r.ok() || r.ret) throw EndRun(); wire += r.out; size_t late = 0;
        if (x.id == "utf7") { Text q(t.begin(), t.begin() + bound.size() + 1); StreamR w = whole(E_UCS4, enc, 0, ucs4(q)); late = w.fl.size() > 1; }   // its last bits travel in the next base64 digit
        bound.push_back(wire.size() + late); } int v; wire += flush_all(e, {}, v); }
    if (verbose) logf("truncation: %s in %s = [%s]", cps(t).c_str(), x.name.c_str(), hex(wire).c_str());
    { StreamR w = whole(enc, E_UCS4, 0, wire); if (w.verdict != V_OK || w.out + w.fl != ucs4(t)) throw EndRun(); }
    int to = draw(2) ? E_UCS4 : E_UTF8; StreamR full = whole(enc, to, 0, wire);
    for (int k = 0; k < 4; k++) {
        size_t cut = draw((uint32_t)wire.size() + 1); size_t i = 0; while (i < bound.size() && bound[i] <= cut) i++; fault(F_TRUNCATE);
        Text have(t.begin(), t.begin() + i); Bytes want = to == E_UCS4 ? ucs4(have) : encode(to, have);
        Sched s = gen_sched(draw(2), draw(3) == 2, cut); Bytes pre = wire.substr(0, cut);
        if (verbose) logf(" cut at %zu (%zu characters complete) %s", cut, i, s.text().c_str());
        { Cd cd(enc, to, 0); StreamR r = stream(cd, pre, s, true);
          REQUIRE(r.verdict == V_OK || r.verdict == V_INCOMPLETE, "truncation-invalid", "%s: [%s] cut at %zu of [%s] is reported as %s", x.name.c_str(), hex(pre).c_str(), cut, hex(wire).c_str(), vname(r.verdict));
          REQUIRE(r.out + r.fl == want, "truncation-output", "%s: cut at %zu of [%s] delivers [%s], the %zu complete characters are [%s]", x.name.c_str(), cut, hex(wire).c_str(), hex(r.out + r.fl).c_str(), i, hex(want).c_str());
          // a remainder is reported exactly when bytes of an unfinished character or shift sequence are left
          REQUIRE((r.verdict == V_INCOMPLETE) == (r.used < cut), "truncation-silent", "%s: cut at %zu, consumed %zu, verdict %s", x.name.c_str(), cut, r.used, vname(r.verdict));
          bool part = i < t.size() && cut > (i ? bound[i - 1] : 0);       // inside the bytes of character i
          if (part && !x.stateful) REQUIRE(r.verdict == V_INCOMPLETE && r.used == (i ? bound[i - 1] : 0), "truncation-silent", "%s: [%s] ends inside a character but the verdict is %s at %zu", x.name.c_str(), hex(pre).c_str(), vname(r.verdict), r.used);
          bool rem = r.verdict == V_INCOMPLETE; int err, st; size_t h; Bytes ob;
          Cd c1(enc, to, 0), c2(enc, to, 0), c3(enc, to, 0);
          size_t n = c1.result_size(pre, err); REQUIRE((n == (size_t)-1) == rem, "truncation-size", "%s: [%s] %s a remainder, but the size query gives %zd", x.name.c_str(), hex(pre).c_str(), rem ? "leaves" : "leaves no", (ssize_t)n);
          int q = c2.convert_static(pre, ample(pre.size()), ob, err, h); REQUIRE((q != 0) == rem, "truncation-static", "%s: [%s] %s a remainder, but the fixed-buffer conversion gives %d", x.name.c_str(), hex(pre).c_str(), rem ? "leaves" : "leaves no", q);
          q = c3.convert(pre, draw(2), ob, err, st); REQUIRE((q != 0) == rem, "truncation-convert", "%s: [%s] %s a remainder, but the allocating conversion gives %d", x.name.c_str(), hex(pre).c_str(), rem ? "leaves" : "leaves no", q);
          std::string what; q = cpp_convert(enc, to, pre, 0, ob, what); REQUIRE((q != 0) == rem, "truncation-cpp", "%s: [%s] %s a remainder, but the C++ conversion gives %s", x.name.c_str(), hex(pre).c_str(), rem ? "leaves" : "leaves no", what.c_str());
        }
        { Cd cd(enc, to, 0); StreamR r = stream(cd, pre, s, false); StreamR r2 = stream(cd, wire.substr(r.used), gen_sched(draw(2), false, wire.size() - r.used), true);
          REQUIRE(r2.verdict == V_OK && r.out + r2.out + r2.fl == full.out + full.fl, "truncation-continue", "%s: cut at %zu of [%s], then continued: [%s] + %s", x.name.c_str(), cut, hex(wire).c_str(), hex(r.out).c_str(), show(r2).c_str()); }
    }
    nontrivial();
}
// ============================================================ C17: opening
static std::string spell(const std::string &n) {
    std::string s; uint32_t mode = draw(4);
    for (char c : n) {
        if (mode >= 1 && draw(4) == 3) { uint32_t k = draw(8) == 7 ? range(1, 60) : range(1, 2); while (k--) s += draw(2) ? '-' : '_'; }
        if (mode >= 2 && c >= 'A' && c <= 'Z' && draw(2)) c = (char)(c - 'A' + 'a');
        s += c;
    }
    if (mode == 3) s += draw(2) ? "-" : "__";
    return s;
}
static std::string bad_name() {
    switch (draw(6)) {
    case 0: return std::string("NO-SUCH-") + (char)('A' + draw(26)) + "!";
    case 1: return "";
    case 2: return std::string(range(1, 3000), (char)('A' + draw(26))) + "?";
    case 3: { std::string s; for (uint32_t k = range(1, 80); k > 0; k--) s += (char)range(1, 255); return s + "\x01?"; }
    case 4: { std::string s = encs[all_ok[draw((uint32_t)all_ok.size())]].name; return s + "\x7f" + std::string(draw(60), 'X'); }
    default: return " " + encs[all_ok[draw((uint32_t)all_ok.size())]].name;
    }
}
static const char *gname(char *buf, const std::string &) { return buf; }
static char name_buf[2][4096]; static bool name_recycled;       // a caller may keep reading names into the same buffers
struct GName { // a name in its own exact buffer, or in one that held another name before
    char *p; bool own; GName(const std::string &s, int slot = 0) { own = !name_recycled || s.size() >= sizeof name_buf[0]; p = own ? (char *)sim_malloc(s.size() + 1) : name_buf[slot]; memcpy(p, s.c_str(), s.size() + 1); } ~GName() { if (own) sim_free(p); } };
static void c17() {
    (void)gname; alloc_reuse = draw(4) != 3;
    // earlier life: descriptors opened, used and closed, so that memory is recycled dirty
    for (uint32_t n = draw(3); n > 0; n--) { int f, t; pick_pair(f, t); Cd cd(f, t, pick_flag()); Bytes tail; random_op(cd, tail, false); cd.close(); fault(F_STATE_PRELOAD); }
    if (draw(2000) == 1999) { int f, t; pick_pair(f, t); bool v = verbose; verbose = false; for (uint32_t n = draw(8) == 7 ? 65540 : 300; n > 0; n--) { Cd cd(f, t, 0); } verbose = v; fault(F_STATE_PRELOAD); }
    std::vector<std::unique_ptr<Cd>> crowd; if (draw(200) == 199) for (uint32_t n = 1 + draw(70); n > 0; n--) { int f, t; pick_pair(f, t); crowd.emplace_back(new Cd(f, t, 0)); }      // many open at once
    name_recycled = draw(3) == 2;
    if (name_recycled) for (uint32_t n = draw(3); n > 0; n--) {      // other names were opened or looked up from the same buffers before
        std::string x = draw(5) == 4 ? bad_name() : spell(encs[all_ok[draw((uint32_t)all_ok.size())]].aliases[0]), y = draw(5) == 4 ? bad_name() : spell(encs[all_ok[draw((uint32_t)all_ok.size())]].aliases[0]); GName a(x, 0), b(y, 1); uint32_t w = draw(3); reiconv_t hh = (reiconv_t)-1; 
        { LibScope s; if (w == 0) hh = reiconv_open_from_name(a.p, b.p, REICONV_NO_FLAGS); else if (w == 1) hh = reiconv_open(b.p, a.p); else reiconv_lookup_from_name(a.p); if (hh != (reiconv_t)-1) reiconv_handle_close(hh); }
    }
    uint32_t kind = draw(9); int from, to; pick_pair(from, to); if (draw(2)) { from = all_ok[draw((uint32_t)all_ok.size())]; to = all_ok[draw((uint32_t)all_ok.size())]; }
    int flag = pick_flag(); mix(kind); reiconv_t h = nullptr; int err = 0; std::string how; bool expect = true;
    std::string na = spell(encs[from].aliases[draw((uint32_t)encs[from].aliases.size())]), nb = spell(encs[to].aliases[draw((uint32_t)encs[to].aliases.size())]);
    bool oom = draw(8) == 7; auto arm = [&]() { if (oom) { alloc_plan = AllocPlan(); alloc_plan.on = true; alloc_plan.count = 1; } };
    if (kind == 0) { arm(); { LibScope s; h = reiconv_open_from_index(encs[from].index, encs[to].index, (enum ConvertFlag)flag); err = errno; } how = "index"; }
    else if (kind == 1) { if (draw(5) == 4) { expect = false; (draw(2) ? na : nb) = bad_name(); } GName a(na, 0), b(nb, 1); arm(); { LibScope s; h = reiconv_open_from_name(a.p, b.p, (enum ConvertFlag)flag); err = errno; } how = "name '" + na.substr(0, 80) + "', '" + nb.substr(0, 80) + "'"; }
    else if (kind == 2) {
        if (draw(5) == 4) { expect = false; (draw(2) ? na : nb) = bad_name(); for (auto &s : {&na, &nb}) for (auto &c : *s) if (c == '/') c = '?'; }
        if (flag) { uint32_t side = draw(4); if (side != 2) nb += draw(2) ? "//IGNORE" : "//ignore"; if (side >= 2) na += draw(2) ? "//IGNORE" : "//ignore"; }
        GName a(na, 0), b(nb, 1); arm(); { LibScope s; h = reiconv_open(b.p, a.p); err = errno; } how = "iconv name to='" + nb.substr(0, 80) + "', from='" + na.substr(0, 80) + "'"; }
    else if (kind == 3) {
        int ca, cb; bool ok = true;
        auto cp = [&](int e) { if (encs[e].codepages.empty() || draw(5) == 4) { ok = false; static const int bad[] = {-1, 0, 1, 3, -2147483647 - 1, 2147483647, 65002, 70000, 100000, -65001, 1 << 20, 65535}; return bad[draw(12)]; } return encs[e].codepages[draw((uint32_t)encs[e].codepages.size())]; };
        static std::vector<int> withcp; if (withcp.empty()) for (int e : all_ok) if (!encs[e].codepages.empty()) withcp.push_back(e);
        from = withcp[draw((uint32_t)withcp.size())]; to = withcp[draw((uint32_t)withcp.size())];
        ca = cp(from); cb = cp(to); expect = ok; arm(); { LibScope s; h = reiconv_open_from_codepage(ca, cb, (enum ConvertFlag)flag); err = errno; } how = "codepages " + std::to_string(ca) + ", " + std::to_string(cb); }
    else if (kind == 4) {                              // lookups agree
        for (int k = 0; k < 4; k++) {
            int e = all_ok[draw((uint32_t)all_ok.size())]; std::string nm = spell(encs[e].aliases[draw((uint32_t)encs[e].aliases.size())]); GName g(nm); int i; { LibScope s; i = reiconv_lookup_from_name(g.p); }
            mix(i); if (verbose) logf("  lookup '%s' -> %d", nm.c_str(), i);
            REQUIRE(i == encs[e].index, "lookup-name", "name '%s' finds index %d, its encoding %s has %d", nm.c_str(), i, NM(e), encs[e].index);
            std::string bn = bad_name(); GName gb(bn); { LibScope s; i = reiconv_lookup_from_name(gb.p); } mix(i);
            REQUIRE(i == -1, "lookup-bad-name", "name '%s' (%zu bytes) finds index %d", bn.substr(0, 100).c_str(), bn.size(), i);
            if (!encs[e].codepages.empty()) { int cp = encs[e].codepages[draw((uint32_t)encs[e].codepages.size())]; { LibScope s; i = reiconv_lookup_from_codepage(cp); } REQUIRE(i == encs[e].index, "lookup-codepage", "codepage %d finds index %d, its encoding %s has %d", cp, i, NM(e), encs[e].index); }
            static const int bad[] = {-1, 0, 1, -2147483647 - 1, 2147483647, 65002, 70000, -65001, 1 << 20, 100000}; int cp = draw(2) ? bad[draw(10)] : (int)draw(1 << 20) * (draw(2) ? 1 : -1) - 1; bool known = false; for (auto &x : encs) for (int c : x.codepages) if (c == cp) known = true;
            if (!known) { { LibScope s; i = reiconv_lookup_from_codepage(cp); } REQUIRE(i == -1 || (cp > 0 && cp < 65536), "lookup-bad-codepage", "codepage %d finds index %d", cp, i); }
        }
        nontrivial(); return;
    } else if (kind == 8) {                            // the constants of the public headers are indexes, too
        if (consts.empty()) throw EndRun();
        const Const &c = consts[draw((uint32_t)consts.size())]; mix(c.value); if (verbose) logf("constant %s = %d", c.name.c_str(), c.value);
        REQUIRE(c.value == encs[c.enc].index, "constant", "the constant %s is %d, its encoding %s has index %d", c.name.c_str(), c.value, NM(c.enc), encs[c.enc].index);
        nontrivial(); return;
    } else if (kind <= 6) {                            // C++ encodings
        int idx = -2; bool threw = false, other = false; if (draw(4) == 3) { expect = false; na = bad_name(); }
        bool bycp = draw(3) == 2 && expect && !encs[from].codepages.empty(); int cp = bycp ? encs[from].codepages[0] : 0; std::string *ps = new std::string(na);
        { LibScope s; try { if (bycp) idx = reiconv::Encoding(cp); else if (kind == 5) idx = reiconv::Encoding(ps->c_str()); else idx = reiconv::Encoding(*ps); } catch (std::invalid_argument &) { threw = true; } catch (EndRun &) { throw; } catch (...) { other = true; } }
        delete ps; mix(idx); REQUIRE(!other, "cpp-open", "C++ encoding '%s' throws something other than std::invalid_argument", na.substr(0, 80).c_str());
        REQUIRE(threw == !expect && (threw || idx == encs[from].index), "cpp-open", "C++ encoding '%s' %s (index %d, expected %d)", na.substr(0, 80).c_str(), threw ? "is rejected" : "is accepted", idx, expect ? encs[from].index : -1);
        nontrivial(); return;
    } else {                                           // canonicalisation
        std::string n = draw(2) ? na : bad_name(); std::string want; for (char c : n) if (c != '-' && c != '_') want += (c >= 'a' && c <= 'z') ? (char)(c - 32) : c;
        char *out = (char *)sim_malloc(want.size() + 2); GName g(n); size_t r; { LibScope s; r = reiconv_name_canonicalize(g.p, out); } std::string got(out, strnlen(out, want.size() + 2)); sim_free(out); mix(r);
        REQUIRE(r == want.size() && got == want, "canonicalize", "'%s' canonicalizes to '%s' (%zu), expected '%s'", n.substr(0, 100).c_str(), got.substr(0, 100).c_str(), r, want.substr(0, 100).c_str());
        nontrivial(); return;
    }
    bool fired = alloc_plan.fired > 0; alloc_plan = AllocPlan();
    if (verbose) logf("open by %s -> %s errno %d", how.c_str(), h == (reiconv_t)-1 ? "failure" : "descriptor", err);
    if (h == (reiconv_t)-1) {
        REQUIRE(!expect || fired, "open-refused", "opening by %s fails with errno %d", how.c_str(), err);
        if (expect) REQUIRE(err == ENOMEM, "open-errno", "opening by %s: failed allocation reported with errno %d", how.c_str(), err);
        else REQUIRE(err == EINVAL || (fired && err == ENOMEM), "open-errno", "opening by %s: unknown encoding reported with errno %d", how.c_str(), err);
        nontrivial(); return;
    }
    REQUIRE(expect, "open-accepted", "opening by %s succeeds although the encoding is unknown", how.c_str());
    REQUIRE(h != nullptr, "open-null", "opening by %s returns a null descriptor", how.c_str());
    Cd cd; cd.h = h; cd.from = from; cd.to = to; cd.flag = flag; cd.open = true;
    alloc_zero = true; Cd ref(from, to, flag); alloc_zero = false;      // dirty memory must make no difference
    for (int k = 0; k < 2; k++) {
        Bytes in = gen_bytes(from, to); Sched s = gen_sched(draw(2), draw(2), in.size()); StreamR a = stream(cd, in, s), b = stream(ref, in, s); std::string why;
        if (!same(a, b, why)) fail("routes-differ", "%s -> %s flag=%d opened by %s: %s differs from the descriptor opened by index; input=[%s] %s\n   this: %s\n   by index: %s", NM(from), NM(to), flag, how.c_str(), why.c_str(), hex(in).c_str(), s.text().c_str(), show(a).c_str(), show(b).c_str());
        // initial state: a big-endian start is part of it
    }
    nontrivial();
}
void c06(); void c18(); void c19();
const Prop props[] = {{"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06}, {"C07", c07}, {"C08", c08}, {"C09", c09}, {"C10", c10}, {"C11", c11}, {"C12", c12}, {"C13", c13}, {"C14", c14}, {"C15", c15}, {"C16", c16}, {"C17", c17}, {"C18", c18}, {"C19", c19}, {"C21", c21}, {"C22", c22}, {"C23", c23}, {"C24", c24}};
const int nprops = sizeof props / sizeof *props;
