// C18: what goes over the wire in the shift-state encodings, read by decoders written from the published specifications
// (RFC 1468, 1554, 2237, JIS X 0213, 1922, 1557, 1843, 2152) with pinned character set tables.
#include "sut.h"
#include <memory>
namespace {
struct Bad { std::string what; };
typedef std::vector<uint32_t> T;
struct Wire {                                     // a reader; throws Bad where the stream is not well formed
    T text; virtual ~Wire() {}
    virtual void read(const Bytes &b) = 0;        // a whole piece
    virtual std::string initial() = 0;            // empty when back in the initial state
};
void two(T &t, const char *set, unsigned char a, unsigned char b) {
    if (a < 0x21 || a > 0x7e || b < 0x21 || b > 0x7e) throw Bad{std::string("bytes outside 21..7e in ") + set};
    const uint32_t *p = charset(set)->t + ((a - 0x21) * 94 + (b - 0x21)) * 2; if (!p[0]) throw Bad{std::string("undefined character in ") + set};
    t.push_back(p[0]); if (p[1]) t.push_back(p[1]);
}
struct Cur { const Bytes &b; size_t i = 0; explicit Cur(const Bytes &x) : b(x) {} bool more() { return i < b.size(); }
    unsigned char get() { if (i >= b.size()) throw Bad{"ends inside a character or sequence"}; return (unsigned char)b[i++]; }
    bool take(const char *s) { size_t n = strlen(s); if (b.compare(i, n, s) == 0) { i += n; return true; } return false; } };
struct Jp : Wire {                                // ISO-2022-JP, -JP-1, -JP-2, -JP-3
    int lv; std::string g0 = "ASCII", g2; explicit Jp(int l) : lv(l) {}
    std::string initial() override { return g0 == "ASCII" ? "" : "ends in " + g0; }
    void read(const Bytes &b) override {
        Cur c(b);
        while (c.more()) {
            if (c.take("\x1b(B")) { g0 = "ASCII"; continue; }
            if (c.take("\x1b(J")) { g0 = "ROMAN"; continue; }
            if (lv >= 2 && c.take("\x1b(I")) { g0 = "KATAKANA"; continue; }         // JIS X 0201 Katakana: JP-3, and an announced extension of JP-2
            if (c.take("\x1b$@") || c.take("\x1b$B")) { g0 = "JISX0208"; continue; }
            if ((lv == 1 || lv == 2) && c.take("\x1b$(D")) { g0 = "JISX0212"; continue; }
            if (lv == 2 && c.take("\x1b$A")) { g0 = "GB2312"; continue; }
            if (lv == 2 && c.take("\x1b$(C")) { g0 = "KSC5601"; continue; }
            if (lv == 2 && c.take("\x1b.A")) { g2 = "LATIN1"; continue; }
            if (lv == 2 && c.take("\x1b.F")) { g2 = "GREEK"; continue; }
            if (lv == 3 && (c.take("\x1b$(O") || c.take("\x1b$(Q"))) { g0 = "JISX0213_1"; continue; }
            if (lv == 3 && c.take("\x1b$(P")) { g0 = "JISX0213_2"; continue; }
            if (lv == 2 && c.take("\x1bN")) {
                unsigned char x = c.get(); if (g2.empty()) throw Bad{"single shift without a designated set"};
                if (x < 0x20 && g2 == "LATIN1" && known_finding("jp2-c1")) { text.push_back(x | 0x80); continue; }
                if (x < 0x20 || x > 0x7f) throw Bad{"bad byte after a single shift"};
                if (g2 == "LATIN1") text.push_back(x | 0x80);
                else if (x == 0x20) text.push_back(0xa0);
                else { uint32_t u = x < 0x7f ? charset("GREEK")->t[(x - 0x21) * 2] : 0; if (!u) throw Bad{"undefined Greek character"}; text.push_back(u); }
                continue;
            }
            unsigned char x = c.get();
            if (x == 0x1b) throw Bad{"unknown escape sequence"}; if (x == 0x0e || x == 0x0f || x >= 0x80) throw Bad{"byte outside the encoding"};
            bool single = g0 == "ASCII" || g0 == "ROMAN" || g0 == "KATAKANA";
            if (single) {
                if (x == '\n' || x == '\r') g2.clear();
                if (g0 == "KATAKANA") { if (x < 0x21 || x > 0x5f) { if (x >= 0x20) throw Bad{"bad Katakana byte"}; text.push_back(x); } else text.push_back(0xff61 + x - 0x21); }
                else text.push_back(g0 == "ROMAN" && x == 0x5c ? 0xa5 : g0 == "ROMAN" && x == 0x7e ? 0x203e : x);
            } else two(text, g0.c_str(), x, c.get());
        }
    }
};
struct Cn : Wire {                                // ISO-2022-CN, -CN-EXT
    bool ext, so = false; std::string d1, d2, d3; explicit Cn(bool e) : ext(e) {}
    std::string initial() override { return so ? "ends shifted out" : ""; }
    void read(const Bytes &b) override {
        Cur c(b);
        while (c.more()) {
            if (c.take("\x1b$)A")) { d1 = "GB2312"; continue; } if (c.take("\x1b$)G")) { d1 = "CNS1"; continue; }
            if (ext && c.take("\x1b$)E")) { d1 = "ISOIR165"; continue; }
            if (c.take("\x1b$*H")) { d2 = "CNS2"; continue; }
            bool hit = false; if (ext) for (int k = 0; k < 5; k++) { char e[5] = {0x1b, '$', '+', (char)('I' + k), 0}; if (c.take(e)) { d3 = "CNS" + std::to_string(3 + k); hit = true; break; } }
            if (hit) continue;
            if (c.take("\x1bN")) { if (d2.empty()) throw Bad{"SS2 without a designation on this line"}; unsigned char x = c.get(); two(text, d2.c_str(), x, c.get()); continue; }
            if (ext && c.take("\x1bO")) { if (d3.empty()) throw Bad{"SS3 without a designation on this line"}; unsigned char x = c.get(); two(text, d3.c_str(), x, c.get()); continue; }
            unsigned char x = c.get();
            if (x == 0x1b) throw Bad{"unknown escape sequence"}; if (x >= 0x80) throw Bad{"8-bit byte"};
            if (x == 0x0e) { if (d1.empty()) throw Bad{"SO without a designation on this line"}; so = true; continue; }
            if (x == 0x0f) { so = false; continue; }
            if (so) { if (x < 0x21) throw Bad{"control or space while shifted out"}; if (d1.empty()) throw Bad{"no designation on this line"}; two(text, d1.c_str(), x, c.get()); }
            else { if (x == '\n' || x == '\r') { d1.clear(); d2.clear(); d3.clear(); } text.push_back(x); }
        }
    }
};
struct Kr : Wire {
    bool so = false, des = false;
    std::string initial() override { return so ? "ends shifted out" : ""; }
    void read(const Bytes &b) override {
        Cur c(b);
        while (c.more()) {
            if (c.take("\x1b$)C")) { des = true; continue; }
            unsigned char x = c.get();
            if (x == 0x1b) throw Bad{"unknown escape sequence"}; if (x >= 0x80) throw Bad{"8-bit byte"};
            if (x == 0x0e) { if (!des) throw Bad{"SO before the designation"}; so = true; continue; }
            if (x == 0x0f) { so = false; continue; }
            if (so) { if (x < 0x21) throw Bad{"control or space while shifted out"}; two(text, "KSC5601", x, c.get()); } else text.push_back(x);
        }
    }
};
struct Hz : Wire {
    bool gb = false;
    std::string initial() override { return gb ? "ends in GB mode" : ""; }
    void read(const Bytes &b) override {
        Cur c(b);
        while (c.more()) {
            unsigned char x = c.get(); if (x >= 0x80) throw Bad{"8-bit byte"};
            if (gb) { if (x == '~') { if (c.get() != '}') throw Bad{"'~' in GB mode"}; gb = false; continue; } if (x < 0x21) throw Bad{"control, space or line end in GB mode"}; two(text, "GB2312", x, c.get()); }
            else if (x == '~') { unsigned char y = c.get(); if (y == '~') text.push_back('~'); else if (y == '{') gb = true; else if (y == '\n') ; else throw Bad{"'~' followed by something undefined"}; }
            else text.push_back(x);
        }
    }
};
struct U7 : Wire {
    bool b64 = false; uint32_t bits = 0; int nb = 0; uint32_t high = 0; bool any = false;
    std::string initial() override { return b64 ? "ends inside base64" : ""; }
    static int digit(unsigned char x) { return x >= 'A' && x <= 'Z' ? x - 'A' : x >= 'a' && x <= 'z' ? x - 'a' + 26 : x >= '0' && x <= '9' ? x - '0' + 52 : x == '+' ? 62 : x == '/' ? 63 : -1; }
    void close() { if (nb >= 6) throw Bad{"a superfluous base64 digit"}; if (bits & ((1u << nb) - 1)) throw Bad{"padding bits not zero"}; if (high) throw Bad{"unpaired surrogate"}; b64 = false; bits = 0; nb = 0; }
    void unit(uint32_t u) {
        if (u >= 0xd800 && u < 0xdc00) { if (high) throw Bad{"unpaired surrogate"}; high = u; }
        else if (u >= 0xdc00 && u < 0xe000) { if (!high) throw Bad{"unpaired surrogate"}; text.push_back(0x10000 + ((high - 0xd800) << 10) + (u - 0xdc00)); high = 0; }
        else { if (high) throw Bad{"unpaired surrogate"}; text.push_back(u); }
    }
    void read(const Bytes &b) override {
        Cur c(b);
        while (c.more()) {
            unsigned char x = c.get(); if (x >= 0x80) throw Bad{"8-bit byte"};
            if (b64) {
                int d = digit(x);
                if (d >= 0) { any = true; bits = (bits << 6) | (uint32_t)d; nb += 6; if (nb >= 16) { nb -= 16; unit((bits >> nb) & 0xffff); bits &= (1u << nb) - 1; } continue; }
                bool first = !any; close();
                if (x == '-') { if (first) text.push_back('+'); continue; }
                if (first) throw Bad{"'+' followed by neither base64 nor '-'"};
            }
            if (x == '+') { b64 = true; any = false; continue; }
            if (x == '\\' || x == '~' || (x < 0x20 && x != '\t' && x != '\n' && x != '\r') || x == 0x7f) throw Bad{"a character that may not stand directly"};
            text.push_back(x);
        }
    }
};
struct Ms : Wire {                                // ISO-2022-JP-MS: only the shifts are read, by the announced escape sequences
    bool dbl = false, kana = false, roman = false;
    std::string initial() override { return dbl || kana || roman ? "does not end in ASCII" : ""; }
    void read(const Bytes &b) override {
        Cur c(b);
        while (c.more()) {
            if (c.take("\x1b(B")) { dbl = kana = roman = false; continue; } if (c.take("\x1b(J")) { dbl = kana = false; roman = true; continue; } if (c.take("\x1b(I")) { dbl = roman = false; kana = true; continue; }
            if (c.take("\x1b$@") || c.take("\x1b$B") || c.take("\x1b$(D") || c.take("\x1b$(?")) { dbl = true; kana = roman = false; continue; }
            unsigned char x = c.get(); if (x == 0x1b) throw Bad{"unknown escape sequence"}; if (x >= 0x80) throw Bad{"8-bit byte"};
            if (dbl) { unsigned char y = c.get(); if (x < 0x21 || x > 0x7e || y < 0x21 || y > 0x7e) throw Bad{"bad double-byte character"}; }
        }
    }
};
Wire *reader(const std::string &id) {
    if (id == "iso2022_jp") return new Jp(0); if (id == "iso2022_jp1") return new Jp(1); if (id == "iso2022_jp2") return new Jp(2); if (id == "iso2022_jp3") return new Jp(3);
    if (id == "iso2022_jpms") return new Ms; if (id == "iso2022_cn") return new Cn(false); if (id == "iso2022_cn_ext") return new Cn(true); if (id == "iso2022_kr") return new Kr; if (id == "hz") return new Hz; if (id == "utf7") return new U7;
    return nullptr;
}
}
void c18() {
    int enc = shift_ids[draw((uint32_t)shift_ids.size())]; const Enc &x = encs[enc];
    std::unique_ptr<Wire> all(reader(x.id)); if (!all) throw EndRun();
    static int srcs[4] = {-1}; if (srcs[0] < 0) { srcs[0] = E_UCS4; srcs[1] = E_UTF8; srcs[2] = enc_id("utf16be"); srcs[3] = enc_id("utf32le"); }
    int src = srcs[draw(4)]; bool disc = draw(4) == 3, textual = x.id != "iso2022_jpms"; int flag = disc ? (int)REICONV_DISCARD_ILSEQ : 0;
    mix(enc); mix(src); mix(flag); if (verbose) logf("wire: %s -> %s%s", encs[src].name.c_str(), x.name.c_str(), disc ? " (discard)" : "");
    if (draw(10) == 9) {                              // sources that hold a character back: what the flush hands out, or drops, must not keep it from closing the stream
        static std::vector<int> held; if (held.empty()) for (int e : lag_ids) if (encs[e].composes) held.push_back(e);
        int from = held[draw((uint32_t)held.size())]; Cd c(from, enc, REICONV_DISCARD_ILSEQ); Bytes whole_wire; if (verbose) logf(" from %s", encs[from].name.c_str());
        for (uint32_t n = range(1, 3); n > 0; n--) {
            Text t = gen_text(from, enc, GenOpt()), q; for (uint32_t u : t) if (u != 0x0e && u != 0x0f && u != 0x1b) q.push_back(u); Bytes in = encode(from, q); if (in.empty()) continue;
            Sched s = gen_sched(draw(2), draw(2), in.size()); StreamR r = stream(c, in, s, true); Bytes w = r.out + r.fl; std::string bad; std::unique_ptr<Wire> one(reader(x.id)); try { one->read(w); bad = one->initial(); } catch (Bad &b) { bad = b.what; }
            REQUIRE(bad.empty(), "wire-malformed", "%s -> %s (discard): [%s] is written as [%s] + flush [%s]: %s; %s", encs[from].name.c_str(), x.name.c_str(), hex(in).c_str(), hex(r.out).c_str(), hex(r.fl).c_str(), bad.c_str(), s.text().c_str()); whole_wire += w;
        }
        std::string bad; try { all->read(whole_wire); bad = all->initial(); } catch (Bad &b) { bad = b.what; }
        REQUIRE(bad.empty(), "wire-malformed", "%s -> %s (discard): the pieces together, [%s]: %s", encs[from].name.c_str(), x.name.c_str(), hex(whole_wire, 300).c_str(), bad.c_str());
        shm->runs_nontrivial++; return;
    }
    Cd cd(src, enc, flag); Bytes sofar; Text total;
    for (uint32_t n = range(1, 4); n > 0; n--) {
        GenOpt o; o.only_supported = true; o.maxlen = 14; Text g = gen_text(enc, -1, o), t, want; if (draw(300) == 299) { Text q = g; size_t m = 80 + draw(800); while (q.size() < m) q.insert(q.end(), g.begin(), g.end()); g = q; fault(F_SIZE_SWEEP); }
        for (uint32_t c : g) {
            if (c == 0x0e || c == 0x0f || c == 0x1b) continue;      // would be taken for a shift
            t.push_back(c); want.push_back(c);
            if (x.id == "iso2022_jp2" && draw(12) == 11) { static const char *lang[] = {"ja", "ko", "zh", "j", "xx"}; t.push_back(0xe0001); for (const char *p = lang[draw(5)]; *p; p++) t.push_back(0xe0000 + (unsigned char)*p); if (draw(4) == 3) t.push_back(0xe007f); }
            if (disc && draw(8) == 7) { static const uint32_t odd[] = {0x1f600, 0x0e01, 0x05d0, 0x0915, 0x10ffff, 0x0627}; uint32_t u = odd[draw(6)]; if (!in_repertoire(enc, u)) { t.push_back(u); fault(F_UNENCODABLE); } }
        }
        if (t.empty()) continue;
        Bytes in = encode(src, t); Sched s = gen_sched(draw(2), draw(2), in.size());
        if (verbose) logf(" text %s, %s", cps(t).c_str(), s.text().c_str());
        StreamR r = stream(cd, in, s, true); Bytes w = r.out + r.fl; std::string where = x.name + ": text " + cps(t) + " is written as [" + hex(w) + "]";
        REQUIRE(r.verdict == V_OK && r.flv == V_OK, "wire-refused", "%s; supported text ends with %s, flush %s", where.c_str(), vname(r.verdict), vname(r.flv));
        for (unsigned char c : w) REQUIRE(c < 0x80, "wire-8bit", "%s: an 8-bit byte", where.c_str());
        std::unique_ptr<Wire> one(reader(x.id)); std::string bad;
        try { one->read(w); bad = one->initial(); } catch (Bad &b) { bad = b.what; }
        REQUIRE(bad.empty(), "wire-malformed", "%s: %s", where.c_str(), bad.c_str());
        if (textual) REQUIRE(one->text == want, "wire-text", "%s, which reads %s", where.c_str(), cps(one->text).c_str());
        sofar += w; total.insert(total.end(), want.begin(), want.end());
    }
    if (sofar.empty()) throw EndRun();
    std::string bad; try { all->read(sofar); bad = all->initial(); } catch (Bad &b) { bad = b.what; }
    REQUIRE(bad.empty(), "wire-malformed", "%s: the pieces together, [%s]: %s", x.name.c_str(), hex(sofar, 300).c_str(), bad.c_str());
    if (textual) REQUIRE(all->text == total, "wire-text", "%s: the pieces together, [%s], read %s instead of %s", x.name.c_str(), hex(sofar, 300).c_str(), cps(all->text).c_str(), cps(total).c_str());
    shm->runs_nontrivial++;
}
