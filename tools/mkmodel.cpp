// Writes the pinned model (repertoires and character-set tables) from a trusted build of the library.
// Run once by the author via tools/mkmodel.sh; the checks only read its committed output.
#include <cppp/reiconv.h>
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <cerrno>
#include <map>
#include <string>
#include <vector>
typedef std::string S;
static void w32(FILE *f, uint32_t v) { fwrite(&v, 4, 1, f); }
static bool conv(reiconv_t c, const S &in, S &out, bool strict = true) {
    char ob[256]; char *i = (char *)in.data(); size_t il = in.size(); char *o = ob; size_t ol = sizeof ob;
    reiconv_iconv(c, 0, 0, 0, 0);
    size_t r = reiconv_iconv(c, &i, &il, &o, &ol);
    if (r == (size_t)-1 || (strict && r)) { reiconv_iconv(c, 0, 0, 0, 0); return false; }
    r = reiconv_iconv(c, 0, 0, &o, &ol);
    if (r == (size_t)-1 || (strict && r)) { reiconv_iconv(c, 0, 0, 0, 0); return false; }
    out.assign(ob, o - ob); return true;
}
static S skel(const S &b, bool wide, bool euc, uint32_t cp) {
    if (wide) return std::to_string(b.size()) + (cp < 0x80 ? "a" : cp < 0x100 ? "b" : cp < 0x3000 ? "c" : cp < 0xe000 ? "d" : cp < 0x10000 ? "e" : "f");
    if (b.size() == 1) { unsigned char c = b[0]; return c < 0x20 ? "c" : c < 0x80 ? "a" : "h"; }
    S k;
    for (size_t i = 0; i < b.size(); i++) {
        unsigned char c = b[i];
        if (c == 0x1b) { k += "<"; while (++i < b.size()) { k += b[i]; if ((unsigned char)b[i] >= 0x30) break; } k += ">"; }
        else if (i == 0 && euc && (c == 0x8e || c == 0x8f)) { k += c == 0x8e ? "2" : "3"; if (b.size() == 4) { k += b[1]; i++; } }
        else if (c == 0x0e || c == 0x0f) k += "c"; else if (c < 0x80) k += "a"; else k += "h";
    }
    return k;
}
int main(int argc, char **argv) {
    int N = atoi(argv[1]); FILE *f = fopen(argv[2], "wb"), *nf = fopen(argv[4], "a");
    int u = reiconv_lookup_from_name("UCS-4-INTERNAL");
    w32(f, 0x31504552); w32(f, N);
    for (int e = 0; e < N; e++) {
        reiconv_t a = reiconv_open_from_index(u, e, REICONV_NO_FLAGS);
        reiconv_t b = reiconv_open_from_index(e, u, REICONV_NO_FLAGS);
        std::map<S, std::vector<uint32_t>> cl; S t, back; size_t total = 0; std::vector<char> has(0x110000, 0);
        S one; { uint32_t c = 'A'; conv(a, S((char *)&c, 4), one); }
        bool wide = one.size() > 1; bool euc = e == reiconv_lookup_from_name("EUC-JP") || e == reiconv_lookup_from_name("EUC-TW") || e == reiconv_lookup_from_name("EUC-JISX0213");
        for (uint32_t c = 0; c < 0x110000; c++) {
            if (c >= 0xd800 && c < 0xe000) continue;
            S in((char *)&c, 4);
            if (!conv(a, in, t) || t.empty()) continue;
            if (!conv(b, t, back) || back != in) continue;
            cl[skel(t, wide, euc, c)].push_back(c); total++; has[c] = 1;
        }
        // encodings of (nearly) all of Unicode: the exceptions
        if (total > 60000) { uint32_t lim = total > 1000000 ? 0x110000 : 0x10000; for (uint32_t c = 0; c < lim; c++) if (!has[c]) { uint32_t d = c; while (d + 1 < lim && !has[d + 1]) d++; fprintf(nf, "H %d %u %u\n", e, c, d); c = d; } }
        // characters written as a code that is read as something else
        for (uint32_t c = 0; c < 0x110000; c++) if (!has[c] && !(c >= 0xd800 && c < 0xe000) && (c >> 7) != (0xe0000 >> 7) && conv(a, S((char *)&c, 4), t)) fprintf(nf, "I %d %u\n", e, c);
        reiconv_handle_close(a); reiconv_handle_close(b);
        // at most 24 classes, keep the rest merged; sample huge classes
        std::vector<std::vector<uint32_t>> out; std::vector<uint32_t> rest;
        for (auto &p : cl) {
            auto v = p.second;
            if (v.size() > 25000) { std::vector<uint32_t> s; size_t st = v.size() / 6000; uint32_t prev = ~0u; for (size_t i = 0; i < v.size(); i++) { if (i % st == 0 || v[i] != prev + 1 || (i + 1 < v.size() && v[i + 1] != v[i] + 1) || i + 1 == v.size() || (v[i] & 0xfff) == 0 || (v[i] & 0xfff) == 0xfff) s.push_back(v[i]); prev = v[i]; } if (s.size() > 9000) { std::vector<uint32_t> q; for (size_t i = 0; i < s.size(); i += s.size() / 8000 + 1) q.push_back(s[i]); s = q; } v = s; }
            if (out.size() < 24) out.push_back(v); else rest.insert(rest.end(), v.begin(), v.end());
        }
        if (!rest.empty()) out.push_back(rest);
        w32(f, total); w32(f, out.size());
        for (auto &v : out) { w32(f, v.size()); for (auto c : v) w32(f, c); }
        fprintf(stderr, "%d total=%zu classes=%zu:", e, total, out.size()); for (auto &p : cl) fprintf(stderr, " %s=%zu", p.first.c_str(), p.second.size()); fprintf(stderr, "\n");
    }
    fclose(f); fclose(nf);
    // character set tables: name, 94x94 entries of two code points (0 = none)
    f = fopen(argv[3], "wb");
    struct { const char *name, *enc, *pre; int hi; } cs[] = {
        {"JISX0208", "JIS_X0208", "", 0}, {"JISX0212", "JIS_X0212", "", 0}, {"GB2312", "GB_2312-80", "", 0}, {"ISOIR165", "ISO-IR-165", "", 0},
        {"KSC5601", "KS_C_5601-1987", "", 0}, {"CNS1", "EUC-TW", "\x8e\xa1", 1}, {"CNS2", "EUC-TW", "\x8e\xa2", 1}, {"CNS3", "EUC-TW", "\x8e\xa3", 1},
        {"CNS4", "EUC-TW", "\x8e\xa4", 1}, {"CNS5", "EUC-TW", "\x8e\xa5", 1}, {"CNS6", "EUC-TW", "\x8e\xa6", 1}, {"CNS7", "EUC-TW", "\x8e\xa7", 1},
        {"JISX0213_1", "EUC-JISX0213", "", 1}, {"JISX0213_2", "EUC-JISX0213", "\x8f", 1}, {"JISX0201", "JIS_X0201", "", 2}, {"LATIN1", "ISO-8859-1", "", 2}, {"GREEK", "ISO-8859-7", "", 2}};
    w32(f, sizeof cs / sizeof *cs);
    for (auto &c : cs) {
        char nm[16] = {}; strncpy(nm, c.name, 15); fwrite(nm, 16, 1, f);
        int e = reiconv_lookup_from_name(c.enc); if (e < 0) { fprintf(stderr, "no %s\n", c.enc); return 1; }
        reiconv_t b = reiconv_open_from_index(e, u, REICONV_NO_FLAGS); int n = 0;
        for (int r = 0; r < 94; r++) for (int k = 0; k < 94; k++) {
            S in(c.pre), out; uint32_t o[2] = {0, 0};
            if (c.hi == 2) { if (r) in.clear(); else in = S(1, (char)(0x21 + k + 0x80)); }
            else { in += (char)(0x21 + r + (c.hi ? 0x80 : 0)); in += (char)(0x21 + k + (c.hi ? 0x80 : 0)); }
            if (!in.empty() && conv(b, in, out) && (out.size() == 4 || out.size() == 8)) { memcpy(o, out.data(), out.size()); n++; }
            w32(f, o[0]); w32(f, o[1]);
        }
        fprintf(stderr, "%s %d\n", c.name, n);
    }
    fclose(f);
}
