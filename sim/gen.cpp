// Workload generators. Every choice comes from the tape; 0 is the plainest choice.
#include "sut.h"
#include <algorithm>
static const uint32_t pair_leads[] = {0x00ca, 0x00ea, 0x304b, 0x304d, 0x304f, 0x3051, 0x3053, 0x30ab, 0x30ad, 0x30af, 0x30b1, 0x30b3, 0x30bb, 0x30c4, 0x30c8, 0x31f7, 0x00e6, 0x0254, 0x028c, 0x0259, 0x025a, 0x02e9, 0x02e5};
static const uint32_t combos[] = {0x0300, 0x0301, 0x0303, 0x0304, 0x0309, 0x030c, 0x0323, 0x309a, 0x02e5, 0x02e9, 0x05b4, 0x05b7, 0x05b8, 0x05b9, 0x05bc, 0x05bf, 0x05c1, 0x05c2, 0x0308, 0x0302, 0x0306, 0x031b};
static const uint32_t bases[] = {'a', 'A', 'e', 'E', 'o', 'u', 'y', 'i', 'N', 0x00ca, 0x00ea, 0x00c2, 0x0103, 0x01a0, 0x01af, 0x00f4, 0x05d0, 0x05d1, 0x05e9, 0x05f2, 0x05d9, 0x05db, 0xfb2a, 0x304b, 0x30ab, 0x31f7, 0x00e6, 0x0254, 0x028c, 0x0259, 0x025a, 0x02e9, 0x02e5, 0x30bb, 0x30c4, 0x30c8, ' ', 0x00a8};
bool is_pair_lead(uint32_t c) { for (uint32_t x : pair_leads) if (x == c) return true; return false; }
bool is_combining(uint32_t c) { for (uint32_t x : combos) if (x == c) return true; return (c >= 0x300 && c < 0x370) || (c >= 0x591 && c < 0x5c8) || c == 0x3099 || c == 0x309a || (c >= 0x1dc0 && c < 0x1e00) || (c >= 0x20d0 && c < 0x2100); }
static const uint32_t wilds[] = {0x41, 0x00, 0x0a, 0x0d, 0x7e, 0x5c, 0x7f, 0x80, 0xa0, 0xa5, 0xff, 0x203e, 0x20ac, 0xfeff, 0xfffe, 0xffff, 0xfffd, 0xd7ff, 0xe000, 0xf8ff, 0x10000, 0x1f600, 0x20000, 0x2fa1d, 0xe0001, 0xe0041, 0x10fffd, 0x10ffff, 0xff5e, 0x2225, 0x1b, 0x0e, 0x0f, 0x2b, 0x2d, 0x7b, 0x7d};

static uint32_t wild_char() {             // also anything at all, and the edges of the 64-character blocks tables are made of
    uint32_t c;
    switch (draw(4)) {
    case 0: case 1: return wilds[draw(sizeof wilds / sizeof *wilds)];
    case 2: c = (draw(draw(2) ? 0x400 : 0x4400) << 6) + draw(3); c = c ? c - 1 : 0; break;
    default: c = draw(draw(2) ? 0x10000 : 0x110000);
    }
    return c < 0x110000 && !(c >= 0xd800 && c < 0xe000) ? c : 0xfffd;
}
static uint32_t class_char(int e) { const Enc &x = encs[e]; if (x.cls.empty()) return 'A'; auto &c = x.cls[draw((uint32_t)x.cls.size())]; return c.v[draw(c.n)]; }
// a run of neighbours, so that every character of every table is met somewhere, not only the representatives of a class
static Text block_text(int enc, const GenOpt &o) {
    Text t; const Enc &x = encs[enc]; uint32_t n = range(2, o.maxlen < 32 ? o.maxlen : 32); const auto &rep = repertoire(enc); fault(F_BLOCK);
    auto keep = [&](uint32_t c) {
        if (c >= 0x110000 || (c >= 0xd800 && c < 0xe000)) return;
        if (o.only_supported && !in_repertoire(enc, c)) return;
        if (!o.combining && is_combining(c)) return;
        if (!o.tags && (c >> 7) == (0xe0000 >> 7)) return;
        t.push_back(c);
    };
    bool wide = x.total > 60000; uint32_t how = draw(4);
    if (how < 3 && !rep.empty() && !(wide && how == 2)) { uint32_t at = draw((uint32_t)rep.size()); for (uint32_t k = 0; k < n; k++) keep(rep[(at + k) % rep.size()]); }
    else { static const uint32_t lo[] = {0, 0x2000, 0x3000, 0xe000, 0xf900, 0x20000, 0x10000, 0x2f800}, hi[] = {0x2000, 0x3400, 0xa000, 0xf900, 0x10000, 0x2a700, 0x110000, 0x2fa20}; uint32_t r = draw(8); uint32_t at = lo[r] + draw(hi[r] - lo[r]); for (uint32_t k = 0; k < n; k++) keep(at + k); }
    if (t.empty()) { uint32_t c = 'A'; if (o.only_supported && !in_repertoire(enc, c) && !x.cls.empty()) c = x.cls[0].v[0]; t.push_back(c); }
    return t;
}
Text gen_text(int enc, int other, const GenOpt &o) {
    Text t; uint32_t n;
    if (draw(10) == 9) return block_text(enc, o);
    switch (draw(4)) { case 0: n = range(1, 3); break; case 1: n = range(1, 8); break; default: n = range(1, o.maxlen); }
    uint32_t w_comb = o.combining && !o.only_supported ? draw(4) : 0, w_wild = o.wild && !o.only_supported ? draw(3) : 0, w_tag = o.tags && !o.only_supported && draw(6) == 5 ? 1 : 0;
    uint32_t sticky = draw(3);          // runs of the same class keep a shift state busy
    const Enc::Cls *last = nullptr;
    while (t.size() < n) {
        uint32_t k = draw(10 + w_comb + w_wild + w_tag);
        uint32_t c;
        if (k < 6 || o.only_supported) {
            const Enc &x = encs[enc];
            if (x.cls.empty()) c = 'A';
            else {
                if (!(sticky && last && draw(3) < sticky)) last = &x.cls[draw((uint32_t)x.cls.size())];
                c = last->v[draw(last->n)];
            }
            if (o.only_supported && k >= 8) { static const uint32_t plain[] = {'a', '\n', ' ', '0', 'A', '\r', '+', '-', '~', '{', '}', '/', ',', '(', '$', 'B'}; uint32_t q = plain[draw(16)]; if (in_repertoire(enc, q)) c = q; }
        } else if (k < 8) { c = other >= 0 ? class_char(other) : class_char(enc); }
        else if (k < 10) { static const uint32_t plain[] = {'a', '\n', ' ', '0', 'A', '\r', '+', '-', '~', '{', '}', '/', ',', '(', '$', 'B'}; c = plain[draw(16)]; }
        else if (k < 10 + w_comb) {
            if (draw(2)) {                // pairs that some encoding has one code for
                static const uint32_t pr[][2] = {{0xca, 0x304}, {0xca, 0x30c}, {0xea, 0x304}, {0xea, 0x30c}, {0x304b, 0x309a}, {0x304f, 0x309a}, {0x30ab, 0x309a}, {0x30bb, 0x309a}, {0x30c4, 0x309a}, {0x30c8, 0x309a}, {0x31f7, 0x309a}, {0xe6, 0x300}, {0x254, 0x300}, {0x254, 0x301}, {0x28c, 0x301}, {0x259, 0x300}, {0x25a, 0x301}, {0x2e9, 0x2e5}, {0x2e5, 0x2e9}, {'a', 0x300}, {'o', 0x323}, {0x1a0, 0x309}, {0x5d0, 0x5b7}, {0x5e9, 0x5c1}, {0x5d1, 0x5bc}, {0x5f2, 0x5b7}};
                auto &p = pr[draw(sizeof pr / sizeof *pr)]; t.push_back(p[0]); t.push_back(p[1]); continue;
            }
            t.push_back(bases[draw(sizeof bases / sizeof *bases)]);
            for (uint32_t r = range(1, 2); r > 0; r--) t.push_back(combos[draw(sizeof combos / sizeof *combos)]);
            continue;
        } else if (k < 10 + w_comb + w_wild) { c = wild_char(); if (!o.combining && is_combining(c)) c = 'A'; }
        else {
            static const char *lang[] = {"ja", "ko", "zh", "zh-tw", "j", "xx", "k"};
            t.push_back(0xe0001); for (const char *p = lang[draw(7)]; *p; p++) t.push_back(0xe0000 + (unsigned char)*p);
            if (draw(4) == 3) t.push_back(0xe007f);
            continue;
        }
        if (!o.only_supported && other >= 0 && !in_repertoire(other, c)) { if (draw(3)) { uint32_t d = class_char(other); if (in_repertoire(enc, d)) c = d; else if (draw(2)) continue; } else fault(F_UNENCODABLE); }
        t.push_back(c);
        if (t.size() > n * 4 + 16) break;
    }
    return t;
}
Bytes gen_valid(int enc, int other, const GenOpt &o) { return encode(enc, gen_text(enc, other, o)); }

static const char *const toks[] = {"A", "\n", " ", "~", "+", "-", "\\", "~{", "~}", "~~", "~\n", "+-", "\\u", "\\U", "\\u00e9", "\\ud83d\\ude00", "\\U0001f600", "\\ud83d", "\x0e", "\x0f", "\x1b",
    "\x1b$@", "\x1b$B", "\x1b(B", "\x1b(J", "\x1b(I", "\x1b$(D", "\x1b$(C", "\x1b$A", "\x1b$(O", "\x1b$(P", "\x1b$(Q", "\x1b.A", "\x1b.F", "\x1bN", "\x1bO", "\x1b$)A", "\x1b$)G", "\x1b$)E", "\x1b$*H", "\x1b$+I", "\x1b$+J",
    "\x1b$+K", "\x1b$+L", "\x1b$+M", "\x1b$)C", "\x1b(H", "\x1b$(?", "\x1b$(B", "\x1b$(A", "\x8e", "\x8f", "\xa4\xa2", "\xb0\xa1", "\x30\x21", "\x21\x21", "\x7e\x7e", "\xff", "\x80", "\xef\xbb\xbf", "\xfe\xff", "\xff\xfe",
    "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "\xc3", "\xe4\xb8", "\xed\xa0\x80", "\x88\x62", "\x88\x66", "\x88\x85", "\xc9\xd9", "\x81\x30\x81\x30", "\x90\x30\x81\x30", "\xcc", "\xec", "\xd2", "\xde", "\xf2", "\xd1", "\xb0", "\xb3", "\xb4", "2AA", "Ti1jDaW", "AGEAYg", "\r\n"};
static Bytes token_stream(int enc, uint32_t maxlen) {
    Bytes b; uint32_t n = range(1, maxlen / 2 + 1); const Enc &x = encs[enc];
    while (n--) {
        switch (draw(5)) {
        case 0: case 1: { uint32_t k = draw(sizeof toks / sizeof *toks + 2); if (k < sizeof toks / sizeof *toks) b += toks[k]; else if (k & 1) b += Bytes("\0\0\xfe\xff", 4); else b += Bytes("\xff\xfe\0\0", 4); break; }
        case 2: if (x.unit > 1) { Bytes u; for (int k = 0; k < x.unit; k++) u += (char)(k == 0 ? draw(256) : draw(4) ? 0 : 0xd8 + draw(8)); if (draw(2)) std::reverse(u.begin(), u.end()); b += u; } else { b += (char)range(0x21, 0x7e); b += (char)range(0x21, 0x7e); } break;
        case 3: if (x.unit > 1) { b += (char)draw(256); } else { b += (char)range(0x81, 0xfe); b += (char)(draw(2) ? range(0xa1, 0xfe) : range(0x30, 0xff)); } break;
        default: { Text t{class_char(enc)}; b += encode(enc, t); }
        }
    }
    return b;
}
static Bytes code_block(int enc, uint32_t maxlen) {      // a run of neighbouring codes behind a common lead
    Bytes lead, tail, b; const Enc &x = encs[enc]; fault(F_BLOCK);
    if (draw(2)) lead = encode(enc, Text{class_char(enc)}); else { for (uint32_t k = draw(4); k > 0; k--) lead += (char)(draw(2) ? range(0x81, 0xfe) : range(0x21, 0x7e)); lead += (char)draw(256); }
    if (lead.empty()) lead = "A";
    bool second = lead.size() > 1 && draw(3) == 2; size_t at = lead.size() - 1 - (second ? 1 : 0);
    if (x.unit > 1 && draw(2)) at = draw((uint32_t)lead.size());
    for (uint32_t k = range(2, maxlen / 2 + 2); k > 0; k--) { b += lead; lead[at] = (char)(lead[at] + 1); }
    return b;
}
Bytes gen_bytes(int enc, int other, uint32_t maxlen) {
    GenOpt o; o.maxlen = maxlen; uint32_t m = draw(11); Bytes b;
    if (m < 4) b = gen_valid(enc, other, o);
    else if (m < 6) {
        b = gen_valid(enc, other, o);
        for (uint32_t k = range(1, 3); k > 0 && !b.empty(); k--) {
            size_t at = draw((uint32_t)b.size());
            fault(F_CORRUPT);
            switch (draw(6)) {
            case 0: b[at] = (char)draw(256); break;
            case 1: b.erase(at, range(1, 2)); break;
            case 2: b.insert(at, 1, (char)draw(256)); break;
            case 3: { static const unsigned char s[] = {0x1b, 0x0e, 0x0f, '~', '+', '-', 0xff, 0x80, 0x8e, 0x8f, 0, '\n', '\\'}; b[at] = (char)s[draw(13)]; break; }
            case 4: b[at] ^= (char)(1 << draw(8)); break;
            default: { size_t l = range(1, 6); b.insert(at, b.substr(draw((uint32_t)b.size()), l)); }
            }
        }
    } else if (m == 6) {
        Bytes a = gen_valid(enc, other, o), c = gen_valid(enc, other, o); fault(F_SPLICE);
        b = a.substr(0, draw((uint32_t)a.size() + 1)) + c.substr(c.empty() ? 0 : draw((uint32_t)c.size()));
    } else if (m == 7) { b = gen_valid(enc, other, o) + gen_valid(enc, other, o); }
    else if (m == 8) b = token_stream(enc, maxlen);
    else if (m == 10) b = code_block(enc, maxlen);
    else { uint32_t n = range(1, maxlen); uint32_t hi = draw(3); for (uint32_t k = 0; k < n; k++) b += (char)(hi == 0 ? draw(256) : hi == 1 ? range(0x20, 0x7e) : range(0x80, 0xff)); fault(F_CORRUPT); }
    if (encs[enc].unit > 1 && draw(4) == 3) {
        size_t at = b.empty() ? 0 : draw((uint32_t)(b.size() / encs[enc].unit) + 1) * encs[enc].unit; fault(F_BOM_MID);
        Bytes mk = encs[enc].unit == 2 ? Bytes("\xfe\xff", 2) : Bytes("\0\0\xfe\xff", 4); if (draw(2)) std::reverse(mk.begin(), mk.end());
        b.insert(std::min(at, b.size()), mk);
    }
    if (draw(8) == 7 && !b.empty()) { b.resize(draw((uint32_t)b.size() + 1)); fault(F_TRUNCATE); }
    return b;
}
Bytes maybe_big(const Bytes &b, uint32_t num, uint32_t den, size_t lo, size_t hi) {
    if (b.empty() || !chance(num, den)) return b;
    uint32_t far = draw(60);                                            // past blocks, pages and 16-bit counters
    if (lo >= 2000 ? far >= 58 : far == 59) { lo = 60000; hi = 140000; } else if (lo < 2000 && far >= 54) { lo = 4000; hi = 9500; }
    size_t want = lo + draw((uint32_t)(hi - lo)); Bytes r; while (r.size() + b.size() < want) r += b; return r + b.substr(0, draw((uint32_t)b.size() + 1));
}
int pick_enc() {
    if (draw(2)) return stateful_ids[draw((uint32_t)stateful_ids.size())];
    if (draw(2)) return multi_ids[draw((uint32_t)multi_ids.size())];
    return all_ok[draw((uint32_t)all_ok.size())];
}
static int pick_other() {
    uint32_t k = draw(10);
    if (k < 4) return E_UTF8;
    if (k < 6) return E_UCS4;
    if (k < 8) return stateful_ids[draw((uint32_t)stateful_ids.size())];
    return all_ok[draw((uint32_t)all_ok.size())];
}
void pick_pair(int &from, int &to) {
    int a = pick_enc(), b = pick_other();
    if (draw(2)) { from = a; to = b; } else { from = b; to = a; }
}
