// Small helpers of the demonstrations.
#include <cppp/reiconv.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
typedef std::string S;
static int bad = 0;
static S hex(const S &s) { S r; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x ", c); r += b; } return r; }
static void eq(const char *what, const S &got, const S &want) { if (got != want) { printf("FAIL %s: got [%s] want [%s]\n", what, hex(got).c_str(), hex(want).c_str()); bad = 1; } }
static void eqn(const char *what, long got, long want) { if (got != want) { printf("FAIL %s: got %ld want %ld\n", what, got, want); bad = 1; } }
struct Cd {
    reiconv_t cd; S out; int err = 0; size_t ret = 0;
    Cd(const char *from, const char *to, bool ignore = false) { cd = reiconv_open_from_name(from, to, ignore ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS); if (cd == (reiconv_t)-1) { puts("cannot open"); exit(3); } }
    ~Cd() { reiconv_handle_close(cd); }
    size_t feed(const S &in, size_t room = 4096) {      // returns the number of bytes consumed
        std::vector<char> i(in.begin(), in.end()), o(room + 64, 0x55); i.push_back(0); char *ip = i.data(), *op = o.data(); size_t il = in.size(), ol = room; errno = 0;
        ret = reiconv_iconv(cd, &ip, &il, &op, &ol); err = ret == (size_t)-1 ? errno : 0; out.append(o.data(), op - o.data());
        for (size_t k = room; k < room + 64; k++) if (o[k] != 0x55) { printf("FAIL wrote outside the buffer of %zu bytes\n", room); bad = 1; break; }
        return in.size() - il;
    }
    void flush(size_t room = 4096) { std::vector<char> o(room + 64, 0x55); char *op = o.data(); size_t ol = room; errno = 0; ret = reiconv_iconv(cd, nullptr, nullptr, &op, &ol); err = ret == (size_t)-1 ? errno : 0; out.append(o.data(), op - o.data());
        for (size_t k = room; k < room + 64; k++) if (o[k] != 0x55) { printf("FAIL flush wrote outside the buffer of %zu bytes\n", room); bad = 1; break; } }
    void reset() { reiconv_iconv(cd, nullptr, nullptr, nullptr, nullptr); }
    S take() { S r; r.swap(out); return r; }
};
static S once(const char *from, const char *to, const S &in, bool ignore = false) { Cd c(from, to, ignore); c.feed(in); c.flush(); return c.out; }
