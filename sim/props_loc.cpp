// C19: the locale query under a simulated process environment.
#include "sut.h"
#include "simsched.h"
#include <cppp/reiconv.hpp>
#include <clocale>
#include <langinfo.h>
// ---- simulated locale subsystem: what the library sees instead of the C library's ------------------------------
namespace {
struct Loc { const char *name, *codeset; };
const Loc locs[] = {{"C", "ANSI_X3.4-1968"}, {"en_US.UTF-8", "UTF-8"}, {"ja_JP.eucJP", "EUC-JP"}, {"zh_CN.GB18030", "GB18030"}, {"de_DE.ISO-8859-1", "ISO-8859-1"}, {"ru_RU.KOI8-R", "KOI8-R"}, {"zh_TW.BIG5", "BIG5"}, {"ja_JP.SJIS", "SHIFT_JIS"}, {"pl_PL.ISO-8859-2", "ISO-8859-2"}};
const int NLOC = sizeof locs / sizeof *locs;
int cur_global; int cur_thread[MAX_THREADS]; bool has_thread[MAX_THREADS];
char codeset_buf[64];           // like many C libraries, the answer lives in a buffer that is rewritten
const char *env_all, *env_ctype, *env_lang;
int effective_of(int t) { return has_thread[t] ? cur_thread[t] : cur_global; }
int effective() { return effective_of(sched_on ? sched_tid() : 0); }
uint32_t in_effect[MAX_THREADS];        // per thread: the locales that were in effect while its query has been running
}
extern "C" {
char *sim_nl_langinfo(nl_item i) { if (i != CODESET) return (char *)""; return (char *)locs[effective()].codeset; }
char *sim_nl_langinfo_l(nl_item i, locale_t) { return sim_nl_langinfo(i); }
char *sim_setlocale(int, const char *n) { if (n) fail("locale-changed", "the locale query changes the locale"); return (char *)locs[cur_global].name; }
locale_t sim_uselocale(locale_t l) { if (l) fail("locale-changed", "the locale query changes the thread's locale"); return has_thread[sched_on ? sched_tid() : 0] ? (locale_t)&locs[effective()] : LC_GLOBAL_LOCALE; }
struct lconv *sim_localeconv(void) { return localeconv(); }
char *sim_getenv(const char *n) { const char *r = !strcmp(n, "LC_ALL") ? env_all : !strcmp(n, "LC_CTYPE") ? env_ctype : !strcmp(n, "LANG") ? env_lang : nullptr; return (char *)r; }
char *sim_secure_getenv(const char *n) { return sim_getenv(n); }
const char *nolang_locale_charset();
}
namespace reiconv { std::string_view nolang_locale_charset(); }
static std::string ask(bool nolang, bool cpp) {
    std::string r; const char *p = nullptr; std::string_view v;
    { LibScope s; if (!nolang) { if (cpp) v = reiconv::locale_charset(); else p = ::locale_charset(); } else { if (cpp) v = reiconv::nolang_locale_charset(); else p = ::nolang_locale_charset(); } }
    if (cpp) r.assign(v.data(), v.size()); else r = p ? p : "(null)";
    return r;
}
void c19() {
    cur_global = 0; for (int i = 0; i < MAX_THREADS; i++) has_thread[i] = false; env_all = env_ctype = env_lang = nullptr;
    bool nolang = draw(3) == 2; int nt = nolang ? 1 : (int)range(1, 4); int left = (int)range(2, 24);
    mix(nolang); mix(nt); if (verbose) logf("locale queries, %d thread(s)%s", nt, nolang ? ", without nl_langinfo" : "");
    std::vector<std::pair<std::string, std::string>> kept;     // answers the callers hold on to
    auto act = [&](int tid) -> bool {
        if (left-- <= 0) return false;
        uint32_t k = draw(6);
        if (k < 2) {                                            // switch
            fault(F_LOCALE_SWITCH); int l = draw(NLOC);
            if (nolang) {
                // the environment names the locale that setlocale(LC_ALL, "") then puts into effect
                static const char *empty = ""; env_all = env_ctype = env_lang = nullptr; int other = draw(NLOC), third = draw(NLOC);
                switch (draw(5)) { case 0: env_lang = locs[l].name; break; case 1: env_ctype = locs[l].name; env_lang = locs[other].name; break; case 2: env_all = locs[l].name; env_ctype = locs[other].name; env_lang = locs[third].name; break; case 3: env_all = empty; env_ctype = locs[l].name; env_lang = locs[other].name; break; default: env_all = env_ctype = empty; env_lang = locs[l].name; }
                cur_global = l;
            } else if (draw(2) || nt == 1) cur_global = l; else { has_thread[tid] = draw(4) != 3; cur_thread[tid] = l; }
            for (int t = 0; t < MAX_THREADS; t++) in_effect[t] |= 1u << effective_of(t);
            if (verbose) logf("  thread %d: locale now %s", tid, locs[effective()].name);
            return true;
        }
        int l = effective(); const char *dot = strchr(locs[l].name, '.');
        std::string want = nolang ? (dot ? dot + 1 : "UTF-8") : locs[l].codeset;
        if (nolang && !dot) { std::string got = ask(true, draw(2)); mix(Bytes(got)); if (verbose) logf("  query (locale without codeset) -> %s", got.c_str()); return true; }
        bool cpp = draw(2); in_effect[tid] = 1u << l; std::string got = ask(nolang, cpp); mix(Bytes(got));
        // of the locales other threads have put into effect while the call ran, each is right
        if (verbose) logf("  thread %d: %s query -> %s", tid, cpp ? "C++" : "C", got.c_str());
        bool right = got == want; if (!nolang) for (int x = 0; x < NLOC; x++) right |= (in_effect[tid] >> x & 1) && got == locs[x].codeset;
        REQUIRE(right, "locale", "locale %s is in effect, the %s query says '%s' instead of '%s'", locs[l].name, cpp ? "C++" : "C", got.c_str(), want.c_str());
        return true;
    };
    if (nt == 1) { while (act(0)) {} } else sched_run(nt, 12, act);
    shm->runs_nontrivial++;
}
