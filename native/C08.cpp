// sources: TameParse/Util/utf8reader.cpp
// bound: every Unicode scalar value on its own and between two others; random strings of up to 12 characters from every length class, and the same with a byte removed, replaced or inserted, or cut short; overlong forms of every length; encoded surrogates are left out
#include "vh.h"
#include <sstream>
#include "TameParse/Util/utf8reader.h"
using namespace vh;
typedef unsigned char byte;
static std::string enc(unsigned c) {
    std::string s;
    if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    return s;
}
// the characters before the first malformed sequence; false when an encoded surrogate is met
static bool decode(const std::string& s, std::vector<unsigned>& out) {
    size_t i = 0;
    while (i < s.size()) {
        unsigned b = (byte)s[i], n, c, lo;
        if (b < 0x80) { out.push_back(b); ++i; continue; }
        if (b >= 0xc0 && b < 0xe0) { n = 1; c = b & 31; lo = 0x80; } else if (b >= 0xe0 && b < 0xf0) { n = 2; c = b & 15; lo = 0x800; } else if (b >= 0xf0 && b < 0xf8) { n = 3; c = b & 7; lo = 0x10000; } else return true;
        if (i + n >= s.size()) return true;
        for (unsigned k = 1; k <= n; ++k) { unsigned x = (byte)s[i + k]; if ((x & 0xc0) != 0x80) return true; c = c << 6 | (x & 63); }
        if (c < lo || c > 0x10ffff) return true;
        if (c >= 0xd800 && c < 0xe000) return false;
        out.push_back(c); i += n + 1;
    }
    return true;
}
static void run(const std::string& s, bool interesting) {
    std::vector<unsigned> cs; if (!decode(s, cs)) return;
    std::string d = "bytes"; char b[8]; for (size_t i = 0; i < s.size(); ++i) { snprintf(b, 8, " %02x", (byte)s[i]); d += b; }
    begin_case(d, interesting);
    std::vector<int> want; for (size_t i = 0; i < cs.size(); ++i) if (cs[i] < 0x10000) want.push_back(cs[i]); else { want.push_back(0xd800 + (cs[i] - 0x10000) / 1024); want.push_back(0xdc00 + (cs[i] - 0x10000) % 1024); }
    std::istringstream in(s); util::utf8reader r(&in); size_t n = 0;
    for (int k = 0; k < (int)want.size() + 3; ++k) {
        wchar_t c = 0x5a5a + k; r.get(c);
        if (!r.good()) break;
        if (n >= want.size()) fail("delivered " + str((int)c) + " after the last complete character");
        if ((int)c != want[n]) fail("unit " + str((int)n) + " is " + str((int)c) + " instead of " + str(want[n]));
        ++n;
    }
    if (n != want.size()) fail("delivered " + str((int)n) + " units instead of " + str((int)want.size()));
    for (int k = 0; k < 6; ++k) { wchar_t c = 0xc4; r.get(c); if (r.good()) fail("the reader became good again"); if (c != 0) fail("delivered a character while not good"); }
}
static unsigned pick(Rng& r) { for (;;) { unsigned c; switch (r.below(6)) { case 0: c = r.below(0x80); break; case 1: c = 0x80 + r.below(0x780); break; case 2: c = 0x800 + r.below(0xf800); break; case 3: c = 0x10000 + r.below(0x100000); break; case 4: { static const unsigned e[] = { 0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0xfffff, 0x100000, 0x103ff, 0x10400, 0xfeff }; c = e[r.below(15)]; break; } default: c = r.below(0x110000); } if (c < 0xd800 || c >= 0xe000) return c; } }
int main(int ac, char** av) {
    init(ac, av); Rng r(g_seed);
    for (unsigned c = 0; c < 0x110000; c += (g_scale > 1 || c < 0x11000 ? 1 : 7)) { if (c >= 0xd800 && c < 0xe000) continue; run(enc(c), c >= 0x80); }
    watchdog(200);
    for (int i = 0; i < 60000 * g_scale; ++i) {
        std::string s; int n = r.below(12); for (int k = 0; k < n; ++k) s += enc(pick(r));
        run(s, n > 1);
        if (s.empty()) continue;
        std::string t = s; int p = r.below((int)t.size());
        switch (r.below(5)) { case 0: t.erase(p, 1); break; case 1: t[p] = (char)r.below(256); break; case 2: t.insert(p, 1, (char)(0x80 + r.below(128))); break; case 3: t.resize(p); break;
          default: { unsigned c = r.below(0x10000); if (c >= 0xd800 && c < 0xe000) c = 65; std::string o; int k = r.below(3);
            if (k == 0) { c &= 0x7f; o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if (k == 1) { c &= 0x7ff; o += (char)0xe0; o += (char)(0x80 | (c >> 6)); o += (char)(0x80 | (c & 63)); }
            else { o += (char)0xf0; o += (char)(0x80 | (c >> 12)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } t.insert(p, o); } }
        run(t, true);
    }
    return finish();
}
