// Independent reference model of the D-Bus wire format (written from the
// specification, shares no code with the library under test).
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <utility>
#include <vector>

namespace ref {
typedef uint64_t u64;
typedef uint32_t u32;

// deterministic generator used for plans and message contents
struct Gen {
    u64 s;
    explicit Gen(u64 x = 0)
        : s(x)
    {
    }
    u64 next()
    {
        s += 0x9e3779b97f4a7c15ull;
        u64 z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    u32 below(u32 n) { return n ? (u32)(next() % n) : 0; }
    u32 range(u32 a, u32 b) { return a + below(b - a + 1); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool p(double q) { return unit() < q; }
};
inline u64 mix2(u64 a, u64 b)
{
    Gen g(a ^ (b * 0x9e3779b97f4a7c15ull + 0x7f4a7c15));
    g.next();
    return g.next();
}

struct Val {
    char t = 'y'; // y b n q i u x t d s o g a ( { v
    u64 u = 0;    // integers and double bits
    std::string s;
    std::string es; // element signature of an array
    std::vector<Val> k;
};

inline std::string sigOf(const Val& v)
{
    if (v.t == 'a')
        return "a" + v.es;
    if (v.t == '(' || v.t == '{') {
        std::string r(1, v.t);
        for (auto& c : v.k)
            r += sigOf(c);
        return r + (v.t == '(' ? ")" : "}");
    }
    return std::string(1, v.t);
}
inline bool eq(const Val& a, const Val& b)
{
    if (a.t != b.t || a.k.size() != b.k.size() || a.u != b.u || a.s != b.s || a.es != b.es)
        return false;
    for (size_t i = 0; i < a.k.size(); ++i)
        if (!eq(a.k[i], b.k[i]))
            return false;
    return true;
}
inline std::string show(const Val& v, int lim = 200)
{
    std::string r;
    switch (v.t) {
    case 's':
    case 'o':
    case 'g':
        r = std::string(1, v.t) + "\"" + (v.s.size() > 40 ? v.s.substr(0, 37) + "...(" + std::to_string(v.s.size()) + ")" : v.s) + "\"";
        for (auto& c : r)
            if ((unsigned char)c < 32 || (unsigned char)c > 126)
                c = '?';
        break;
    case 'a':
    case '(':
    case '{':
    case 'v':
        r = sigOf(v) + "<";
        for (auto& c : v.k) {
            r += show(c, lim / 2) + " ";
            if ((int)r.size() > lim) {
                r += "...";
                break;
            }
        }
        r += ">";
        break;
    default:
        r = std::string(1, v.t) + std::to_string(v.u);
    }
    return r;
}

inline u32 alignOf(char c)
{
    switch (c) {
    case 'y':
    case 'g':
    case 'v':
        return 1;
    case 'n':
    case 'q':
        return 2;
    case 'x':
    case 't':
    case 'd':
    case '(':
    case '{':
        return 8;
    default:
        return 4;
    }
}

// ---- encoder ----------------------------------------------------------------
struct Enc {
    std::string b;
    bool be = false;
    void align(u32 n)
    {
        while (b.size() % n)
            b.push_back(0);
    }
    void num(u64 v, u32 n)
    {
        align(n);
        for (u32 i = 0; i < n; ++i)
            b.push_back((char)(v >> 8 * (be ? n - 1 - i : i)));
    }
    void at32(size_t off, u32 v)
    {
        for (u32 i = 0; i < 4; ++i)
            b[off + i] = (char)(v >> 8 * (be ? 3 - i : i));
    }
    void str(const std::string& s)
    {
        num(s.size(), 4);
        b += s;
        b.push_back(0);
    }
    void sig(const std::string& s)
    {
        b.push_back((char)s.size());
        b += s;
        b.push_back(0);
    }
    void val(const Val& v)
    {
        switch (v.t) {
        case 'y':
            b.push_back((char)v.u);
            break;
        case 'n':
        case 'q':
            num(v.u, 2);
            break;
        case 'b':
        case 'i':
        case 'u':
            num(v.u, 4);
            break;
        case 'x':
        case 't':
        case 'd':
            num(v.u, 8);
            break;
        case 's':
        case 'o':
            str(v.s);
            break;
        case 'g':
            sig(v.s);
            break;
        case 'v':
            sig(sigOf(v.k[0]));
            val(v.k[0]);
            break;
        case '(':
        case '{':
            align(8);
            for (auto& c : v.k)
                val(c);
            break;
        case 'a': {
            num(0, 4);
            size_t at = b.size() - 4;
            align(alignOf(v.es[0]));
            size_t st = b.size();
            for (auto& c : v.k)
                val(c);
            at32(at, (u32)(b.size() - st));
            break;
        }
        }
    }
};

// ---- signature walking ------------------------------------------------------
// length of the single complete type starting at s[i]; 0 when malformed
inline size_t oneType(const std::string& s, size_t i, int ad = 0, int sd = 0)
{
    if (i >= s.size() || ad > 32 || sd > 32)
        return 0;
    char c = s[i];
    if (strchr("ybnqiuxtdsogvh", c))
        return 1;
    if (c == 'a') {
        if (i + 1 < s.size() && s[i + 1] == '{') {
            size_t p = i + 2;
            if (p >= s.size() || !strchr("ybnqiuxtdsogh", s[p]))
                return 0;
            size_t n = oneType(s, p + 1, ad + 1, sd + 1);
            if (!n || p + 1 + n >= s.size() || s[p + 1 + n] != '}')
                return 0;
            return p + 1 + n + 1 - i;
        }
        size_t n = oneType(s, i + 1, ad + 1, sd);
        return n ? n + 1 : 0;
    }
    if (c == '(') {
        size_t p = i + 1;
        if (p < s.size() && s[p] == ')')
            return 0;
        while (p < s.size() && s[p] != ')') {
            size_t n = oneType(s, p, ad, sd + 1);
            if (!n)
                return 0;
            p += n;
        }
        return p < s.size() ? p + 1 - i : 0;
    }
    return 0;
}

// ---- strict decoder -----------------------------------------------------------
inline bool utf8ok(const std::string& s)
{
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        int n = c < 0x80 ? 0 : (c >> 5) == 6 ? 1 : (c >> 4) == 14 ? 2 : (c >> 3) == 30 ? 3 : -1;
        if (n < 0 || c == 0 || i + n >= s.size() + (n ? 0 : 1))
            return false;
        for (int j = 1; j <= n; ++j)
            if (i + j >= s.size() || ((unsigned char)s[i + j] >> 6) != 2)
                return false;
        i += n + 1;
    }
    return true;
}
struct Dec {
    const unsigned char* p;
    size_t n, o = 0;
    bool be;
    std::string err;
    Dec(const char* d, size_t len, bool b)
        : p((const unsigned char*)d)
        , n(len)
        , be(b)
    {
    }
    bool fail(const char* e)
    {
        if (err.empty())
            err = std::string(e) + " at offset " + std::to_string(o);
        return false;
    }
    bool align(u32 a)
    {
        while (o % a) {
            if (o >= n)
                return fail("truncated padding");
            if (p[o])
                return fail("non-zero padding");
            ++o;
        }
        return true;
    }
    bool num(u64& v, u32 k)
    {
        if (!align(k))
            return false;
        if (n - o < k)
            return fail("truncated number");
        v = 0;
        for (u32 i = 0; i < k; ++i)
            v |= (u64)p[o + i] << 8 * (be ? k - 1 - i : i);
        o += k;
        return true;
    }
    bool bytes(std::string& s, size_t len)
    {
        if (n - o < len + 1 || len > n)
            return fail("truncated string");
        s.assign((const char*)p + o, len);
        o += len;
        if (p[o] != 0)
            return fail("string not terminated");
        ++o;
        if (s.find('\0') != std::string::npos)
            return fail("NUL inside string");
        return true;
    }
    bool val(const std::string& s, size_t& i, Val& v, int depth = 0)
    {
        if (depth > 64)
            return fail("nesting too deep");
        v = Val();
        v.t = s[i++];
        u64 l;
        switch (v.t) {
        case 'y':
            return num(v.u, 1);
        case 'n':
        case 'q':
            return num(v.u, 2);
        case 'b':
            return num(v.u, 4) && (v.u <= 1 || fail("bad boolean"));
        case 'i':
        case 'u':
        case 'h':
            return num(v.u, 4);
        case 'x':
        case 't':
        case 'd':
            return num(v.u, 8);
        case 's':
            return num(l, 4) && bytes(v.s, l) && (utf8ok(v.s) || fail("bad utf-8"));
        case 'o':
            return num(l, 4) && bytes(v.s, l) && ((!v.s.empty() && v.s[0] == '/') || fail("bad object path"));
        case 'g':
            return num(l, 1) && bytes(v.s, l);
        case 'v': {
            std::string sg;
            if (!num(l, 1) || !bytes(sg, l))
                return false;
            if (sg.empty() || oneType(sg, 0) != sg.size())
                return fail("variant signature is not one complete type");
            v.k.resize(1);
            size_t q = 0;
            return val(sg, q, v.k[0], depth + 1);
        }
        case '(': {
            if (!align(8))
                return false;
            while (s[i] != ')') {
                v.k.emplace_back();
                Val c;
                if (!val(s, i, c, depth + 1))
                    return false;
                v.k.back() = std::move(c);
            }
            ++i;
            return true;
        }
        case '{': {
            if (!align(8))
                return false;
            for (int j = 0; j < 2; ++j) {
                Val c;
                if (!val(s, i, c, depth + 1))
                    return false;
                v.k.push_back(std::move(c));
            }
            if (s[i] != '}')
                return fail("bad dict entry");
            ++i;
            return true;
        }
        case 'a': {
            size_t tl = s[i] == '{' ? oneType(s, i - 1) - 1 : oneType(s, i);
            v.es = s.substr(i, tl);
            i += tl;
            if (!num(l, 4))
                return false;
            if (l > 67108864)
                return fail("array too long");
            if (!align(alignOf(v.es[0])))
                return false;
            if (n - o < l)
                return fail("array runs past the end");
            size_t end = o + l;
            while (o < end) {
                size_t q = 0;
                Val c;
                if (!val(v.es, q, c, depth + 1))
                    return false;
                if (o > end)
                    return fail("array element crosses the array end");
                v.k.push_back(std::move(c));
            }
            return true;
        }
        }
        return fail("unknown type");
    }
};

// ---- messages -------------------------------------------------------------------
enum { CALL = 1, RETURN = 2, ERROR = 3, SIGNAL = 4 };
struct Msg {
    int type = 0;
    int flags = 0;
    u32 serial = 0;
    bool be = false;
    std::string path, iface, member, errname, dest, sender;
    bool hasReply = false;
    u32 replySerial = 0;
    std::vector<Val> body;
    std::vector<std::pair<int, Val>> extra; // unknown header fields
    int emptyField = 0;                     // the code of a header field that names nothing
    u32 order = 0;                          // permutation seed of the header fields
    std::string bodySig() const
    {
        std::string r;
        for (auto& v : body)
            r += sigOf(v);
        return r;
    }
};
inline Val mkS(const std::string& s, char t = 's')
{
    Val v;
    v.t = t;
    v.s = s;
    return v;
}
inline Val mkU(u64 u, char t = 'u')
{
    Val v;
    v.t = t;
    v.u = u;
    return v;
}
inline std::string encodeRaw(const Msg& m, const std::string& body, const std::string& sig)
{
    Enc e;
    e.be = m.be;
    e.b.push_back(m.be ? 'B' : 'l');
    e.b.push_back((char)m.type);
    e.b.push_back((char)m.flags);
    e.b.push_back(1);
    e.num(body.size(), 4);
    e.num(m.serial, 4);
    std::vector<std::pair<int, Val>> f;
    if (!m.path.empty())
        f.push_back({ 1, mkS(m.path, 'o') });
    if (!m.iface.empty())
        f.push_back({ 2, mkS(m.iface) });
    if (!m.member.empty())
        f.push_back({ 3, mkS(m.member) });
    if (!m.errname.empty())
        f.push_back({ 4, mkS(m.errname) });
    if (m.hasReply)
        f.push_back({ 5, mkU(m.replySerial) });
    if (!m.dest.empty())
        f.push_back({ 6, mkS(m.dest) });
    if (!m.sender.empty())
        f.push_back({ 7, mkS(m.sender) });
    if (!sig.empty())
        f.push_back({ 8, mkS(sig, 'g') });
    for (auto& x : m.extra)
        f.push_back(x);
    Gen g(m.order);
    if (m.order)
        for (size_t i = f.size(); i > 1; --i)
            std::swap(f[i - 1], f[g.below((u32)i)]);
    e.num(0, 4);
    size_t at = e.b.size() - 4;
    e.align(8);
    size_t st = e.b.size();
    for (auto& x : f) {
        e.align(8);
        e.b.push_back((char)x.first);
        e.sig(sigOf(x.second));
        e.val(x.second);
    }
    e.at32(at, (u32)(e.b.size() - st));
    e.align(8);
    return e.b + body;
}
inline std::string encodeBody(const Msg& m)
{
    Enc e;
    e.be = m.be;
    for (auto& v : m.body)
        e.val(v);
    return e.b;
}
inline std::string encode(const Msg& m) { return encodeRaw(m, encodeBody(m), m.bodySig()); }

// size of the frame at d, 0 when more bytes are needed, -1 when it is not a message
inline long frameSize(const char* d, size_t n, std::string& err)
{
    if (n < 16)
        return 0;
    if (d[0] != 'l' && d[0] != 'B') {
        err = "byte-order mark is neither 'l' nor 'B'";
        return -1;
    }
    if (d[3] != 1) {
        err = "protocol version is not 1";
        return -1;
    }
    Dec x(d, n, d[0] == 'B');
    x.o = 4;
    u64 bl = 0, ser = 0, fl = 0;
    x.num(bl, 4);
    x.num(ser, 4);
    x.num(fl, 4);
    if (fl > 67108864 || bl > 134217728) {
        err = "impossible lengths in the header";
        return -1;
    }
    u64 t = (16 + fl + 7) / 8 * 8 + bl;
    return n >= t ? (long)t : 0;
}
inline bool decode(const std::string& d, Msg& m, std::string& err)
{
    m = Msg();
    m.be = d[0] == 'B';
    m.type = (unsigned char)d[1];
    m.flags = (unsigned char)d[2];
    Dec x(d.data(), d.size(), m.be);
    x.o = 4;
    u64 bl, ser;
    if (!x.num(bl, 4) || !x.num(ser, 4)) {
        err = x.err;
        return false;
    }
    m.serial = (u32)ser;
    Val f;
    size_t i = 0;
    if (!x.val("a(yv)", i, f) || !x.align(8)) {
        err = "header: " + x.err;
        return false;
    }
    std::string sig;
    bool hasSig = false;
    unsigned seen = 0;
    for (auto& e : f.k) {
        int c = (int)e.k[0].u;
        const Val& v = e.k[1].k[0];
        static const char* want = "?osssusSg"; // by code; S = s
        if (c >= 1 && c <= 8) {
            char w = want[c] == 'S' ? 's' : want[c];
            if (v.t != w) {
                err = "header field " + std::to_string(c) + " has type " + sigOf(v);
                return false;
            }
            if (seen & (1u << c)) {
                err = "header field " + std::to_string(c) + " appears twice";
                return false;
            }
            seen |= 1u << c;
            if (v.t == 's' && v.s.empty())
                m.emptyField = c;
        }
        switch (c) {
        case 1: m.path = v.s; break;
        case 2: m.iface = v.s; break;
        case 3: m.member = v.s; break;
        case 4: m.errname = v.s; break;
        case 5: m.hasReply = true; m.replySerial = (u32)v.u; break;
        case 6: m.dest = v.s; break;
        case 7: m.sender = v.s; break;
        case 8: sig = v.s; hasSig = true; break;
        case 0: err = "header field code 0"; return false;
        default: m.extra.push_back({ c, v });
        }
    }
    (void)hasSig;
    if (d.size() - x.o != bl) {
        err = "body length does not match";
        return false;
    }
    if (sig.empty() && bl) {
        err = "a body without a signature";
        return false;
    }
    Dec b(d.data() + x.o, bl, m.be);
    for (size_t q = 0; q < sig.size();) {
        if (!oneType(sig, q)) {
            err = "malformed body signature " + sig;
            return false;
        }
        Val v;
        if (!b.val(sig, q, v)) {
            err = "body: " + b.err;
            return false;
        }
        m.body.push_back(std::move(v));
    }
    if (b.o != b.n) {
        err = "body has trailing bytes";
        return false;
    }
    if (m.serial == 0) {
        err = "serial is zero";
        return false;
    }
    bool ok = true;
    switch (m.type) {
    case CALL: ok = !m.path.empty() && !m.member.empty(); break;
    case RETURN: ok = m.hasReply; break;
    case ERROR: ok = m.hasReply && !m.errname.empty(); break;
    case SIGNAL: ok = !m.path.empty() && !m.member.empty() && !m.iface.empty(); break;
    default: err = "message type " + std::to_string(m.type); return false;
    }
    if (!ok)
        err = "a required header field is missing";
    return ok;
}

// ---- random values ------------------------------------------------------------
struct ValCfg {
    int depth = 2;
    int width = 3;
    int maxStr = 24;
    bool variants = true, arrayOfArray = true, structs = true, dicts = true;
};
inline std::string rndStr(Gen& g, int maxLen)
{
    int n = g.p(0.15) ? 0 : (int)g.below(maxLen + 1);
    std::string r;
    while ((int)r.size() < n) {
        if (g.p(0.05))
            r += "\xc3\xa9";
        else if (g.p(0.02))
            r += "\xe2\x82\xac";
        else if (g.p(0.05))
            r += "\r\nl\x01"[g.below(4)];
        else if (g.p(0.02))
            r += "%s%n%d";
        else
            r.push_back((char)g.range(32, 126));
    }
    return r;
}
inline std::string rndPath(Gen& g)
{
    static const char* p[] = { "/", "/a", "/com/example/foo", "/com/example/foobar", "/com/example/foo/bar", "/com/example", "/com", "/x_1/y2", "/com/example/foo/bar/baz" };
    if (g.p(0.6))
        return p[g.below(9)];
    static const char* v[] = { "com", "example", "foo", "a", "A", "com_" };
    std::string s;
    for (int n = g.range(1, 4); n > 0; --n)
        s += std::string("/") + v[g.below(6)];
    return s;
}
inline std::string rndSig(Gen& g, const ValCfg& c, int depth)
{
    static const char* basic = "ybnqiuxtdsogsuyv";
    u32 r = g.below(10);
    if (depth > 0) {
        if (r == 0) {
            std::string e = rndSig(g, c, depth - 1);
            if (e[0] == 'a' && !c.arrayOfArray)
                e = "u";
            return "a" + e;
        }
        if (r == 1 && c.structs) {
            std::string s = "(";
            int n = g.range(1, 4);
            for (int i = 0; i < n; ++i)
                s += rndSig(g, c, depth - 1);
            return s + ")";
        }
        if (r == 2 && c.dicts) {
            std::string k(1, "ybnqiuxtdsog"[g.below(12)]);
            return "a{" + k + rndSig(g, c, depth - 1) + "}";
        }
    }
    char b = basic[g.below(16)];
    if (b == 'v' && (!c.variants || depth <= 0))
        b = 's';
    return std::string(1, b);
}
inline Val rndVal(Gen& g, const ValCfg& c, const std::string& s, size_t& i, int depth)
{
    Val v;
    v.t = s[i++];
    switch (v.t) {
    case 'y':
        v.u = g.next() & 255;
        break;
    case 'b':
        v.u = g.below(2);
        break;
    case 'n':
    case 'q':
        v.u = g.p(0.2) ? (g.p(0.5) ? 0xffff : 0x8000) : g.next() & 0xffff;
        break;
    case 'i':
    case 'u':
        v.u = g.p(0.3) ? (g.p(0.5) ? 0xffffffffu : 0x80000000u) : g.next() & 0xffffffffu;
        break;
    case 'x':
    case 't':
        v.u = g.p(0.2) ? (g.p(0.5) ? ~0ull : 1ull << 63) : g.next();
        break;
    case 'd': {
        static const u64 sp[] = { 0, 0x8000000000000000ull, 0x3ff0000000000000ull, 0x7ff0000000000000ull, 0x400921fb54442d18ull, 0x1ull, 0x7fefffffffffffffull };
        v.u = g.p(0.5) ? sp[g.below(7)] : (g.next() & 0xbfffffffffffffffull);
        break;
    }
    case 's':
        v.s = rndStr(g, c.maxStr);
        break;
    case 'o':
        v.s = rndPath(g);
        break;
    case 'g': {
        ValCfg d = c;
        int n = g.below(3);
        for (int j = 0; j < n; ++j)
            v.s += rndSig(g, d, 1);
        break;
    }
    case 'v': {
        std::string sg = rndSig(g, c, depth - 1);
        size_t q = 0;
        v.k.push_back(rndVal(g, c, sg, q, depth - 1));
        break;
    }
    case '(':
        while (s[i] != ')')
            v.k.push_back(rndVal(g, c, s, i, depth - 1));
        ++i;
        break;
    case '{':
        v.k.push_back(rndVal(g, c, s, i, depth - 1));
        v.k.push_back(rndVal(g, c, s, i, depth - 1));
        ++i;
        break;
    case 'a': {
        size_t tl = s[i] == '{' ? oneType(s, i - 1) - 1 : oneType(s, i);
        v.es = s.substr(i, tl);
        i += tl;
        int n = g.p(0.2) ? 0 : (int)g.range(1, c.width);
        for (int j = 0; j < n; ++j) {
            size_t q = 0;
            v.k.push_back(rndVal(g, c, v.es, q, depth - 1));
        }
        break;
    }
    }
    return v;
}
// nested as deeply as a value may be: 32 arrays and 32 structures (or dict entries) per signature, 64 containers in all
inline Val deepVal(Gen& g, const ValCfg& c)
{
    Val v;
    {
        std::string b(1, "ybnqiuxtdsog"[g.below(12)]);
        size_t q = 0;
        v = rndVal(g, c, b, q, 0);
    }
    int total = g.p(0.4) ? 64 : (int)g.range(5, 64), arrays = 0, structs = 0;
    int kinds = (int)g.range(1, 15), style = (int)g.below(3); // which containers occur
    int tries = 0;
    for (int left = total; left > 0 && ++tries < 4000;) {
        int k = style == 0 ? left % 4 : (int)g.below(4);
        if (style == 1)
            k = left > 32 ? 0 : 1;
        else if (style == 2 && !(kinds >> k & 1))
            continue;
        std::string in = sigOf(v);
        Val w;
        bool full = in.size() > 230;
        if (k == 0 && arrays < 32 && !full) {
            w.t = 'a';
            w.es = in;
            ++arrays;
        } else if (k == 1 && structs < 32 && !full) {
            w.t = '(';
            ++structs;
            if (g.p(0.1))
                w.k.push_back(mkU(g.next() & 0xff, 'y'));
        } else if (k == 2 && c.dicts && arrays < 32 && structs < 32 && left > 1 && !full) {
            Val e;
            e.t = '{';
            e.k.push_back(mkU(g.next() & 0xff, 'y'));
            e.k.push_back(v);
            w.t = 'a';
            w.es = sigOf(e);
            w.k.push_back(e);
            ++arrays, ++structs;
            left -= 2;
            v = std::move(w);
            continue;
        } else if ((k == 3 && c.variants) || full || (arrays >= 32 && structs >= 32)) {
            w.t = 'v';
            arrays = structs = 0;
        } else if (style == 1 || left < 2 || arrays >= 32 || structs >= 32) {
            if (!c.variants)
                break;
            w.t = 'v';
            arrays = structs = 0;
        } else
            continue;
        w.k.push_back(std::move(v));
        v = std::move(w);
        --left;
    }
    return v;
}
inline Val rndVal(Gen& g, const ValCfg& c)
{
    std::string s = rndSig(g, c, c.depth);
    size_t q = 0;
    return rndVal(g, c, s, q, c.depth);
}
} // namespace ref
