// Runtime of the generated C++ drivers.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <type_traits>
#include <unistd.h>
#include <vector>

extern "C" void vf_op(int64_t n);
extern "C" void vf_purge();

struct Ctx {
    std::vector<std::string> toks;
    size_t pos = 0;
    std::deque<std::unique_ptr<char[]>> mem; // exact-size storage of string arguments
    std::string out;
    std::deque<int> dst;
    const std::string &tok()
    {
        if (pos >= toks.size()) {
            fprintf(stderr, "vf: script line too short\n");
            _exit(90);
        }
        return toks[pos++];
    }
    long num() { return atol(tok().c_str()); }
    int label()
    {
        const std::string &s = tok();
        if (s[0] != 'h') {
            fprintf(stderr, "vf: bad handle token %s\n", s.c_str());
            _exit(90);
        }
        return atoi(s.c_str() + 1);
    }
    int next_dst()
    {
        if (dst.empty()) {
            out += " UNEXPECTED-OBJECT";
            static int extra = 1000000000;
            return extra++;
        }
        int r = dst.front();
        dst.pop_front();
        return r;
    }
};

template <class T> inline T rd_int(Ctx &c)
{
    const std::string &s = c.tok();
    if (s[0] != 'i') {
        fprintf(stderr, "vf: bad int token %s\n", s.c_str());
        _exit(90);
    }
    if (std::is_signed<T>::value)
        return static_cast<T>(strtoll(s.c_str() + 1, nullptr, 10));
    return static_cast<T>(strtoull(s.c_str() + 1, nullptr, 10));
}
inline bool rd_bool(Ctx &c) { return c.tok() == "b1"; }
inline float rd_f32(Ctx &c)
{
    const std::string &s = c.tok();
    if (s == "gnan")
        return __builtin_nanf("");
    uint32_t u = static_cast<uint32_t>(strtoul(s.c_str() + 1, nullptr, 10));
    float f;
    memcpy(&f, &u, 4);
    return f;
}
inline double rd_f64(Ctx &c)
{
    const std::string &s = c.tok();
    if (s == "fnan")
        return __builtin_nan("");
    uint64_t u = strtoull(s.c_str() + 1, nullptr, 10);
    double f;
    memcpy(&f, &u, 8);
    return f;
}
inline int hexv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
// Bytes in a heap block of exactly their size: reads past the end are seen by ASan.
inline const char *rd_bytes(Ctx &c, size_t &n)
{
    const std::string &s = c.tok();
    n = (s.size() - 1) / 2;
    static const bool null_str = getenv("VF_NULL_STR") != nullptr;
    if (n == 0 && null_str)
        return nullptr; // what a default constructed string_view holds
    std::unique_ptr<char[]> p(new char[n]);
    for (size_t i = 0; i < n; ++i)
        p[i] = static_cast<char>(hexv(s[1 + 2 * i]) * 16 + hexv(s[2 + 2 * i]));
    const char *r = p.get();
    c.mem.push_back(std::move(p));
    return r;
}
inline size_t rd_len(Ctx &c)
{
    const std::string &s = c.tok();
    return static_cast<size_t>(atol(s.c_str() + 1));
}
template <class T> inline void en_int(Ctx &c, T v)
{
    c.out += " i";
    c.out += std::to_string(v);
}
inline void en_bool(Ctx &c, bool v)
{
    unsigned char raw;
    memcpy(&raw, &v, 1);
    c.out += " b" + std::to_string(static_cast<int>(raw));
}
inline void en_f32(Ctx &c, float v)
{
    if (v != v) {
        c.out += " gnan";
        return;
    }
    uint32_t u;
    memcpy(&u, &v, 4);
    c.out += " g" + std::to_string(u);
}
inline void en_f64(Ctx &c, double v)
{
    if (v != v) {
        c.out += " fnan";
        return;
    }
    uint64_t u;
    memcpy(&u, &v, 8);
    c.out += " f" + std::to_string(u);
}
inline void en_bytes(Ctx &c, const char *p, size_t n)
{
    static const char *d = "0123456789abcdef";
    c.out += " s";
    for (size_t i = 0; i < n; ++i) {
        unsigned char x = static_cast<unsigned char>(p[i]);
        c.out += d[x >> 4];
        c.out += d[x & 15];
    }
}
inline void en_len(Ctx &c, char k, size_t n)
{
    c.out += ' ';
    c.out += k;
    c.out += std::to_string(n);
}

using OpFn = void (*)(Ctx &);
inline std::map<std::string, OpFn> &ops()
{
    static std::map<std::string, OpFn> m;
    return m;
}
void vf_clear_handles();

// What data() of an empty container may be: null or not.
template <class T> inline T *maybe_null(T *p, size_t n)
{
    static unsigned null_turn = 0;
    return n == 0 && ++null_turn % 2 ? nullptr : p;
}

// Runs in the middle of `main`: every line is `driver tokens \t plan`.
inline int vf_main()
{
    std::ifstream in(getenv("VF_SCRIPT"));
    int fd = open(getenv("VF_OUT"), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    std::string line;
    int64_t n = 0;
    while (std::getline(in, line)) {
        Ctx c;
        {
            std::istringstream is(line.substr(0, line.find('\t')));
            std::string t;
            while (is >> t)
                c.toks.push_back(t);
        }
        // dst labels come first: `D<k> l1 .. lk op args`
        int k = atoi(c.tok().c_str() + 1);
        for (int i = 0; i < k; ++i)
            c.dst.push_back(static_cast<int>(c.num()));
        std::string op = c.tok();
        c.out = std::to_string(n);
        vf_op(n);
        auto it = ops().find(op);
        if (it == ops().end()) {
            fprintf(stderr, "vf: unknown op %s\n", op.c_str());
            _exit(90);
        }
        it->second(c);
        if (!c.dst.empty())
            c.out += " MISSING-OBJECT";
        c.out += '\n';
        if (write(fd, c.out.data(), c.out.size()) < 0)
            _exit(90);
        ++n;
    }
    vf_op(-1);
    vf_clear_handles();
    vf_purge();
    close(fd);
    return 0;
}
