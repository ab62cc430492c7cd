// Compact replacement for the iostream classes, used only when code is
// compiled for the symbolic engine (the native replay uses libstdc++'s).
// Formatting covers what the repository's diagnostics use.
#pragma once
#include <iosfwd>
#include <string>
#include <cstdint>
#include <cstring>
namespace std {
struct jsym_setw { int n; };
struct jsym_setfill { char c; };
struct jsym_setprec { int n; };
class ios_base {
public:
    typedef unsigned openmode;
    typedef unsigned fmtflags;
    static const openmode in = 1, out = 2, app = 4, binary = 8, trunc = 16, ate = 32;
    static const fmtflags hex = 1, dec = 2, fixed = 4, left = 8, right = 16;
    int base_ = 10, width_ = 0;
    char fill_ = ' ';
};
template<> class basic_ios<char> : public ios_base {};
template<> class basic_ostream<char> : public basic_ios<char> {
public:
    string buf;
    void pad(const char* p, size_t n) {
        for (int k = (int)n; k < width_; ++k) buf.push_back(fill_);
        width_ = 0;
        buf.append(p, n);
    }
    basic_ostream& num(uint64_t v, bool neg) {
        char t[32]; int k = 32;
        do { t[--k] = "0123456789abcdef"[v % base_]; v /= base_; } while (v);
        if (neg) t[--k] = '-';
        pad(t + k, 32 - k);
        return *this;
    }
    basic_ostream& sig(int64_t v, uint64_t mask) {
        if (base_ == 16) return num((uint64_t)v & mask, false);
        return v < 0 ? num(-(uint64_t)v, true) : num(v, false);
    }
    basic_ostream& operator<<(const char* s) { pad(s, strlen(s)); return *this; }
    basic_ostream& operator<<(const string& s) { pad(s.data(), s.size()); return *this; }
    basic_ostream& operator<<(char c) { pad(&c, 1); return *this; }
    basic_ostream& operator<<(unsigned char c) { char d = c; pad(&d, 1); return *this; }
    basic_ostream& operator<<(bool c) { return num(c, false); }
    basic_ostream& operator<<(short v) { return sig(v, 0xffff); }
    basic_ostream& operator<<(int v) { return sig(v, 0xffffffffu); }
    basic_ostream& operator<<(long v) { return sig(v, ~0ull); }
    basic_ostream& operator<<(long long v) { return sig(v, ~0ull); }
    basic_ostream& operator<<(unsigned short v) { return num(v, false); }
    basic_ostream& operator<<(unsigned v) { return num(v, false); }
    basic_ostream& operator<<(unsigned long v) { return num(v, false); }
    basic_ostream& operator<<(unsigned long long v) { return num(v, false); }
    basic_ostream& operator<<(double) { return *this << "<double>"; }
    basic_ostream& operator<<(const void* p) { base_ = 16; num((uint64_t)p, false); base_ = 10; return *this; }
    basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
    basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    basic_ostream& operator<<(jsym_setw w) { width_ = w.n; return *this; }
    basic_ostream& operator<<(jsym_setfill w) { fill_ = w.c; return *this; }
    basic_ostream& operator<<(jsym_setprec) { return *this; }
    basic_ostream& write(const char* p, long n) { buf.append(p, n); return *this; }
    basic_ostream& put(char c) { buf.push_back(c); return *this; }
    basic_ostream& flush() { return *this; }
    bool good() const { return true; }
    bool fail() const { return false; }
    explicit operator bool() const { return true; }
};
typedef basic_ostream<char> ostream;
template<> class basic_stringstream<char> : public basic_ostream<char> {
public:
    basic_stringstream() {}
    explicit basic_stringstream(const string& s) { buf = s; }
    string str() const { return buf; }
    void str(const string& s) { buf = s; }
};
template<> class basic_ostringstream<char> : public basic_stringstream<char> {};
template<> class basic_ofstream<char> : public basic_ostream<char> {
public:
    basic_ofstream() {}
    explicit basic_ofstream(const string&, openmode = 0) {}
    void open(const string&, openmode = 0) {}
    void open(const char*, openmode = 0) {}
    bool is_open() const { return false; }
    void close() {}
};
template<> class basic_istream<char> : public basic_ios<char> {};
template<> class basic_ifstream<char> : public basic_istream<char> {
public:
    basic_ifstream() {}
    explicit basic_ifstream(const string&, openmode = 0) {}
    void open(const string&, openmode = 0) {}
    bool good() const { return false; }
    bool is_open() const { return false; }
    bool eof() const { return true; }
    void close() {}
    template<class T> basic_ifstream& operator>>(T&) { return *this; }
    explicit operator bool() const { return false; }
};
typedef basic_ifstream<char> ifstream;
inline basic_istream<char>& getline(basic_istream<char>& s, string&) { return s; }
inline ios_base& hex(ios_base& b) { b.base_ = 16; return b; }
inline ios_base& dec(ios_base& b) { b.base_ = 10; return b; }
inline ios_base& fixed(ios_base& b) { return b; }
inline ios_base& left(ios_base& b) { return b; }
inline ios_base& right(ios_base& b) { return b; }
inline ios_base& internal(ios_base& b) { return b; }
inline ios_base& boolalpha(ios_base& b) { return b; }
inline ostream& endl(ostream& o) { o.buf.push_back('\n'); return o; }
inline ostream& flush(ostream& o) { return o; }
inline jsym_setw setw(int n) { return {n}; }
inline jsym_setfill setfill(char c) { return {c}; }
inline jsym_setprec setprecision(int n) { return {n}; }
extern ostream cout, cerr;
}
