// Common part of all harnesses: reads a script (one command per line), writes one JSON object
// per executed command. Uses only the C library for its own I/O.
#pragma once
#include <ply-runtime/Base.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <utility>

typedef std::string Bytes;

static FILE* g_trace;

[[noreturn]] static void toolError(const char* msg) {
    fprintf(stderr, "harness error: %s\n", msg);
    exit(99);
}

// The code under test never ends: recorded as an abnormal end.
[[noreturn]] static void endless(const char* msg) {
    fprintf(stderr, "endless: %s\n", msg);
    exit(98);
}

// One output event. Fields are appended in order; the first is always "e".
struct Ev {
    std::string s;
    explicit Ev(const char* kind) {
        s = "{\"e\":\"";
        s += kind;
        s += "\"";
    }
    Ev& i(const char* k, long long v) {
        if (v > 2147483647LL || v < -2147483647LL) {
            // TLC has 32-bit integers; no legitimate value comes near
            v = v > 0 ? 2147483646LL : -2147483646LL;
        }
        s += ",\"" + std::string(k) + "\":" + std::to_string(v);
        return *this;
    }
    // any 64-bit value as a sequence of four 16-bit words, least significant first
    Ev& w(const char* k, unsigned long long v) {
        std::vector<int> q;
        for (int j = 0; j < 4; j++)
            q.push_back((v >> (16 * j)) & 0xffff);
        return a(k, q);
    }
    Ev& t(const char* k, bool v) {
        s += ",\"" + std::string(k) + "\":" + (v ? "true" : "false");
        return *this;
    }
    Ev& str(const char* k, const std::string& v) { // only for plain identifiers
        s += ",\"" + std::string(k) + "\":\"" + v + "\"";
        return *this;
    }
    template <class V>
    Ev& a(const char* k, const V& v) {
        s += ",\"" + std::string(k) + "\":[";
        bool first = true;
        for (auto x : v) {
            if (!first)
                s += ",";
            first = false;
            s += std::to_string((long long) x);
        }
        s += "]";
        return *this;
    }
    Ev& b(const char* k, const Bytes& v) { // bytes as numbers 0..255
        s += ",\"" + std::string(k) + "\":[";
        for (size_t j = 0; j < v.size(); j++) {
            if (j)
                s += ",";
            s += std::to_string((int) (unsigned char) v[j]);
        }
        s += "]";
        return *this;
    }
    template <class V>
    Ev& bs(const char* k, const V& v) { // sequence of byte strings
        s += ",\"" + std::string(k) + "\":[";
        bool first = true;
        for (const Bytes& x : v) {
            if (!first)
                s += ",";
            first = false;
            s += "[";
            for (size_t j = 0; j < x.size(); j++) {
                if (j)
                    s += ",";
                s += std::to_string((int) (unsigned char) x[j]);
            }
            s += "]";
        }
        s += "]";
        return *this;
    }
    Ev& raw(const char* k, const std::string& json) {
        s += ",\"" + std::string(k) + "\":" + json;
        return *this;
    }
    void out() {
        s += "}\n";
        fwrite(s.data(), 1, s.size(), g_trace);
        fflush(g_trace);
    }
};

struct Cmd {
    std::vector<std::string> tok;
    const std::string& op() const {
        return tok[0];
    }
    size_t n() const {
        return tok.size() - 1;
    }
    long long i(size_t k) const {
        if (k + 1 >= tok.size())
            toolError("missing argument");
        return atoll(tok[k + 1].c_str());
    }
    Bytes b(size_t k) const {
        if (k + 1 >= tok.size() || tok[k + 1].empty() || tok[k + 1][0] != 'x')
            toolError("byte argument expected");
        const std::string& t = tok[k + 1];
        Bytes r;
        auto hv = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
        for (size_t j = 1; j + 1 < t.size(); j += 2)
            r.push_back((char) (hv(t[j]) * 16 + hv(t[j + 1])));
        return r;
    }
    const std::string& s(size_t k) const {
        if (k + 1 >= tok.size())
            toolError("missing argument");
        return tok[k + 1];
    }
};

inline ply::StringView sv(const Bytes& b) {
    return ply::StringView{b.data(), (ply::u32) b.size()};
}
inline Bytes bytes(ply::StringView v) {
    return Bytes(v.bytes ? v.bytes : "", v.bytes ? v.numBytes : 0);
}

static void (*g_afterOpen)() = nullptr; // called once the script and the trace are open

void runCommand(const Cmd& c);
void finishRun();

#ifndef HARNESS_NO_MAIN
int main(int argc, char* argv[]) {
    if (argc < 3)
        toolError("usage: harness script trace");
    FILE* f = fopen(argv[1], "r");
    g_trace = fopen(argv[2], "w");
    if (!f || !g_trace)
        toolError("cannot open files");
    if (g_afterOpen)
        g_afterOpen();
    char* line = nullptr;
    size_t cap = 0;
    ssize_t len;
    while ((len = getline(&line, &cap, f)) >= 0) {
        Cmd c;
        char* save = nullptr;
        for (char* t = strtok_r(line, " \n", &save); t; t = strtok_r(nullptr, " \n", &save))
            c.tok.push_back(t);
        if (c.tok.empty() || c.tok[0][0] == '#')
            continue;
        runCommand(c);
    }
    finishRun();
    fclose(g_trace);
    free(line);
    fclose(f);
    fflush(stdout);
    return 0;
}
#endif
