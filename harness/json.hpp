// A minimal JSON value, parser and writer for the harness.
#pragma once
#include <cstdint>
#include <map>
#include <stdexcept>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

struct J {
    enum Kind { null, boolean, integer, string, array, object } kind = null;
    long long i = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;

    J() = default;
    J(bool b) : kind(boolean), i(b) { }
    J(int v) : kind(integer), i(v) { }
    J(long v) : kind(integer), i(v) { }
    J(long long v) : kind(integer), i(v) { }
    J(unsigned long v) : kind(integer), i((long long)v) { }
    J(const char* v) : kind(string), s(v) { }
    J(std::string_view v) : kind(string), s(v) { }
    J(std::string v) : kind(string), s(std::move(v)) { }
    static J arr() { J r; r.kind = array; return r; }
    static J obj() { J r; r.kind = object; return r; }
    static J bytes(std::string_view t)
    {
        J r = arr();
        for (unsigned char c : t)
            r.a.push_back(J(int(c)));
        return r;
    }
    J& push(J v) { kind = array; a.push_back(std::move(v)); return *this; }
    J& set(std::string k, J v)
    {
        kind = object;
        o.emplace_back(std::move(k), std::move(v));
        return *this;
    }
    const J* find(std::string_view k) const
    {
        for (auto& [n, v] : o)
            if (n == k)
                return &v;
        return nullptr;
    }
    const J& at(std::string_view k) const
    {
        if (auto* p = find(k))
            return *p;
        throw std::runtime_error("missing key " + std::string(k));
    }
    bool truthy(std::string_view k) const { auto* p = find(k); return p && p->i != 0; }
    std::string text() const // a string, or an array of byte values
    {
        if (kind == string)
            return s;
        std::string r;
        for (auto& x : a)
            r += char(x.i);
        return r;
    }
    void write(std::string& out) const
    {
        switch (kind) {
        case null: out += "null"; break;
        case boolean: out += i ? "true" : "false"; break;
        case integer: out += std::to_string(i); break;
        case string: quote(out, s); break;
        case array: {
            out += '[';
            for (size_t k = 0; k < a.size(); ++k) {
                if (k) out += ',';
                a[k].write(out);
            }
            out += ']';
            break;
        }
        case object: {
            out += '{';
            for (size_t k = 0; k < o.size(); ++k) {
                if (k) out += ',';
                quote(out, o[k].first);
                out += ':';
                o[k].second.write(out);
            }
            out += '}';
            break;
        }
        }
    }
    std::string dump() const { std::string r; write(r); return r; }

    static void quote(std::string& out, std::string_view t)
    {
        out += '"';
        for (unsigned char c : t) {
            if (c == '"' || c == '\\') { out += '\\'; out += char(c); }
            else if (c < 0x20 || c >= 0x7f) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                out += b;
            }
            else out += char(c);
        }
        out += '"';
    }
};

struct JParser {
    std::string_view t;
    size_t p = 0;
    [[noreturn]] void fail() { throw std::runtime_error("bad JSON at " + std::to_string(p)); }
    void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r')) ++p; }
    J value()
    {
        ws();
        if (p >= t.size()) fail();
        char c = t[p];
        if (c == '{') {
            J r = J::obj();
            ++p; ws();
            if (p < t.size() && t[p] == '}') { ++p; return r; }
            for (;;) {
                ws();
                std::string k = str();
                ws();
                if (p >= t.size() || t[p] != ':') fail();
                ++p;
                r.o.emplace_back(std::move(k), value());
                ws();
                if (p < t.size() && t[p] == ',') { ++p; continue; }
                if (p < t.size() && t[p] == '}') { ++p; return r; }
                fail();
            }
        }
        if (c == '[') {
            J r = J::arr();
            ++p; ws();
            if (p < t.size() && t[p] == ']') { ++p; return r; }
            for (;;) {
                r.a.push_back(value());
                ws();
                if (p < t.size() && t[p] == ',') { ++p; continue; }
                if (p < t.size() && t[p] == ']') { ++p; return r; }
                fail();
            }
        }
        if (c == '"') return J(str());
        if (t.substr(p, 4) == "true") { p += 4; return J(true); }
        if (t.substr(p, 5) == "false") { p += 5; return J(false); }
        if (t.substr(p, 4) == "null") { p += 4; return J(); }
        size_t b = p;
        if (p < t.size() && t[p] == '-') ++p;
        while (p < t.size() && t[p] >= '0' && t[p] <= '9') ++p;
        if (b == p) fail();
        return J((long long)std::stoll(std::string(t.substr(b, p - b))));
    }
    std::string str()
    {
        if (p >= t.size() || t[p] != '"') fail();
        std::string r;
        for (++p; p < t.size() && t[p] != '"'; ++p) {
            if (t[p] != '\\') { r += t[p]; continue; }
            if (++p >= t.size()) fail();
            switch (t[p]) {
            case 'n': r += '\n'; break;
            case 't': r += '\t'; break;
            case 'r': r += '\r'; break;
            case 'b': r += '\b'; break;
            case 'f': r += '\f'; break;
            case 'u': { r += char(std::stoi(std::string(t.substr(p + 1, 4)), nullptr, 16)); p += 4; break; } // bytes only
            default: r += t[p];
            }
        }
        if (p >= t.size()) fail();
        ++p;
        return r;
    }
};
