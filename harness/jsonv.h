// A strict RFC 8259 reader, independent of the library's JSON code and of json-c.
#ifndef JSONV_H
#define JSONV_H
#include "common.h"
struct JNode { enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL; string s; bool b = false; vector<JNode> a; vector<std::pair<string, JNode>> o;
    const JNode *get(const string &k) const { for (auto &p : o) if (p.first == k) return &p.second; return nullptr; } };
struct JParse {
    const string &s; size_t i = 0; string err;
    explicit JParse(const string &x) : s(x) {}
    void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) i++; }
    bool bad(const string &m) { if (err.empty()) err = fmt("%s at offset %zu", m.c_str(), i); return false; }
    bool str(string &out)
    {
        if (s[i] != '"') return bad("string expected");
        for (i++; i < s.size() && s[i] != '"'; i++) {
            unsigned char c = s[i];
            if (c < 0x20) return bad("raw control character in string");
            if (c == '\\') {
                i++; char e = i < s.size() ? s[i] : 0;
                switch (e) {
                case '"': case '\\': case '/': out += e; break;
                case 'b': out += '\b'; break; case 'f': out += '\f'; break; case 'n': out += '\n'; break; case 'r': out += '\r'; break; case 't': out += '\t'; break;
                case 'u': { unsigned v = 0; for (int k = 0; k < 4; k++) { i++; if (i >= s.size() || !isxdigit((unsigned char)s[i])) return bad("bad \\u escape"); v = v * 16 + (isdigit((unsigned char)s[i]) ? s[i] - '0' : (s[i] | 32) - 'a' + 10); }
                    if (v < 0x80) out += (char)v; else if (v < 0x800) { out += (char)(0xc0 | v >> 6); out += (char)(0x80 | (v & 63)); } else { out += (char)(0xe0 | v >> 12); out += (char)(0x80 | (v >> 6 & 63)); out += (char)(0x80 | (v & 63)); } break; }
                default: return bad("bad escape");
                }
            } else out += (char)c;
        }
        if (i >= s.size()) return bad("unterminated string");
        i++; return true;
    }
    bool value(JNode &n, int depth = 0)
    {
        ws(); if (i >= s.size()) return bad("value expected");
        if (depth > 64) return bad("too deep");
        char c = s[i];
        if (c == '{') {
            n.t = JNode::OBJ; i++; ws();
            if (i < s.size() && s[i] == '}') { i++; return true; }
            for (;;) {
                ws(); string k; if (i >= s.size() || !str(k)) return bad("member name expected");
                if (n.get(k)) return bad("duplicate member " + k);
                ws(); if (i >= s.size() || s[i] != ':') return bad("':' expected"); i++;
                JNode v; if (!value(v, depth + 1)) return false; n.o.push_back({k, v}); ws();
                if (i < s.size() && s[i] == ',') { i++; continue; }
                if (i < s.size() && s[i] == '}') { i++; return true; }
                return bad("',' or '}' expected");
            }
        }
        if (c == '[') {
            n.t = JNode::ARR; i++; ws();
            if (i < s.size() && s[i] == ']') { i++; return true; }
            for (;;) {
                JNode v; if (!value(v, depth + 1)) return false; n.a.push_back(v); ws();
                if (i < s.size() && s[i] == ',') { i++; continue; }
                if (i < s.size() && s[i] == ']') { i++; return true; }
                return bad("',' or ']' expected");
            }
        }
        if (c == '"') { n.t = JNode::STR; return str(n.s); }
        for (const char *w : {"true", "false", "null"}) if (!s.compare(i, strlen(w), w)) { n.t = *w == 'n' ? JNode::NUL : JNode::BOOL; n.b = *w == 't'; i += strlen(w); return true; }
        size_t b = i; if (s[i] == '-') i++;
        if (i >= s.size() || !isdigit((unsigned char)s[i])) return bad("value expected");
        if (s[i] == '0' && i + 1 < s.size() && isdigit((unsigned char)s[i + 1])) return bad("leading zero");
        while (i < s.size() && isdigit((unsigned char)s[i])) i++;
        if (i < s.size() && (s[i] == '.' || s[i] == 'e' || s[i] == 'E')) return bad("integer expected");
        n.t = JNode::NUM; n.s = s.substr(b, i - b); return true;
    }
};
inline string json_error(const string &t, JNode &n) { JParse p(t); if (p.value(n)) { p.ws(); if (p.i != t.size()) p.bad("trailing text"); } return p.err; }
#endif
