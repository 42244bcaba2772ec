// Reference tokenizer for HTML, written from the documented behaviour of the
// parser: events with adjacent text merged.
#pragma once
#include "html_parser.hpp"
#include <string>
#include <vector>
#include <cstring>
#include <cstdlib>
namespace hm {
struct Ev {
    char k;                 // O open, A attribute, E end of tag, C close, T text
    std::string tag, a, v, sep; bool has = false; int close = 0;
    bool operator==(const Ev &o) const {
        return k == o.k && tag == o.tag && a == o.a && v == o.v && has == o.has &&
            (!has || sep == o.sep) && close == o.close;
    }
    std::string show() const {
        std::string r(1, k);
        if (k == 'A') return r + "(" + tag + " " + a + (has ? "=" + sep + v + sep : "") + ")";
        if (k == 'E') return r + "(" + tag + (close ? "/" : "") + ")";
        return r + "(" + tag + ")";
    }
};
typedef std::vector<Ev> Evs;
inline std::string show(const Evs &e) { std::string r; for (auto &x : e) r += x.show(); return r; }
inline void add_text(Evs &e, const std::string &s) {
    if (s.empty()) return;
    if (!e.empty() && e.back().k == 'T') { e.back().tag += s; return; }
    Ev t; t.k = 'T'; t.tag = s; e.push_back(t);
}
inline std::string serialize(const Evs &e) {
    std::string o;
    for (auto &x : e) switch (x.k) {
        case 'O': o += "<" + x.tag; break;
        case 'C': o += "</" + x.tag; break;
        case 'A': o += " " + x.a; if (x.has) o += "=" + x.sep + x.v + x.sep; break;
        case 'E': o += x.close ? "/>" : ">"; break;
        case 'T': o += x.tag; break;
        }
    return o;
}
struct Collect : metaproxy_1::HTMLParserEvent {
    Evs e;
    void openTagStart(const char *t, int l) { Ev x; x.k = 'O'; x.tag.assign(t, l); e.push_back(x); }
    void closeTag(const char *t, int l) { Ev x; x.k = 'C'; x.tag.assign(t, l); e.push_back(x); }
    void anyTagEnd(const char *t, int l, int c) { Ev x; x.k = 'E'; x.tag.assign(t, l); x.close = c ? 1 : 0; e.push_back(x); }
    void attribute(const char *t, int l, const char *a, int al, const char *v, int vl, const char *sep) {
        Ev x; x.k = 'A'; x.tag.assign(t, l); x.a.assign(a, al);
        if (v) { x.has = true; x.v.assign(v, vl); x.sep = sep; }
        e.push_back(x);
    }
    void text(const char *v, int l) { add_text(e, std::string(v, l)); }
};
// parse with a buffer of exactly the document's size, so that reads past it are seen
inline Evs real(const std::string &doc) {
    char *b = (char *) malloc(doc.size() + 1);
    memcpy(b, doc.c_str(), doc.size() + 1);
    Collect c;
    { metaproxy_1::HTMLParser p; p.parse(c, b); }
    free(b);
    return c.e;
}
// the same parser object used for one document after another
inline std::vector<Evs> real_reused(const std::vector<std::string> &docs) {
    std::vector<Evs> r; metaproxy_1::HTMLParser p;
    for (auto &doc : docs) {
        char *b = (char *) malloc(doc.size() + 1);
        memcpy(b, doc.c_str(), doc.size() + 1);
        Collect c; p.parse(c, b); free(b); r.push_back(c.e);
    }
    return r;
}
inline bool ws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\f'; }
inline bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
struct Model {
    std::string d; size_t p = 0; Evs e; bool script = false;
    char at(size_t i) const { return i < d.size() ? d[i] : 0; }
    size_t name_end(size_t i) const { while (i < d.size() && !ws(d[i]) && !strchr("/><=", d[i])) i++; return i; }
    size_t space_end(size_t i) const { while (i < d.size() && ws(d[i])) i++; return i; }
    void ev(char k, const std::string &t, int close = 0) { Ev x; x.k = k; x.tag = t; x.close = close; e.push_back(x); }
    void finish(const std::string &t) {      // junk, then "/>" or ">"
        size_t s = p;
        while (p < d.size() && !strchr("/><", d[p])) p++;
        add_text(e, d.substr(s, p - s));
        if (at(p) == '/' && at(p + 1) == '>') { ev('E', t, 1); p += 2; }
        else if (at(p) == '>') { ev('E', t, 0); p++; }
    }
    static bool is_script(std::string t) { for (auto &c : t) c = tolower((unsigned char) c); return t == "script"; }
    Evs run(const std::string &doc) {
        d = doc;
        while (p < d.size()) {
            size_t lt = d.find('<', p);
            if (lt == std::string::npos) { add_text(e, d.substr(p)); p = d.size(); break; }
            add_text(e, d.substr(p, lt - p));
            char c = at(lt + 1);
            if (script) {
                bool done = false;
                if (c == '/' && alpha(at(lt + 2))) {
                    size_t ne = name_end(lt + 2);
                    std::string t = d.substr(lt + 2, ne - lt - 2);
                    if (is_script(t) && at(space_end(ne)) == '>') {
                        script = false; ev('C', t); p = ne; finish(t); done = true;
                    }
                }
                if (!done) { add_text(e, "<"); p = lt + 1; }
                continue;
            }
            if (c == '!' || c == '?') {
                size_t end;
                if (d.compare(lt + 1, 3, "!--") == 0) {
                    end = d.find("-->", lt + 4);
                    if (end == std::string::npos) end = d.size(); else end += 2;
                } else { end = d.find('>', lt + 2); if (end == std::string::npos) end = d.size(); }
                std::string t = d.substr(lt + 1, end - lt - 1);
                ev('O', t); p = end; finish(t);
            } else if (c == '/' && alpha(at(lt + 2))) {
                size_t ne = name_end(lt + 2);
                std::string t = d.substr(lt + 2, ne - lt - 2);
                ev('C', t); p = ne; finish(t);
            } else if (alpha(c)) {
                size_t ne = name_end(lt + 1);
                std::string t = d.substr(lt + 1, ne - lt - 1);
                ev('O', t); p = space_end(ne);
                while (p < d.size() && !strchr("/><=", d[p])) {
                    Ev x; x.k = 'A'; x.tag = t;
                    size_t a1 = name_end(p); x.a = d.substr(p, a1 - p); p = space_end(a1);
                    if (at(p) == '=') {
                        x.has = true; p = space_end(p + 1);
                        if (at(p) == '"' || at(p) == '\'') {
                            char qc = d[p]; x.sep = std::string(1, qc);
                            size_t q1 = d.find(qc, p + 1); bool open = q1 == std::string::npos;
                            if (open) q1 = d.size();
                            x.v = d.substr(p + 1, q1 - p - 1); p = open ? q1 : q1 + 1;
                        } else {
                            size_t v1 = p; while (v1 < d.size() && !ws(d[v1]) && d[v1] != '>') v1++;
                            x.v = d.substr(p, v1 - p); p = v1;
                        }
                        p = space_end(p);
                    }
                    e.push_back(x);
                }
                finish(t);
                if (is_script(t)) script = true;
            } else { add_text(e, "<"); p = lt + 1; }
        }
        return e;
    }
};
inline Evs model(const std::string &doc) { Model m; return m.run(doc); }
inline bool ends_in_script(const std::string &doc) { Model m; m.run(doc); return m.script; }
}
