// Generators of HTML documents
#pragma once
#include "pbt.hpp"
#include "html_model.hpp"
namespace hg {
using pbt::Ctx;
inline std::string soup(Ctx &x)
{
    std::string d; int n = x.len(60);
    for (int i = 0; i < n; i++)
        switch (x.weighted({6, 4, 4, 3, 2, 2, 2, 2, 2, 2})) {
        case 0: d += x.pick({"<", ">", "/", "=", "\"", "'", " ", "\n", "\t", "\f", "\r"}); break;
        case 1: d += x.pick({"<a", "<b ", "</a", "</b>", "<br/>", "<img ", "<A", "</A >", "<td>", "<x-y:z", "<h1 "}); break;
        case 2: d += x.pick({" href=", " src='u'", " t=\"v w\"", " c=d", " e", "/>", " = ", " x = \"y\"", " a=b/", " z=''"}); break;
        case 3: d += x.str1("abcxyz0189;&#. -_", 8); break;
        case 4: d += x.pick({"<!--", "-->", "--", "->", "<!-->", "<!--->", "<!-- x -->"}); break;
        case 5: d += x.pick({"<!DOCTYPE html>", "<!", "<!x", "<!-", "<?", "<?xml v=\"1\"?>", "?>", "<!ENTITY % a SYSTEM \"b\">"}); break;
        case 6: d += x.pick({"<script>", "<SCRIPT ", "</script>", "</Script >", "</script", "</script\n>", "<scripts>", "</scripts>", "</script;>", "<script/>"}); break;
        case 7: d += x.pick({"</", "</1>", "<1", "< ", "<<", "</>", "/ >", "//", "<=", "><"}); break;
        case 8: d += (char) x.range(128, 255); break;
        case 9: d += x.str1("<>/='\"! -?as", 10); break;
        }
    if (x.chance(1, 30) && !d.empty()) {        // one long run somewhere
        std::string piece = x.chance(1, 2) ? std::string(1, "a b=\"'-/<!"[x.range(0, 9)])
            : x.pick({" a=b", "<b>", " c='d e'", "</i>", "<!-- - -->", "-- ", " x", "&amp;"});
        int k = x.range(1, 2) == 1 ? x.range(1, 300) : x.range(300, 5000) / (int) piece.size();
        std::string r; for (int i = 0; i < k; i++) r += piece;
        d.insert(x.range(0, (int) d.size()), r);
    }
    return d;
}
struct Opt { bool canonical = false; };
inline std::string name(Ctx &x)
{
    std::string r(1, "abhipstxABHS"[x.range(0, 11)]);
    r += x.str("abcr1XYZ-:_.!?", 5);
    if (x.chance(1, 60)) r += std::string(x.range(1, 400), 'n');
    return r;
}
inline std::string space(Ctx &x, bool canonical, const char *canon)
{
    if (canonical) return canon;
    std::string r = canon;
    if (x.chance(1, 4)) r += x.str(" \t\r\n\f", 3);
    return r;
}
// a document made of known pieces; want gets the events of its pieces
inline void document(Ctx &x, const Opt &o, std::string &d, hm::Evs &want)
{
    int n = 1 + x.len(14);
    bool can = o.canonical;
    for (int i = 0; i < n; i++) {
        hm::Ev v;
        switch (x.weighted({8, 4, 5, 2, 1, 1, 2})) {
        case 0: {   // open tag with attributes
            std::string t = name(x);
            if (hm::Model::is_script(t)) t = "p";
            d += "<" + t; v.k = 'O'; v.tag = t; want.push_back(v);
            int na = x.len(5); bool unq_last = false;
            for (int k = 0; k < na; k++) {
                hm::Ev a; a.k = 'A'; a.tag = t;
                a.a = x.str1("abhrefsc-XY1:@?!\"'", 6);
                d += space(x, can, " ") + a.a; unq_last = false;
                if (x.chance(3, 4)) {
                    a.has = true;
                    if (!can && x.chance(1, 5)) d += x.str(" \t\n", 2);
                    d += "=";
                    if (!can && x.chance(1, 5)) d += x.str(" \t\n", 2);
                    switch (x.range(0, 2)) {
                    case 0: a.sep = "\""; a.v = std::string(x.chance(1, 40) ? x.range(1, 3000) : 0, 'v') + x.str("abc /='<>&;.:?%\t\n_", 12); d += "\"" + a.v + "\""; break;
                    case 1: a.sep = "'"; a.v = x.str("abc /=\"<>&;.:?%\n_", 12); d += "'" + a.v + "'"; break;
                    case 2: a.sep = ""; a.v = std::string(1, x.pick({'a', 'b', '/', '#', '1'})) + x.str("abc/=&;.:?%<\"'_", 10); d += a.v; unq_last = true; break;
                    }
                }
                want.push_back(a);
            }
            hm::Ev e; e.k = 'E'; e.tag = t; e.close = x.chance(1, 4);
            if (unq_last && e.close) { if (can) e.close = 0; else d += " "; }
            else if (!can && x.chance(1, 5)) d += x.str(" \t\n", 2);
            d += e.close ? "/>" : ">"; want.push_back(e);
            break; }
        case 1: {
            std::string t = name(x);
            d += "</" + t; v.k = 'C'; v.tag = t; want.push_back(v);
            hm::Ev e; e.k = 'E'; e.tag = t; e.close = 0;
            if (x.chance(1, 6)) { std::string s = x.str1(" \t\n", 3); hm::add_text(want, s); d += s; }
            d += ">"; want.push_back(e); break; }
        case 2: {
            std::string s = x.str1("abcd >/='\"&;!?-\n\t.", 14);
            if (x.chance(1, 50)) s += std::string(x.range(1, 5000), 't');
            if (x.chance(1, 6)) s += x.pick({"< ", "<1", "</ ", "</3>", "<=", "<\n"});
            if (x.chance(1, 8)) s += (char) x.range(128, 255);
            d += s; hm::add_text(want, s); break; }
        case 3: {
            std::string s = "!--" + x.str("ab <>/!='\"\n", 10);
            d += "<" + s + "-->"; v.k = 'O'; v.tag = s + "--"; want.push_back(v);
            hm::Ev e; e.k = 'E'; e.tag = v.tag; want.push_back(e); break; }
        case 4: {
            std::string s = "!" + x.pick({"DOCTYPE", "doctype", "ENTITY", "x"}) + x.str("ab </='\"\n", 10);
            d += "<" + s + ">"; v.k = 'O'; v.tag = s; want.push_back(v);
            hm::Ev e; e.k = 'E'; e.tag = s; want.push_back(e); break; }
        case 5: {
            std::string s = "?" + x.str("xml ab </='\"?\n", 10);
            d += "<" + s + ">"; v.k = 'O'; v.tag = s; want.push_back(v);
            hm::Ev e; e.k = 'E'; e.tag = s; want.push_back(e); break; }
        case 6: {
            std::string t = x.pick({"script", "SCRIPT", "Script"});
            d += "<" + t + ">"; v.k = 'O'; v.tag = t; want.push_back(v);
            hm::Ev e; e.k = 'E'; e.tag = t; want.push_back(e);
            std::string s; int m = x.len(6);
            for (int k = 0; k < m; k++) s += x.pick({"a<b;", "<a href='x'>", "</y>", "<!-- c -->", "</scripty>", "</script x>", "</scrip>", "\"</b>\"", "<", "if (i<n) ", "</script/>", "<script>", "<?", "</1>"});
            if (!s.empty() && s.back() == '<') s += " ";
            hm::add_text(want, s); d += s;
            t = x.pick({"script", "SCRIPT", "sCript"});
            d += "</" + t; hm::Ev cl; cl.k = 'C'; cl.tag = t; want.push_back(cl);
            if (x.chance(1, 5)) { std::string w = x.str1(" \n\t", 2); hm::add_text(want, w); d += w; }
            d += ">"; hm::Ev ce; ce.k = 'E'; ce.tag = t; want.push_back(ce); break; }
        }
    }
}
}
