// SOURCES: xmlutil
// Configuration values: what the file says is what the program reads.
#include "pbt.hpp"
#include <metaproxy/xmlutil.hpp>
#include <libxml/parser.h>
#include <memory>
using namespace pbt;
namespace mp = metaproxy_1;
namespace mp_xml = metaproxy_1::xml;
static const char *NS = "http://indexdata.com/metaproxy";

struct Attr { std::string name, ns, value; };
struct N {
    char k = 'e';                 // e element, t text, c comment, p processing instruction
    std::string name, ns, text;
    std::vector<Attr> at;
    std::vector<std::shared_ptr<N> > ch;
};
typedef std::shared_ptr<N> P;
static std::string esc(const std::string &s)
{
    std::string r;
    for (char c : s) switch (c) {
        case '<': r += "&lt;"; break; case '>': r += "&gt;"; break; case '&': r += "&amp;"; break;
        case '"': r += "&quot;"; break; case '\t': r += "&#9;"; break; case '\n': r += "&#10;"; break; default: r += c; }
    return r;
}
static const std::vector<std::string> nss = {NS, "", "http://indexdata.com/metaproxy2", "http://indexdata.com/", "urn:x"};
static const std::vector<std::string> prefixes = {"mp", "", "m2", "m3", "ux"};
static const std::vector<std::string> elems = {"filter", "filters", "route", "routes", "metaproxy", "start", "filte", "Filter", "x"};
static const std::vector<std::string> atts = {"id", "type", "route", "auth", "refid", "typ", "Type", "value", "idx"};
static std::string value(Ctx &x)
{
    switch (x.weighted({4, 4, 3, 1})) {
    case 0: return x.pick({"true", "false", "1", "0", "TRUE", "True", "yes", "on", "2", "true ", " true", "10", "01", "t"});
    case 1: { std::string r = x.pick({"", "", "", " ", "+", "-", "--", "x", "\n"});
              r += std::to_string(x.pick({0, 1, 7, 10, 42, 255, 256, 1000, 65535, 65536, 1000000, 2147483647}));
              r += x.pick({"", "", "", " ", "k", ".5", "e3"}); return r; }
    case 2: return x.str("ab <>&\"'/:.-=\n\t1", 16);
    default: return std::string(x.range(1, 3000), 'z');
    }
}
static P tree(Ctx &x, int depth)
{
    P n(new N);
    n->name = x.pick(elems);
    int w = x.weighted({6, 1, 1, 1, 1}); n->ns = nss[w];
    int na = x.len(4); std::set<std::string> used;
    for (int i = 0; i < na; i++) {
        Attr a; a.name = x.pick(atts); a.ns = x.chance(1, 8) ? nss[x.range(2, 4)] : "";
        if (!used.insert(a.name + "|" + a.ns).second) continue;
        a.value = x.chance(1, 6) ? "" : value(x); n->at.push_back(a);
    }
    int nc = x.len(depth > 0 ? 6 : 3); char prev = 0;
    for (int i = 0; i < nc; i++) {
        int k = x.weighted({4, depth > 0 ? 5 : 0, 2, 1});
        P c;
        if (k == 1) c = tree(x, depth - 1);
        else if (k == 0) { if (prev == 't') continue; c.reset(new N); c->k = 't'; c->text = x.chance(1, 3) ? std::string("\n  ") : value(x); if (c->text.empty()) continue; }
        else { c.reset(new N); c->k = k == 2 ? 'c' : 'p'; c->text = x.str("abtrue 1", 5); if (k == 3) c->text = "p" + c->text.substr(0, 1); }
        prev = c->k; n->ch.push_back(c);
    }
    return n;
}
static void xml(const P &n, std::string &o)
{
    if (n->k == 't') { o += esc(n->text); return; }
    if (n->k == 'c') { o += "<!--" + n->text + "-->"; return; }
    if (n->k == 'p') { std::string t; for (char c : n->text) if (c != ' ') t += c; o += "<?" + t + "?>"; return; }
    auto qn = [](const std::string &ns, const std::string &name) {
        for (size_t i = 0; i < nss.size(); i++) if (nss[i] == ns) return prefixes[i].empty() ? name : prefixes[i] + ":" + name;
        return name; };
    o += "<" + qn(n->ns, n->name);
    o += " xmlns:mp=\"" + nss[0] + "\" xmlns:m2=\"" + nss[2] + "\" xmlns:m3=\"" + nss[3] + "\" xmlns:ux=\"" + nss[4] + "\"";
    for (auto &a : n->at) o += " " + qn(a.ns, a.name) + "=\"" + esc(a.value) + "\"";
    if (n->ch.empty()) { o += "/>"; return; }
    o += ">";
    for (auto &c : n->ch) xml(c, o);
    o += "</" + qn(n->ns, n->name) + ">";
}
template<class F> static bool throws(F f, std::string *msg = 0)
{
    try { f(); return false; } catch (mp::XMLError &e) { if (msg) *msg = e.what(); return true; }
}
static int type_of(char k) { return k == 'e' ? XML_ELEMENT_NODE : k == 't' ? XML_TEXT_NODE : k == 'c' ? XML_COMMENT_NODE : XML_PI_NODE; }

struct Walk {
    Ctx &x; int values = 0;
    void node(const P &n, const xmlNode *d)
    {
        x.eq((int) d->type, type_of(n->k), "generator: node type");
        if (n->k == 't') {
            x.eq(q(mp_xml::get_text(d)), q(n->text), "text of a text node");   // checked for a lone text node below
            return;
        }
        if (n->k != 'e') return;
        // text, bool and int values
        std::string all, first; bool first_is_text = !n->ch.empty() && n->ch[0]->k == 't';
        for (auto &c : n->ch) if (c->k == 't') all += c->text;
        if (first_is_text) first = n->ch[0]->text;
        x.eq(q(mp_xml::get_text(d)), q(all), "text of element " + n->name);
        bool want = first == "true" || first == "1";
        x.eq(mp_xml::get_bool(d, true), first_is_text ? want : true, "boolean " + q(first) + " default true");
        x.eq(mp_xml::get_bool(d, false), first_is_text ? want : false, "boolean " + q(first) + " default false");
        values += first_is_text;
        int dv = x.range(0, 5);
        x.eq(mp_xml::get_int(d, dv), first_is_text ? number(first) : dv, "number " + q(first));
        x.eq(mp_xml::get_int(0, 17), 17, "number of nothing");
        x.eq(mp_xml::get_bool(0, true), true, "boolean of nothing");
        x.eq(mp_xml::get_text((const xmlNode *) 0), std::string(), "text of nothing");
        // identity of elements
        for (auto &en : elems) {
            bool same = en == n->name;
            x.eq(mp_xml::is_element_mp(d, en), same && n->ns == NS, "is_element_mp " + en + " on " + n->ns + " " + n->name);
            x.eq(throws([&] { mp_xml::check_element_mp(d, en); }), !(same && n->ns == NS), "check_element_mp " + en + " on " + n->ns + " " + n->name);
            for (auto &s : nss)
                x.eq(mp_xml::is_element(d, s, en), same && n->ns == s && !s.empty(), "is_element " + s + " " + en);
        }
        x.check(throws([&] { mp_xml::check_element_mp(0, "filter"); }), "missing element must be refused");
        // attributes
        const xmlAttr *a = d->properties; size_t i = 0;
        for (; a; a = a->next, i++) {
            const Attr &m = n->at[i];
            x.eq(q(mp_xml::get_text(a)), q(m.value), "attribute " + m.name);
            for (auto &an : atts) {
                x.eq(mp_xml::is_attribute(a, "", an), an == m.name, "is_attribute " + an);
                x.eq(throws([&] { mp_xml::check_attribute(a, "", an); }), an != m.name, "check_attribute " + an);
                for (size_t s = 2; s < nss.size(); s++) {
                    x.eq(mp_xml::is_attribute(a, nss[s], an), an == m.name && m.ns == nss[s], "is_attribute " + nss[s] + " " + an);
                    x.eq(throws([&] { mp_xml::check_attribute(a, nss[s], an); }), !(an == m.name && m.ns == nss[s]), "check_attribute ns " + an);
                }
            }
        }
        x.eq(i, n->at.size(), "generator: attributes");
        // attribute sets: everything known is returned, anything unknown is refused by name
        {
            const char *nm[12]; std::string v[12]; int k = 0; std::set<std::string> known;
            for (auto &an : atts) if (x.chance(3, 4)) { nm[k++] = an.c_str(); known.insert(an); }
            nm[k] = 0;
            for (int j = 0; j < k; j++) v[j] = "stale";
            std::string bad, msg; std::map<std::string, std::string> want_v;
            for (auto &m : n->at) { if (!known.count(m.name)) { bad = m.name; break; } want_v[m.name] = m.value; }
            bool t = throws([&] { mp_xml::parse_attr(d, nm, v); }, &msg);
            x.eq(t, !bad.empty(), "parse_attr refuses unknown attribute " + bad);
            if (t) x.check(msg.find("'" + bad + "'") != std::string::npos && msg.find("'" + n->name + "'") != std::string::npos,
                           "message must name attribute and element: " + msg);
            else for (int j = 0; j < k; j++) x.eq(q(v[j]), q(want_v[nm[j]]), std::string("parse_attr ") + nm[j]);
            std::string w[2] = {"s", "s"}; const char *two[3] = {"route", "auth", 0};
            mp_xml::parse_attr(0, two, w);
            x.eq(w[0] + w[1], std::string(), "parse_attr of nothing clears values");
        }
        {
            bool extra1 = false, extra2 = false; std::string r, au;
            for (auto &m : n->at) { if (m.name != "route") extra1 = true; else r = m.value;
                                    if (m.name != "route" && m.name != "auth") extra2 = true; if (m.name == "auth") au = m.value; }
            std::string got, gau = "stale";
            bool t = throws([&] { got = mp_xml::get_route(d); });
            x.eq(t, extra1, "get_route refuses other attributes");
            if (!t) x.eq(q(got), q(r), "route");
            t = throws([&] { got = mp_xml::get_route(d, gau); });
            x.eq(t, extra2, "get_route/auth refuses other attributes");
            if (!t) { x.eq(q(got), q(r), "route"); x.eq(q(gau), q(au), "auth"); }
        }
        // empty filters
        bool has_el = false; for (auto &c : n->ch) has_el |= c->k == 'e';
        std::string msg;
        x.eq(throws([&] { mp_xml::check_empty(d); }, &msg), has_el, "child elements refused in " + n->name);
        if (has_el) x.check(msg.find(n->name) != std::string::npos, "message names the element: " + msg);
        x.check(!throws([&] { mp_xml::check_empty(0); }), "nothing is empty");
        // navigation
        for (char k : {'e', 't', 'c', 'p'}) {
            int ty = type_of(k);
            std::vector<const xmlNode *> seq, nav;
            for (const xmlNode *c = d->children; c; c = c->next) if ((int) c->type == ty) seq.push_back(c);
            for (const xmlNode *c = mp_xml::jump_to_children(d, ty); c; c = mp_xml::jump_to_next(c, ty)) { nav.push_back(c); if (nav.size() > seq.size() + 2) break; }
            x.check(seq == nav, std::string("children of type ") + k + " visited once each in document order");
            const xmlNode *first_of = seq.empty() ? 0 : seq[0];
            x.check(mp_xml::jump_to(d->children, ty) == first_of, "jump_to finds the first");
            for (const xmlNode *c = d->children; c; c = c->next) {
                const xmlNode *e = c; while (e && (int) e->type != ty) e = e->next;
                x.check(mp_xml::jump_to(c, ty) == e, "jump_to starts at the node itself");
            }
        }
        const xmlNode *c = d->children; size_t k = 0;
        for (; c; c = c->next, k++) {
            x.check(k < n->ch.size(), "generator: children");
            const P &m = n->ch[k];
            if (m->k == 't') {       // a text node stands for itself and the text after it
                std::string rest; for (size_t j = k; j < n->ch.size(); j++) if (n->ch[j]->k == 't') rest += n->ch[j]->text;
                x.eq(q(mp_xml::get_text(c)), q(rest), "text from a text node on");
                x.eq(mp_xml::get_bool(c, false), m->text == "true" || m->text == "1", "boolean of text node");
                x.eq(mp_xml::get_int(c, 3), number(m->text), "number of text node");
            } else node(m, c);
        }
    }
    static int number(const std::string &s)
    {
        size_t i = 0; while (i < s.size() && isspace((unsigned char) s[i])) i++;
        bool neg = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
        long r = 0; while (i < s.size() && isdigit((unsigned char) s[i])) { r = r * 10 + (s[i++] - '0'); }
        return (int) (neg ? -r : r);
    }
};

int main(int argc, char **argv)
{
    Check c; c.id = "C04";
    c.add("tree", 24000, 1000000, "the document has an element with a value and an attribute",
        [](Ctx &x) {
            P t = tree(x, 3);
            std::string s; xml(t, s);
            std::string shown = s; 
            for (const char *cut : {" xmlns:mp=\"http://indexdata.com/metaproxy\" xmlns:m2=\"http://indexdata.com/metaproxy2\" xmlns:m3=\"http://indexdata.com/\" xmlns:ux=\"urn:x\""})
                for (size_t p; (p = shown.find(cut)) != std::string::npos; ) shown.erase(p, strlen(cut));
            x.desc << shown;
            xmlDoc *d = xmlParseMemory(s.data(), s.size());
            if (!d) x.fail("generator: bad XML");
            Walk w{x};
            try { w.node(t, xmlDocGetRootElement(d)); } catch (...) { xmlFreeDoc(d); throw; }
            xmlFreeDoc(d);
            x.nontrivial = w.values > 0 && !t->at.empty();
        });
    return run(c, argc, argv);
}
