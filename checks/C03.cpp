// SOURCES: url_recipe xmlutil
// URL recipes: expansion of ${field[pattern/result/flags]} against a record.
#include "pbt.hpp"
#include <metaproxy/xmlutil.hpp>
#include <libxml/parser.h>
#include <regex>
using namespace pbt;
namespace mp_xml = metaproxy_1::xml;

static std::string xesc(const std::string &s)
{
    std::string r;
    for (char c : s) switch (c) {
        case '<': r += "&lt;"; break; case '>': r += "&gt;"; break;
        case '&': r += "&amp;"; break; case '"': r += "&quot;"; break; default: r += c; }
    return r;
}
static std::string uri(const std::string &s)
{
    std::string r; char b[8];
    for (unsigned char c : s)
        if (isalnum(c) || strchr("-_.~", c)) r += (char) c;
        else { snprintf(b, sizeof b, "%%%02X", c); r += b; }
    return r;
}
// names chosen so that prefixes, and the letters m, d and -, matter
static const std::vector<std::string> names = {"title", "date", "id", "author", "m", "d", "md", "medium", "description",
    "md-x", "md-title", "-x", "mid", "x", "author-title", "tle", "e", "ium", "Title", "dm-a", "a"};
struct Rec { std::string xml; std::map<std::string, std::string> field; };
static const char *TEXT = "abc ABC12 3/&<>+%-_.~'()\t";
static Rec record(Ctx &x)
{
    Rec r;
    bool pz = x.coin();
    std::string P = pz ? "pz:" : "";
    r.xml = x.chance(1, 4) ? "<?xml version=\"1.0\"?>\n<!-- c -->" : "";
    r.xml += "<" + P + "record" + (pz ? " xmlns:pz=\"http://www.indexdata.com/pazpar2/1.0\"" : "") + ">";
    int n = x.len(10);
    for (int i = 0; i < n; i++) {
        if (x.chance(1, 4)) r.xml += x.pick({"\n", " ", "<!-- metadata -->", "text"});
        std::string nm = x.pick(names), v;
        int parts = x.range(0, 2);
        std::string body;
        for (int k = 0; k < parts; k++) {
            std::string s = x.str(TEXT, 12);
            if (x.chance(1, 10)) s += "\xc3\xa6\xe2\x82\xac";
            if (x.chance(1, 40)) s += std::string(x.range(1, 2000), 'L');
            v += s; body += xesc(s);
            if (k + 1 < parts) body += x.pick({"<b>inner</b>", "<!-- c -->", "<metadata type=\"id\">deep</metadata>"});
        }
        switch (x.weighted({10, 1, 1, 1})) {
        case 0:
            r.xml += "<" + P + "metadata" + (x.chance(1, 5) ? " rank=\"2\"" : "") + " type=\"" + nm + "\"" +
                (x.chance(1, 5) ? " x=\"title\"" : "") + (body.empty() && x.coin() ? "/>" : ">" + body + "</" + P + "metadata>");
            r.field[nm] = v; break;
        case 1: r.xml += "<" + P + "other type=\"" + nm + "\">" + body + "</" + P + "other>"; break;
        case 2: r.xml += "<" + P + "metadata>" + body + "</" + P + "metadata>"; break;
        case 3: r.xml += "<" + P + "metadata kind=\"" + nm + "\">" + body + "</" + P + "metadata>"; break;
        }
    }
    r.xml += "</" + P + "record>";
    return r;
}
struct Doc {
    xmlDoc *d;
    Doc(const std::string &s) { d = xmlParseMemory(s.data(), s.size()); if (!d) throw Fail("generator: bad XML " + s); }
    ~Doc() { xmlFreeDoc(d); }
};
// pattern: .re goes to the recipe, .ex to std::regex.  Never matches empty.
static std::string pattern(Ctx &x, int &groups)
{
    std::string r; groups = 0;
    int n = 1 + x.len(4); bool solid = false;
    if (x.chance(1, 8)) r += "^";
    for (int i = 0; i < n; i++) {
        std::string a;
        switch (x.weighted({6, 2, 2, 1})) {
        case 0: a = x.pick({"a", "b", "c", "1", "2", "A", " ", "L", "\\/", "\\.", "\\+"}); break;
        case 1: a = x.pick({".", "\\s", "\\d", "\\w"}); break;
        case 2: a = "(" + x.pick({"a", "b|c", "1+", "ab", "\\s", "."}) + ")"; groups++; break;
        case 3: a = x.pick({"-", "_", "%", "&", "<"}); break;
        }
        int qn = x.weighted({6, 2, 1, 1});
        if ((qn == 2 || qn == 3) && i == n - 1 && !solid) qn = 0;
        if (qn == 0 || qn == 1) solid = true;
        r += a + (qn == 1 ? "+" : qn == 2 ? "*" : qn == 3 ? "?" : "");
    }
    if (!solid) r += "a";
    return r;
}
static std::string expand(const std::string &text, const std::string &pat, const std::string &rep, bool icase, bool global)
{
    // own replacement loop over std::regex matches; $N, $& in rep, \x = x
    std::regex e(pat, icase ? std::regex::ECMAScript | std::regex::icase : std::regex::ECMAScript);
    std::string out; size_t last = 0;
    std::sregex_iterator it(text.begin(), text.end(), e), end;
    for (; it != end; ++it) {
        out += text.substr(last, it->position() - last);
        for (size_t i = 0; i < rep.size(); i++)
            if (rep[i] == '$' && i + 1 < rep.size() && rep[i + 1] == '&') { out += it->str(); i++; }
            else if (rep[i] == '$' && i + 1 < rep.size() && isdigit(rep[i + 1])) { out += (*it)[rep[i + 1] - '0'].str(); i++; }
            else if (rep[i] == '\\' && i + 1 < rep.size()) { out += rep[++i]; }
            else out += rep[i];
        last = it->position() + it->length();
        if (!global) break;
    }
    return out + text.substr(last);
}
struct Piece { std::string recipe, value; };
static std::string lookup(const Rec &r, std::string n)
{
    if (n.compare(0, 3, "md-") == 0) n = n.substr(3);
    auto i = r.field.find(n);
    return i == r.field.end() ? "" : i->second;
}
static Piece piece(Ctx &x, const Rec &r, bool &subst)
{
    Piece p;
    int k = x.weighted({5, 6, 6});
    if (k == 0) {
        p.recipe = x.pick({"http://x/?q=", "abc", "}", "{", "]", "[", "/", "&t=", "$", "%", "%20", "$x", "$ {", "\\", "$$", "%%", " "});
        p.value = p.recipe; return p;
    }
    bool enc = x.coin();
    std::string f;
    if (r.field.size() && x.chance(3, 4)) { auto it = r.field.begin(); std::advance(it, x.range(0, r.field.size() - 1)); f = it->first; }
    else f = x.pick(names);
    if (x.chance(1, 3)) f = "md-" + f;
    std::string v = lookup(r, f);
    if (!v.empty()) subst = true;
    p.recipe = std::string(enc ? "%{" : "${") + f;
    if (k == 2 && v.size() < 100) {      // the regex engine may refuse long subjects as too complex
        int groups = 0; std::string pat = x.chance(1, 12) ? "" : pattern(x, groups), rep, mode; bool g = false, ic = false;     // no pattern: no substitution
        int form = x.weighted({6, 1, 1});       // a/b/c, a, a/b
        p.recipe += "[" + pat;
        if (form != 1) {
            int n = x.len(4);
            for (int i = 0; i < n; i++) switch (x.range(0, 3)) {
                case 0: rep += x.pick({"x", "+", "-", "Y Z", "%", "_", "\\/", "\\]", "\\}"}); break;
                case 1: rep += "$" + std::to_string(x.range(0, groups)); if (x.coin()) rep += "."; else rep += "v"; break;
                case 2: rep += "$&"; break;
                case 3: rep += "q"; break; }
            p.recipe += "/" + rep;
            if (form == 0) {
                g = x.coin(); ic = x.chance(1, 3);
                mode = x.coin() ? std::string(g ? "g" : "") + (ic ? "i" : "") : std::string(ic ? "i" : "") + (g ? "g" : "");
                p.recipe += "/" + mode;
            }
        }
        p.recipe += "]";
        if (!pat.empty()) v = expand(v, pat, rep, ic, g);
        x.label(g ? "global" : "first-only");
    }
    p.recipe += "}";
    p.value = enc ? uri(v) : v;
    return p;
}

int main(int argc, char **argv)
{
    Check c; c.id = "C03";
    c.add("expand", 360000, 3000000, "the recipe substitutes at least one field that the record has",
        [](Ctx &x) {
            Rec r = record(x);
            std::string rc, want; bool subst = false;
            int n = 1 + x.len(6);
            for (int i = 0; i < n; i++) {
                Piece p = piece(x, r, subst);
                // two literals must not form a new "${"
                if (!rc.empty() && (rc.back() == '$' || rc.back() == '%') && p.recipe[0] == '{') continue;
                rc += p.recipe; want += p.value;
            }
            x.desc << q(rc) << " on " << q(r.xml);
            x.nontrivial = subst;
            Doc d(r.xml);
            x.eq(q(mp_xml::url_recipe_handle(d.d, rc)), q(want), "expansion of " + q(rc));
        });
    c.add("soup", 180000, 2000000, "arbitrary recipe text with at least one ${ or %{: terminates, without memory errors, text outside fields is kept",
        [](Ctx &x) {
            Rec r = record(x);
            std::string rc; int n = x.len(20);
            for (int i = 0; i < n; i++)
                rc += x.pick({"${", "%{", "}", "[", "]", "/", "\\", "title", "md-", "id", "m", "a", "+", "g", "i", "$", "%", "{", "(", ")", "*", "$1"});
            x.desc << q(rc) << " on " << q(r.xml);
            x.nontrivial = rc.find("${") != std::string::npos || rc.find("%{") != std::string::npos;
            Doc d(r.xml);
            std::string got;
            try { got = mp_xml::url_recipe_handle(d.d, rc); }
            catch (std::exception &) { x.label("rejected"); return; }
            size_t p = std::min(rc.find("${"), rc.find("%{"));
            std::string head = rc.substr(0, p);
            x.eq(got.substr(0, head.size()), head, "literal text before the first field");
            if (p == std::string::npos) x.eq(got, rc, "recipe without fields");
        });
    return run(c, argc, argv);
}
