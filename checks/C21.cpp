// SOURCES: kit filter_record_transform
// Record transformation: what the client asks for is mapped to what the server has, and the server's records to what was asked for.
#include "../models/zkit.hpp"
#include <yaz/retrieval.h>
#include <yaz/record_conv.h>
#include <yaz/marcdisp.h>
#include <yaz/match_glob.h>
#include <fstream>
#include <thread>
ZK_FILTER(record_transform)
using namespace pbt;
using zk::Server;
static void xml_quiet(void *, const char *, ...) {}
static std::string sheets()
{
    static std::string dir; static pid_t pid = 0;
    if (pid == getpid()) return dir;
    pid = getpid(); dir = pbt::scratch() + "/rt" + std::to_string(pid); (void) !system(("mkdir -p " + dir).c_str());
    auto put = [](const std::string &n, const std::string &body) {
        std::ofstream(dir + "/" + n) << "<?xml version=\"1.0\"?><xsl:stylesheet version=\"1.0\" xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\"><xsl:param name=\"p\" select=\"'none'\"/>" + body + "</xsl:stylesheet>";
    };
    put("wrap.xsl", "<xsl:template match=\"/\"><w p=\"{$p}\"><xsl:copy-of select=\"*\"/></w></xsl:template>");
    put("names.xsl", "<xsl:template match=\"/\"><n><xsl:for-each select=\"//*\"><xsl:value-of select=\"name()\"/>,</xsl:for-each><xsl:value-of select=\"$p\"/></n></xsl:template>");
    put("text.xsl", "<xsl:output omit-xml-declaration=\"yes\"/><xsl:template match=\"/\"><t><xsl:value-of select=\".\"/></t></xsl:template>");
    return dir;
}
static std::string marc(const std::vector<std::pair<std::string, std::string> > &fields)
{
    std::string dir, data; char b[64];
    for (auto &f : fields) { std::string d = f.second + "\x1e"; snprintf(b, sizeof b, "%s%04d%05d", f.first.c_str(), (int) d.size(), (int) data.size()); dir += b; data += d; }
    int base = 24 + (int) dir.size() + 1, len = base + (int) data.size() + 1; snprintf(b, sizeof b, "%05dnam a22%05d a 4500", len, base);
    return std::string(b) + dir + "\x1e" + data + "\x1d";
}
struct Elem { std::string syntax, name, ident, bsyntax, bname, rules; bool backend = false, bname_set = false; std::string xml, bxml; };
static std::string attr(const char *n, const std::string &v) { return v.empty() ? "" : std::string(" ") + n + "=\"" + zk::esc(v) + "\""; }
static const char *SYN[] = {"usmarc", "xml", "opac", "sutrs"};
static Elem elem(Ctx &x)
{
    Elem e; e.syntax = SYN[x.weighted({3, 4, 2, 1})]; e.name = x.pick({"", "F", "B", "dc", "d*", "*", "opac", "F?"}); e.ident = x.chance(1, 3) ? x.pick({"info:1", "info:2", "F"}) : "";
    e.backend = x.chance(3, 4);
    if (e.backend) {
        e.bsyntax = SYN[x.weighted({4, 4, 3, 0})]; if (e.syntax == "opac" && x.coin()) e.bsyntax = "opac"; e.bname_set = x.chance(2, 3); e.bname = e.bname_set ? x.pick({"F", "B", "full", "r&d"}) : "";
        std::string m = "<marc inputformat=\"marc\" outputformat=\"" + x.pick({"marcxml", "marcxchange", "marcxml"}) + "\" inputcharset=\"" + x.pick({"marc-8", "utf-8"}) + "\"" + (x.chance(1, 3) ? " outputcharset=\"" + x.pick({"utf-8", "marc-8", "iso-8859-1"}) + "\"" : "") + (x.chance(1, 4) ? " leaderspec=\"9='a'\"" : "") + "/>";
        if (e.bsyntax == "usmarc" ? x.chance(5, 6) : e.bsyntax == "opac" ? x.chance(9, 10) : x.chance(1, 12)) e.rules += m;
        if (e.syntax != "opac" || x.chance(1, 10)) for (int n = x.weighted({4, 4, 1}); n > 0; n--) { std::string p = x.pick({"", "v1", "v2"}); e.rules += "<xslt stylesheet=\"" + sheets() + "/" + x.pick({"wrap.xsl", "names.xsl", "text.xsl"}) + "\">" + (p.empty() ? "" : "<param name=\"p\" value=\"'" + p + "'\"/>") + "</xslt>"; }
        if (e.syntax == "usmarc" && e.bsyntax == "usmarc" && x.coin()) e.rules = "";
        e.bxml = "<backend" + attr("syntax", e.bsyntax) + attr("name", e.bname) + ">" + e.rules + "</backend>";
    }
    e.xml = "<retrieval" + attr("syntax", e.syntax) + attr("name", e.name) + attr("identifier", e.ident) + ">" + e.bxml + "</retrieval>"; return e;
}
static std::string info(const std::vector<Elem> &v) { std::string s = "<retrievalinfo xmlns=\"http://indexdata.com/yaz\" version=\"1.0\">"; for (auto &e : v) s += e.xml; return s + "</retrievalinfo>"; }
// a record converted by a conversion of its own
struct Ref {
    yaz_record_conv_t rc; xmlDoc *doc;
    Ref(const std::string &bxml) : rc(yaz_record_conv_create()) {
        std::string s = "<r xmlns=\"http://indexdata.com/yaz\">" + bxml + "</r>"; doc = xmlReadMemory(s.data(), (int) s.size(), 0, 0, 0);
            if (yaz_record_conv_configure(rc, xmlDocGetRootElement(doc)->children)) throw Fail("generator: bad rules " + bxml + ": " + yaz_record_conv_get_error(rc));
    }
    ~Ref() { yaz_record_conv_destroy(rc); xmlFreeDoc(doc); }
};
static std::string enc(Z_External *e)
{ ODR o = odr_createmem(ODR_ENCODE); std::string r = "unencodable"; if (z_External(o, &e, 0, 0)) { int l; char *b = odr_getbuf(o, &l, 0); r.assign(b, l); } odr_destroy(o); return r; }
static std::string want_record(Z_NamePlusRecord *n, const Elem &e, std::string &show)
{
    if (n->which != Z_NamePlusRecord_databaseRecord) { show = "as is"; return "!"; }
    Z_External *r = n->u.databaseRecord; if (!e.backend) { show = "as is"; return enc(r); }
    Ref ref(e.bxml); WRBUF w = wrbuf_alloc(); int rt = -1; std::string err; zk::Mem o;
    if (r->which == Z_External_OPAC) rt = yaz_record_conv_opac_record(ref.rc, r->u.opac, w);
    else if (r->which == Z_External_octet) rt = yaz_record_conv_record(ref.rc, (const char *) r->u.octet_aligned->buf, r->u.octet_aligned->len, w);
    else err = "unsupported record type for record_conv";
    if (rt && err.empty()) err = yaz_record_conv_get_error(ref.rc);
    std::string got(wrbuf_buf(w), wrbuf_len(w)); wrbuf_destroy(w); show = got;
    if (rt) return "!14" + (err.empty() ? "" : ":" + err);
    if (e.syntax == "opac") {
        yaz_marc_t mt = yaz_marc_create(); Z_OPACRecord *op = 0; yaz_iconv_t cd = 0; const char *cs = yaz_record_get_output_charset(ref.rc); if (cs) cd = yaz_iconv_open(cs, "utf-8");
        int ok = yaz_xml_to_opac(mt, got.data(), got.size(), &op, cd, ((ODR) o)->mem, 0); yaz_marc_destroy(mt); if (cd) yaz_iconv_close(cd);
        if (!ok || !op) return "!14:XML to OPAC conversion failed";
        return enc(z_ext_record_oid(o, yaz_oid_recsyn_opac, (const char *) op, -1));
    }
    return enc(z_ext_record_oid(o, zk::syntax(o, e.syntax), got.data(), (int) got.size()));
}
static std::string marc_body(Ctx &x)
{
    std::vector<std::pair<std::string, std::string> > f; f.emplace_back("001", x.str1("0123", 4));
    for (int n = x.range(0, 3); n > 0; n--) f.emplace_back(x.pick({"100", "245", "650"}), "10\x1f" "a" + x.str("abc &<>'\"", 6) + (x.chance(1, 6) ? x.pick({"\xc3\xa6", "\xe1""e", "\xff"}) : std::string()));
    std::string m = marc(f); if (x.chance(1, 10)) m.resize(x.range(0, (int) m.size() - 1)); return m;
}
static Z_External *backend_record(Ctx &x, ODR o, const std::string &syn)
{
    std::string s = x.chance(1, 10) ? SYN[x.range(0, 3)] : syn;
    if (s == "opac") {
        Z_OPACRecord *op = (Z_OPACRecord *) odr_malloc(o, sizeof *op); memset(op, 0, sizeof *op); std::string m = marc_body(x);
        op->bibliographicRecord = z_ext_record_oid(o, yaz_oid_recsyn_usmarc, m.data(), (int) m.size());
        op->num_holdingsData = x.range(0, 2); op->holdingsData = (Z_HoldingsRecord **) odr_malloc(o, sizeof(void *) * 3);
        for (int i = 0; i < op->num_holdingsData; i++) {
            Z_HoldingsRecord *h = op->holdingsData[i] = (Z_HoldingsRecord *) odr_malloc(o, sizeof *h); h->which = Z_HoldingsRecord_holdingsAndCirc; Z_HoldingsAndCircData *c = h->u.holdingsAndCirc = (Z_HoldingsAndCircData *) odr_malloc(o, sizeof *c); memset(c, 0, sizeof *c);
            std::string l = x.str1("loc &", 5); c->localLocation = odr_strdup(o, l.c_str()); if (x.coin()) c->callNumber = odr_strdup(o, "QA1");
        }
        return z_ext_record_oid(o, yaz_oid_recsyn_opac, (const char *) op, -1);
    }
    std::string b; if (s == "usmarc") b = marc_body(x); else if (s == "xml") b = x.chance(1, 10) ? x.pick({"", "<a>", "text", "<a/><b/>"}) : "<" + x.pick({"a", "rec"}) + ">" + zk::esc(x.str("xyz <", 5)) + "<b/></" ; else b = x.str("text", 5);
    if (s == "xml" && b.size() > 2 && b.substr(b.size() - 2) == "</") b += b[1] == 'a' ? "a>" : "rec>";
    return z_ext_record_oid(o, zk::syntax(o, s), b.data(), (int) b.size());
}
struct Match { int code = 0; const Elem *e = 0; };
static Match match(const std::vector<Elem> &v, const std::string &schema, const std::string &syn)
{
    Match m; int sch = 0, sy = 0, best = 0;     // one that names the schema (YAZ: the last) before one for any
    for (auto &e : v) {
        int a = schema.empty() || (e.name.empty() && e.ident.empty()) ? 1 : 0; bool b = syn.empty() || syn == e.syntax;
        if (!schema.empty() && ((!e.name.empty() && yaz_match_glob(e.name.c_str(), schema.c_str())) || (!e.ident.empty() && e.ident == schema))) a = 2;
        sch += a; sy += b; if (a && b && (a > best || a == 2)) { m.e = &e; best = a; }
    }
    if (m.e) return m;
    m.code = !sy && !syn.empty() ? 2 : !sch ? 1 : 3; return m;
}

struct World {
    std::unique_ptr<zk::Net> net; std::string raw; int calls = 0; std::function<void(zk::mp::Package &)> fn;
    World(const std::string &conf) {
        net.reset(new zk::Net({&metaproxy_1_filter_record_transform}, zk::route("start", "<filter type=\"record_transform\">" + conf + "</filter>" + zk::hook("b"))));
        zk::hooks().fn = [this](const zk::Hook *, zk::mp::Package &p) { Z_GDU *g = p.request().get(); if (p.session().is_closed()) return; calls++; raw = zk::encode(g); fn(p); };
    }
    ~World() { zk::hooks().fn = nullptr; }
};
static std::string enc(Z_APDU *a) { yazpp_1::GDU g(a); return zk::encode(g.get()); }
static std::string dotted(ODR o, const std::string &syn) { return zk::oid_text(zk::syntax(o, syn)); }
static Z_RecordComposition *comp(Ctx &x, ODR o, const std::string &esn, std::string &eff)
{
    eff = esn; int k = x.weighted({6, 2, 1, 1}); if (esn.empty() && k < 3) k = 0;
    if (k == 0) return zk::simple_comp(o, esn);
    if (k == 3) {       // element set names by database: says nothing of the record's schema
        eff = ""; Z_RecordComposition *c = zk::simple_comp(o, "x"); Z_ElementSetNames *e = c->u.simple; e->which = Z_ElementSetNames_databaseSpecific;
        e->u.databaseSpecific = (Z_DatabaseSpecific *) odr_malloc(o, sizeof(Z_DatabaseSpecific)); e->u.databaseSpecific->num = 1; e->u.databaseSpecific->elements = (Z_DatabaseSpecificUnit **) odr_malloc(o, sizeof(void *));
        Z_DatabaseSpecificUnit *d = e->u.databaseSpecific->elements[0] = (Z_DatabaseSpecificUnit *) odr_malloc(o, sizeof *d); d->dbName = odr_strdup(o, "Default"); d->esn = odr_strdup(o, "F"); return c;
    }
    Z_RecordComposition *c = (Z_RecordComposition *) odr_malloc(o, sizeof *c); c->which = Z_RecordComp_complex; Z_CompSpec *s = c->u.complex = (Z_CompSpec *) odr_malloc(o, sizeof *s); memset(s, 0, sizeof *s); s->selectAlternativeSyntax = odr_booldup(o, 0);
    s->generic = (Z_Specification *) odr_malloc(o, sizeof(Z_Specification)); memset(s->generic, 0, sizeof(Z_Specification)); s->generic->which = Z_Schema_oid; s->generic->schema.oid = 0;
    if (k == 2) { eff = ""; return c; }
    s->generic->elementSpec = (Z_ElementSpec *) odr_malloc(o, sizeof(Z_ElementSpec)); s->generic->elementSpec->which = Z_ElementSpec_elementSetName; s->generic->elementSpec->u.elementSetName = odr_strdup(o, esn.c_str()); return c;
}
static void requests(Ctx &x)
{
    xmlSetGenericErrorFunc(0, xml_quiet); std::vector<Elem> v; for (int n = x.range(1, 4); n > 0; n--) v.push_back(elem(x));
    x.desc << info(v); World w(info(v)); zk::Client c(*w.net); zk::Mem o;
    for (int n = x.range(1, 4); n > 0; n--) {
        std::string syn = x.chance(1, 8) ? "" : SYN[x.weighted({4, 4, 2, 1})], esn = x.pick({"", "F", "B", "dc", "d", "info:1", "opac", "FF", "*", "unknown"}), eff, ref = x.str("ab\1", 4);
        if (x.chance(2, 3)) { const Elem &e = x.pick(v); syn = e.syntax; esn = e.name == "d*" ? "dct" : e.name == "*" || e.name == "F?" ? "FX" : e.name.empty() && !e.ident.empty() ? e.ident : e.name; }
        if (x.chance(1, 20)) syn = "grs-1";
        bool is_search = x.chance(1, 3); Z_APDU *a; bool off = false; bool rewritten = true;
        if (!is_search) {
            zk::Present p; p.ref = ref; p.syn = syn; p.num = x.range(0, 4); p.start = x.range(1, 5); a = zk::present(o, p); a->u.presentRequest->recordComposition = comp(x, o, esn, eff);
        } else {
            zk::Search s; s.ref = ref; s.dbs = {"A", "B"}; s.syn = syn; s.ssub = x.range(0, 4); s.lslb = x.range(0, 5); s.mspn = x.range(0, 3); eff = "";
            switch (x.weighted({5, 3, 1, 1, 1})) {
            case 0: s.esn_s = s.esn_m = eff = esn; if (esn.empty()) off = s.lslb <= 1; break;
            case 1: off = s.lslb <= 1; break;
            case 2: s.esn_s = esn; off = true; break;
            case 3: s.esn_m = esn; off = true; break;
            default: s.esn_s = esn.empty() ? "F" : esn; s.esn_m = s.esn_s + "x"; off = true; }
            if (s.esn_s.empty() && s.esn_m.empty()) off = s.lslb <= 1;
            a = zk::search(o, s);
        }
        Match m = match(v, eff, syn); x.desc << (is_search ? " search " : " present ") << syn << "/" << eff << (off ? " off" : "");
        std::string before = enc(a), want;
        int fault = x.weighted({12, 1, 1, 1, 1, 1}); std::vector<Z_NamePlusRecord *> recs; std::vector<std::string> wants, dbs, shows;
        // what the server is to see
        zk::Mem o2; { yazpp_1::GDU g(a); Z_APDU *b = g.get()->u.z3950;
            if (off) { *b->u.searchRequest->smallSetUpperBound = 0; *b->u.searchRequest->largeSetLowerBound = 1; *b->u.searchRequest->mediumSetPresentNumber = 0; }
            else if (m.e) {
                const Elem &e = *m.e; std::string bs = e.backend ? e.bsyntax : e.syntax, bn = e.backend && e.bname_set ? e.bname : !e.name.empty() ? e.name : "";
                if (!(e.backend && e.bname_set)) bn = eff; // the name asked for
                (void) rewritten;
                if (is_search) { b->u.searchRequest->preferredRecordSyntax = zk::syntax(o2, bs); b->u.searchRequest->smallSetElementSetNames = b->u.searchRequest->mediumSetElementSetNames = zk::esns(o2, bn); }
                else { b->u.presentRequest->preferredRecordSyntax = zk::syntax(o2, bs); b->u.presentRequest->recordComposition = zk::simple_comp(o2, bn); }
            }
            want = enc(b); }
        w.calls = 0; w.raw = ""; std::string untouched;
        w.fn = [&](zk::mp::Package &p) {
            Z_APDU *q = p.request().get()->u.z3950; zk::Mem r;
            if (fault == 1) return; if (fault == 2) { p.response() = zk::close_reply(r, q, 1, "bye"); p.session().close(); untouched = enc(zk::close_reply(r, q, 1, "bye")); return; }
            Z_APDU *z = is_search ? zk::search_reply(r, q, fault == 3 ? 13 : 0, "x") : zk::present_reply(r, q, fault == 3 ? 13 : 0, "x");
            if (fault == 4) z = zk::reply(r, Z_APDU_scanResponse, q);
            if (fault < 3 || fault == 5) {
                int k = x.range(0, 4); std::string bs = m.e && m.e->backend ? m.e->bsyntax : m.e ? m.e->syntax : "usmarc"; zk::Mem &keep = o2;
                Z_NamePlusRecordList *l = zk::record_list(keep, k);
                for (int i = 0; i < k; i++) {
                    Z_NamePlusRecord *n = (Z_NamePlusRecord *) odr_malloc(keep, sizeof *n); n->databaseName = x.chance(1, 4) ? 0 : odr_strdup(keep, x.pick({"A", "B"}).c_str());
                    int kind = x.weighted({10, 1, 1}); dbs.push_back(n->databaseName ? n->databaseName : "-");
                    if (kind == 1) { Z_NamePlusRecord *d = zget_surrogateDiagRec(keep, n->databaseName, 14, "own"); n = d; wants.push_back("!14:own"); shows.push_back("as is"); }
                    else {
                        n->which = Z_NamePlusRecord_databaseRecord; n->u.databaseRecord = kind == 2 && x.coin() ? z_ext_record_oid(keep, yaz_oid_recsyn_sutrs, "text", 4) : backend_record(x, keep, bs); std::string sh;
                        wants.push_back(m.e && !off ? want_record(n, *m.e, sh) : enc(n->u.databaseRecord)); shows.push_back(sh);
                        if (sh != "as is" && !sh.empty()) x.nontrivial = true;
                    }
                    l->records[i] = n;
                }
                if (k || x.coin()) { Z_Records *rr = zk::records(keep, l); if (is_search) { z->u.searchResponse->records = rr; *z->u.searchResponse->numberOfRecordsReturned = k; *z->u.searchResponse->resultCount = k + 7; } else { z->u.presentResponse->records = rr; *z->u.presentResponse->numberOfRecordsReturned = k; z->u.presentResponse->nextResultSetPosition = odr_intdup(r, k + 3); } }
            }
            p.response() = z; untouched = enc(z);
        };
        Z_GDU *g = c.send(a);
        if (!off && !m.e) {
            x.eq(w.calls, 0, "requests the server saw for what nobody offers"); std::string want_d = m.code == 2 ? "239:" + dotted(o, syn) : "24" + (eff.empty() ? "" : ":" + eff);
            x.check(g && g->which == Z_GDU_Z3950 && g->u.z3950->which == zk::response_type(a->which), "answer " + zk::print(g)); x.eq(zk::get_ref(g->u.z3950), ref, "reference id");
            zk::Recs r = zk::recs(is_search ? zk::search_of(g)->records : zk::present_of(g)->records); x.eq(r.diag, want_d, "diagnostic"); x.label("refused " + std::to_string(m.code));
            if (is_search) x.check(!*zk::search_of(g)->searchStatus, "search status"); continue;
        }
        x.eq(w.calls, 1, "requests to the server"); x.check(w.raw == want, "the server saw " + hex(w.raw) + " expected " + hex(want));
        if (fault == 1) { x.check(!g, "answer from nowhere"); continue; }
        if (fault == 2) { x.check(zk::is_close(g) && c.closed, "close not passed on"); return; }
        x.check(g, "no answer");
        if (fault == 3 || fault == 4) { x.check(zk::encode(g) == untouched, "answer changed"); x.label("fault"); continue; }
        zk::Recs r = zk::recs(is_search ? zk::search_of(g)->records : zk::present_of(g)->records); Z_Records *rr = is_search ? zk::search_of(g)->records : zk::present_of(g)->records;
        x.eq(r.body.size(), wants.size(), "number of records"); x.eq(zk::get_ref(g->u.z3950), ref, "reference id");
        if (is_search) { x.eq((int) *zk::search_of(g)->numberOfRecordsReturned, (int) wants.size(), "number of records returned"); x.eq((int) *zk::search_of(g)->resultCount, untouched.empty() ? 0 : (int) *zk::search_of(g)->resultCount, "hits"); }
        else x.eq((int) *zk::present_of(g)->numberOfRecordsReturned, (int) wants.size(), "number of records returned");
        for (size_t i = 0; i < wants.size(); i++) {
            x.eq(r.db[i], dbs[i], "database of record " + std::to_string(i)); Z_NamePlusRecord *n = rr->u.databaseOrSurDiagnostics->records[i];
            if (wants[i][0] == '!' && m.e && (m.e->bsyntax == "opac" || wants[i].find("OPAC") != std::string::npos) && wants[i] != "!14:own") x.check(r.body[i].compare(0, 3, "!14") == 0, "record " + std::to_string(i) + " is " + r.body[i] + ", expected " + wants[i]);     // YAZ adds up the errors of OPAC conversions
            else if (wants[i][0] == '!') { x.eq(r.body[i], wants[i], "record " + std::to_string(i)); x.label("surrogate"); }
            else { x.check(n->which == Z_NamePlusRecord_databaseRecord, "record " + std::to_string(i) + " is " + r.body[i] + ", expected " + shows[i]); std::string got = enc(n->u.databaseRecord); x.check(got == wants[i], "record " + std::to_string(i) + ": got " + q(r.body[i]) + " " + r.syn[i] + " expected " + q(shows[i])); x.label("record " + (m.e && m.e->backend && !off ? m.e->bsyntax + ">" + m.e->syntax : "as is")); }
        }
    }
}
// everything else passes unchanged
static void others(Ctx &x)
{
    World w("<retrievalinfo xmlns=\"http://indexdata.com/yaz\"><retrieval syntax=\"usmarc\" name=\"F\"/></retrievalinfo>"); zk::Client c(*w.net); zk::Mem o; x.nontrivial = true;
    for (int n = x.range(1, 4); n > 0; n--) {
        Z_APDU *a; std::string ref = x.str("ab", 4); switch (x.range(0, 4)) {
        case 0: a = zk::init(o, {0, 1}, ref); break; case 1: { zk::Scan s; s.ref = ref; s.num = x.range(0, 9); a = zk::scan(o, s); break; }
        case 2: a = zget_APDU(o, Z_APDU_deleteResultSetRequest); zk::set_ref(o, a, ref); break; case 3: a = zget_APDU(o, Z_APDU_resourceReportRequest); zk::set_ref(o, a, ref); break; default: a = zk::close(o); }
        x.desc << zk::name(a->which) << " "; std::string want = enc(a), back; int also = x.range(0, 5);
        w.fn = [&](zk::mp::Package &p) { zk::Mem r; Z_APDU *q = p.request().get()->u.z3950, *z = also == 0 ? zk::present_reply(r, q, 0, 0) : zk::reply(r, zk::response_type(q->which), q); if (also == 0) { Z_NamePlusRecordList *l = zk::record_list(r, 1); l->records[0] = zk::record(r, "A", yaz_oid_recsyn_usmarc, "junk"); z->u.presentResponse->records = zk::records(r, l); *z->u.presentResponse->numberOfRecordsReturned = 1; } p.response() = z; back = enc(z); };
        Z_GDU *g = c.send(a); x.check(w.raw == want, "request changed"); x.check(zk::encode(g) == back, "answer changed: " + zk::print(g));
    }
}
// sessions at the same time: each record's failure is its own
static void threads(Ctx &x)
{
    xmlSetGenericErrorFunc(0, xml_quiet); x.nontrivial = true; int nt = x.range(2, 4), rounds = x.range(5, 40);
    World w("<retrievalinfo xmlns=\"http://indexdata.com/yaz\"><retrieval syntax=\"xml\"><backend syntax=\"usmarc\"><marc inputformat=\"marc\" outputformat=\"marcxml\" inputcharset=\"marc-8\"/><xslt stylesheet=\"" + sheets() + "/text.xsl\"/></backend></retrieval></retrievalinfo>");
    std::vector<std::string> kinds; for (int i = 0; i < nt; i++) { std::string k; for (int j = x.range(1, 3); j > 0; j--) k += "gst"[x.range(0, 2)]; kinds.push_back(k); x.desc << k << " "; }
    auto body = [](char k, int i) { return k == 'g' ? marc({{"245", "10\x1f" "at" + std::to_string(i)}}) : k == 's' ? std::string(i % 20, 'x') : marc({{"245", "10\x1f" "a"}}).substr(0, 25); };
    w.fn = [&](zk::mp::Package &p) { zk::Mem r; Z_APDU *q = p.request().get()->u.z3950, *z = zk::present_reply(r, q, 0, 0); int i = atoi(q->u.presentRequest->resultSetId); std::string k = kinds[i]; Z_NamePlusRecordList *l = zk::record_list(r, (int) k.size()); for (size_t j = 0; j < k.size(); j++) l->records[j] = zk::record(r, "A", yaz_oid_recsyn_usmarc, body(k[j], i)); z->u.presentResponse->records = zk::records(r, l); *z->u.presentResponse->numberOfRecordsReturned = (int) k.size(); p.response() = z; };
    zk::hooks().fn = [&](const zk::Hook *, zk::mp::Package &p) { if (!p.session().is_closed()) w.fn(p); };
    std::vector<std::string> errs(nt); std::vector<std::thread> ts;
    std::vector<std::vector<std::string> > want(nt);
    { Elem e; e.syntax = "xml"; e.backend = true; e.bxml = "<backend syntax=\"usmarc\"><marc inputformat=\"marc\" outputformat=\"marcxml\" inputcharset=\"marc-8\"/><xslt stylesheet=\"" + sheets() + "/text.xsl\"/></backend>"; zk::Mem o; for (int i = 0; i < nt; i++) for (char k : kinds[i]) { std::string sh; want[i].push_back(want_record(zk::record(o, "A", yaz_oid_recsyn_usmarc, body(k, i)), e, sh)); if (want[i].back()[0] != '!') want[i].back() = sh; } }
    for (int i = 0; i < nt; i++) ts.emplace_back([&, i] {
        zk::Client c(*w.net);
        for (int k = 0; k < rounds && errs[i].empty(); k++) {
            zk::Mem o; zk::Present p; p.set = std::to_string(i); p.syn = "xml"; p.num = 1; Z_PresentResponse *r = zk::present_of(c.send(zk::present(o, p))); if (!r) { errs[i] = "no response"; break; }
            zk::Recs rs = zk::recs(r->records); if (rs.body != want[i]) errs[i] = "got " + q(Server::join(rs.body)) + " expected " + q(Server::join(want[i]));
        }
    });
    for (auto &t : ts) t.join();
    for (auto &e : errs) x.check(e.empty(), e);
}
static void config(Ctx &x)
{
    xmlSetGenericErrorFunc(0, xml_quiet); x.nontrivial = true; static const struct { const char *xml; bool ok; } C[] = {
        {"<retrievalinfo xmlns=\"http://indexdata.com/yaz\"><retrieval syntax=\"xml\"/></retrievalinfo>", true}, {"<retrievalinfo xmlns=\"http://indexdata.com/yaz\"><retrieval name=\"F\"/></retrievalinfo>", false},
        {"<retrievalinfo xmlns=\"http://indexdata.com/yaz\"><retrieval syntax=\"nosuch\"/></retrievalinfo>", false}, {"<retrievalinfo xmlns=\"http://indexdata.com/yaz\"><retrieval syntax=\"xml\"><backend syntax=\"nosuch\"/></retrieval></retrievalinfo>", false},
        {"<retrievalinfo xmlns=\"http://indexdata.com/yaz\"><retrieval syntax=\"xml\"><backend syntax=\"usmarc\"><nosuch/></backend></retrieval></retrievalinfo>", false}, {"<retrievalinfo xmlns=\"http://indexdata.com/yaz\"><retrieval syntax=\"xml\"><backend syntax=\"usmarc\"><xslt stylesheet=\"/nonexistent.xsl\"/></backend></retrieval></retrievalinfo>", false},
        {"<!-- c --> <retrievalinfo xmlns=\"http://indexdata.com/yaz\"><retrieval syntax=\"xml\"/></retrievalinfo>", true}, {"<retrievalinfo xmlns=\"http://indexdata.com/yaz\"><bad/></retrievalinfo>", false}, {"", false}, {"<x/>", false}};
    auto &k = C[x.range(0, 9)]; x.desc << k.xml; bool ok = true; try { World w(k.xml); } catch (zk::mp::XMLError &) { ok = false; } catch (zk::mp::filter::FilterException &) { ok = false; }
    x.eq(ok, k.ok, std::string("configuration accepted: ") + k.xml);
}
int main(int argc, char **argv)
{
    zk::quiet();
    Check c; c.id = "C21";
    c.add("requests", 6000, 150000, "a record goes through a conversion", requests)
     .add("others", 500, 10000, "all", others)
     .add("threads", 200, 4000, "all", threads)
     .add("config", 50, 300, "all", config);
    return run(c, argc, argv);
}
