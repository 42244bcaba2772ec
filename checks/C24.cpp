// SOURCES: kit filter_log
// VARIANTS: asan tsan
// The log has one line for each entry, with each value in its place, and logging changes nothing.
#include "../models/zkit.hpp"
#include <yaz/sortspec.h>
#include <thread>
#include <fstream>
#include <unistd.h>
ZK_FILTER(log)
using namespace pbt;
static const std::string &logfile(int i)
{
    static pid_t pid = 0; static std::string f[2]; if (pid != getpid()) { pid = getpid(); for (int k = 0; k < 2; k++) f[k] = scratch() + "/log" + std::to_string(pid) + (k ? "b" : "a"); }
    return f[i];
}
static std::vector<std::string> lines_of(const std::string &s) { std::istringstream i(s); std::vector<std::string> v; std::string l; while (std::getline(i, l)) v.push_back(l); return v; }
static std::string slurp_from(const std::string &f, size_t off) { std::ifstream s(f, std::ios::binary); s.seekg((std::streamoff) off); std::stringstream b; b << s.rdbuf(); return b.str(); }
static size_t size_of(const std::string &f) { std::ifstream s(f, std::ios::binary | std::ios::ate); return s ? (size_t) s.tellg() : 0; }
// without a file name entries go to the log of YAZ
struct YazLog { YazLog() { yaz_log_init_file((logfile(0) + "y").c_str()); yaz_log_time_format("Y"); yaz_log_set_handler(0, 0); yaz_log_init_level(YLOG_LOG | YLOG_FLUSH); } ~YazLog() { zk::quiet(); } };

struct Cfg { std::string message, format; bool file = true, access = true, user = false, rs = false, ps = false, opts = false, ra = false, pa = false, line = false; int f = 0; };
static std::string b2(Ctx &x, bool v) { return v ? x.pick({"true", "1"}) : x.pick({"false", "0"}); }
static std::string config(Ctx &x, Cfg &c)
{
    std::string r = "<filter type=\"log\">", cat;
    if (!c.message.empty()) r += "<message>" + zk::esc(c.message) + "</message>";
    if (!c.format.empty()) r += "<time-format>" + zk::esc(c.format) + "</time-format>";
    if (c.file) r += "<filename>" + logfile(c.f) + "</filename>";
    if (!c.access || x.coin()) cat += " access=\"" + b2(x, c.access) + "\"";
    if (c.user || x.chance(1, 4)) cat += " user-access=\"" + b2(x, c.user) + "\"";
    if (c.rs && c.ps && x.coin()) cat += " session=\"true\""; else { if (c.rs || x.chance(1, 4)) cat += " request-session=\"" + b2(x, c.rs) + "\""; if (c.ps || x.chance(1, 4)) cat += " response-session=\"" + b2(x, c.ps) + "\""; }
    if (c.opts || x.chance(1, 4)) cat += " init-options=\"" + b2(x, c.opts) + "\"";
    if (c.ra && c.pa && x.coin()) cat += " apdu=\"true\""; else { if (c.ra || x.chance(1, 4)) cat += " request-apdu=\"" + b2(x, c.ra) + "\""; if (c.pa || x.chance(1, 4)) cat += " response-apdu=\"" + b2(x, c.pa) + "\""; }
    if (c.line || x.chance(1, 4)) cat += " line=\"" + b2(x, c.line) + "\"";
    if (!cat.empty()) r += "<category" + cat + "/>";
    return r + "</filter>";
}
typedef std::vector<std::string> Toks;
static Toks split(const std::string &s) { std::istringstream i(s); Toks t; std::string w; while (i >> w) t.push_back(w); return t; }
static std::string opt(const char *s) { return s ? s : "-"; }
static std::string num(const Odr_int *n) { return n ? std::to_string((long) *n) : "-"; }
static std::string plus(char **v, int n) { std::string r; for (int i = 0; i < n; i++) r += (i ? "+" : "") + std::string(v[i]); return r; }
static std::string oidname(const Odr_oid *o) { if (!o) return "-"; char b[OID_STR_MAX]; return yaz_oid_to_string_buf(o, 0, b); }
static std::string scan_text(Z_ScanRequest *r) { WRBUF w = wrbuf_alloc(); yaz_scan_to_wrbuf(w, r->termListAndStartPoint, r->attributeSet); std::string s = wrbuf_cstr(w); wrbuf_destroy(w); return s; }
static std::string ddf(Z_DefaultDiagFormat *d) { return num(d->condition) + " \"" + (d->which == Z_DefaultDiagFormat_v2Addinfo ? d->u.v2Addinfo : d->u.v3Addinfo) + "\""; }
static std::string diag(Z_Records *r)
{
    if (r->which == Z_Records_NSD) return ddf(r->u.nonSurrogateDiagnostic);
    return r->u.multipleNonSurDiagnostics->num_diagRecs ? ddf(r->u.multipleNonSurDiagnostics->diagRecs[0]->u.defaultFormat) : "multipleNSD";
}
// what the access log says of a package (from position 6)
static std::string text(Z_GDU *g)
{
    if (g->which == Z_GDU_HTTP_Request) return std::string("HTTP_Request ") + g->u.HTTP_Request->method + " " + g->u.HTTP_Request->path;
    if (g->which == Z_GDU_HTTP_Response) return "HTTP_Response " + std::to_string(g->u.HTTP_Response->code) + " " + std::to_string(g->u.HTTP_Response->content_len);
    Z_APDU *a = g->u.z3950; std::string r = "Z3950 ";
    switch (a->which) {
    case Z_APDU_initRequest: { Z_InitRequest *q = a->u.initRequest; Z_IdAuthentication *i = q->idAuthentication; auto v = zk::vhosts_of(q->otherInfo); std::string vs; for (auto &s : v) vs += " " + s;
        return r + "initRequest " + (!i ? "-" : i->which == Z_IdAuthentication_idPass ? opt(i->u.idPass->userId) : i->which == Z_IdAuthentication_open ? i->u.open : "-") + (v.empty() ? " -" : vs) + " " + opt(q->implementationId) + " " + opt(q->implementationName) + " " + opt(q->implementationVersion); }
    case Z_APDU_initResponse: { Z_InitResponse *q = a->u.initResponse; return r + "initResponse " + (*q->result ? "OK " : "FAIL ") + opt(q->implementationId) + " " + opt(q->implementationName) + " " + opt(q->implementationVersion); }
    case Z_APDU_searchRequest: { Z_SearchRequest *q = a->u.searchRequest; return r + "searchRequest " + plus(q->databaseNames, q->num_databaseNames) + " " + q->resultSetName + " " + oidname(q->preferredRecordSyntax) + " " + zk::query_text(q->query); }
    case Z_APDU_searchResponse: { Z_SearchResponse *q = a->u.searchResponse; r += std::string("searchResponse ") + (*q->searchStatus ? "OK" : "Failure"); if (q->records && q->records->which != Z_Records_DBOSD) return r + " DIAG " + diag(q->records); return r + " " + num(q->resultCount) + " 1+" + num(q->numberOfRecordsReturned) + " " + num(q->nextResultSetPosition); }
    case Z_APDU_presentRequest: { Z_PresentRequest *q = a->u.presentRequest; return r + "presentRequest " + q->resultSetId + " " + num(q->resultSetStartPoint) + "+" + num(q->numberOfRecordsRequested) + " " + oidname(q->preferredRecordSyntax) + " " + zk::esn_text(q->recordComposition); }
    case Z_APDU_presentResponse: { Z_PresentResponse *q = a->u.presentResponse; static const char *st[] = {"OK", "Partial-1", "Partial-2", "Partial-3", "Partial-4", "Failure"}; r += std::string("presentResponse ") + st[*q->presentStatus]; if (q->records && q->records->which != Z_Records_DBOSD) return r + " DIAG " + diag(q->records); return r + " " + num(q->numberOfRecordsReturned) + " " + num(q->nextResultSetPosition); }
    case Z_APDU_scanRequest: { Z_ScanRequest *q = a->u.scanRequest; return r + "scanRequest " + plus(q->databaseNames, q->num_databaseNames) + " " + num(q->numberOfTermsRequested) + " " + num(q->preferredPositionInResponse) + " " + num(q->stepSize) + " " + scan_text(q); }
    case Z_APDU_scanResponse: { Z_ScanResponse *q = a->u.scanResponse; static const char *st[] = {"OK", "partial_1", "partial_2", "partial_3", "partial_4", "partial_5", "failure"}; return r + "scanResponse " + st[*q->scanStatus] + " " + num(q->numberOfEntriesReturned) + " " + num(q->positionOfTerm) + " " + num(q->stepSize); }
    case Z_APDU_deleteResultSetRequest: return r + "deleteResultSetRequest"; case Z_APDU_deleteResultSetResponse: return r + "deleteResultSetResponse";
    case Z_APDU_sortRequest: return r + "sortRequest"; case Z_APDU_sortResponse: return r + "sortResponse";
    case Z_APDU_close: { Z_Close *q = a->u.close; static const char *st[] = {"finished", "shutdown", "systemProblem", "costLimit", "resources", "securityViolation", "protocolError", "lackOfActivity", "peerAbort", "unspecified"}; return r + "close " + num(q->closeReason) + " " + st[*q->closeReason] + (q->diagnosticInformation ? std::string(" ") + q->diagnosticInformation : ""); }
    default: return r + "?"; }
}
// the line category: what matters of request and response
static std::string recdiag(Z_Records *r) { if (!r || r->which == Z_Records_DBOSD) return "OK"; if (r->which == Z_Records_multipleNSD && !r->u.multipleNonSurDiagnostics->num_diagRecs) return "ERROR -"; return "ERROR " + diag(r); }
static std::string line(Z_GDU *q, Z_GDU *p)
{
    if (q->which == Z_GDU_HTTP_Request) { Z_HTTP_Request *h = q->u.HTTP_Request; return std::string(h->method) + " " + h->path + " HTTP/" + h->version + (p && p->which == Z_GDU_HTTP_Response ? " " + std::to_string(p->u.HTTP_Response->code) + " " + std::to_string(p->u.HTTP_Response->content_len) : " ?"); }
    Z_APDU *a = q->u.z3950, *b = p && p->which == Z_GDU_Z3950 ? p->u.z3950 : 0; auto other = [&](const std::string &s, int w) { return b ? b->which == w ? std::string() : s + " ? response=" + std::to_string(b->which) : s + " ?"; };
    std::string o;
    switch (a->which) {
    case Z_APDU_initRequest: { o = other("Init", Z_APDU_initResponse); if (!o.empty()) return o; Z_InitRequest *i = a->u.initRequest; Z_InitResponse *r = b->u.initResponse; std::string d = "-"; if (r->userInformationField) d = ddf(r->userInformationField->u.userInfo1->list[0]->information.externallyDefinedInfo->u.diag1->elements[0]->u.defaultDiagRec);
        return "Init " + (*r->result ? std::string("OK -") : "ERROR " + d) + " ID:" + opt(i->implementationId) + " Name:" + opt(i->implementationName) + " Version:" + opt(i->implementationVersion); }
    case Z_APDU_searchRequest: { o = other("Search", Z_APDU_searchResponse); if (!o.empty()) return o; Z_SearchRequest *s = a->u.searchRequest; Z_SearchResponse *r = b->u.searchResponse; std::string d = recdiag(r->records); return "Search " + plus(s->databaseNames, s->num_databaseNames) + " " + (d == "OK" ? "OK " + num(r->resultCount) + " " + s->resultSetName : d) + " " + oidname(s->preferredRecordSyntax) + " 1+" + (r->numberOfRecordsReturned ? num(r->numberOfRecordsReturned) : "0") + " " + zk::query_text(s->query); }
    case Z_APDU_presentRequest: { o = other("Present", Z_APDU_presentResponse); if (!o.empty()) return o; Z_PresentRequest *s = a->u.presentRequest; return "Present " + recdiag(b->u.presentResponse->records) + " " + oidname(s->preferredRecordSyntax) + " " + s->resultSetId + " " + num(s->resultSetStartPoint) + "+" + num(s->numberOfRecordsRequested); }
    case Z_APDU_scanRequest: { o = other("Scan", Z_APDU_scanResponse); if (!o.empty()) return o; Z_ScanRequest *s = a->u.scanRequest; Z_ScanResponse *r = b->u.scanResponse; return "Scan " + plus(s->databaseNames, s->num_databaseNames) + " " + (*r->scanStatus == 0 ? "OK" : *r->scanStatus == 6 ? "ERROR" : "PARTIAL" + num(r->scanStatus)) + " " + num(r->numberOfEntriesReturned) + " " + (s->preferredPositionInResponse ? num(s->preferredPositionInResponse) : "1") + "+" + num(s->numberOfTermsRequested) + "+" + (r->stepSize ? num(r->stepSize) : "1") + " " + scan_text(s); }
    case Z_APDU_sortRequest: { o = other("sort", Z_APDU_sortResponse); if (!o.empty()) return o; Z_SortRequest *s = a->u.sortRequest; static const char *st[] = {"OK", "PARTIAL", "ERROR"}; return std::string("sort ") + st[*b->u.sortResponse->sortStatus] + " - (" + plus(s->inputResultSetNames, s->num_inputResultSetNames) + ")->" + s->sortedResultSetName; }
    case Z_APDU_deleteResultSetRequest: return "deleteResultSet"; case Z_APDU_close: return "close";
    default: return "?"; }
}
static std::string initopts(Odr_bitmask *m) { std::string r = "init options:"; yaz_init_opt_decode(m, [](const char *n, void *h) { *(std::string *) h += std::string(" ") + n; }, &r); return r; }

// values of a request; odd ones have characters that must not break the entry
static std::string val(Ctx &x, bool odd) { if (odd && x.chance(1, 3)) return x.pick({"a\nb", "x\r\ny", "\nT B 1.2.3.4:1 1 0.000000 Z3950 close", "u\n", "\n"}); return x.pick({"a", "A1", "u-1", "http://h/x?y=1", "\xc3\xa6", "%s%n", "-", "x\"y", "w+v", "0"}); }
static Z_GDU *gdu(ODR o, Z_APDU *a) { Z_GDU *g = (Z_GDU *) odr_malloc(o, sizeof *g); g->which = Z_GDU_Z3950; g->u.z3950 = a; return g; }
static Z_GDU *request(Ctx &x, ODR o, bool odd, bool first)
{
    int k = first ? 0 : x.weighted({2, 6, 5, 4, 2, 1, 1, 3});
    if (k == 0) { Z_APDU *a = zk::init(o); Z_InitRequest *q = a->u.initRequest; for (int i = 0; i < 15; i++) if (x.chance(1, 5)) ODR_MASK_SET(q->options, i);
        int w = x.range(0, 3); if (w == 1) q->idAuthentication = zk::auth_open(o, val(x, odd)); if (w == 2) q->idAuthentication = zk::auth_idpass(o, x.chance(1, 5) ? "" : val(x, odd), "g", "secret"); if (w == 3 && x.coin()) { q->idAuthentication = zk::auth_open(o, "x"); q->idAuthentication->which = Z_IdAuthentication_anonymous; q->idAuthentication->u.anonymous = odr_nullval(); }
        q->implementationId = x.coin() ? odr_strdup(o, val(x, odd).c_str()) : 0; q->implementationName = x.coin() ? odr_strdup(o, val(x, odd).c_str()) : 0; q->implementationVersion = x.coin() ? odr_strdup(o, val(x, odd).c_str()) : 0;
        q->otherInfo = 0; std::vector<std::string> v; for (int n = x.weighted({3, 2, 1}); n > 0; n--) v.push_back("h" + std::to_string(n) + ":210/" + val(x, odd)); zk::set_vhosts(o, &q->otherInfo, v); return gdu(o, a); }
    if (k == 1) { zk::Search s; s.dbs.clear(); for (int n = x.range(1, 3); n > 0; n--) s.dbs.push_back(val(x, odd)); s.set = val(x, odd); s.syn = x.pick({"", "xml", "usmarc", "sutrs"}); s.query = x.pick({"x", "@attr 1=4 y", "@and a @or b c", "\"two words\"", "@set default", "\"\xc3\xa5\""}); if (odd && x.coin()) s.query = "\"a\nb\""; return gdu(o, zk::search(o, s)); }
    if (k == 2) { zk::Present s; s.set = val(x, odd); s.start = x.range(-1, 30); s.num = x.range(0, 40); s.syn = x.pick({"", "xml", "usmarc"}); s.esn = x.coin() ? "" : val(x, odd); return gdu(o, zk::present(o, s)); }
    if (k == 3) { zk::Scan s; s.dbs.clear(); for (int n = x.range(1, 2); n > 0; n--) s.dbs.push_back(val(x, odd)); s.term = x.pick({"a", "b c", "\xc3\xa5"}); s.num = x.range(0, 20); s.pos = x.range(-1, 5); s.step = x.range(-1, 3); return gdu(o, zk::scan(o, s)); }
    if (k == 4) { Z_APDU *a = zget_APDU(o, Z_APDU_sortRequest); Z_SortRequest *s = a->u.sortRequest; std::vector<std::string> v; for (int n = x.range(1, 2); n > 0; n--) v.push_back(val(x, odd)); zk::strings(o, v, &s->num_inputResultSetNames, &s->inputResultSetNames); s->sortedResultSetName = odr_strdup(o, val(x, odd).c_str()); s->sortSequence = yaz_sort_spec(o, "1=4 a"); return gdu(o, a); }
    if (k == 5) { Z_APDU *a = zget_APDU(o, Z_APDU_deleteResultSetRequest); *a->u.deleteResultSetRequest->deleteFunction = Z_DeleteResultSetRequest_all; return gdu(o, a); }
    if (k == 6) { Z_APDU *a = zk::close(o, x.range(0, 9)); if (x.coin()) a->u.close->diagnosticInformation = odr_strdup(o, val(x, odd).c_str()); return gdu(o, a); }
    Z_GDU *g = z_get_HTTP_Request(o); g->u.HTTP_Request->method = odr_strdup(o, x.pick({"GET", "POST", "HEAD"}).c_str()); g->u.HTTP_Request->version = odr_strdup(o, x.pick({"1.0", "1.1"}).c_str()); g->u.HTTP_Request->path = odr_strdup(o, x.pick({"/", "/x?y=z", "/%20", "/a%s"}).c_str()); return g;
}
static Z_DefaultDiagFormat *dd(Ctx &x, ODR o, bool odd) { return zget_DefaultDiagFormat(o, x.range(1, 130), val(x, odd).c_str()); }
static Z_Records *some_records(Ctx &x, ODR o, bool odd)
{
    Z_Records *r; int k = x.range(0, 3); if (k == 0) return 0;
    if (k == 1) { Z_NamePlusRecordList *l = zk::record_list(o, x.range(0, 2)); for (int i = 0; i < l->num_records; i++) l->records[i] = zk::record(o, "d", yaz_oid_recsyn_xml, "<r/>"); return zk::records(o, l); }
    r = (Z_Records *) odr_malloc(o, sizeof *r);
    if (k == 2) { r->which = Z_Records_NSD; r->u.nonSurrogateDiagnostic = dd(x, o, odd); return r; }
    r->which = Z_Records_multipleNSD; Z_DiagRecs *m = r->u.multipleNonSurDiagnostics = (Z_DiagRecs *) odr_malloc(o, sizeof(Z_DiagRecs)); m->num_diagRecs = x.range(1, 2); m->diagRecs = (Z_DiagRec **) odr_malloc(o, sizeof(Z_DiagRec *) * 3); for (int i = 0; i < m->num_diagRecs; i++) { m->diagRecs[i] = zget_DiagRec(o, x.range(1, 130), val(x, odd).c_str()); } return r;
}
static Z_GDU *response(Ctx &x, ODR o, Z_GDU *q, bool odd)
{
    if (x.chance(1, 12)) return 0;
    if (q->which == Z_GDU_HTTP_Request) { Z_GDU *g = z_get_HTTP_Response(o, x.pick({200, 404, 500})); std::string b = x.pick({"", "abc", "0123456789"}); g->u.HTTP_Response->content_buf = odr_strdup(o, b.c_str()); g->u.HTTP_Response->content_len = (int) b.size(); return g; }
    Z_APDU *a = q->u.z3950; if (x.chance(1, 12)) return gdu(o, zk::close_reply(o, a, x.range(0, 9), x.coin() ? val(x, odd).c_str() : 0));
    switch (a->which) {
    case Z_APDU_initRequest: { Z_APDU *r = zk::init_reply(o, a, x.chance(1, 3) ? x.range(1, 1024) : 0, val(x, odd).c_str()); Z_InitResponse *i = r->u.initResponse; if (x.chance(1, 8)) *i->result = 0; i->implementationId = x.coin() ? odr_strdup(o, val(x, odd).c_str()) : 0; i->implementationName = x.coin() ? odr_strdup(o, val(x, odd).c_str()) : 0; i->implementationVersion = x.coin() ? odr_strdup(o, val(x, odd).c_str()) : 0; for (int k = 0; k < 15; k++) if (x.chance(1, 3)) ODR_MASK_SET(i->options, k); return gdu(o, r); }
    case Z_APDU_searchRequest: { Z_APDU *r = zk::search_reply(o, a, 0, 0); Z_SearchResponse *s = r->u.searchResponse; s->records = some_records(x, o, odd); *s->searchStatus = !(s->records && s->records->which != Z_Records_DBOSD); *s->resultCount = x.pick({0, 1, 7, 123456}); *s->numberOfRecordsReturned = x.range(0, 3); *s->nextResultSetPosition = x.range(0, 9); return gdu(o, r); }
    case Z_APDU_presentRequest: { Z_APDU *r = zk::present_reply(o, a, 0, 0); Z_PresentResponse *s = r->u.presentResponse; s->records = some_records(x, o, odd); *s->presentStatus = x.range(0, 5); *s->numberOfRecordsReturned = x.range(0, 3); *s->nextResultSetPosition = x.range(0, 9); return gdu(o, r); }
    case Z_APDU_scanRequest: { Z_APDU *r = zk::scan_reply(o, a, 0, 0); Z_ScanResponse *s = r->u.scanResponse; *s->scanStatus = x.range(0, 6); *s->numberOfEntriesReturned = x.range(0, 30); s->positionOfTerm = x.coin() ? odr_intdup(o, x.range(0, 9)) : 0; s->stepSize = x.coin() ? odr_intdup(o, x.range(0, 9)) : 0; return gdu(o, r); }
    case Z_APDU_sortRequest: { Z_APDU *r = zk::reply(o, Z_APDU_sortResponse, a); *r->u.sortResponse->sortStatus = x.range(0, 2); return gdu(o, r); }
    case Z_APDU_deleteResultSetRequest: return gdu(o, zk::reply(o, Z_APDU_deleteResultSetResponse, a));
    default: return gdu(o, zk::close_reply(o, a, 0, 0)); }
}
// as it is after transmission
static Z_GDU *copy(ODR o, Z_GDU *g) { if (!g) return 0; std::string b = zk::encode(g); ODR d = odr_createmem(ODR_DECODE); char *m = (char *) odr_malloc(o, b.size() + 1); memcpy(m, b.data(), b.size()); odr_setbuf(d, m, (int) b.size(), 0); Z_GDU *r = 0; z_GDU(d, &r, 0, 0); NMEM n = odr_extract_mem(d); nmem_transfer(odr_getmem(o), n); nmem_destroy(n); odr_destroy(d); if (!r || (r->which == Z_GDU_Z3950 && !r->u.z3950)) throw Fail("generator: cannot be transmitted"); return r; }
// one line: tokens, with the durations of responses checked and put as *
struct Want { std::string head; int dur; std::string tail; bool raw; };   // dur 0 none, 1 zero, 2 any
static std::string flat(const std::string &s) { std::string r; for (auto &t : split(s)) r += (r.empty() ? "" : " ") + t; return r; }
static bool number(const std::string &s) { size_t d = s.find('.'); return d != std::string::npos && d > 0 && s.size() - d == 7 && s.find_first_not_of("0123456789.") == std::string::npos && s.find('.', d + 1) == std::string::npos; }
static bool fits(const Want &w, const std::string &l)
{
    if (w.raw) return w.head == l;
    std::string f = flat(l), h = flat(w.head), t = flat(w.tail); if (w.dur == 0) return f == flat(h + " " + t);
    std::string pre = h + (w.dur == 3 ? "" : " "); if (f.compare(0, pre.size(), pre)) return false;
    std::string rest = f.substr(pre.size()), d = rest.substr(0, rest.find(' ')); rest = d.size() < rest.size() ? rest.substr(d.size() + 1) : "";
    return number(d) && (w.dur != 1 || d == "0.000000") && rest == t;
}
static std::string show(const Want &w) { return w.raw ? w.head : flat(w.head) + (w.dur == 3 ? "<elapsed> " : w.dur ? " <elapsed> " : " ") + flat(w.tail); }
struct Expect { Cfg c; std::map<unsigned long, std::string> user; std::string stamp; };
static void want_dump(std::vector<Want> &v, Z_GDU *g) { std::istringstream s(zk::print(g)); std::string l; while (std::getline(s, l)) v.push_back({l, 0, "", true}); }
static void want_request(Expect &e, const zk::Client &c, const std::string &who, Z_GDU *g, std::vector<Want> &v)
{
    unsigned long id = c.s.id(); if (g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_initRequest) { Z_IdAuthentication *a = g->u.z3950->u.initRequest->idAuthentication; if (a) e.user[id] = a->which == Z_IdAuthentication_open ? a->u.open : a->which == Z_IdAuthentication_idPass ? opt(a->u.idPass->userId) : "-"; }
    std::string m = e.c.message.empty() ? "-" : e.c.message, p = e.stamp + m + " ", u = e.user.count(id) ? e.user[id] : "-", pk = who + " " + std::to_string(id);
    if (e.c.access) v.push_back({p + pk, 1, text(g), false}); if (e.c.user) v.push_back({p + u + " " + pk, 1, text(g), false});
    if (e.c.rs) v.push_back({p + "request id=" + std::to_string(id) + " close=no", 0, "", false});
    if (e.c.opts && g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_initRequest) v.push_back({p + initopts(g->u.z3950->u.initRequest->options), 0, "", false});
    if (e.c.ra) want_dump(v, g);
}
static void want_response(Expect &e, const zk::Client &c, const std::string &who, Z_GDU *q, Z_GDU *g, bool closed, std::vector<Want> &v)
{
    unsigned long id = c.s.id(); std::string m = e.c.message.empty() ? "-" : e.c.message, p = e.stamp + m + " ", u = e.user.count(id) ? e.user[id] : "-", pk = who + " " + std::to_string(id);
    if (e.c.line) v.push_back({p + pk, 2, line(q, g), false});
    if (g && e.c.access) v.push_back({p + pk, 2, text(g), false}); if (g && e.c.user) v.push_back({p + u + " " + pk, 2, text(g), false});
    if (e.c.ps) v.push_back({p + "response id=" + std::to_string(id) + " close=" + (closed ? "yes" : "no") + " duration=", 3, "", false});
    if (g && e.c.opts && g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_initResponse) v.push_back({p + initopts(g->u.z3950->u.initResponse->options), 0, "", false});
    if (g && e.c.pa) want_dump(v, g);
}
static void some_config(Ctx &x, Expect &e, bool dumps)
{
    Cfg &c = e.c; c.message = x.pick({"", "B", "front", "a%sb", "<m>"}); c.access = !x.chance(1, 4); c.user = x.coin(); c.rs = x.chance(1, 3); c.ps = x.chance(1, 3); c.opts = x.chance(1, 3); c.line = x.coin(); c.file = !x.chance(1, 6);
    if (dumps) { c.ra = c.file && x.chance(1, 4); c.pa = c.file && x.chance(1, 4); }
    c.format = c.file ? x.pick({"T", "[T]", "a:b-c/d", "%%x", "%Y"}) : ""; e.stamp = c.file ? c.format == "%%x" ? "%x " : c.format == "%Y" ? "" : c.format + " " : "";
}
static bool year(const std::string &l) { return l.size() > 5 && l[4] == ' ' && l.find_first_not_of("0123456789") == 4 && l.compare(0, 2, "20") == 0; }
static void entries(Ctx &x)
{
    bool odd = false; Expect e; some_config(x, e, true); std::string xml = config(x, e.c); size_t off = size_of(logfile(0)), yoff = size_of(logfile(0) + "y"); YazLog yaz_log_file; auto news = [&]() { std::string s = slurp_from(e.c.file ? logfile(0) : logfile(0) + "y", e.c.file ? off : yoff); (e.c.file ? off : yoff) += s.size(); x.check(s.empty() || s.back() == '\n', "the log ends within a line"); auto v = lines_of(s); if (!e.c.file) for (auto &l : v) { x.check(l.compare(0, 8, "Y [log] ") == 0, "line <" + l + ">"); l = l.substr(8); } return v; };
    struct Round { Z_GDU *q, *p; bool close; std::string print; } cur{}; zk::Mem mem; int moved = 0; x.desc << xml;
    zk::hooks().fn = [&](const zk::Hook *, zk::mp::Package &p) {
        if (p.session().is_closed()) return;
        moved++; if (zk::print(p.request().get()) != cur.print) x.fail("the request was changed"); if (cur.close) p.session().close(); if (cur.p) p.response() = yazpp_1::GDU(cur.p); };
    struct Off { ~Off() { zk::hooks().fn = nullptr; } } offh;
    zk::Net net({&metaproxy_1_filter_log}, zk::route("start", xml + zk::hook("b"))); std::vector<std::unique_ptr<zk::Client> > cs; std::vector<std::string> who; int nc = x.weighted({2, 2, 1}) + 1;
    for (int i = 0; i < nc; i++) { std::string peer = "10.0.0." + std::to_string(x.range(1, 3)); cs.emplace_back(new zk::Client(net, peer)); who.push_back(peer + ":" + std::to_string(cs[i]->s.id())); }
    int n = x.range(1, 8), done = 0;
    for (int i = 0; i < n; i++) {
        int k = x.range(0, nc - 1); zk::Client &c = *cs[k]; if (c.closed) continue;
        bool first = !e.user.count(c.s.id()) && !x.chance(1, 3); cur.q = copy(mem, request(x, mem, odd, first)); cur.p = copy(mem, response(x, mem, cur.q, odd)); cur.close = x.chance(1, 12); cur.print = zk::print(cur.q);
        std::vector<Want> w; want_request(e, c, who[k], cur.q, w); want_response(e, c, who[k], cur.q, cur.p, cur.close, w);
        x.desc << " [" << (cur.q->which == Z_GDU_Z3950 ? zk::name(cur.q->u.z3950->which) : "http") << "]"; Z_GDU *r = c.send(cur.q); done++;
        x.eq(moved, done, "packages that reached the next filter"); x.eq(zk::print(r), zk::print(cur.p), "response");
        std::vector<std::string> got = news();
        for (size_t j = 0; j < std::max(got.size(), w.size()); j++) {
            if (j >= got.size()) x.fail("no entry: " + show(w[j])); if (j >= w.size()) x.fail("additional line: " + got[j]);
            std::string l = got[j]; if (!w[j].raw && e.c.format == "%Y") { x.check(year(l), "no time in " + l); l = l.substr(5); }
            if (!fits(w[j], l)) x.fail("line <" + l + "> should be <" + show(w[j]) + ">");
        }
    }
    x.nontrivial = done > 1 && (e.c.access || e.c.user || e.c.line);
    // a closing package has no request: only session entries
    for (int k = 0; k < nc; k++) { unsigned long id = cs[k]->s.id(); std::string m = e.stamp + (e.c.message.empty() ? "-" : e.c.message); cs[k]->hangup(); std::vector<std::string> got = news();
        std::vector<Want> w; if (e.c.rs) w.push_back({m + " request id=" + std::to_string(id) + " close=yes", 0, "", false}); if (e.c.ps) w.push_back({m + " response id=" + std::to_string(id) + " close=yes duration=", 3, "", false}); x.eq(got.size(), w.size(), "entries of the end of a session"); for (size_t j = 0; j < w.size(); j++) if (!fits(w[j], e.c.format == "%Y" ? got[j].substr(std::min<size_t>(5, got[j].size())) : got[j])) x.fail("line <" + got[j] + "> should be <" + show(w[j]) + ">"); }
}
// whatever the values are, there is one line per entry
static void strict(Ctx &x)
{
    Expect e; some_config(x, e, false); e.c.file = true; e.c.format = "T"; e.stamp = "T "; std::string xml = config(x, e.c); size_t off = size_of(logfile(0)); zk::Mem mem; Z_GDU *resp = 0;
    zk::hooks().fn = [&](const zk::Hook *, zk::mp::Package &p) { if (resp) p.response() = yazpp_1::GDU(resp); }; struct Off { ~Off() { zk::hooks().fn = nullptr; } } offh;
    zk::Net net({&metaproxy_1_filter_log}, zk::route("start", xml + zk::hook("b"))); zk::Client c(net);
    for (int n = x.range(1, 5), i = 0; i < n && !c.closed; i++) {
        Z_GDU *q = copy(mem, request(x, mem, true, i == 0 && x.coin())); resp = copy(mem, response(x, mem, q, true)); std::vector<Want> w; std::string who = "127.0.0.1:" + std::to_string(c.s.id()); want_request(e, c, who, q, w); want_response(e, c, who, q, resp, false, w); for (auto &k : w) { if (k.head.find('\n') != std::string::npos || k.tail.find('\n') != std::string::npos) x.nontrivial = true; }
        x.desc << " " << (q->which == Z_GDU_Z3950 ? zk::name(q->u.z3950->which) : "http"); c.send(q);
        std::string s = slurp_from(logfile(0), off); off += s.size(); auto got = lines_of(s); if (got.size() != w.size()) x.fail("lines: " + std::to_string(got.size()) + ", entries: " + std::to_string(w.size()) + "\n" + s);
        for (auto &l : got) x.check(l.compare(0, 2, "T ") == 0 && l.find('\r') == std::string::npos, "line <" + l + ">");
    }
    resp = 0;
}
// sessions of several threads, two filters on one file: entries are whole and in the order of each session
static void threads(Ctx &x)
{
    Expect e; some_config(x, e, true); e.c.file = true; e.c.ra = e.c.pa = x.coin(); e.c.rs = e.c.ps = false; e.c.opts = false; if (!e.c.ra) e.c.access = true; e.c.format = "T"; e.stamp = "T "; int T = x.range(2, 4), n = x.range(2, 8); bool two = x.coin();
    std::string f = config(x, e.c), a = f, b = f; if (e.c.message.empty()) { e.c.message = "A"; f = config(x, e.c); a = b = f; }
    e.c.message = "A"; a = config(x, e.c); e.c.message = "B"; b = config(x, e.c); size_t off = size_of(logfile(0)); x.desc << T << " threads, " << n << " requests " << a; x.nontrivial = n > 2;
    zk::hooks().fn = [&](const zk::Hook *, zk::mp::Package &p) { Z_GDU *g = p.request().get(); if (!g || p.session().is_closed()) return; zk::Mem o; p.response() = zk::search_reply(o, g->u.z3950, 0, 0); }; struct Off { ~Off() { zk::hooks().fn = nullptr; } } offh;
    std::map<std::string, std::vector<std::string> > want; std::mutex m; std::string bad;
    {
        zk::Net net({&metaproxy_1_filter_log}, zk::route("start", a + (two ? b : "") + zk::hook("b"))); std::vector<std::thread> th;
        for (int t = 0; t < T; t++) th.emplace_back([&, t] {
            zk::Client c(net, "10.0.0." + std::to_string(t)); std::vector<std::string> w; std::string id = std::to_string(c.s.id());
            for (int i = 0; i < n; i++) { zk::Mem o; zk::Search s; s.set = "s" + id + "_" + std::to_string(i); s.query = std::string(200, 'a' + (char) t); c.send(zk::search(o, s)); if (e.c.access) w.push_back(s.set); }
            std::lock_guard<std::mutex> lk(m); want[id] = w; });
        for (auto &t : th) t.join();
    }
    auto got = lines_of(slurp_from(logfile(0), off)); std::map<std::string, std::vector<std::string> > seen; int nl = two ? 2 : 1; size_t depth = 0; std::string type;
    for (auto &l : got) {
        if (depth == 0 && (l.compare(0, 4, "T A ") == 0 || l.compare(0, 4, "T B ") == 0)) { auto t = split(l); if (e.c.user && t.size() > 2 && t[2] == "-") { if (e.c.access) continue; } else if (e.c.line && t.size() > 5 && t[5] != "Z3950") continue; if (t.size() > 6 && t[6] == "searchRequest" && t.size() > 8 && t[1] == "A") seen[t[3]].push_back(t[8]); continue; }
        // a dump: its first line is a type and a brace, it is not interrupted
        if (!e.c.ra) x.fail("line <" + l + ">");
        if (depth == 0) { x.check(l == "searchRequest {" || l == "searchResponse {" || l.empty(), "line <" + l + ">"); if (!l.empty()) depth = 1; continue; }
        if (l.compare(0, 2, "T ") == 0) x.fail("an entry in the middle of a dump: " + l); if (l == "}") depth = 0;
    }
    if (e.c.access) for (auto &w : want) x.check(seen[w.first] == w.second, "requests of session " + w.first + ": " + std::to_string(seen[w.first].size()) + " entries of " + std::to_string(w.second.size()) + " in order");
    size_t dumps = 0; for (auto &l : got) dumps += l == "searchRequest {" || l == "searchResponse {"; if (e.c.ra) x.eq(dumps, (size_t) (T * n * 2 * nl), "dumps");
}
int main(int argc, char **argv)
{
    zk::quiet();
    Check c; c.id = "C24"; const char *v = getenv("PBT_VARIANT"); bool tsan = v && !strcmp(v, "tsan");
    if (!tsan) { c.add("entries", 30000, 600000, "at least two requests logged by access, user-access or line", entries); c.add("strict", 15000, 300000, "a value with a line break is logged", strict); }
    c.add("threads", tsan ? 300 : 3000, tsan ? 4000 : 40000, "more than two requests per thread", threads, false);
    return run(c, argc, argv);
}
