// SOURCES: kit filter_z3950_client
// SHIM: core net
// VARIANTS: asan tsan
// The Z39.50 client: what a session sends reaches the one connection of that session, and its answers come back to it.
#include "../models/netkit.hpp"
#include "../models/anyz.hpp"
#include <yaz/charneg.h>
ZK_FILTER(z3950_client)
using namespace pbt;
static std::string scratch_dir() { static std::string d = scratch(); return d; }
struct Want { std::string how; int type = 0; std::string key; };
// the answer of the server to a request; host: what the proxy adds to diagnostics
static Z_APDU *answer(ODR o, Z_APDU *q, const std::string &key, const std::string &how, const std::string &host)
{
    std::string add = how == "bare" ? "" : key + " says", be = host.empty() ? "" : "(backend=" + host + ")", full = add.empty() || be.empty() ? add + be : add + " " + be; bool diag = how == "diag" || how == "bare" || how == "multi", fixed = q->which == Z_APDU_initRequest || q->which == Z_APDU_searchRequest || q->which == Z_APDU_presentRequest; if (!fixed) full = add;
    if (how == "closepdu") return zk::close_reply(o, q, Z_Close_shutdown, key.c_str());
    int rt = zk::response_type(q->which); Z_APDU *a;
    switch (q->which) {
    case Z_APDU_initRequest: a = zk::init_reply(o, q, diag ? 1014 : 0, full.c_str()); a->u.initResponse->implementationName = odr_strdup(o, key.c_str()); break;
    case Z_APDU_searchRequest: case Z_APDU_presentRequest: {
        bool s = q->which == Z_APDU_searchRequest; a = s ? zk::search_reply(o, q, diag ? 3 : 0, full.c_str()) : zk::present_reply(o, q, diag ? 13 : 0, full.c_str()); Z_Records **r = s ? &a->u.searchResponse->records : &a->u.presentResponse->records;
        if (how == "multi") {
            *r = (Z_Records *) odr_malloc(o, sizeof **r); (*r)->which = Z_Records_multipleNSD; Z_DiagRecs *d = (*r)->u.multipleNonSurDiagnostics = (Z_DiagRecs *) odr_malloc(o, sizeof *d); int n = d->num_diagRecs = (int) (hash(key) % 4); d->diagRecs = (Z_DiagRec **) odr_malloc(o, sizeof(Z_DiagRec *) * (n + 1));
            for (int i = 0; i < n; i++) { std::string t = i == 1 ? be : full; d->diagRecs[i] = zget_DiagRec(o, 4 + i, t.c_str()); if (i == 1 && be.empty()) d->diagRecs[i]->u.defaultFormat->u.v2Addinfo = odr_strdup(o, ""); }
        } else if (!diag) {
            Z_NamePlusRecordList *l = zk::record_list(o, 2); for (int i = 0; i < 2; i++) { std::string b = key + "/" + std::to_string(i); if (how == "big") b.resize(40000 + hash(key) % 90000, 'r'); l->records[i] = i == 1 && how == "sur" ? zget_surrogateDiagRec(o, "D", 14, add.c_str()) : zk::record(o, "D", yaz_oid_recsyn_xml, b); } *r = zk::records(o, l);
        }
        break; }
    case Z_APDU_scanRequest: a = zk::scan_reply(o, q, diag ? 5 : 0, full.c_str()); break;
    default: a = zk::reply(o, rt, q); if (a->which == Z_APDU_close) a->u.close->diagnosticInformation = odr_strdup(o, key.c_str());
    }
    return a;
}
static std::string text(Z_APDU *a) { Z_GDU g; g.which = Z_GDU_Z3950; g.u.z3950 = a; return zk::print(&g); }
static std::string bytes(Z_APDU *a) { Z_GDU g; g.which = Z_GDU_Z3950; g.u.z3950 = a; return zk::encode(&g); }
static void split(const std::string &ref, std::string &key, std::string &how) { size_t a = ref.find('/'); key = ref.substr(0, a); how = a == std::string::npos ? "" : ref.substr(a + 1); }
struct World {
    nk::Target t; std::unique_ptr<zk::Net> net; std::vector<std::string> hosts; std::string dead; std::map<std::string, int> where; std::atomic<int> released{0}; std::mutex m; std::condition_variable cv; bool waiting = false, release = false; std::atomic<bool> mute{false};
    nk::Target::Out reply(nk::Target::Link &, const nk::Msg &q) {
        nk::Target::Out o; Z_APDU *a = q.apdu(); if (!a) { o.close = true; return o; }
        std::string key, how; split(q.ref(), key, how);
        if (a->which == Z_APDU_triggerResourceControlRequest || how == "silent" || mute) return o;
        if (how == "fin") { o.close = true; return o; }
        zk::Mem d; Z_APDU *r = answer(d, a, key, how, ""); o.bytes = bytes(r);
        if (how == "half") { o.bytes.resize(o.bytes.size() / 2); o.close = true; }
        if (how == "junk") { o.bytes = std::string("\xa2\x05\x01\x02\x03\x04\x05") + std::string(20, 'z'); o.close = true; }
        if (how == "closepdu" || how == "after") o.close = true;
        if (how == "slow") o.nap = 1 + (int) (hash(key) % 8);
        return o;
    }
    World(Ctx &x, const std::string &conf, int unit) {
        (void) x; yazpp_1::shim_second_ms = unit; t.answer = [this](nk::Target::Link &k, const nk::Msg &q) { return reply(k, q); };
        int a = t.listen_tcp(), b = t.listen_tcp(); t.listen_unix(scratch_dir() + "/t" + std::to_string(getpid())); hosts = {"127.0.0.1:" + num(a), "tcp:localhost:" + num(b) + "/Default", "unix:" + t.paths[0]}; dead = "127.0.0.1:" + num(t.listen_tcp(-1, false)); t.go();
        zk::hooks().fn = [this](const zk::Hook *h, zk::mp::Package &p) { rest(h, p); };
        std::string c = conf; for (int i = 0; i < 3; i++) { std::string k = "$" + std::to_string(i); for (size_t f; (f = c.find(k)) != std::string::npos;) c.replace(f, 2, hosts[i]); }
        net.reset(new zk::Net({&metaproxy_1_filter_z3950_client}, zk::route("start", "<filter type=\"z3950_client\">" + c + "</filter>" + zk::hook("rest"))));
    }
    static std::string num(int n) { return std::to_string(n); }
    void rest(const zk::Hook *, zk::mp::Package &p) {
        Z_GDU *g = p.request().get(); if (!g || g->which != Z_GDU_HTTP_Request) return;
        if (!strcmp(g->u.HTTP_Request->path, "/wait")) { std::unique_lock<std::mutex> l(m); waiting = true; cv.notify_all(); cv.wait_for(l, std::chrono::seconds(8), [this] { return release; }); }
        zk::Mem o; Z_GDU *r = z_get_HTTP_Response(o, 203); p.response() = r;
    }
    ~World() { net.reset(); zk::hooks().fn = nullptr; }
};
static std::string num(int n) { return std::to_string(n); }
struct Ses {
    std::unique_ptr<zk::Client> c; std::string host; int link = -1; bool inited = false, failed = false, sent_close = false, maydie = false; std::vector<std::string> sent; int answered = 0;
};
struct Conf { std::string xml, def, force, charset; bool close = false, ip = false; int max = 0, wait = 0, init_t = 10, gen_t = 30; };
static Conf conf(Ctx &x, bool faults)
{
    Conf c; if (x.coin()) { c.def = "$" + num(x.range(0, 2)); c.xml += "<default_target>" + c.def + "</default_target>"; }
    if (x.chance(1, 5)) { c.force = "$" + num(x.range(0, 2)); c.xml += "<force_target>" + c.force + "</force_target>"; }
    if (x.coin()) { c.close = x.coin(); c.xml += std::string("<force_close>") + (c.close ? "true" : "false") + "</force_close>"; }
    if (x.coin()) { c.ip = x.coin(); c.xml += std::string("<client_ip>") + (c.ip ? "true" : "false") + "</client_ip>"; }
    if (x.chance(1, 3)) { c.charset = x.pick({"UTF-8", "ISO-8859-1"}); c.xml += "<charset>" + c.charset + "</charset>"; }
    if (x.chance(1, 3)) { c.max = x.range(1, 3); c.xml += "<max-sockets>" + num(c.max) + "</max-sockets>"; } c.xml += "<max-sockets-timeout>0</max-sockets-timeout>";
    if (faults) { c.init_t = x.range(2, 4); c.gen_t = x.range(2, 5); c.xml += "<init-timeout>" + num(c.init_t) + "</init-timeout><timeout>" + num(c.gen_t) + "</timeout>"; }
    return c;
}
// what a string of other information says, in order, without the targets
static std::vector<std::string> infos(Z_OtherInformation *oi, std::string *ip, std::string *charset, bool drop_hosts)
{
    std::vector<std::string> r;
    for (int i = 0; oi && i < oi->num_elements; i++) {
        Z_OtherInformationUnit *u = oi->list[i]; std::string cat = u->category && u->category->categoryTypeId ? zk::oid_text(u->category->categoryTypeId) : "-";
        if (u->which == Z_OtherInfo_characterInfo) { if (cat == zk::oid_text(yaz_oid_userinfo_client_ip)) { *ip += "[" + std::string(u->information.characterInfo) + "]"; continue; } if (cat == zk::oid_text(yaz_oid_userinfo_proxy) && drop_hosts) continue; r.push_back(cat + "=" + u->information.characterInfo); }
        else if (u->which == Z_OtherInfo_externallyDefinedInfo && u->information.externallyDefinedInfo && u->information.externallyDefinedInfo->which == Z_External_charSetandLanguageNegotiation) {
            Z_CharSetandLanguageNegotiation *n = u->information.externallyDefinedInfo->u.charNeg3; NMEM m = nmem_create(); char **cs = 0, **la = 0; int nc = 0, nl = 0, rec = 0; yaz_get_proposal_charneg(m, n, &cs, &nc, &la, &nl, &rec); *charset += "["; for (int k = 0; k < nc; k++) *charset += cs[k]; *charset += "]"; nmem_destroy(m);
        } else r.push_back(cat + "!" + num(u->which));
    }
    std::sort(r.begin(), r.end()); return r;
}
static Z_DefaultDiagFormat *init_diag(Z_InitResponse *r)
{
    Z_External *e = r->userInformationField; if (!e || e->which != Z_External_userInfo1 || !e->u.userInfo1->num_elements) return 0;
    Z_OtherInformationUnit *u = e->u.userInfo1->list[0]; if (u->which != Z_OtherInfo_externallyDefinedInfo || u->information.externallyDefinedInfo->which != Z_External_diag1) return 0;
    Z_DiagnosticFormat *d = u->information.externallyDefinedInfo->u.diag1; return d->num && d->elements[0]->which == Z_DiagnosticFormat_s_defaultDiagRec ? d->elements[0]->u.defaultDiagRec : 0;
}
struct Run {
    Ctx &x; World &w; Conf cf; std::vector<std::unique_ptr<Ses> > all; int no = 0, live_max = 0, faults = 0, good = 0; std::set<int> mine;
    std::string sub(std::string s) { for (int i = 0; i < 3; i++) { std::string k = "$" + num(i); for (size_t f; (f = s.find(k)) != std::string::npos;) s.replace(f, 2, w.hosts[i]); } return s; }
    int target(const std::string &h) { for (int i = 0; i < 3; i++) if (w.hosts[i] == h) return i; return -1; }
    int in_use(const std::string &h) { int n = 0; for (auto &s : all) n += s->link >= 0 && !s->failed && s->host == h; return n; }
    void expect_close(Ses &s, Z_GDU *g, const std::string &ref, int reason, const std::string &what) {
        x.check(g && g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_close, what + ": no Close but " + zk::print(g)); x.eq((int) *g->u.z3950->u.close->closeReason, reason, what + ": reason"); x.eq(zk::get_ref(g->u.z3950), ref, what + ": reference"); x.check(s.c->closed, what + ": the session stays open");
    }
    void init(Ses &s) {
        zk::Mem o; std::string how = x.pick({"ok", "ok", "ok", "ok", "slow", "diag", "bare", "fin", "half", "junk", "after", "closepdu"}), ref = "k" + num(++no) + "/" + how, key = ref.substr(0, ref.find('/')); if (x.chance(1, 40)) { how = "silent"; ref = key + "/silent"; }
        Z_APDU *a = zk::init(o, {Z_Options_search, Z_Options_present}, ref); Z_OtherInformation **oi = &a->u.initRequest->otherInfo; std::string ip0, cs0;
        int nv = x.weighted({2, 6, 1}); std::vector<std::string> vh; for (int i = 0; i < nv; i++) { int k = x.range(0, 7); vh.push_back(k < 6 ? w.hosts[k % 3] : k == 6 ? w.dead : x.pick({"", "127.0.0.1:bad:", "unix:/nonexistent/s", "bogus:xx"})); }
        if (x.chance(1, 4)) { ip0 = "10.0.0." + num(x.range(1, 9)); yaz_oi_set_string_oid(oi, o, yaz_oid_userinfo_client_ip, 1, ip0.c_str()); }
        if (x.chance(1, 4)) yaz_oi_set_string_oid(oi, o, yaz_oid_userinfo_cookie, 1, ("c" + key).c_str());
        zk::set_vhosts(o, oi, vh);
        if (x.chance(1, 6)) { cs0 = "ISO-8859-5"; Z_OtherInformationUnit *u = yaz_oi_update(oi, o, 0, 0, 0); u->which = Z_OtherInfo_externallyDefinedInfo; const char *l[] = {"ISO-8859-5"}; u->information.externallyDefinedInfo = yaz_set_proposal_charneg(o, l, 1, 0, 0, 1); ODR_MASK_SET(a->u.initRequest->options, Z_Options_negotiationModel); }
        if (x.chance(1, 4)) a->u.initRequest->idAuthentication = zk::auth_idpass(o, "u", "", "p" + key);
        std::string before = bytes(a); int maxs = cf.max; if (x.chance(1, 6)) { maxs = x.range(1, 3); s.c->o.set_max_sockets(maxs); }
        std::string host = cf.force.size() ? sub(cf.force) : nv == 1 ? vh[0] : sub(cf.def);
        x.desc << "init " << how << " [";
        for (auto &v : vh) x.desc << q(v.find("127") == 0 || target(v) < 0 ? v == w.dead ? std::string("dead") : v : "$" + num(target(v))) << " ";
        x.desc << "] ";
        size_t links; { std::lock_guard<std::mutex> l(w.t.m); links = w.t.links.size(); }
        pace(how); long long t0 = nk::ms(); Z_GDU *g = s.c->send(a); long long dt = nk::ms() - t0; Z_InitResponse *ir = zk::init_of(g); int code = 0; std::string add; if (Z_DefaultDiagFormat *df = ir ? init_diag(ir) : 0) { code = (int) *df->condition; add = df->u.v2Addinfo; }
        auto none = [&](const std::string &what) { std::lock_guard<std::mutex> l(w.t.m); for (size_t i = links; i < w.t.links.size(); i++) if (!mine.count((int) i)) x.check(w.t.links[i]->pdus.empty(), what + ": a server was asked all the same"); };
        auto refused = [&](int want, const std::string &msg) { x.check(ir != 0, "init refused for " + msg + ": no init response but " + zk::print(g)); x.eq(code, want, "diagnostic of the refused init"); x.check(add.find(msg) != std::string::npos, "addinfo of the refused init: " + add); x.check(!*ir->result, "refused init says it succeeded"); x.eq(zk::get_ref(g->u.z3950), ref, "reference of the refused init"); x.check(s.c->closed, "session open after a refused init"); none("refused init"); s.failed = true; };
        if (cf.force.empty() && nv > 1) { refused(YAZ_BIB1_COMBI_OF_SPECIFIED_DATABASES_UNSUPP, "multiple vhosts"); return; }
        if (cf.force.empty() && nv == 0 && cf.def.empty()) { refused(YAZ_BIB1_INIT_NEGOTIATION_OPTION_REQUIRED, "No vhost given"); return; }
        if (maxs && in_use(host) >= maxs) { x.label("max-sockets"); refused(YAZ_BIB1_TEMPORARY_SYSTEM_ERROR, "max sessions"); return; }
        s.host = host; int t = target(host);
        if (t < 0) { expect_close(s, g, ref, Z_Close_peerAbort, "init to a server that is not there"); none("dead server"); s.failed = true; faults++; return; }
        // what the server saw
        std::string got; bool f = w.t.until([&] { for (auto &k : w.t.links) for (auto &b : k->pdus) if (b.find(ref) != std::string::npos) { s.link = k->id; got = b; } return s.link >= 0; }, 8000); x.check(f, "the Init never reached a server"); mine.insert(s.link);
        { std::lock_guard<std::mutex> l(w.t.m); x.eq(w.t.links[s.link]->port, t, "server that got the Init"); x.eq((int) w.t.links[s.link]->pdus.size(), 1, "requests on a new connection"); }
        zk::Mem d; Z_GDU *gg = anyz::decode(d, got), *bg = anyz::decode(d, before); x.check(gg && bg, "Init does not decode"); Z_InitRequest *r = gg->u.z3950->u.initRequest, *b = bg->u.z3950->u.initRequest; std::string ip, cs, ip1, cs1; auto i1 = infos(r->otherInfo, &ip, &cs, cf.force.size()), i2 = infos(b->otherInfo, &ip1, &cs1, true);
        std::string j1, j2; for (auto &k : i1) j1 += k + " "; for (auto &k : i2) j2 += k + " "; x.eq(j1, j2, "other information of the Init"); x.eq(ip, !cf.ip ? ip1 : ip0.size() ? "[" + ip0 + ", " + s.c->o.get_address() + "]" : "[" + s.c->o.get_address() + "]", "client IP"); x.eq(cs, cs1.size() ? cs1 : cf.charset.size() ? "[" + cf.charset + "]" : "", "character set");
        if (cf.charset.size() && cs1.empty()) { x.check(ODR_MASK_GET(r->options, Z_Options_negotiationModel), "negotiation proposed without its option"); ODR_MASK_SET(b->options, Z_Options_negotiationModel); }
        r->otherInfo = b->otherInfo = 0; x.eq(text(gg->u.z3950), text(bg->u.z3950), "Init at the server"); s.sent.push_back(got);
        after(s, g, b ? bg->u.z3950 : 0, key, how, ref, dt, true);
    }
    // the answer, given what the server did
    static const int UNIT = 20;      // a second, for a server that says nothing
    void pace(const std::string &how) { yazpp_1::shim_second_ms = how == "silent" ? UNIT : 5000; }
    void after(Ses &s, Z_GDU *g, Z_APDU *req, const std::string &key, const std::string &how, const std::string &ref, long long dt, bool is_init) {
        const int U = UNIT; yazpp_1::shim_second_ms = 5000;
        if (how == "fin" || how == "half" || how == "junk") { expect_close(s, g, ref, Z_Close_peerAbort, "server gone"); s.failed = true; faults++; return; }
        if (how == "silent") { x.label("timeout"); expect_close(s, g, ref, is_init || !s.inited ? Z_Close_peerAbort : Z_Close_lackOfActivity, "server silent"); int T = s.inited ? cf.gen_t : cf.init_t; x.check(dt >= (long long) T * U - U - 3, "gave up after " + num((int) dt) + " ms of " + num(T * U)); s.failed = true; faults++; return; }
        zk::Mem o; Z_APDU *want = answer(o, req, key, how, s.host); x.check(g && g->which == Z_GDU_Z3950, "no answer to " + ref); zk::Mem d; Z_GDU *wg = anyz::decode(d, bytes(want)); x.eq(zk::print(g), zk::print(wg), "answer to " + ref); x.check(!s.c->closed, "session closed after an answer to " + ref); good++;
        if (is_init && how != "closepdu") s.inited = true;
        if (how == "closepdu" || how == "after") s.maydie = true;
    }
    void request(Ses &s) {
        zk::Mem o; std::string how = x.pick({"ok", "ok", "ok", "slow", "big", "diag", "bare", "multi", "sur", "fin", "half", "junk", "after", "closepdu"}); if (x.chance(1, 40)) how = "silent"; std::string ref = "k" + num(++no) + "/" + how, key = ref.substr(0, ref.find('/')); Z_APDU *a;
        switch (x.range(0, 5)) {
        case 0: { zk::Search q; q.query = key; q.dbs = {key, "b"}; a = zk::search(o, q); break; } case 1: { zk::Present p; p.num = x.range(1, 9); a = zk::present(o, p); break; } case 2: { zk::Scan q; q.term = key; a = zk::scan(o, q); break; } case 3: a = zk::close(o); break; case 4: a = zget_APDU(o, x.pick({(int) Z_APDU_triggerResourceControlRequest, (int) Z_APDU_resourceReportRequest})); break;
        default: { int t = x.pick({(int) Z_APDU_searchRequest, (int) Z_APDU_presentRequest, (int) Z_APDU_scanRequest, (int) Z_APDU_deleteResultSetRequest, (int) Z_APDU_resourceControlRequest, (int) Z_APDU_sortRequest, (int) Z_APDU_extendedServicesRequest, (int) Z_APDU_accessControlRequest}); Z_GDU *g = anyz::z3950(x, o, t, false); a = g ? g->u.z3950 : zk::close(o); } }
        zk::set_ref(o, a, ref); std::string b = bytes(a); if (b.empty()) { no--; return; } zk::Mem d; Z_GDU *bg = anyz::decode(d, b); if (!bg) return; x.desc << zk::name(a->which) << " " << how << " "; bool trig = a->which == Z_APDU_triggerResourceControlRequest, cl = a->which == Z_APDU_close;
        pace(how); long long t0 = nk::ms(); Z_GDU *g = s.c->send(bg->u.z3950); long long dt = nk::ms() - t0; zk::Mem d2; Z_APDU *req = anyz::decode(d2, b)->u.z3950;
        if (s.maydie && trig) { if (s.c->closed) { s.failed = true; faults++; } return; }
        if (s.maydie) { expect_close(s, g, ref, Z_Close_peerAbort, "server had gone"); s.failed = true; faults++; return; }
        bool f = w.t.until([&] { return w.t.links[s.link]->pdus.size() >= s.sent.size() + 1; }, 8000); x.check(f, "the request never reached the server of the session"); s.sent.push_back(b); { std::lock_guard<std::mutex> l(w.t.m); x.eq(w.t.links[s.link]->pdus.size(), s.sent.size(), "requests on the connection"); x.check(w.t.links[s.link]->pdus.back() == b, "the request changed on its way: " + hex(w.t.links[s.link]->pdus.back().substr(0, 200)) + " was " + hex(b.substr(0, 200))); }
        if (cl) s.sent_close = true;
        if (trig) { x.check(!g, "an answer to a trigger"); x.check(!s.c->closed, "session closed by a trigger"); return; }
        after(s, g, req, key, how, ref, dt, false);
    }
    void hangup(Ses &s) {
        s.c->hangup(); if (s.link < 0) return;
        bool f = w.t.until([&] { auto &k = *w.t.links[s.link]; return k.eof || k.closed; }, 8000); x.check(f, "the connection to the server stays open after its session"); std::lock_guard<std::mutex> l(w.t.m); auto &k = *w.t.links[s.link]; size_t n = s.sent.size();
        if (cf.close && !s.sent_close && !s.failed && !s.maydie) { x.eq(k.pdus.size(), n + 1, "force_close: requests on the connection"); zk::Mem d; Z_GDU *g = anyz::decode(d, k.pdus.back()); x.check(g && zk::is_close(g), "force_close: last request is no Close"); x.eq((int) *g->u.z3950->u.close->closeReason, (int) Z_Close_finished, "force_close: reason"); }
        else if (!s.failed && !s.maydie) x.eq(k.pdus.size(), n, "requests on the connection of a session that ended");
        for (size_t i = 0; i < n && i < k.pdus.size(); i++) x.check(k.pdus[i] == s.sent[i], "requests on the connection changed");
        s.link = -1;
    }
};
static void histories(Ctx &x)
{
    Conf cf = conf(x, true); x.desc << cf.xml << ": "; World w(x, cf.xml, 1000); Run r{x, w, cf}; r.all.clear(); int steps = x.coin() ? x.range(2, 12) : x.range(8, 40); size_t most = x.range(1, 4); size_t cur = 0;
    auto fresh = [&] { r.all.emplace_back(new Ses); r.all.back()->c.reset(new zk::Client(*w.net, "127.0.0." + num(x.range(1, 9)))); };
    fresh();
    for (; steps > 0; steps--) {
        std::vector<size_t> open; for (size_t i = 0; i < r.all.size(); i++) if (!r.all[i]->c->gone) open.push_back(i);
        if (open.empty() || (open.size() < most && x.chance(1, 4))) { fresh(); open.push_back(r.all.size() - 1); }
        cur = open[x.range(0, (int) open.size() - 1)]; Ses &s = *r.all[cur]; x.desc << cur << ":";
        if (s.failed || s.c->closed) { x.desc << "end "; r.hangup(s); continue; }
        if (s.link < 0) {
            int k = x.weighted({12, 1, 1, 1}); zk::Mem o;
            if (k == 0) r.init(s);
            else if (k == 1) { Z_APDU *a = x.coin() ? zk::present(o, zk::Present()) : zk::close(o); zk::set_ref(o, a, "early"); Z_GDU *g = s.c->send(a); x.desc << "early "; r.expect_close(s, g, "early", Z_Close_protocolError, "request before Init"); s.failed = true; }
            else if (k == 2) { Z_GDU *g = z_get_HTTP_Request(o); g->u.HTTP_Request->path = (char *) "/x"; Z_GDU *a = s.c->send(g); x.desc << "http "; x.check(a && a->which == Z_GDU_HTTP_Response && a->u.HTTP_Response->code == 203, "an HTTP request is not passed on"); x.check(!s.c->closed, "session closed by an HTTP request"); }
            else { x.desc << "hangup "; r.hangup(s); }
        } else if (x.chance(1, 6)) { x.desc << "hangup "; r.hangup(s); }
        else r.request(s);
    }
    for (auto &s : r.all) if (!s->c->gone) r.hangup(*s);
    std::lock_guard<std::mutex> l(w.t.m); x.check(w.t.trouble.empty(), w.t.trouble);
    for (auto &k : w.t.links) x.check(k->eof || k->closed, "a connection without session stays open");
    x.nontrivial = r.good >= 2 && (r.all.size() > 1 || r.faults); if (r.faults) x.label("faults");
}
// plain requests with answers that must be right, from any thread; what went wrong, or empty
struct Job { int kind; std::string key, how; };
static std::string run_job(zk::Client &c, const std::string &host, const Job &j, bool *refused = 0)
{
    zk::Mem o; Z_APDU *a;
    switch (j.kind) { case 0: a = zk::init(o); if (host.size()) zk::set_vhosts(o, &a->u.initRequest->otherInfo, {host}); break; case 1: { zk::Search q; q.query = j.key; a = zk::search(o, q); break; } case 2: a = zk::present(o, zk::Present()); break; default: { zk::Scan q; q.term = j.key; a = zk::scan(o, q); } }
    std::string ref = j.key + "/" + j.how; zk::set_ref(o, a, ref); std::string b = bytes(a);
    zk::mp::Package p(c.s, c.o); p.router(*c.n.r); p.request() = a; p.move(); Z_GDU *g = p.response().get();
    if (refused && zk::init_of(g) && init_diag(zk::init_of(g)) && strstr(init_diag(zk::init_of(g))->u.v2Addinfo, "max sessions")) { *refused = true; return p.session().is_closed() ? "" : "session open after a refused init"; }
    zk::Mem d, d2, m; Z_APDU *w = answer(m, anyz::decode(d, b)->u.z3950, j.key, j.how, host); std::string got = zk::print(g), want = zk::print(anyz::decode(d2, bytes(w)));
    return got == want ? "" : "answer to " + ref + ": got " + got.substr(0, 400) + " expected " + want.substr(0, 400);
}
static void threads(Ctx &x)
{
    int max = x.chance(1, 3) ? x.range(1, 3) : 0, n = x.range(2, 6), no = 0; bool fc = x.coin(); std::string xml = std::string("<force_close>") + (fc ? "true" : "false") + "</force_close>" + (max ? "<max-sockets>" + num(max) + "</max-sockets><max-sockets-timeout>" + num(x.range(0, 1)) + "</max-sockets-timeout>" : ""); x.desc << xml << ": ";
    World w(x, xml, 5000); struct Plan { std::string host; std::vector<Job> a, b; }; std::vector<std::vector<Plan> > plans(n); int shared = 0, total = 0;
    for (auto &v : plans) for (int k = x.range(1, 3); k > 0; k--) { Plan p; p.host = w.hosts[x.range(0, max ? 0 : 2)]; bool two = x.chance(1, 3); auto job = [&](bool init) { return Job{init ? 0 : x.range(1, 3), "k" + num(++no), x.pick({"ok", "slow", "big", "diag"})}; }; p.a.push_back(job(true)); for (int i = x.range(0, 5); i > 0; i--) p.a.push_back(job(false)); if (two) { shared++; for (int i = x.range(1, 4); i > 0; i--) p.b.push_back(job(false)); } total += (int) (p.a.size() + p.b.size()); v.push_back(p); }
    std::mutex m; std::string bad; std::atomic<int> ref{0}; auto report = [&](const std::string &e) { if (e.size()) { std::lock_guard<std::mutex> l(m); if (bad.empty()) bad = e; } };
    std::vector<std::thread> th;
    for (int i = 0; i < n; i++) th.emplace_back([&, i] {
        for (auto &p : plans[i]) {
            zk::Client c(*w.net, "127.0.0." + num(i + 1)); bool refused = false; report(run_job(c, p.host, p.a[0], &refused)); if (refused) { ref++; c.hangup(); continue; }
            std::thread second; if (p.b.size()) second = std::thread([&] { for (auto &j : p.b) report(run_job(c, p.host, j)); });
            for (size_t k = 1; k < p.a.size(); k++) report(run_job(c, p.host, p.a[k]));
            if (second.joinable()) second.join(); c.hangup();
        } });
    for (auto &t : th) t.join();
    x.check(bad.empty(), bad); x.check(!ref || max, "refused without max-sockets"); if (max) x.check(w.t.most_of[0] <= max, num(w.t.most_of[0]) + " connections at once, max-sockets is " + num(max));
    bool f = w.t.until([&] { for (auto &k : w.t.links) if (!k->eof && !k->closed) return false; return true; }, 8000); x.check(f, "a connection without session stays open"); std::lock_guard<std::mutex> l(w.t.m); x.check(w.t.trouble.empty(), w.t.trouble);
    // one session, one connection
    int links = 0; for (auto &v : plans) links += (int) v.size(); x.eq((int) w.t.links.size(), links - ref, "connections made");
    std::map<std::string, int> at; for (auto &k : w.t.links) for (auto &b : k->pdus) { zk::Mem d; Z_GDU *g = anyz::decode(d, b); std::string key, how; if (g) split(zk::get_ref(g->u.z3950), key, how); if (key.size()) { x.check(!at.count(key), "request " + key + " sent twice"); at[key] = k->id; } }
    for (auto &v : plans) for (auto &p : v) { if (!at.count(p.a[0].key)) continue; for (auto *js : {&p.a, &p.b}) for (auto &j : *js) { x.check(at.count(j.key), "request " + j.key + " not sent"); x.eq(at[j.key], at[p.a[0].key], "connection of " + j.key); } }
    if (shared) x.label("one session, two threads"); if (ref) x.label("refused"); x.nontrivial = total >= 6;
}
// what one session waits for does not hold up the others
static void others(Ctx &x)
{
    int kind = x.range(0, 3), no = 100; bool fc = kind == 3; World w(x, std::string("<force_close>") + (fc ? "true" : "false") + "</force_close>", 60000); x.desc << kind << ": "; std::atomic<bool> done{false}; std::string host = w.hosts[x.range(0, 2)], bad; zk::Client b(*w.net, "127.0.0.1"); std::thread t;
    if (kind >= 2) { std::string e = run_job(b, host, Job{0, "k1", "ok"}); x.check(e.empty(), e); }
    size_t have; { std::lock_guard<std::mutex> l(w.t.m); have = 0; for (auto &k : w.t.links) have += k->pdus.size(); w.mute = kind == 3; }
    t = std::thread([&] {
        zk::Mem o;
        if (kind == 0) { Z_GDU *g = z_get_HTTP_Request(o); g->u.HTTP_Request->path = (char *) "/wait"; b.send(g); }
        else if (kind == 1) { Z_APDU *a = zk::init(o); zk::set_vhosts(o, &a->u.initRequest->otherInfo, {host}); zk::set_ref(o, a, "k1/silent"); b.send(a); }
        else if (kind == 2) { Z_APDU *a = zk::present(o, zk::Present()); zk::set_ref(o, a, "k2/silent"); b.send(a); }
        else b.hangup();
        done = true; });
    struct Join { std::function<void()> f; ~Join() { f(); } } join{[&] { { std::lock_guard<std::mutex> l(w.m); w.release = true; w.cv.notify_all(); } w.t.cut(); t.join(); }};
    if (kind == 0) { std::unique_lock<std::mutex> l(w.m); w.cv.wait_for(l, std::chrono::seconds(8), [&] { return w.waiting; }); } else { bool f = w.t.until([&] { size_t n = 0; for (auto &k : w.t.links) n += k->pdus.size(); return n > have; }, 8000); x.check(f, "the server never got the request"); w.mute = false; }
    // meanwhile
    std::atomic<bool> through{false}; int ns = x.range(1, 2); std::vector<std::vector<Job> > js(ns); for (auto &v : js) for (int i = x.range(1, 4), k = 0; k < i; k++) v.push_back(Job{k ? x.range(1, 3) : 0, "k" + num(++no), x.pick({"ok", "big", "diag"})}); std::string h2 = w.hosts[x.range(0, 2)];
    std::thread mine([&] { for (auto &v : js) { zk::Client c(*w.net, "127.0.0.2"); for (auto &j : v) { std::string e = run_job(c, h2, j); if (e.size() && bad.empty()) bad = e; } c.hangup(); } through = true; });
    long long e = nk::ms() + 6000; while (!through && nk::ms() < e) nk::nap(1); bool ok = through, still = !done;
    join.f(); join.f = [] {}; mine.join();
    x.check(ok, "sessions wait for a request of another session"); x.check(bad.empty(), bad); x.check(still || kind == 3, "the other request did not wait"); x.nontrivial = true; x.label("waiting " + num(kind));
}
// max-sockets: who finds idle sessions waits for one to end
static void waiting(Ctx &x)
{
    int max = x.range(1, 3), extra = x.range(0, 2), T = x.chance(1, 8) ? 1 : 9; bool freed = T == 9; World w(x, "<max-sockets>" + num(max) + "</max-sockets><max-sockets-timeout>" + num(T) + "</max-sockets-timeout>", 5000); std::string host = w.hosts[x.range(0, 2)]; x.desc << max << " T " << T << ": "; int no = 0;
    std::vector<std::unique_ptr<zk::Client> > cs; for (int i = 0; i < max; i++) { cs.emplace_back(new zk::Client(*w.net)); std::string e = run_job(*cs.back(), host, Job{0, "k" + num(++no), "ok"}); x.check(e.empty(), e); }
    for (int i = 0; i < extra; i++) { zk::Client c(*w.net); std::string h = w.hosts[0] == host ? w.hosts[1] : w.hosts[0]; if (i >= max) break; std::string e = run_job(c, h, Job{0, "k" + num(++no), "ok"}); x.check(e.empty(), "max-sockets of another server: " + e); }
    std::atomic<int> state{0}; std::string bad; bool refused = false; long long t0 = nk::ms(), dt = 0; std::thread t([&] { zk::Client c(*w.net); bad = run_job(c, host, Job{0, "k99", "ok"}, &refused); dt = nk::ms() - t0; state = 1; c.hangup(); });
    bool busy = false; int d = x.range(0, 25); nk::nap(d); x.desc << "after " << d << " ms "; if (x.chance(1, 4) && freed) { busy = true; std::string e = run_job(*cs[x.range(0, max - 1)], host, Job{1, "k77", x.pick({"ok", "slow"})}); if (e.size()) bad = e; x.desc << "search "; }
    bool early = state; if (freed) cs[x.range(0, max - 1)]->hangup(); t.join();
    x.check(bad.empty(), bad); x.check(!early || refused, "let in beyond max-sockets");
    if (freed && !busy) { x.check(!refused, "refused though a connection became free"); x.check(dt < 8000, "not let in before the time was out"); } if (!freed) { x.check(refused, "let in beyond max-sockets"); x.check(dt > 900, "refused after " + num((int) dt) + " ms of 1000"); }
    x.check(!(early && freed && !busy), "refused after " + num((int) dt) + " ms though idle sessions were there to wait for"); x.nontrivial = true; x.label(freed ? "freed" : "time out");
}
static void connects(Ctx &x)
{
    int T = x.range(2, 5), U = 20; World w(x, "<connect-timeout>" + num(T) + "</connect-timeout>", U); int port = w.t.listen_tcp(0, false); std::vector<std::unique_ptr<nk::Conn> > fill; x.desc << T << ": ";
    for (int i = 0; i < 3; i++) { int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port); ::connect(fd, (struct sockaddr *) &a, sizeof a); fill.emplace_back(new nk::Conn); fill.back()->fd = fd; }
    zk::Client c(*w.net); zk::Mem o; Z_APDU *a = zk::init(o); zk::set_vhosts(o, &a->u.initRequest->otherInfo, {"127.0.0.1:" + num(port)}); zk::set_ref(o, a, "k1"); long long t0 = nk::ms(); Z_GDU *g = c.send(a); long long dt = nk::ms() - t0;
    x.check(g && zk::is_close(g) && *g->u.z3950->u.close->closeReason == Z_Close_peerAbort && zk::get_ref(g->u.z3950) == "k1", "no Close (peer abort) but " + zk::print(g)); x.check(c.closed, "session open"); x.check(dt >= (T - 1) * U - 3, "gave up connecting after " + num((int) dt) + " ms of " + num(T * U)); x.nontrivial = true;
}
int main(int argc, char **argv)
{
    signal(SIGPIPE, SIG_IGN); zk::quiet();
    Check c; c.id = "C27"; c.case_wall_s = 60;
    c.add("histories", 2000, 40000, "two answers and either a second session or a fault", histories);
    c.add("threads", 300, 5000, "six or more requests from two or more threads", threads);
    c.add("others", 200, 3000, "all", others, false);
    c.add("waiting", 160, 1500, "all", waiting, false);
    c.add("connects", 40, 400, "all", connects, false);
    return run(c, argc, argv);
}
