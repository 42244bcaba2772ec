// SOURCES: router_flexml factory_filter xmlutil filter package origin session
// SHIM: core
// Configuration files: honoured completely or refused.
#include "pbt.hpp"
#include "router_flexml.hpp"
#include <metaproxy/router.hpp>
#include <libxml/parser.h>
#include <yaz/log.h>
#include <fstream>
#include "../models/config_gen.hpp"
#include "../models/test_filter.hpp"
using namespace pbt;
namespace mp = metaproxy_1;
extern "C" { struct metaproxy_1_filter_struct metaproxy_1_filter_dyn1 = { 0, "dyn1", tf::mk_dyn1 }; }
static void quiet(int, const char *, void *) {}

// moves some subtrees to files of their own; returns true if one of the files is missing
static bool split(Ctx &x, cg::P p, const std::string &dir, int &nr, bool may_lose)
{
    bool lost = false;
    for (auto &c : p->ch) {
        if (split(x, c, dir, nr, may_lose)) lost = true;
        if (c->name == "include" || !c->mp || !x.chance(1, 5)) continue;
        std::string file = "part" + std::to_string(nr++) + ".xml", text;
        cg::xml(x, c, text);
        if (may_lose && !lost && x.chance(1, 4)) { lost = true; unlink((dir + "/" + file).c_str()); }
        else { std::ofstream o((dir + "/" + file).c_str()); o << text; }
        cg::P inc = cg::mk("include"); inc->mp = x.coin(); inc->at.push_back({"src", x.chance(1, 6) && !lost ? dir + "/" + file : file});
        x.desc << file << ": " << text << "\n";
        c = inc;
    }
    return lost;
}
static void one(Ctx &x, int muts, bool incl = false)
{
    cg::Gen g{x};
    cg::P c = g.config();
    for (int i = 0; i < muts; i++) cg::mutate(x, c);
    cg::P orig = cg::clone(c); bool lost = false; int parts = 0; std::string dir;
    if (incl) { dir = scratch(); lost = split(x, c, dir, parts, x.chance(1, 5)); }
    std::string s; cg::xml(x, c, s);
    bool to = x.coin(); int via = incl ? 2 : x.range(0, 2);
    x.desc << (to ? "test_only " : "") << (via == 0 ? "" : via == 1 ? "as document " : "with include path ") << s;
    bool ok = true; std::string why; cg::Meaning m;
    try { cg::Validator v; m = v.run(orig); if (lost) throw cg::Bad{"missing-file"}; }
    catch (cg::Bad &b) { ok = false; why = b.why; }
    catch (cg::Unspecified &) { x.label("unspecified"); return; }
    x.nontrivial = incl ? parts > 0 : muts > 0 || m.routes.size() > 1;
    x.label(ok ? "valid" : "invalid: " + why.substr(0, why.find(' ')));
    tf::world() = tf::World();
    std::string err;
    {
        mp::FactoryFilter f; tf::fill(f);
        mp::Router *r = 0; xmlDoc *d = 0;
        try {
            if (via == 0) r = new mp::RouterFleXML(s, f, to);
            else {
                d = xmlParseMemory(s.data(), s.size());
                if (!d) x.fail("generator: bad XML");
                r = new mp::RouterFleXML(d, f, to, via == 2 ? (incl ? dir.c_str() : "/nonexistent") : 0);
            }
        } catch (Fail &) { throw; }
        catch (std::exception &e) { err = e.what(); if (err.empty()) err = "exception"; }
        if (d) xmlFreeDoc(d);
        if (!ok) {
            bool accepted = r != 0; delete r;
            x.check(!accepted, "configuration accepted although invalid (" + why + ")");
            x.check(tf::world().alive == 0, "filters of a refused configuration left behind");
            return;
        }
        x.check(r != 0, "valid configuration refused: " + err);
        // every filter made once, configured once, with its own configuration
        x.eq(tf::world().made.size(), m.all.size(), "number of filters created");
        for (size_t i = 0; i < m.all.size(); i++) {
            tf::Rec *t = tf::world().made[i];
            x.eq(t->configured, 1, "times configured");
            x.eq(t->test_only, to, "test flag");
            x.eq(t->path, std::string(via == 2 ? (incl ? dir : std::string("/nonexistent")) : std::string()), "path");
        }
        // each route holds exactly its filters, in order
        for (auto &rt : m.routes) {
            if (rt.first.empty()) continue;
            mp::RoutePos *p = r->createpos();
            if (!p) { delete r; x.fail("no position"); }
            std::string got, want;
            const char *first = rt.first.c_str();
            for (size_t k = 0; k < rt.second.size() + 2; k++) {
                const mp::filter::Base *b = p->move(k == 0 ? first : 0);
                if (!b) break;
                const tf::Rec *t = (const tf::Rec *) b;
                got += t->type + ":" + t->label + " ";
            }
            for (auto &fp : rt.second) want += fp->type + ":" + fp->label + " ";
            delete p;
            if (got != want) { delete r; x.fail("route " + rt.first + " is [" + got + "] expected [" + want + "]"); }
        }
        // starting and stopping reaches every filter of every route
        std::set<const tf::Rec *> used;
        {
            for (auto &rt : m.routes) {
                if (rt.first.empty()) continue;
                mp::RoutePos *p = r->createpos(); const mp::filter::Base *b = p->move(rt.first.c_str());
                while (b) { used.insert((const tf::Rec *) b); b = p->move(0); }
                delete p;
            }
            bool unnamed = m.routes.count("");
            r->start();
            for (auto t : tf::world().made) { if (unnamed) break; x.check((t->started > 0) == (used.count(t) > 0), "filter " + t->label + (t->started ? " started although in no route" : " not started")); }
            int sig = x.range(0, 20); r->stop(sig);
            for (auto t : tf::world().made) { if (unnamed) break; x.check((t->stopped > 0) == (used.count(t) > 0), "filter stopped iff used"); if (t->stopped) x.eq(t->signo, sig, "signal passed to filter"); }
        }
        delete r;
    }
    x.eq(tf::world().alive, 0, "filters alive after the router is gone");
}

int main(int argc, char **argv)
{
    yaz_log_set_handler(quiet, 0); yaz_log_init_level(0);
    Check c; c.id = "C05";
    c.add("valid", 80000, 600000, "valid configuration with two or more routes", [](Ctx &x) { one(x, 0); });
    c.add("mutated", 300000, 2500000, "configuration changed in one to three places", [](Ctx &x) { one(x, x.range(1, 3)); });
    c.add("included", 16000, 300000, "part of the configuration is in a file of its own", [](Ctx &x) { one(x, x.chance(1, 4) ? 1 : 0, true); }, false);
    c.add("not-xml", 3000, 30000, "text that is not well-formed XML is refused", [](Ctx &x) {
        cg::Gen g{x}; cg::P t = g.config(); std::string s; cg::xml(x, t, s);
        size_t cut = x.range(0, (int) s.size() - 1);
        s = s.substr(0, cut); x.desc << s; x.nontrivial = cut > 10;
        tf::world() = tf::World();
        mp::FactoryFilter f; tf::fill(f);
        bool threw = false;
        try { mp::RouterFleXML r(s, f, true); } catch (std::exception &) { threw = true; }
        x.check(threw, "truncated file accepted");
    });
    return run(c, argc, argv);
}
