// Recording filters that a configuration can name.
#pragma once
#include "factory_filter.hpp"
#include <metaproxy/filter.hpp>
#include <metaproxy/package.hpp>
#include <functional>
#include <vector>
#include <map>
namespace tf {
namespace mp = metaproxy_1;
struct Rec;
struct World {
    std::vector<Rec *> made; int alive = 0;
    std::function<void(const Rec *, mp::Package &)> on_process;
};
inline World &world() { static World w; return w; }
struct Rec : mp::filter::Base {
    std::string type, label; int configured = 0; bool test_only = false; std::string path;
    mutable int started = 0, stopped = 0, signo = -1;
    Rec(const char *t) : type(t) { world().made.push_back(this); world().alive++; }
    ~Rec() { world().alive--; }
    void process(mp::Package &p) const { if (world().on_process) world().on_process(this, p); }
    void configure(const xmlNode *ptr, bool to, const char *pa) {
        configured++; test_only = to; path = pa ? pa : "";
        for (const xmlNode *c = ptr->children; c; c = c->next)
            if (c->type == XML_ELEMENT_NODE) {
                if (!strcmp((const char *) c->name, "reject")) throw mp::filter::FilterException("reject");
                if (!strcmp((const char *) c->name, "v") && label.empty()) label = mp::xml::get_text(c);
            }
    }
    void start() const { started++; }
    void stop(int s) const { stopped++; signo = s; }
};
inline mp::filter::Base *mk_alpha() { return new Rec("alpha"); }
inline mp::filter::Base *mk_beta() { return new Rec("beta"); }
inline mp::filter::Base *mk_gamma() { return new Rec("gamma"); }
inline mp::filter::Base *mk_dyn1() { return new Rec("dyn1"); }
inline void fill(mp::FactoryFilter &f) { f.add_creator("alpha", mk_alpha); f.add_creator("beta", mk_beta); f.add_creator("gamma", mk_gamma); }
}
