// SOURCES: html_parser
// Recognition of tags, attributes, comments and script content in HTML.
#include "pbt.hpp"
#include "../models/html_model.hpp"
#include "../models/html_gen.hpp"
using namespace pbt;

int main(int argc, char **argv)
{
    Check c; c.id = "C02";
    c.add("constructed", 800000, 5000000, "at least two pieces of markup, expected events known from construction",
        [](Ctx &x) {
            std::string d; hm::Evs want; hg::Opt o;
            hg::document(x, o, d, want);
            x.desc << q(d);
            x.nontrivial = want.size() > 4;
            hm::Evs e = hm::real(d);
            x.eq(q(hm::show(e)), q(hm::show(want)), "events");
            for (auto &v : want) if (v.k == 'A' && v.has) x.label(v.sep.empty() ? "unquoted" : v.sep == "'" ? "single-quoted" : "double-quoted");
        });
    c.add("soup", 1200000, 8000000, "document with at least two events, against the reference tokenizer",
        [](Ctx &x) {
            std::string d = hg::soup(x);
            x.desc << q(d);
            hm::Evs e = hm::real(d), w = hm::model(d);
            x.nontrivial = e.size() > 1 && d.size() > 8;
            x.eq(q(hm::show(e)), q(hm::show(w)), "events");
        });
    c.add("reuse", 120000, 2000000, "one parser reads two or more documents, none of which ends inside a script",
        [](Ctx &x) {
            std::vector<std::string> ds; int n = x.range(2, 4);
            for (int i = 0; i < n; i++) { std::string d = hg::soup(x); if (i + 1 < n && hm::ends_in_script(d)) continue; ds.push_back(d); x.desc << q(d) << " "; }
            std::vector<hm::Evs> e = hm::real_reused(ds);
            x.nontrivial = ds.size() > 1;
            for (size_t i = 0; i < ds.size(); i++) x.eq(q(hm::show(e[i])), q(hm::show(hm::model(ds[i]))), "events of document " + std::to_string(i));
        });
    return run(c, argc, argv);
}
