// SOURCES: html_parser
// Document fidelity of the HTML parser: nothing of a document is lost, invented or reordered.
#include "pbt.hpp"
#include "../models/html_model.hpp"
#include "../models/html_gen.hpp"
using namespace pbt;

static std::string strip(const std::string &s)
{
    std::string r; for (char c : s) if (!hm::ws(c)) r += c; return r;
}

int main(int argc, char **argv)
{
    Check c; c.id = "C01";
    c.add("soup", 1600000, 16000000, "the document has at least one '<' that opens markup and is longer than 8 bytes",
        [](Ctx &x) {
            std::string d = hg::soup(x);
            x.desc << q(d);
            hm::Evs e = hm::real(d);
            x.nontrivial = e.size() > 1 && d.size() > 8;
            std::string o = strip(hm::serialize(e)), w = strip(d);
            // a quoted value still open at the end of the document gets its quote
            bool ok = o == w || o == w + "\"" || o == w + "'";
            x.check(ok, "re-serialized events " + q(o) + " differ from the document " + q(w));
            if (d.find("<!--") != std::string::npos) x.label("comment");
            if (strcasestr(d.c_str(), "<script")) x.label("script");
            if (o != w) x.label("open-quote-at-end");
        });
    c.add("canonical", 500000, 8000000, "document with two or more elements",
        [](Ctx &x) {
            std::string d; hm::Evs want; hg::Opt o; o.canonical = true;
            hg::document(x, o, d, want);
            x.desc << q(d);
            x.nontrivial = d.size() > 20;
            hm::Evs e = hm::real(d);
            x.eq(q(hm::serialize(e)), q(d), "re-serialized document");
        });
    c.add("bytes", 300000, 2000000, "document with markup from arbitrary non-NUL bytes",
        [](Ctx &x) {
            std::string d;
            int n = x.len(200);
            for (int i = 0; i < n; i++) {
                if (x.chance(1, 3)) d += x.pick({"<", ">", "/", "=", "\"", "'", "!", "-"});
                else d += (char) x.range(1, 255);
            }
            x.desc << q(d);
            hm::Evs e = hm::real(d);
            x.nontrivial = e.size() > 1;
            std::string o = strip(hm::serialize(e)), w = strip(d);
            x.check(o == w || o == w + "\"" || o == w + "'", "re-serialized events " + q(o) + " differ from the document " + q(w));
        });
    return run(c, argc, argv);
}
