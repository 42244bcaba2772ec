// Choice-sequence property based testing with coverage guidance, shrinking,
// crash isolation and replay.  One header, used by every check in /verif/checks.
//
// A test case is a finite sequence of integer choices.  Generators draw from a
// pbt::Src; in random mode the values come from a PRNG seeded by (VERIF_SEED,
// worker, case number), in replay mode from a stored sequence.  Shrinking and
// coverage-guided mutation both work on the choice sequence, so every generator
// gets them for free, and a replay file is simply the sequence.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <unistd.h>

namespace pbt {

struct Fail : std::runtime_error {
    explicit Fail(const std::string &m) : std::runtime_error(m) {}
};

class Src {
public:
    Src(uint64_t seed) : m_replay(false), m_state(seed) {}
    Src(const std::vector<uint32_t> &c) : m_replay(true), m_state(0), m_in(c) {}
    // mutated prefix first, random tail
    Src(const std::vector<uint32_t> &c, uint64_t seed)
        : m_replay(true), m_tail(true), m_state(seed), m_in(c) {}
    // uniform in [0, max]
    uint32_t draw(uint32_t max);
    const std::vector<uint32_t> &choices() const { return m_out; }
private:
    uint64_t next();
    bool m_replay;
    bool m_tail = false;
    uint64_t m_state;
    size_t m_pos = 0;
    std::vector<uint32_t> m_in, m_out;
};

struct Ctx {
    explicit Ctx(Src &src) : s(src) {}
    Src &s;
    std::ostringstream desc;         // human readable case
    bool nontrivial = false;         // by the rule of the family
    std::map<std::string, int> labels;
    void label(const std::string &l) { labels[l]++; }

    int range(int lo, int hi) { return lo + (int) s.draw((uint32_t) (hi - lo)); }
    bool coin() { return s.draw(1) == 1; }
    // true with probability num/den; shrinks to false
    bool chance(int num, int den) { return (int) s.draw(den - 1) >= den - num; }
    template<class T> const T &pick(const std::vector<T> &v) {
        return v[s.draw((uint32_t) v.size() - 1)];
    }
    template<class T> const T &pick(std::initializer_list<T> v) {
        return *(v.begin() + s.draw((uint32_t) v.size() - 1));
    }
    std::string pick(std::initializer_list<const char *> v) {
        return *(v.begin() + s.draw((uint32_t) v.size() - 1));
    }
    // index by weight
    int weighted(std::initializer_list<int> w) {
        int t = 0; for (int x : w) t += x;
        int d = (int) s.draw(t - 1), i = 0;
        for (int x : w) { if (d < x) return i; d -= x; i++; }
        return 0;
    }
    // list length: mostly small, sometimes up to max
    int len(int max) {
        if (max <= 0) return 0;
        int k = (int) s.draw(9);
        int m = k < 6 ? (max < 4 ? max : 4) : k < 9 ? (max < 12 ? max : 12) : max;
        return (int) s.draw(m);
    }
    std::string str(const char *alphabet, int maxlen) {
        std::string r; int n = len(maxlen); int a = (int) strlen(alphabet);
        for (int i = 0; i < n; i++) r += alphabet[s.draw(a - 1)];
        return r;
    }
    std::string str1(const char *alphabet, int maxlen) {
        std::string r = str(alphabet, maxlen - 1);
        return r + alphabet[s.draw((uint32_t) strlen(alphabet) - 1)];
    }
    std::string bytes(int maxlen) {
        std::string r; int n = len(maxlen);
        for (int i = 0; i < n; i++) r += (char) s.draw(255);
        return r;
    }
    void fail(const std::string &m) { throw Fail(m); }
    template<class A, class B>
    void eq(const A &got, const B &want, const std::string &what) {
        if (!(got == want)) {
            std::ostringstream g, w; g << got; w << want; std::string a = g.str(), b = w.str(); size_t d = 0;
            if (a.size() + b.size() > 1200) { // long ones from shortly before where they differ
                while (d < a.size() && d < b.size() && a[d] == b[d]) d++;
                d = d > 250 ? d - 250 : 0; a = (d ? "..." : "") + a.substr(d, 500); b = (d ? "..." : "") + b.substr(d, 500);
            }
            throw Fail(what + ": got <" + a + "> expected <" + b + ">");
        }
    }
    void check(bool b, const std::string &what) { if (!b) throw Fail(what); }
};

typedef std::function<void(Ctx &)> Prop;

struct Family {
    std::string name;
    int quick, thorough;       // number of cases
    std::string rule;          // what makes a case non-trivial
    Prop fn;
    bool guided;               // use coverage guidance for half the cases
};

struct Check {
    std::string id;
    std::vector<Family> families;
    int workers = 8;
    int case_cpu_s = 12;       // CPU seconds after which one case is a hang
    int case_wall_s = 60;      // wall seconds without progress
    Check &add(const std::string &name, int quick, int thorough,
               const std::string &rule, Prop fn, bool guided = true) {
        families.push_back(Family{name, quick, thorough, rule, fn, guided});
        return *this;
    }
};

int run(Check &c, int argc, char **argv);

// quote for descriptions
std::string q(const std::string &s);
std::string hex(const std::string &s);
uint64_t hash(const std::string &s);

// print a known finding line once per run
void known_finding(const std::string &key);

// scratch directory of this process; removed at exit of the run
std::string scratch();
}
