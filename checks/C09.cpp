// SOURCES: origin
// Origins: which client a request came from, as addresses are added by each hop.
#include "pbt.hpp"
#include <metaproxy/origin.hpp>
#include <sstream>
using namespace pbt;
namespace mp = metaproxy_1;
int main(int argc, char **argv)
{
    Check c; c.id = "C09";
    c.add("hops", 1500000, 4000000, "a direct peer and at least one forwarded address", [](Ctx &x) {
        mp::Origin o;
        auto addr = [&]() -> std::string {
            switch (x.range(0, 3)) {
            case 0: return std::to_string(x.range(0, 255)) + "." + std::to_string(x.range(0, 255)) + ".0." + std::to_string(x.range(1, 9));
            case 1: return x.pick({"::1", "fe80::1", "2001:db8::2:1", "localhost"});
            case 2: return x.str1("0123456789.:abcdef", 20);
            default: return std::string(x.range(1, 300), '1'); } };
        {
            std::ostringstream s; s << o; x.eq(s.str(), std::string("0:0"), "origin before any address");
            x.eq(o.get_address(), std::string(), "address before any"); x.eq(o.get_bind_address(), std::string(), "bind address before any");
            x.eq(o.get_max_sockets(), 0, "max sockets before any");
        }
        std::string peer = addr(), bind = addr(), front = peer, custom; unsigned id = 0; int ms = 0;
        int n = x.len(8); bool set = false, fwd = false; int copies = 0;
        for (int i = 0; i < n + 1; i++) {
            int op = i == 0 ? 0 : x.weighted({4, 2, 2, 1});
            switch (op) {
            case 0:
                id = x.chance(1, 6) ? 4294967295u - (unsigned) x.range(0, 9) : (unsigned) x.range(0, 100000);
                if (!set) { o.set_tcpip_address(peer + " " + bind, id); set = true; x.desc << "peer " << peer << " at " << bind << " id " << id; }
                else {
                    std::string list = addr(); front = list;
                    if (x.chance(1, 3)) { int k = x.range(1, 3); for (int j = 0; j < k; j++) { if (j == 0) front += x.pick({",", ""}); list = j == 0 ? front + " " + addr() : list + ", " + addr(); } x.label("forwarded list"); }
                    o.set_tcpip_address(list, id); fwd = true; x.desc << ", forwarded " << front << " id " << id; }
                break;
            case 1: custom = x.str("ab1:- ", 6); o.set_custom_session(custom); x.desc << ", custom " << q(custom); break;
            case 2: ms = x.range(-1, 1000); o.set_max_sockets(ms); x.desc << ", max " << ms; break;
            case 3: { mp::Origin k(o); o = k; copies++; break; }
            }
            x.eq(o.get_address(), peer, "address of the direct peer");
            x.eq(o.get_bind_address(), bind, "address the peer connected to");
            x.eq(o.get_max_sockets(), ms, "max sockets");
            std::ostringstream s; s << o;
            std::string w = front + ":" + std::to_string(id) + (custom.empty() ? "" : ":" + custom);
            x.eq(s.str(), w, "origin as logged");
        }
        x.nontrivial = fwd;
    });
    return run(c, argc, argv);
}
