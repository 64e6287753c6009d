// Builder of attribute lists.
#ifndef SIM_ATTRS_H
#define SIM_ATTRS_H
#include <cmath>
#include <powsybl/iidm/Terminal.hpp>
#include "world.h"
using namespace powsybl::iidm;
// ------------------------------------------------------------------------------- attributes
inline std::string str(double d) { return hexd(d); }
inline std::string str(bool b) { return b ? "true" : "false"; }
inline std::string str(unsigned long u) { return std::to_string(u); }
inline std::string str(long u) { return std::to_string(u); }
inline std::string str(int u) { return std::to_string(u); }
inline std::string str(const std::string& s) { return s; }
template <class E, class = typename std::enable_if<std::is_enum<E>::value>::type> inline std::string str(E e) { return std::to_string((long)e); }

inline double genD(Rng& r, double cur) {
    switch (r.below(12)) {
        case 0: return 0;
        case 1: return -(double)r.below(500) - 0.25;
        case 2: return std::nan("");
        case 3: return cur;
        case 4: return cur + 1;
        case 5: return (double)r.below(10) / 10.0;
        default: return (double)(1 + r.below(40000)) / 37.0;
    }
}

struct B {
    std::vector<Attr>& out;
    bool setters;
    std::string pre;
    template <class G> void ro(const char* n, bool mv, G g) { out.push_back(Attr{pre + n, mv, [g]() { return str(g()); }, nullptr, true, {}}); }
    template <class G> void rs(const char* n, bool mv, G g) { out.push_back(Attr{pre + n, mv, g, nullptr, true, {}}); }
    template <class G, class S> void d(const char* n, bool mv, G g, S s, std::vector<std::string> side = {}) {
        Attr a{pre + n, mv, [g]() { return str((double)g()); }, nullptr, true, {}};
        for (auto& x : side) a.side.push_back(pre + x);
        if (setters) a.set = [g, s](Rng& r, std::string& e) { double v = genD(r, g()); e = str(v); s(v); };
        out.push_back(std::move(a));
    }
    template <class G, class S> void b(const char* n, bool mv, G g, S s) {
        Attr a{pre + n, mv, [g]() { return str((bool)g()); }, nullptr, true, {}};
        if (setters) a.set = [s](Rng& r, std::string& e) { bool v = r.chance(50); e = str(v); s(v); };
        out.push_back(std::move(a));
    }
    template <class G, class S> void u(const char* n, bool mv, G g, S s, unsigned long max, std::vector<std::string> side = {}) {
        Attr a{pre + n, mv, [g]() { return str((unsigned long)g()); }, nullptr, true, {}};
        for (auto& x : side) a.side.push_back(pre + x);
        if (setters) a.set = [s, max](Rng& r, std::string& e) { unsigned long v = r.below(max + 2); e = str(v); s(v); };
        out.push_back(std::move(a));
    }
    template <class G, class S> void l(const char* n, bool mv, G g, S s, long lo, long hi, std::vector<std::string> side = {}) {
        Attr a{pre + n, mv, [g]() { return str((long)g()); }, nullptr, true, {}};
        for (auto& x : side) a.side.push_back(pre + x);
        if (setters) a.set = [s, lo, hi](Rng& r, std::string& e) { long v = lo - 1 + (long)r.below(hi - lo + 3); e = str(v); s(v); };
        out.push_back(std::move(a));
    }
    template <class E, class G, class S> void e(const char* n, bool mv, G g, S s, int cnt) {
        Attr a{pre + n, mv, [g]() { return str(g()); }, nullptr, true, {}};
        if (setters) a.set = [s, cnt](Rng& r, std::string& t) { E v = (E)r.below(cnt); t = str(v); s(v); };
        out.push_back(std::move(a));
    }
    template <class G, class S> void s(const char* n, bool mv, G g, S st) {
        Attr a{pre + n, mv, g, nullptr, true, {}};
        if (setters) a.set = [st](Rng& r, std::string& t) { t = "s" + std::to_string(r.below(50)); st(t); };
        out.push_back(std::move(a));
    }
    // reference to a terminal: the value set is a terminal of the same network or none
    template <class G, class S> void t(const char* n, Network& net, G g, S st, bool nullable) {
        Attr a{pre + n, false, g, nullptr, false, {}};
        if (setters) a.set = [&net, st, nullable](Rng& r, std::string& e) {
            auto ts = terminalsOf(net);
            if (ts.empty() || (nullable && r.chance(10))) { e = "?"; st(stdcxx::Reference<Terminal>()); return; }
            Terminal& x = *ts[r.below(ts.size())];
            e = termName(x);
            st(stdcxx::ref<Terminal>(x));
        };
        out.push_back(std::move(a));
    }
};
void extAttrs(B& a, Identifiable& o);   // attributes of the extensions of the extension libraries
#endif
