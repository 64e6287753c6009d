// C21: the undirected graph against a set-based model, with callbacks that throw or call the graph again, allocations that fail and concurrent readers.
#include <algorithm>
#include <memory>
#include <set>
#include <stdexcept>

#include <powsybl/PowsyblException.hpp>
#include <powsybl/math/GraphUtil.hpp>
#include <powsybl/math/UndirectedGraph.hpp>
#include <powsybl/math/UndirectedGraphRanges.hpp>

#include "conc.h"
#include "util.h"
using powsybl::math::TraverseResult;

namespace {
struct Obj { int n; };
typedef powsybl::math::UndirectedGraph<Obj, Obj> Graph;
typedef stdcxx::Reference<Obj> Ref;
typedef unsigned long ul;
struct MEdge { ul a, b; int obj; };
struct Model {
    std::map<ul, int> v;          // vertex -> number of its object, -1 if none
    std::map<ul, MEdge> e;
    std::vector<ul> adjacent(ul x) const { std::vector<ul> r; for (auto& k : e) if (k.second.a == x || k.second.b == x) r.push_back(k.first); return r; }
};
struct Stop : std::exception {};
const ul NONE = ~0ul;

struct G {
    Graph g;
    Model m;
    std::vector<std::unique_ptr<Obj>> objs;
    Ref ref(int i) { return i < 0 ? Ref() : stdcxx::ref(*objs[i]); }
    int newObj(Rng& r) { simrt::Harness h; if (r.chance(40)) return -1; objs.emplace_back(new Obj{(int)objs.size()}); return (int)objs.size() - 1; }
};
int num(const Ref& r) { return r ? r.get().n : -1; }
[[noreturn]] void bad(const char* what, const std::string& d) { simrt::Harness h; fail("graph-differs", "%s: %s", what, d.c_str()); }
void eq(const char* what, long long got, long long want) { if (got != want) bad(what, fmt("%lld, expected %lld", got, want)); }
std::string list(const std::vector<ul>& v) { simrt::Harness h; std::string t; for (ul x : v) t += fmt("%lu ", x); return t; }
void eql(const char* what, std::vector<ul> got, std::vector<ul> want) {
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    if (got != want) bad(what, list(got) + "- expected " + list(want));
}
template <class F> void refused(const char* what, F f) {
    try { f(); }
    catch (const powsybl::PowsyblException&) { return; }
    bad(what, "accepted");
}
ul someVertex(const Model& m, Rng& r) { if (m.v.empty()) return NONE; auto i = m.v.begin(); std::advance(i, r.below(m.v.size())); return i->first; }
ul someEdge(const Model& m, Rng& r) { if (m.e.empty()) return NONE; auto i = m.e.begin(); std::advance(i, r.below(m.e.size())); return i->first; }
ul badVertex(const Model& m, Rng& r) { for (int k = 0; k < 9; ++k) { ul v = r.chance(20) ? ~0ul - r.below(3) : r.below(30); if (!m.v.count(v)) return v; } return 1000; }
ul badEdge(const Model& m, Rng& r) { for (int k = 0; k < 9; ++k) { ul v = r.chance(20) ? ~0ul - r.below(3) : r.below(30); if (!m.e.count(v)) return v; } return 1000; }

// every query but traversals
void compare(const Graph& g, Graph* mut, const Model& m) {
    eq("getVertexCount", (long long)g.getVertexCount(), (long long)m.v.size());
    eq("getEdgeCount", (long long)g.getEdgeCount(), (long long)m.e.size());
    ul top = m.v.empty() ? 0 : m.v.rbegin()->first + 1;
    if (g.getVertexCapacity() < top || g.getMaxVertex() < top) bad("getVertexCapacity", fmt("%lu, but there is a vertex %lu", g.getVertexCapacity(), top - 1));
    std::vector<ul> vs, es, vo, eo, t;
    for (auto& k : m.v) { vs.push_back(k.first); vo.push_back((ul)k.second); }
    for (auto& k : m.e) { es.push_back(k.first); eo.push_back((ul)k.second.obj); }
    for (ul v : g.getVertices()) t.push_back(v);
    eql("getVertices", t, vs);
    t.clear();
    for (ul v : g.getEdges()) t.push_back(v);
    eql("getEdges", t, es);
    t.clear();
    for (const Ref& o : g.getVertexObjects()) t.push_back((ul)num(o));
    eql("getVertexObjects", t, vo);
    t.clear();
    for (const Ref& o : g.getEdgeObjects()) t.push_back((ul)num(o));
    eql("getEdgeObjects", t, eo);
    if (mut) {
        t.clear();
        for (const Ref& o : mut->getVertexObjects()) t.push_back((ul)num(o));
        eql("getVertexObjects", t, vo);
        t.clear();
        for (const Ref& o : mut->getEdgeObjects()) t.push_back((ul)num(o));
        eql("getEdgeObjects", t, eo);
    }
    for (ul v = 0; v < top + 3; ++v) {
        eq("vertexExists", g.vertexExists(v), m.v.count(v));
        if (m.v.count(v)) eq("getVertexObject", num(g.getVertexObject(v)), m.v.at(v));
    }
    for (auto& k : m.e) {
        eq("getVertex1", (long long)g.getVertex1(k.first), (long long)k.second.a);
        eq("getVertex2", (long long)g.getVertex2(k.first), (long long)k.second.b);
        eq("getEdgeObject", num(g.getEdgeObject(k.first)), k.second.obj);
    }
}
// A traversal with a set of edges that are not to be crossed. The callback throws at call `boom`, and may call the graph again.
void traversal(const Graph& g, const Model& m, Rng& r, bool nested = false) {
    ul v = someVertex(m, r);
    if (v == NONE) return;
    std::set<ul> closed, done, tried;
    for (auto& k : m.e) if (r.chance(25)) closed.insert(k.first);
    std::vector<bool> enc;
    std::set<ul> blocked;
    bool own = r.chance(40);
    if (own) {
        enc.resize(r.below(m.v.rbegin()->first + 3));
        for (size_t i = 0; i < enc.size(); ++i) if (r.chance(15) && i != v) { enc[i] = true; blocked.insert(i); }
    }
    int calls = 0, boom = r.chance(25) ? (int)r.below(8) : -1;
    std::set<ul> seen{v};
    auto cb = [&](ul v1, ul e, ul v2) {
        auto i = m.e.find(e);
        if (i == m.e.end()) bad("traverse", fmt("edge %lu does not exist", e));
        if (!((i->second.a == v1 && i->second.b == v2) || (i->second.a == v2 && i->second.b == v1))) bad("traverse", fmt("edge %lu does not connect %lu and %lu", e, v1, v2));
        if (!seen.count(v1)) bad("traverse", fmt("%lu is left before it was reached", v1));
        if (seen.count(v2)) bad("traverse", fmt("%lu is reached twice", v2));
        if (blocked.count(v2)) bad("traverse", fmt("%lu was already encountered", v2));
        if (!closed.count(e) && !done.insert(e).second) bad("traverse", fmt("edge %lu is crossed twice", e));
        tried.insert(e);
        if (calls++ == boom) { count("fault.callback-throws"); throw Stop(); }
        if (!nested && r.chance(10)) { count("c21.re-entrant"); compare(g, nullptr, m); traversal(g, m, r, true); }
        if (closed.count(e)) return TraverseResult::TERMINATE;
        seen.insert(v2);
        return TraverseResult::CONTINUE;
    };
    try {
        if (own) g.traverse(v, cb, enc);
        else g.traverse(v, cb);
    } catch (const Stop&) { return; }
    // what must be reached
    std::set<ul> want{v};
    std::vector<ul> todo{v};
    while (!todo.empty()) {
        ul x = todo.back();
        todo.pop_back();
        for (auto& k : m.e) {
            if (k.second.a != x && k.second.b != x) continue;
            ul y = k.second.a == x ? k.second.b : k.second.a;
            if (!closed.count(k.first) && !blocked.count(y) && want.insert(y).second) todo.push_back(y);
        }
    }
    if (seen != want) bad("traverse", fmt("from %lu: %s- expected %s", v, list({seen.begin(), seen.end()}).c_str(), list({want.begin(), want.end()}).c_str()));
    for (auto& k : m.e) {
        bool a = want.count(k.second.a), b = want.count(k.second.b);
        if (a != b && !blocked.count(a ? k.second.b : k.second.a) && !tried.count(k.first)) bad("traverse", fmt("edge %lu was not offered", k.first));
    }
    if (own) {
        if (enc.size() < g.getVertexCapacity()) bad("traverse", "the vector of encountered vertices is too short");
        for (ul x = 0; x < enc.size(); ++x) if (enc[x] != (want.count(x) || blocked.count(x))) bad("traverse", fmt("encountered[%lu] is %d", x, (int)enc[x]));
    }
    count("c21.traversals");
}
void modelPaths(const Model& m, ul v, const std::set<ul>& closed, const std::set<ul>& goals, std::vector<ul>& path, std::set<ul>& on, std::vector<std::vector<ul>>& out) {
    if (out.size() > 3000) return;
    on.insert(v);
    for (auto& k : m.e) {
        if ((k.second.a != v && k.second.b != v) || closed.count(k.first)) continue;
        ul y = k.second.a == v ? k.second.b : k.second.a;
        if (on.count(y)) continue;
        path.push_back(k.first);
        if (goals.count(y)) out.push_back(path);
        else modelPaths(m, y, closed, goals, path, on, out);
        path.pop_back();
    }
    on.erase(v);
}
void paths(const Graph& g, const Model& m, Rng& r) {
    ul v = someVertex(m, r);
    if (v == NONE) return;
    // the callbacks only get the objects: those with the same object are treated alike
    std::set<int> goalObj, closedObj;
    std::set<ul> closed, goals;
    for (auto& k : m.v) if (r.chance(25)) goalObj.insert(k.second);
    for (auto& k : m.e) if (r.chance(15)) closedObj.insert(k.second.obj);
    for (auto& k : m.v) if (goalObj.count(k.second)) goals.insert(k.first);
    for (auto& k : m.e) if (closedObj.count(k.second.obj)) closed.insert(k.first);
    std::vector<std::vector<ul>> want;
    {
        simrt::Harness h;
        std::vector<ul> p;
        std::set<ul> on;
        modelPaths(m, v, closed, goals, p, on, want);
        if (want.size() > 3000 || m.e.size() > 16) return;
    }
    int calls = 0, boom = r.chance(25) ? (int)r.below(20) : -1;
    std::vector<Graph::Path> got;
    try {
        got = g.findAllPaths(v, [&](const Ref& o) { if (calls++ == boom) { count("fault.callback-throws"); throw Stop(); } return goalObj.count(num(o)) > 0; },
                             [&](const Ref& o) { if (calls++ == boom) { count("fault.callback-throws"); throw Stop(); } return closedObj.count(num(o)) > 0; });
    } catch (const Stop&) { return; }
    for (size_t i = 1; i < got.size(); ++i) if (got[i].size() < got[i - 1].size()) bad("findAllPaths", "the paths are not sorted by length");
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    if (got != want) bad("findAllPaths", fmt("from %lu: %zu paths, expected %zu", v, got.size(), want.size()));
    count("c21.path-searches");
}
void components(const Model& m, Rng& r) {
    // adjacency lists over dense numbers
    std::map<ul, ul> idx;
    for (auto& k : m.v) idx.emplace(k.first, idx.size());
    powsybl::math::GraphUtil::AdjacencyList al(idx.size());
    for (auto& k : m.e) { al[idx[k.second.a]].push_back(idx[k.second.b]); al[idx[k.second.b]].push_back(idx[k.second.a]); }
    if (r.chance(50)) for (auto& l : al) std::reverse(l.begin(), l.end());
    auto res = powsybl::math::GraphUtil::computeConnectedComponents(al);
    const auto& num = res.getComponentNumber();
    const auto& size = res.getComponentSize();
    eq("components: numbers", (long long)num.size(), (long long)al.size());
    std::vector<ul> cnt(size.size());
    for (ul v = 0; v < al.size(); ++v) {
        if (!num[v] || *num[v] >= size.size()) bad("components", fmt("vertex %lu has no component", v));
        ++cnt[*num[v]];
        for (ul w : al[v]) if (*num[v] != *num[w]) bad("components", fmt("neighbours %lu and %lu are in different components", v, w));
    }
    ul reach = 0;
    for (ul v = 0; v < al.size(); ++v) {      // the number of components: vertices that are the smallest of what they reach
        std::set<ul> s{v};
        std::vector<ul> todo{v};
        while (!todo.empty()) { ul x = todo.back(); todo.pop_back(); for (ul y : al[x]) if (s.insert(y).second) todo.push_back(y); }
        if (*s.begin() == v) ++reach;
    }
    eq("components: count", (long long)size.size(), (long long)reach);
    for (ul c = 0; c < size.size(); ++c) {
        eq("components: size", (long long)size[c], (long long)cnt[c]);
        if (c && size[c] > size[c - 1]) bad("components", "not sorted by size");
    }
    count("c21.components");
}
void edgesBetween(const Graph& g, const Model& m, Rng& r) {
    ul a = someVertex(m, r), b = someVertex(m, r);
    if (a == NONE) return;
    std::vector<ul> t, want;
    for (const Ref& o : g.getEdgeObjects(a, b)) t.push_back((ul)num(o));
    for (auto& k : m.e) if ((k.second.a == a && k.second.b == b) || (k.second.a == b && k.second.b == a)) want.push_back((ul)k.second.obj);
    eql("getEdgeObjects of two vertices", t, want);
    ul v = badVertex(m, r);
    refused("getEdgeObjects of a missing vertex", [&]() { g.getEdgeObjects(a, v); });
}
// one operation; throws std::bad_alloc when an allocation fails, then nothing has changed
void mutate(G& x, Rng& r) {
    Graph& g = x.g;
    Model& m = x.m;
    Model n = m;
    int64_t nth = r.chance(20) ? (int64_t)(1 + r.below(6)) : 0;
    auto armed = [&](std::function<void()> f) {
        if (!nth) { f(); return; }
        simrt::arm_alloc(nth, false);
        try { f(); }
        catch (...) { simrt::arm_alloc(-1, false); throw; }
        simrt::arm_alloc(-1, false);
    };
    static const char* const OPS[] = {"addVertex", "addVertexIfNotPresent", "addEdge", "removeEdge", "removeVertex", "setVertexObject", "removeIsolatedVertices", "removeAllEdges", "removeAllVertices", "invalid"};
    static const int W[] = {14, 14, 32, 14, 12, 8, 4, 2, 2, 8};
    int k = 0, d = (int)r.below(110);
    while (d >= W[k]) d -= W[k++];
    std::string op = OPS[k];
    std::string where = g_where;
    { simrt::Harness h; g_where += " " + op; count(("op." + op).c_str()); }
    ul res = NONE;
    try {
        switch (k) {
            case 0:
                armed([&]() { res = g.addVertex(); });
                if (m.v.count(res)) bad("addVertex", fmt("%lu exists already", res));
                n.v[res] = -1;
                break;
            case 1: {
                ul v = m.v.empty() || r.chance(60) ? r.below(24) : r.chance(50) ? someVertex(m, r) : m.v.rbegin()->first + r.below(5);
                if (nth == 0 && r.chance(3)) v = ~0ul - r.below(2);
                if (v > 1000) { refused("addVertexIfNotPresent of a huge number", [&]() { g.addVertexIfNotPresent(v); }); break; }
                armed([&]() { g.addVertexIfNotPresent(v); });
                n.v.emplace(v, -1);
                break;
            }
            case 2: {
                ul a = someVertex(m, r), b = r.chance(8) ? a : someVertex(m, r);
                if (a == NONE) break;
                int o = x.newObj(r);
                Ref ref = x.ref(o);
                armed([&]() { res = g.addEdge(a, b, ref); });
                if (m.e.count(res)) bad("addEdge", fmt("%lu exists already", res));
                n.e[res] = MEdge{a, b, o};
                break;
            }
            case 3: {
                ul e = someEdge(m, r);
                if (e == NONE) break;
                armed([&]() { eq("removeEdge", num(g.removeEdge(e)), m.e.at(e).obj); });
                n.e.erase(e);
                break;
            }
            case 4: {
                ul v = someVertex(m, r);
                for (int t = 0; t < 4 && v != NONE && !m.adjacent(v).empty(); ++t) v = someVertex(m, r);
                if (v == NONE) break;
                if (!m.adjacent(v).empty()) { refused("removal of a vertex with edges", [&]() { g.removeVertex(v); }); break; }
                armed([&]() { eq("removeVertex", num(g.removeVertex(v)), m.v.at(v)); });
                n.v.erase(v);
                break;
            }
            case 5: {
                ul v = someVertex(m, r);
                if (v == NONE) break;
                n.v[v] = x.newObj(r);
                g.setVertexObject(v, x.ref(n.v[v]));
                break;
            }
            case 6:
                for (auto i = n.v.begin(); i != n.v.end();) if (i->second < 0 && m.adjacent(i->first).empty()) i = n.v.erase(i); else ++i;
                try { armed([&]() { g.removeIsolatedVertices(); }); }
                catch (const std::bad_alloc&) {       // some of them
                    for (auto& v : m.v) if (!g.vertexExists(v.first)) { if (n.v.count(v.first)) bad("removeIsolatedVertices", "another vertex was removed"); }
                                        else n.v.insert(v);
                    m = n;
                    throw;
                }
                break;
            case 7: g.removeAllEdges(); n.e.clear(); break;
            case 8:
                if (!m.e.empty()) { refused("removal of all vertices with edges", [&]() { g.removeAllVertices(); }); break; }
                g.removeAllVertices();
                n.v.clear();
                break;
            case 9: {
                ul v = badVertex(m, r), e = badEdge(m, r), w = someVertex(m, r);
                refused("getVertexObject", [&]() { g.getVertexObject(v); });
                refused("setVertexObject", [&]() { g.setVertexObject(v, Ref()); });
                refused("removeVertex", [&]() { g.removeVertex(v); });
                refused("addEdge", [&]() { g.addEdge(v, w == NONE ? v : w, Ref()); });
                refused("addEdge", [&]() { g.addEdge(w == NONE ? v : w, v, Ref()); });
                refused("traverse", [&]() { g.traverse(v, [](ul, ul, ul) { return TraverseResult::CONTINUE; }); });
                if (v < 1000) refused("findAllPaths", [&]() { g.findAllPaths(v, [](const Ref&) { return true; }, [](const Ref&) { return false; }); });
                refused("getEdgeObject", [&]() { g.getEdgeObject(e); });
                refused("getVertex1", [&]() { g.getVertex1(e); });
                refused("getVertex2", [&]() { g.getVertex2(e); });
                refused("removeEdge", [&]() { g.removeEdge(e); });
                break;
            }
        }
        m = n;
    } catch (const std::bad_alloc&) { count("fault.alloc"); }
    compare(g, r.chance(50) ? &g : nullptr, m);
    g_where = where;
}
void query(G& x, Rng& r) {
    int64_t nth = r.chance(20) ? (int64_t)(1 + r.below(20)) : 0;
    if (nth) {        // a read that fails leaves no trace
        ul v = someVertex(x.m, r);
        if (v != NONE) {
            simrt::arm_alloc(nth, false);
            try { x.g.traverse(v, [](ul, ul, ul) { return TraverseResult::CONTINUE; }); }
            catch (const std::bad_alloc&) { count("fault.alloc"); }
            simrt::arm_alloc(-1, false);
        }
    }
    switch (r.below(4)) {
        case 0: case 1: traversal(x.g, x.m, r); break;
        case 2: paths(x.g, x.m, r); break;
        case 3: components(x.m, r); break;
    }
    edgesBetween(x.g, x.m, r);
}
void genC21(Plan& p, Rng& r) {
    size_t n = 5 + r.below(60);
    p.cfg["threads"] = r.chance(30) ? 2 + r.below(2) : 0;
    if (p.cfg["threads"]) genSched(p, r);
    for (size_t i = 0; i < n; ++i) { Op o; o.kind = r.chance(65) ? "mutate" : "query"; o.seed = r.next(); p.ops.push_back(o); }
    if (p.cfg["threads"]) for (int t = 1; t <= p.cfg["threads"]; ++t) { size_t k = 1 + r.below(5); for (size_t i = 0; i < k; ++i) { Op o; o.thr = t; o.kind = "query"; o.seed = r.next(); p.ops.push_back(o); } }
}
void runC21(const Plan& p) {
    simrt::Sut s;
    G x;
    int i = 0;
    for (auto& o : p.ops) {
        if (o.thr) continue;
        Rng r(o.seed);
        { simrt::Harness h; g_where = fmt("op %d", i++); }
        if (o.kind == "mutate") mutate(x, r); else query(x, r);
        simrt::hash_event(x.m.v.size() * 1000 + x.m.e.size());
    }
    int T = (int)p.get("threads");
    if (!T) return;
    // concurrent readers, the first of them after a change
    { Rng r(p.seed); if (r.chance(80)) mutate(x, r); }
    runThreads(p, T, [&](int t) {
        simrt::Sut y;
        for (auto& o : p.ops) {
            if (o.thr != t + 1) continue;
            Rng r(o.seed);
            { simrt::Harness h; g_where = fmt("thread %d", t + 1); }
            switch (r.below(3)) {
                case 0: case 1: traversal(x.g, x.m, r); break;
                case 2: paths(x.g, x.m, r); break;
            }
            compare(x.g, nullptr, x.m);
            simrt::yield_point();
        }
    });
    count("c21.concurrent-readers", T);
}
RegCheck c21("C21", genC21, runC21);
}  // namespace
