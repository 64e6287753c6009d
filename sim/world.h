// The simulated "world": one or more networks, the workload operations on them, and the oracles.
#ifndef SIM_WORLD_H
#define SIM_WORLD_H
#include <functional>
#include <memory>
#include <set>

#include <powsybl/iidm/AbstractMultiVariantIdentifiableExtension.hpp>
#include <powsybl/iidm/Network.hpp>

#include "util.h"

namespace iidm = powsybl::iidm;
using powsybl::iidm::Identifiable;
using powsybl::iidm::Network;

// ---- attributes -----------------------------------------------------------------------------
struct Attr {
    std::string name;
    bool mv;                                        // one value per variant
    std::function<std::string()> get;
    std::function<void(Rng&, std::string&)> set;    // chooses a value, puts its text in the 2nd argument, calls the setter; empty: read-only
    bool mustHold;                                  // value after a successful set must be the text
    std::vector<std::string> side;                  // other attributes of the object that may change with it
};
void attrsOf(Identifiable& o, std::vector<Attr>& out, bool withSetters);

typedef std::map<std::string, std::string> Snap;    // "id|attr" or "id|attr@variant" -> text
struct SnapOpt { bool ext = true; };
Snap snapshot(Network& n);                          // every attribute of every object in every variant
Snap snapshotVariant(Network& n, const std::string& variant);   // working-variant view only ("id|attr" keys)
std::string diff(const Snap& a, const Snap& b, size_t max = 6); // empty if equal

// ---- harness extensions ------------------------------------------------------------------------
class SimExt : public iidm::AbstractMultiVariantIdentifiableExtension {   // one value per variant
public:
    SimExt(Identifiable& o, double v, int tag);
    ~SimExt() noexcept override;
    const std::string& getName() const override;
    const std::type_index& getType() const override;
    double get() const { return m_v.at(getVariantIndex()); }
    void set(double v) { m_v.at(getVariantIndex()) = v; }
    size_t size() const { return m_v.size(); }
    int tag() const { return m_tag; }
    static int alive;
protected:
    void allocateVariantArrayElement(const std::set<unsigned long>& indexes, unsigned long sourceIndex) override;
    void deleteVariantArrayElement(unsigned long index) override;
    void extendVariantArraySize(unsigned long initVariantArraySize, unsigned long number, unsigned long sourceIndex) override;
    void reduceVariantArraySize(unsigned long number) override;
private:
    void assertExtendable(const stdcxx::Reference<iidm::Extendable>& extendable) const override;
    std::vector<double> m_v;
    int m_tag;
};
class PlainExt : public iidm::Extension {     // single value, accepts any identifiable but VoltageLevels
public:
    PlainExt(Identifiable& o, int v) : Extension(o), m_v(v) { simrt::Harness h; ++alive; }
    ~PlainExt() noexcept override { simrt::Harness h; --alive; }
    const std::string& getName() const override;
    const std::type_index& getType() const override;
    int m_v;
    static int alive;
private:
    void assertExtendable(const stdcxx::Reference<iidm::Extendable>& extendable) const override;
};

// ---- world -------------------------------------------------------------------------------------
struct World {
    std::unique_ptr<Network> net;
    int nextId = 0;
    std::set<std::string> ids;            // ids the model expects to exist (network excluded)
    std::set<std::string> variants;       // variants the model expects
    std::string working;                  // working variant the model expects, "" if unset
    std::set<std::string> dead;           // ids and aliases that no longer exist
    bool wild = true;                     // also generate invalid arguments
    bool doubt = false;                   // the operation under way may rightly be refused
    bool nbOnly = false, bbOnly = false;
    bool odd = false;                     // names with unusual characters
    bool bbsOcc = false;                  // also add busbar sections on occupied nodes
    std::string fresh(const char* p);
    Network* shared = nullptr;            // network owned by somebody else
    bool mvOnly = false;                  // only touch what belongs to the working variant
    unsigned registryChecks = 0;
    Network& n() { return shared ? *shared : *net; }
};

// An operation says what it was allowed to change.
struct Effect {
    std::string what;                      // description
    bool threw = false;
    std::string error;
    std::string result;                    // what the operation returned or read
    bool isPowsybl = true;                 // exception derives from PowsyblException
    std::vector<std::string> may;          // prefixes of keys that may change ("id|attr", "id|"); suffix '$' = exact key
    std::vector<std::string> mayAdd, mayDel;
    std::map<std::string, std::string> must;   // exact key -> value afterwards
    std::vector<std::string> newIds, delIds;
    bool noop = false;                     // nothing to do (no candidate)
    std::function<void(Snap&)> transform;  // expected snapshot = transform(before), up to may/mayAdd/mayDel
    std::function<void(World&)> onOk;      // model update when the operation succeeded
    bool variantsChange = false;
};
typedef std::function<void(World&, Rng&, Effect&)> OpFn;
std::map<std::string, OpFn>& opTable();
struct RegOp { RegOp(const char* n, OpFn f) { opTable()[n] = std::move(f); } };
// executes; catches exceptions in Effect; anything that is not a std::exception is a violation
Effect execOp(World& w, const Op& op);
// checks snapshot transition against effect
void checkFrame(World& w, const Snap& before, const Snap& after, const Effect& e);

void buildNetwork(World& w, Rng& r, const Plan& p);

// ---- oracles -----------------------------------------------------------------------------------
void checkRegistry(World& w, Network& n);
void checkTopology(Network& n, bool buses, bool busBreaker);       // working variant
void checkComponents(Network& n);                                  // working variant
std::string topologyText(Network& n);                              // every topology answer in the working variant
void checkInvariants(Network& n);                                  // working variant: validity of values
void checkReferences(Network& n);                                  // every reference held by an object points to a live object of this network

void checkDerived(Network& n, Rng* some = nullptr);                               // working variant: quantities computed from the state
void checkNavigation(Network& n, Rng* some = nullptr);                                  // working variant: equipment of buses, bus references, nodes of buses
extern bool g_strictCurrent;                                       // the known finding on currents is reported too

struct VariantScope {   // switches the working variant and restores it
    Network& n;
    std::string old;
    VariantScope(Network& net, const std::string& v);
    ~VariantScope();
};
std::vector<iidm::Terminal*> terminalsOf(Network& n);
std::string termName(const iidm::Terminal& t);
template <class R> std::vector<std::string> idsIn(R&& range) {
    std::vector<std::string> v;
    for (auto& x : range) v.push_back(x.getId());
    return v;
}
#endif
