// Streams whose behaviour is decided by the simulator.
#ifndef SIM_IO_H
#define SIM_IO_H
#include <istream>
#include <ostream>
#include <stdexcept>
#include <streambuf>
#include "iofault.h"
#include "xmlio.h"
struct SimIn : std::streambuf {     // delivers `text` in pieces of arbitrary size
    SimIn(const std::string& t, Rng rng) : text(t), r(rng), limit(t.size()) {}
    int underflow() override;
    enum End { EOF_, THROW } end = EOF_;      // what happens at `limit`
    bool reached = false;                     // the limit was reached
    std::string text;
    Rng r;
    size_t pos = 0, limit;
};
struct SimFailure : std::runtime_error { SimFailure() : std::runtime_error("simulated device failure") {} };
struct SimOut : std::streambuf {    // takes `limit` bytes, then fails
    explicit SimOut(size_t l) : limit(l) {}
    std::streamsize xsputn(const char* s, std::streamsize n) override;
    int overflow(int c) override;
    int sync() override { return failed ? -1 : 0; }
    size_t limit;
    bool throws = false, failed = false, recovers = false;
    std::string got;
};
ExportOptions optionsOf(const Plan& p);
void genOptions(Plan& p, Rng& r);
void checkNetwork(Network& n, const char* what);       // every oracle, in the working variant
std::string textDiff(const std::string& a, const std::string& b);
#endif
