#include "xmlfault.h"
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <libxml/xmlerror.h>
#include <libxml/xmlmemory.h>
#include <libxml/xmlreader.h>
#include <libxml/xmlwriter.h>
namespace {
xmlfault::State g;
int g_depth = 0;
bool g_on = false;      // only in checks that run one thread
bool due(int64_t& left, bool sticky, bool& fired) {
    if (left < 0) return false;
    if (left > 0 && --left > 0) return false;
    if (!sticky) left = -1;
    return fired = true;
}
bool allocFails() { ++g.allocs; return due(g.allocLeft, g.allocSticky, g.allocFired); }
void* mallocS(size_t n) { return allocFails() ? nullptr : malloc(n); }
void* reallocS(void* p, size_t n) { return allocFails() ? nullptr : realloc(p, n); }
char* strdupS(const char* p) { return allocFails() ? nullptr : strdup(p); }
void silent(void*, const char*, ...) {}
template <class F, class... A> int call(const char* name, F& real, A... a) {
    if (!real) real = (F)dlsym(RTLD_NEXT, name);
    if (!g_on || g_depth > 0) return real(a...);
    ++g.calls;
    int r;
    if (due(g.callLeft, g.callSticky, g.callFired)) r = -1;
    else { ++g_depth; r = real(a...); --g_depth; }
    if (r < 0) { if (!g.reported) g.last = name; ++g.reported; }
    return r;
}
}
namespace xmlfault {
State& state() { return g; }
void reset() { g = State(); g_depth = 0; }
void install() { xmlMemSetup(free, mallocS, reallocS, strdupS); xmlSetGenericErrorFunc(nullptr, silent); reset(); g_on = true; }
}
#define W0(n) extern "C" int n(xmlTextWriterPtr w) { static int (*real)(xmlTextWriterPtr); return call(#n, real, w); }
#define W1(n, A) extern "C" int n(xmlTextWriterPtr w, A a) { static int (*real)(xmlTextWriterPtr, A); return call(#n, real, w, a); }
#define W2(n, A, B) extern "C" int n(xmlTextWriterPtr w, A a, B b) { static int (*real)(xmlTextWriterPtr, A, B); return call(#n, real, w, a, b); }
#define W3(n, A, B, C) extern "C" int n(xmlTextWriterPtr w, A a, B b, C c) { static int (*real)(xmlTextWriterPtr, A, B, C); return call(#n, real, w, a, b, c); }
#define W4(n, A, B, C, D) extern "C" int n(xmlTextWriterPtr w, A a, B b, C c, D d) { static int (*real)(xmlTextWriterPtr, A, B, C, D); return call(#n, real, w, a, b, c, d); }
typedef const xmlChar* X;
W3(xmlTextWriterStartDocument, const char*, const char*, const char*)
W0(xmlTextWriterEndDocument)
W1(xmlTextWriterStartElement, X)
W3(xmlTextWriterStartElementNS, X, X, X)
W0(xmlTextWriterEndElement)
W0(xmlTextWriterFullEndElement)
W2(xmlTextWriterWriteElement, X, X)
W4(xmlTextWriterWriteElementNS, X, X, X, X)
W1(xmlTextWriterStartAttribute, X)
W3(xmlTextWriterStartAttributeNS, X, X, X)
W0(xmlTextWriterEndAttribute)
W2(xmlTextWriterWriteAttribute, X, X)
W4(xmlTextWriterWriteAttributeNS, X, X, X, X)
W1(xmlTextWriterWriteString, X)
W1(xmlTextWriterWriteRaw, X)
W2(xmlTextWriterWriteRawLen, X, int)
W1(xmlTextWriterWriteCDATA, X)
W1(xmlTextWriterWriteComment, X)
W0(xmlTextWriterFlush)
extern "C" void xmlFreeTextWriter(xmlTextWriterPtr w) {      // flushes, and cannot tell
    static void (*real)(xmlTextWriterPtr);
    if (!real) real = (void (*)(xmlTextWriterPtr))dlsym(RTLD_NEXT, "xmlFreeTextWriter");
    if (!g_on) return real(w);
    ++g_depth;
    real(w);
    --g_depth;
}
extern "C" int xmlTextReaderRead(xmlTextReaderPtr w) { static int (*real)(xmlTextReaderPtr); return call("xmlTextReaderRead", real, w); }
extern "C" int xmlTextReaderNext(xmlTextReaderPtr w) { static int (*real)(xmlTextReaderPtr); return call("xmlTextReaderNext", real, w); }
