// The library compiled with calls at every memory access (clang -fsanitize=thread, without its runtime), as a plug-in of C28.
#include "acts.hpp"
#define EXPORT extern "C" __attribute__((visibility("default")))
using namespace acts;
EXPORT int plug_kinds() { return KINDS; }
EXPORT int plug_variants(int kind) { return variants(kind); }
EXPORT int plug_acts(int kind) { return (int)all(kind).size(); }
EXPORT const char* plug_kind(int kind) { return NAME[kind]; }
EXPORT const char* plug_act(int kind, int a) { return all(kind)[a].name; }
EXPORT int plug_query(int kind, int a) { return all(kind)[a].query; }
EXPORT void* plug_build(int kind, int v, const char* dir) { Obj* o = new Obj; build(*o, kind, v, dir); return o; }
EXPORT int plug_run(void* o, int kind, int a) { try { all(kind)[a].f(*(Obj*)o); return 0; } catch (std::exception&) { return 1; } }
EXPORT void plug_drop(void* o) { delete (Obj*)o; }
