// Replay / enumeration driver: linked with the object code of /repo's current sources.
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <sys/mman.h>
#include "function_registry.h"
#include "exec_options.h"
using namespace jitfusion;
#ifndef JF_MAP
#define JF_MAP signature2funcstruct_
#endif

extern "C" {
// one line per registered function: name|ret|p1,p2..|kind|addr|needs_ctx
int jf_enum(const char* path) {
  std::unique_ptr<FunctionRegistry> reg;
  Status st = FunctionRegistryFactory::CreateFunctionRegistry(&reg);
  if (!st.ok()) return 1;
  FILE* f = fopen(path, "w");
  if (!f) return 2;
  for (auto& kv : reg->JF_MAP) {
    auto& s = kv.first;
    std::string ps;
    for (auto p : s.GetParamTypes()) {
      if (!ps.empty()) ps += ",";
      ps += TypeHelper::TypeToString(p);
    }
    fprintf(f, "%s|%s|%s|%d|%lx|%d\n", s.GetName().c_str(), TypeHelper::TypeToString(s.GetRetType()).c_str(), ps.c_str(),
            (int)kv.second.func_type, (unsigned long)kv.second.c_func_ptr, (int)kv.second.needs_exec_ctx);
  }
  fclose(f);
  return 0;
}
void* jf_ctx_new(int64_t chunk) { return new ExecContext(chunk); }
void jf_ctx_free(void* c) { delete static_cast<ExecContext*>(c); }
int jf_ctx_errors(void* c) { return (int)static_cast<ExecContext*>(c)->errors.size(); }
// While guarding, every arena block of a call is a mapping of its own that ends at an inaccessible page; the bytes around
// the block (alignment slack) are filled with a pattern and must keep it.
static const unsigned char kPat = 0xA5;
struct Blk { unsigned char* map; size_t len; unsigned char* p; size_t size; };
static std::vector<Blk>* g_blks = nullptr;
static bool g_guard = false;
uint8_t* __real__ZN9jitfusion5Arena8AllocateEmm(void*, size_t, size_t) __attribute__((weak));
uint8_t* __wrap__ZN9jitfusion5Arena8AllocateEmm(void* a, size_t size, size_t align) {
  if (!g_guard || size == 0 || size > (1UL << 42) || align > 64) return __real__ZN9jitfusion5Arena8AllocateEmm(a, size, align);
  if (align == 0) align = 1;
  const size_t body = (size + align - 1) / align * align;
  const size_t pages = (body + 4095) / 4096 * 4096;
  auto* m = static_cast<unsigned char*>(mmap(nullptr, pages + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (m == MAP_FAILED) return nullptr;
  if (pages < (1UL << 26)) memset(m, kPat, pages);
  else memset(m + pages - 4096, kPat, 4096);
  mprotect(m + pages, 4096, PROT_NONE);
  g_blks->push_back({m, pages, m + pages - body, size});
  return m + pages - body;
}
void jf_ctx_poison(void* c) {
  auto* e = static_cast<ExecContext*>(c);
  e->Clear();
  e->arena.Allocate(8);
  if (!g_blks) g_blks = new std::vector<Blk>();
  g_guard = true;
}
// 1 when nothing around the blocks of this call was written
int jf_ctx_poisoned(void* c, const void*, uint64_t) {
  g_guard = false;
  for (auto& b : *g_blks) {
    for (auto* q = b.map; b.len < (1UL << 26) && q < b.p; q++)
      if (*q != kPat) return 0;
    for (auto* q = b.p + b.size; q < b.map + b.len; q++)
      if (*q != kPat) return 0;
  }
  return 1;
}
void jf_ctx_clear(void* c) {
  g_guard = false;
  static_cast<ExecContext*>(c)->Clear();
  if (g_blks) {
    for (auto& b : *g_blks) munmap(b.map, b.len + 4096);
    g_blks->clear();
  }
}
}
