// Instantiates the header-only parts of /repo's arena so that they exist as functions.
#include "arena.h"
using jitfusion::Arena;
extern "C" {
void jf_ctor(void*) noexcept;
void jf_dtor(void*) noexcept;
}
struct alignas(32) JfObj {
  JfObj() noexcept { jf_ctor(this); }
  ~JfObj() noexcept { jf_dtor(this); }
  char bytes[40];
};
struct JfPlain {
  long a;
  char c;
};
extern "C" {
JfObj* jf_create(Arena* a) { return a->Create<JfObj>(); }
JfPlain* jf_create_plain(Arena* a) { return a->Create<JfPlain>(); }
void jf_destroy_arena(Arena* a) { a->~Arena(); }
}
