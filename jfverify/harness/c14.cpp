// JF_FLAGS: -DJF_SOLO -fsanitize=address -g
// Histories of one arena: every block is filled with a pattern of its own and must keep it until the next reset;
// AddressSanitizer watches the chunks and their release.
#include "arena.h"
#include "h.h"
using jitfusion::Arena;
extern "C" const char* __asan_default_options() { return "detect_leaks=1:exitcode=66:allocator_may_return_null=1"; }
static std::vector<int>* g_log;
template <size_t A, size_t N>
struct alignas(A) Obj {
  explicit Obj(int id) : id(id) { memset(pad, id, N); }
  ~Obj() {
    bool good = true;
    for (size_t i = 0; i < N; ++i) good &= pad[i] == static_cast<uint8_t>(id);
    g_log->push_back(good ? id : -1);
  }
  int id;
  uint8_t pad[N];
};
// ops: "m<bytes>" first; "a<size>,<align>", "o<kind>", "r" reset
std::string Gen(Rng& r, long n) {
  static const int mins[] = {1, 8, 16, 64, 100, 256, 4096};
  std::string s = "m" + std::to_string(mins[r.below(7)]);
  int k = 1 + r.below(n < 100 ? 8 : 60);
  for (int i = 0; i < k; ++i) {
    int x = r.below(20);
    if (x == 0) s += " r";
    else if (x <= 3) s += " o" + std::to_string(r.below(3));
    else {
      uint64_t sz = r.one_in(12) ? 0 : r.one_in(6) ? r.below(9000) : r.one_in(3) ? r.below(200) : r.below(24);
      s += " a" + std::to_string(sz) + "," + std::to_string(1ull << (r.one_in(4) ? r.below(13) : r.below(6)));
    }
  }
  return s;
}
struct Blk {
  uint8_t* p;
  size_t n;
  uint8_t v;
};
bool Run(const std::string& c, std::string* msg) {
  std::istringstream in(c);
  std::string op;
  std::vector<int> log, want;
  g_log = &log;
  int id = 0;
  bool ok = true;
  auto bad = [&](const std::string& m) {
    if (ok) *msg = m;
    ok = false;
  };
  in >> op;
  {
    Arena a(strtoull(op.c_str() + 1, nullptr, 10));
    std::vector<Blk> live;
    std::vector<int> objs;
    auto check = [&] {
      for (auto& b : live)
        for (size_t i = 0; i < b.n; ++i)
          if (b.p[i] != b.v) return bad("a block was overwritten through another block");
    };
    auto died = [&] {
      want.insert(want.end(), objs.rbegin(), objs.rend());
      objs.clear();
      if (log != want) bad("objects were not destroyed exactly once, last created first");
    };
    auto add = [&](uint8_t* p, size_t n, size_t al, int v, bool fill) {
      if (reinterpret_cast<uintptr_t>(p) % al) bad("a block is not aligned");
      for (auto& b : live)
        if (p < b.p + b.n && b.p < p + n) bad("two blocks overlap");
      if (fill) memset(p, v, n), live.push_back({p, n, static_cast<uint8_t>(v)});
    };
    while (ok && in >> op) {
      ++id;
      size_t av = a.avail_bytes(), tot = a.total_bytes();
      if (op[0] == 'a') {
        char* e;
        size_t n = strtoull(op.c_str() + 1, &e, 10), al = strtoull(e + 1, nullptr, 10);
        uint8_t* p = a.Allocate(n, al);
        if (n == 0) {
          if (p != nullptr || av != a.avail_bytes() || tot != a.total_bytes()) bad("an empty request returned something or changed the arena");
        } else if (p == nullptr) {
          bad("a request failed");
        } else {
          add(p, n, al, id & 0xff, true);
        }
      } else if (op[0] == 'o') {
        int k = op[1] - '0';
        void* p = nullptr;
        size_t n = 0, al = 0;
        if (k == 0) { using T = Obj<4, 12>; auto* o = a.Create<T>(id & 0xff); p = o; n = sizeof(T); al = alignof(T); }
        if (k == 1) { using T = Obj<32, 64>; auto* o = a.Create<T>(id & 0xff); p = o; n = sizeof(T); al = alignof(T); }
        if (k == 2) { using T = Obj<8, 500>; auto* o = a.Create<T>(id & 0xff); p = o; n = sizeof(T); al = alignof(T); }
        if (p == nullptr) bad("Create failed");
        else {
          add(static_cast<uint8_t*>(p), n, al, 0, false);
          objs.push_back(id & 0xff);
          // the object's own bytes are checked by its destructor; later blocks must not overlap it
          auto* u = static_cast<uint8_t*>(p);
          live.push_back({u, 0, 0});
          live.back().n = 0;
        }
      } else {
        check();
        a.Reset();
        died();
        live.clear();
        if (a.avail_bytes() != a.total_bytes()) bad("after a reset the first chunk is not wholly available");
        if (tot && !a.total_bytes()) bad("a reset dropped the first chunk");
      }
      check();
    }
    want.insert(want.end(), objs.rbegin(), objs.rend());
  }
  if (ok && log != want) bad("objects were not destroyed exactly once, last created first (destruction of the arena)");
  return ok;
}
