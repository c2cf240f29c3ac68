// JF_FLAGS: -DJF_SOLO -fsanitize=address -g
// Artifacts written by the library, whole, cut and with bytes or length fields changed, given to the parser in a buffer of
// exactly their size (AddressSanitizer sees any byte read outside it) and compared with a second reading of the layout.
#include "compiled_artifact.h"
#include <memory>
#include <new>
#include "h.h"
using namespace jitfusion;
extern "C" const char* __asan_default_options() { return "detect_leaks=1:exitcode=66:allocator_may_return_null=1:max_allocation_size_mb=64"; }
static size_t g_big;
void* operator new(size_t n) {
  if (n > g_big) g_big = n;
  return malloc(n ? n : 1);
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
// "f m<mode> p<fp> e<entries> s<len> s<len> s<len> o<len> x<len>... [cut <n>] [set <off> <byte>] [le <off> <bytes> <value>]"
std::string Gen(Rng& r, long n) {
  static const int lens[] = {0, 1, 3, 7, 15, 16, 40, 300};
  auto len = [&] { return std::to_string(r.one_in(3) ? lens[r.below(8)] : r.below(20)); };
  int m = r.below(2), e = m ? 1 + r.below(r.one_in(4) ? 300 : 5) : 1;
  std::string s = "f m" + std::to_string(m) + " p" + std::to_string(r.below(2)) + " e" + std::to_string(e);
  size_t total = 8 + 12 + 6 + e + 8 + 4 + 4;
  std::vector<size_t> at{4, 8};
  size_t p = 8;
  for (int i = 0; i < 5; ++i) {
    if (i == 3) {
      at.push_back(p), at.push_back(p + 1), at.push_back(p + 2);
      p += 6 + e;
      at.push_back(p);
      p += 8;
    }
    if (i == 4) {
      at.push_back(p);
      p += 4;
      int k = r.one_in(2) ? 0 : r.below(4);
      for (int j = 0; j < k; ++j) {
        std::string l = len();
        s += " x" + l;
        at.push_back(p + 4);
        p += 8 + std::stoul(l);
      }
      at.push_back(p);
      p += 4;
      break;
    }
    std::string l = len();
    s += (i < 3 ? " s" : " o") + l;
    if (i < 3) {
      at.push_back(p);
      p += 4;
    }
    p += std::stoul(l);
  }
  total = p;
  int k = r.one_in(5) ? 0 : 1 + r.below(2);
  for (int i = 0; i < k; ++i) {
    int x = r.below(6);
    if (x <= 1) s += " cut " + std::to_string(r.one_in(2) ? r.below(total + 1) : total - r.below(std::min<size_t>(total, 12) + 1));
    else if (x == 2) s += " set " + std::to_string(r.below(total)) + " " + std::to_string(r.below(256));
    else {
      static const uint64_t vs[] = {0, 1, 2, 3, 255, 256, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0xfffffffeull, 0xfffffffcull, 0x100000000ull, 0x7fffffffffffffffull,
                                    0x8000000000000000ull, 0xffffffffffffffffull, 0xfffffffffffffff0ull, 0x3fffffffull, 0x40000000ull, 0x1fffffffull};
      size_t o = at[r.below(at.size())];
      uint64_t v = r.one_in(3) ? total - std::min(total, o) + r.below(9) - 4 : r.one_in(3) ? 0 - (uint64_t)r.below(2 * total + 16) : vs[r.below(19)];
      s += " le " + std::to_string(o) + " " + (r.one_in(3) ? "8" : "4") + " " + std::to_string(v);
    }
  }
  return s;
}
struct Parsed {
  bool ok = false;
  std::string s[3], obj;
  unsigned mode = 0, fp = 0;
  std::string rets;
  size_t obj_at = 0;
  std::vector<std::pair<uint32_t, std::string>> ext;
};
static Parsed Ref(const std::string& b) {
  Parsed q;
  size_t p = 0;
  bool bad = false;
  auto have = [&](unsigned __int128 n) { return !bad && n <= b.size() - p; };
  auto num = [&](int n) -> uint64_t {
    if (!have(n)) return bad = true, 0;
    uint64_t v = 0;
    for (int i = n - 1; i >= 0; --i) v = v << 8 | (uint8_t)b[p + i];
    p += n;
    return v;
  };
  auto str = [&](uint64_t n) -> std::string {
    if (!have(n)) return bad = true, "";
    p += n;
    return b.substr(p - n, n);
  };
  if (str(4) != "JFCA" || num(4) != kArtifactFormatVersion) bad = true;
  for (auto& s : q.s) s = str(num(4));
  q.mode = num(1), q.fp = num(1);
  uint64_t n = num(4);
  if (q.mode > 1 || q.fp > 1 || n == 0 || (q.mode == 0 && n != 1)) bad = true;
  q.rets = str(n);
  n = num(8);
  q.obj_at = p;
  q.obj = str(n);
  n = num(4);
  for (uint64_t i = 0; i < n && !bad; ++i) {
    uint32_t t = num(4);
    q.ext.push_back({t, str(num(4))});
  }
  if (str(4) != "JFCE" || p != b.size()) bad = true;
  q.ok = !bad;
  return q;
}
static ArtifactHeader Dirty() {
  ArtifactHeader h;
  h.llvm_version = "before";
  h.per_entry_ret_types.assign(7, static_cast<ValueType>(3));
  h.extensions.push_back({9, "before"});
  return h;
}
static bool Same(const ArtifactHeader& h, const Parsed& q) {
  bool s = h.llvm_version == q.s[0] && h.target_triple == q.s[1] && h.cpu_name == q.s[2] && (unsigned)h.mode == q.mode && (unsigned)h.fp_math_mode == q.fp &&
           h.per_entry_ret_types.size() == q.rets.size() && h.extensions.size() == q.ext.size();
  for (size_t i = 0; s && i < q.rets.size(); ++i) s = (uint8_t)h.per_entry_ret_types[i] == (uint8_t)q.rets[i];
  for (size_t i = 0; s && i < q.ext.size(); ++i) s = h.extensions[i].tag == q.ext[i].first && h.extensions[i].payload == q.ext[i].second;
  return s;
}
bool Run(const std::string& c, std::string* msg) {
  std::istringstream in(c);
  std::string op;
  ArtifactHeader h;
  Parsed want;
  std::string obj;
  uint8_t fill = 1;
  auto text = [&](size_t n) {
    std::string s;
    for (size_t i = 0; i < n; ++i) s += (char)(fill += 37);
    return s;
  };
  int ns = 0;
  std::string blob;
  bool written = false, changed = false;
  auto write = [&]() -> bool {
    written = true;
    want.rets.clear();
    for (auto t : h.per_entry_ret_types) want.rets += (char)t;
    want.mode = (unsigned)h.mode, want.fp = (unsigned)h.fp_math_mode, want.obj = obj;
    Status st = SerializeArtifact(h, obj, &blob);
    if (!st.ok()) return *msg = "valid fields are not written: " + st.ToString(), false;
    return true;
  };
  while (in >> op) {
    uint64_t v = op.size() > 1 ? strtoull(op.c_str() + 1, nullptr, 10) : 0;
    if (op == "f") continue;
    if (op[0] == 'm') h.mode = static_cast<ArtifactMode>(v);
    else if (op[0] == 'p') h.fp_math_mode = static_cast<FPMathMode>(v);
    else if (op[0] == 'e') for (uint64_t i = 0; i < v; ++i) h.per_entry_ret_types.push_back(static_cast<ValueType>(i % 23));
    else if (op[0] == 'o') obj = text(v);
    else if (op[0] == 'x') h.extensions.push_back({(uint32_t)(fill * 0x1010101u), text(v)}), want.ext.push_back({h.extensions.back().tag, h.extensions.back().payload});
    else if (op == "set" || op == "cut" || op == "le") {
      if (!written && !write()) return false;
      changed = true;
      uint64_t a, n, x;
      in >> a;
      if (op == "cut") {
        if (a < blob.size()) blob.resize(a);
      } else if (op == "set") {
        in >> x;
        if (a < blob.size()) blob[a] = (char)x;
      } else {
        in >> n >> x;
        for (uint64_t i = 0; i < n && a + i < blob.size(); ++i) blob[a + i] = (char)(x >> (8 * i));
      }
    } else if (op[0] == 's') {
      std::string t = text(v);
      (ns == 0 ? h.llvm_version : ns == 1 ? h.target_triple : h.cpu_name) = t;
      want.s[ns++] = t;
    }
  }
  if (!written && !write()) return false;
  Parsed ref = Ref(blob);
  if (!changed) {
    if (!ref.ok) return *msg = "the writer's bytes do not follow the layout", false;
    if (!Same(h, ref) || ref.obj != obj) return *msg = "the writer's bytes carry other fields", false;
  }
  std::unique_ptr<char[]> exact(new char[blob.size()]);
  memcpy(exact.get(), blob.data(), blob.size());
  ArtifactHeader got = Dirty();
  std::string_view o("before");
  g_big = 0;
  Status st = DeserializeArtifact(std::string_view(exact.get(), blob.size()), &got, &o);
  if (g_big > 16 * blob.size() + 4096) return *msg = "a length field led to a request of " + std::to_string(g_big) + " bytes for " + std::to_string(blob.size()), false;
  if (st.ok() != ref.ok) return *msg = st.ok() ? "a malformed artifact was accepted" : "a well-formed artifact was refused: " + st.ToString(), false;
  if (!st.ok()) return true;
  if (!Same(got, ref)) return *msg = "parsed fields differ", false;
  if (o.size() != ref.obj.size() || o.data() != exact.get() + ref.obj_at) return *msg = "the object bytes are not those of the artifact", false;
  return true;
}
