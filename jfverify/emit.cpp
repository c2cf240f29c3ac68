// Runs /repo's own engine on program trees given as text:
//   jf_emit    compiles up to the point where the generated module is handed to the JIT and stores that module
//   jf_exec    compiles completely and executes, recording the calls the program makes
// The module is captured at llvm::verifyModule (linker --wrap), i.e. exactly what JitCore::BuildAndLink built.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "exec_engine.h"
#include "exec_node.h"
#include "function_registry.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Support/raw_ostream.h"
using namespace jitfusion;
using NodeP = std::unique_ptr<ExecNode>;

static std::string g_path;          // where to store the next module ("" = do not capture)
static int g_seen = 0, g_broken = 0;
static std::string g_why;
static void jf_capture(const llvm::Module& m) {
  std::error_code ec;
  llvm::raw_fd_ostream os(g_path, ec);
  llvm::WriteBitcodeToFile(m, os);
}
extern "C" bool __real__ZN4llvm12verifyModuleERKNS_6ModuleEPNS_11raw_ostreamEPb(const llvm::Module&, llvm::raw_ostream*, bool*)
    __attribute__((weak));
extern "C" bool __wrap__ZN4llvm12verifyModuleERKNS_6ModuleEPNS_11raw_ostreamEPb(const llvm::Module& m, llvm::raw_ostream* o, bool* b) {
  std::string s;
  llvm::raw_string_ostream os(s);
  bool bad = __real__ZN4llvm12verifyModuleERKNS_6ModuleEPNS_11raw_ostreamEPb(m, &os, b);
  if (o) *o << os.str();
  if (g_path.empty()) return bad;
  g_seen++;
  g_broken = bad;
  g_why = os.str();
  if (!bad) jf_capture(m);
  return true;   // stop here: nothing is optimised or linked
}

static const std::map<std::string, ValueType>& types() {
  static const std::map<std::string, ValueType> t = {
      {"void", ValueType::kVoid}, {"u8", ValueType::kU8}, {"u16", ValueType::kU16}, {"u32", ValueType::kU32},
      {"u64", ValueType::kU64}, {"i8", ValueType::kI8}, {"i16", ValueType::kI16}, {"i32", ValueType::kI32},
      {"i64", ValueType::kI64}, {"f32", ValueType::kF32}, {"f64", ValueType::kF64}, {"string", ValueType::kString},
      {"u8list", ValueType::kU8List}, {"u16list", ValueType::kU16List}, {"u32list", ValueType::kU32List},
      {"u64list", ValueType::kU64List}, {"i8list", ValueType::kI8List}, {"i16list", ValueType::kI16List},
      {"i32list", ValueType::kI32List}, {"i64list", ValueType::kI64List}, {"f32list", ValueType::kF32List},
      {"f64list", ValueType::kF64List}, {"stringlist", ValueType::kStringList}, {"ptr", ValueType::kPtr}};
  return t;
}
static const std::map<std::string, BinaryOPType> kBin = {
    {"add", BinaryOPType::kAdd}, {"sub", BinaryOPType::kSub}, {"mul", BinaryOPType::kMul}, {"div", BinaryOPType::kDiv},
    {"mod", BinaryOPType::kMod}, {"gt", BinaryOPType::kLarge}, {"ge", BinaryOPType::kLargeEqual},
    {"eq", BinaryOPType::kEqual}, {"lt", BinaryOPType::kLess}, {"le", BinaryOPType::kLessEqual},
    {"ne", BinaryOPType::kNotEqual}, {"land", BinaryOPType::kAnd}, {"lor", BinaryOPType::kOr},
    {"and", BinaryOPType::kBitwiseAnd}, {"or", BinaryOPType::kBitwiseOr}, {"xor", BinaryOPType::kBitwiseXor},
    {"shl", BinaryOPType::kBitwiseShiftLeft}, {"shr", BinaryOPType::kBitwiseShiftRight}};
static const std::map<std::string, UnaryOPType> kUn = {
    {"plus", UnaryOPType::kPlus}, {"minus", UnaryOPType::kMinus}, {"not", UnaryOPType::kNot}, {"bnot", UnaryOPType::kBitwiseNot}};

struct P {
  std::vector<std::string> t;
  size_t i = 0;
  explicit P(const std::string& s) {
    std::string c;
    auto flush = [&] { if (!c.empty()) t.push_back(c); c.clear(); };
    for (char ch : s) {
      if (ch == '(' || ch == ')') { flush(); t.push_back(std::string(1, ch)); }
      else if (ch == ' ') flush();
      else c += ch;
    }
    flush();
  }
  std::string next() { return i < t.size() ? t[i++] : ")"; }
  bool more() { return i < t.size() && t[i] != ")"; }
  std::vector<NodeP> rest() {
    std::vector<NodeP> v;
    while (more()) v.push_back(node());
    return v;
  }
  static NodeP u32(uint32_t k) { return std::make_unique<ConstantValueNode>(ConstantValueType(k)); }
  template <class T> static NodeP cst(const std::string& s) {
    uint64_t b = strtoull(s.c_str(), nullptr, 16);
    T v;
    memcpy(&v, &b, sizeof(T));
    return std::make_unique<ConstantValueNode>(ConstantValueType(v));
  }
  static std::string unhex(const std::string& s) {
    std::string v;
    for (size_t k = 0; k + 1 < s.size(); k += 2) v += (char)strtol(s.substr(k, 2).c_str(), nullptr, 16);
    return v;
  }
  template <class T> NodeP clist() {
    std::vector<T> v;
    while (more()) {
      uint64_t b = strtoull(next().c_str(), nullptr, 16);
      T x;
      memcpy(&x, &b, sizeof(T));
      v.push_back(x);
    }
    return std::make_unique<ConstantListValueNode>(ConstantListValueType(v));
  }
  NodeP node() {
    NodeP r;
    if (next() != "(") abort();
    std::string k = next();
    if (k == "leaf") {           // (leaf T k): call of the external function leaf_T(arg, k)
      std::string T = next();
      std::vector<NodeP> a;
      a.push_back(std::make_unique<EntryArgumentNode>());
      a.push_back(u32(atoi(next().c_str())));
      r = std::make_unique<FunctionNode>("leaf_" + T, std::move(a));
    } else if (k == "sink") {    // (sink k x): external sink(arg, k, x)
      std::vector<NodeP> a;
      a.push_back(std::make_unique<EntryArgumentNode>());
      a.push_back(u32(atoi(next().c_str())));
      a.push_back(node());
      r = std::make_unique<FunctionNode>("sink", std::move(a));
    } else if (k == "const") {
      std::string T = next(), v = more() ? next() : "";
      if (T == "u8") r = cst<uint8_t>(v);
      else if (T == "u16") r = cst<uint16_t>(v);
      else if (T == "u32") r = cst<uint32_t>(v);
      else if (T == "u64") r = cst<uint64_t>(v);
      else if (T == "i8") r = cst<int8_t>(v);
      else if (T == "i16") r = cst<int16_t>(v);
      else if (T == "i32") r = cst<int32_t>(v);
      else if (T == "i64") r = cst<int64_t>(v);
      else if (T == "f32") r = cst<float>(v);
      else if (T == "f64") r = cst<double>(v);
      else r = std::make_unique<ConstantValueNode>(ConstantValueType(unhex(v)));
    } else if (k == "clist") {
      std::string T = next();
      if (T == "u8list") r = clist<uint8_t>();
      else if (T == "u16list") r = clist<uint16_t>();
      else if (T == "u32list") r = clist<uint32_t>();
      else if (T == "u64list") r = clist<uint64_t>();
      else if (T == "i8list") r = clist<int8_t>();
      else if (T == "i16list") r = clist<int16_t>();
      else if (T == "i32list") r = clist<int32_t>();
      else if (T == "i64list") r = clist<int64_t>();
      else if (T == "f32list") r = clist<float>();
      else if (T == "f64list") r = clist<double>();
      else {
        std::vector<std::string> v;
        while (more()) v.push_back(unhex(next().substr(1)));
        r = std::make_unique<ConstantListValueNode>(ConstantListValueType(v));
      }
    } else if (k == "arg") r = std::make_unique<EntryArgumentNode>();
    else if (k == "ctx") r = std::make_unique<ExecContextNode>();
    else if (k == "out") r = std::make_unique<OutputNode>();
    else if (k == "un") { auto o = kUn.at(next()); auto x = node(); r = std::make_unique<UnaryOPNode>(o, std::move(x)); }
    else if (k == "bin") { auto o = kBin.at(next()); auto x = node(); auto y = node(); r = std::make_unique<BinaryOPNode>(o, std::move(x), std::move(y)); }
    else if (k == "call") { auto n = next(); r = std::make_unique<FunctionNode>(n, rest()); }
    else if (k == "if") r = std::make_unique<IfNode>(rest());
    else if (k == "switch") r = std::make_unique<SwitchNode>(rest());
    else if (k == "ifblock") r = std::make_unique<IfBlockNode>(rest());
    else if (k == "ref") r = std::make_unique<RefNode>(next());
    else if (k == "seq" || k == "iso") {   // elements: (do x) | (set name x) | (let name x)
      std::vector<VarInfo> vi;
      std::vector<NodeP> a;
      while (more()) {
        next();
        std::string w = next();
        if (w == "do") vi.emplace_back("", false);
        else vi.emplace_back(next(), w == "let");
        a.push_back(node());
        next();
      }
      r = std::make_unique<NoOPNode>(std::move(vi), std::move(a), k == "iso");
    } else { fprintf(stderr, "bad node %s\n", k.c_str()); abort(); }
    if (next() != ")") { fprintf(stderr, "bad end after %s\n", k.c_str()); abort(); }
    return r;
  }
};

// ---- external functions the programs call when they are executed
struct Slot { uint64_t raw[2]; };
static std::vector<uint64_t> g_trace;   // (kind, k, value)
template <class T> static T leafv(void* p, uint32_t k) {
  g_trace.insert(g_trace.end(), {0, k, 0});
  T v;
  memset(&v, 0, sizeof v);
  memcpy(&v, static_cast<Slot*>(p)[k].raw, sizeof(T) > 12 ? 12 : sizeof(T));
  return v;
}
template <class T> static void sinkv(void*, uint32_t k, T v0) {
  uint64_t b = 0;
  volatile char raw[sizeof(T)];   // the emitted call need not extend narrow arguments: keep only the argument's own bytes
  for (size_t i = 0; i < sizeof(T); i++) raw[i] = reinterpret_cast<const volatile char*>(&v0)[i];
  T v;
  for (size_t i = 0; i < sizeof(T); i++) reinterpret_cast<char*>(&v)[i] = raw[i];
  memcpy(&b, &v, sizeof(T) < 8 ? sizeof(T) : 8);
  g_trace.insert(g_trace.end(), {1, k, b});
}
static Status add(FunctionRegistry* r, const char* n, std::vector<ValueType> ps, ValueType ret, void* f) {
  FunctionStructure s;
  s.func_type = FunctionType::kCFunc;
  s.c_func_ptr = f;
  return r->RegisterFunc(FunctionSignature(n, std::move(ps), ret), std::move(s));
}
template <class T> static void both(FunctionRegistry* r, const std::string& t, bool sink) {
  auto vt = types().at(t);
  if (!add(r, ("leaf_" + t).c_str(), {ValueType::kPtr, ValueType::kU32}, vt, (void*)leafv<T>).ok()) abort();
  if (sink && !add(r, "sink", {ValueType::kPtr, ValueType::kU32, vt}, ValueType::kVoid, (void*)sinkv<T>).ok()) abort();
}
static std::unique_ptr<FunctionRegistry>& registry() {
  static std::unique_ptr<FunctionRegistry> reg;
  if (!reg) {
    if (!FunctionRegistryFactory::CreateFunctionRegistry(&reg).ok()) abort();
    auto* r = reg.get();
    both<uint8_t>(r, "u8", true); both<uint16_t>(r, "u16", true); both<uint32_t>(r, "u32", true); both<uint64_t>(r, "u64", true);
    both<int8_t>(r, "i8", true); both<int16_t>(r, "i16", true); both<int32_t>(r, "i32", true); both<int64_t>(r, "i64", true);
    both<float>(r, "f32", true); both<double>(r, "f64", true);
    both<StringStruct>(r, "string", true);
    both<U8ListStruct>(r, "u8list", true); both<U16ListStruct>(r, "u16list", true); both<U32ListStruct>(r, "u32list", true);
    both<U64ListStruct>(r, "u64list", true); both<I8ListStruct>(r, "i8list", true); both<I16ListStruct>(r, "i16list", true);
    both<I32ListStruct>(r, "i32list", true); both<I64ListStruct>(r, "i64list", true); both<F32ListStruct>(r, "f32list", true);
    both<F64ListStruct>(r, "f64list", true); both<StringListStruct>(r, "stringlist", true);
    both<void*>(r, "ptr", true);
  }
  return reg;
}
static std::string oneline(std::string s) {
  for (auto& c : s)
    if (c == '\n' || c == '|') c = ' ';
  return s.substr(0, 400);
}

static ExecEngineOption strict() {
  ExecEngineOption o;
  o.fp_math_mode = FPMathMode::kStrict;
  return o;
}
struct Put {
  uint64_t* o;
  template <class T> void operator()(T& v) const {
    if constexpr (std::is_arithmetic_v<T>) { o[0] = 0; memcpy(o, &v, sizeof v); o[1] = 0; }
    else if constexpr (std::is_same_v<T, std::string>) { static std::string keep; keep = v; o[0] = (uint64_t)keep.data(); o[1] = keep.size(); }
    else if constexpr (std::is_same_v<T, std::vector<std::string>>) { o[0] = 0; o[1] = v.size(); }
    else { static T keep; keep = v; o[0] = (uint64_t)keep.data(); o[1] = keep.size(); }
  }
};
extern "C" {
// progs: one program per line. Result, one line each: captured(0/1)|verifier rejected(0/1)|root type|message; modules in <dir>/<n>.bc
int jf_emit(const char* progs, const char* dir, const char* res) {
  std::ifstream in(progs);
  std::ofstream out(res);
  std::string line;
  for (int n = 0; std::getline(in, line); n++) {
    P p(line);
    NodeP root = p.node();
    ExecEngine eng(strict());
    g_path = std::string(dir) + "/" + std::to_string(n) + ".bc";
    g_seen = g_broken = 0;
    g_why.clear();
    Status st = eng.Compile(root, registry());
    g_path.clear();
    out << (g_seen && !g_broken) << '|' << g_broken << '|' << TypeHelper::TypeToString(root->GetReturnType()) << '|'
        << oneline(g_broken ? g_why : st.ToString()) << std::endl;
  }
  return 0;
}
static ExecEngine* g_eng = nullptr;
static std::string g_msg;
// 1 when the program compiles
int jf_compile(const char* prog) {
  delete g_eng;
  g_eng = new ExecEngine(strict());
  P p(prog);
  NodeP root = p.node();
  Status st = g_eng->Compile(root, registry());
  g_msg = st.ToString();
  return st.ok();
}
const char* jf_msg() { return g_msg.c_str(); }
// returns the number of trace words, or -1 when execution reports an error
int jf_run(void* slots, uint64_t* result, int is_void, uint64_t* trace, int cap) {
  g_trace.clear();
  Status st;
  if (is_void) st = g_eng->Execute(slots, static_cast<void*>(result));
  else {
    RetType r;
    st = g_eng->Execute(slots, &r);
    if (st.ok()) std::visit(Put{result}, r);
  }
  g_msg = st.ToString();
  if (!st.ok()) return -1;
  int n = (int)g_trace.size() < cap ? (int)g_trace.size() : cap;
  memcpy(trace, g_trace.data(), n * 8);
  return n;
}
}
