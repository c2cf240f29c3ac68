#pragma once
// Engines over functions whose value, errors and calls are decided per execution by the entry arguments.
#define LLVM_DISABLE_ABI_BREAKING_CHECKS_ENFORCING 1
#include <functional>
#include <memory>
#include "batch_exec_engine.h"
#include "exec_engine.h"
#include "exec_node.h"
#include "function_registry.h"
#include "h.h"
using namespace jitfusion;
using NodeP = std::unique_ptr<ExecNode>;
static constexpr int kTypes = 24;  // 22 result types, a void program last (23) and kString lists in between
struct Args {
  uint64_t seed = 0;
  unsigned errs[32] = {};   // errors recorded by program i
  unsigned calls[32] = {};
  void* ctx = nullptr;
};
static std::string ErrText(int prog, unsigned i) { return "E" + std::to_string(prog) + "." + std::to_string(i) + "!"; }
static void Note(Args* a, ExecContext* c, int prog) {
  a->calls[prog]++;
  a->ctx = c;
  for (unsigned i = 0; i < a->errs[prog]; ++i) c->AddError(ErrText(prog, i));
}
static uint64_t Mix(uint64_t a, uint64_t b) {
  Rng r{a * 1000003 + b};
  return r.next();
}
template <class T>
T Num(uint64_t s, uint64_t i) {
  if constexpr (std::is_floating_point_v<T>) return static_cast<T>(static_cast<int32_t>(Mix(s, i))) / 4;
  else return static_cast<T>(Mix(s, i));
}
static size_t Len(uint64_t s) { return Mix(s, 77) % 6; }
static std::string Text(uint64_t s, uint64_t i) {
  std::string r;
  size_t n = Mix(s, i + 500) % 40;
  for (size_t k = 0; k < n; ++k) r += static_cast<char>(Mix(s, i * 64 + k) % 251);
  return r;
}
static StringStruct Str(ExecContext* c, const std::string& t) {
  char* p = reinterpret_cast<char*>(c->arena.Allocate(t.size() + 1));
  memcpy(p, t.data(), t.size());
  return StringStruct{p, static_cast<uint32_t>(t.size())};
}
template <class T, int P>
T FnNum(void* a, void* c) {
  Note(static_cast<Args*>(a), static_cast<ExecContext*>(c), P);
  return Num<T>(static_cast<Args*>(a)->seed, P);
}
template <int P>
StringStruct FnStr(void* a, void* c) {
  Note(static_cast<Args*>(a), static_cast<ExecContext*>(c), P);
  return Str(static_cast<ExecContext*>(c), Text(static_cast<Args*>(a)->seed, P));
}
template <class LS, class T, int P>
LS FnList(void* a, void* c) {
  auto* args = static_cast<Args*>(a);
  auto* ctx = static_cast<ExecContext*>(c);
  Note(args, ctx, P);
  uint64_t s = args->seed + P;
  size_t n = Len(s);
  LS l;
  l.data = reinterpret_cast<T*>(ctx->arena.Allocate(n * sizeof(T) + 8));
  l.len = n;
  for (size_t i = 0; i < n; ++i) {
    if constexpr (std::is_same_v<T, StringStruct>) l.data[i] = Str(ctx, Text(s, i));
    else l.data[i] = Num<T>(s, i);
  }
  return l;
}
// the store of the void program
template <int P>
void FnStore(void* out, void* a, void* c) {
  auto* args = static_cast<Args*>(a);
  Note(args, static_cast<ExecContext*>(c), P);
  if (out) *static_cast<uint64_t*>(out) = Mix(args->seed, P);
}
struct Prog {
  ValueType t;
  void* fn;
  std::function<RetType(uint64_t)> value;
};
template <class T, int P>
Prog MkNum(ValueType t) {
  return {t, reinterpret_cast<void*>(&FnNum<T, P>), [](uint64_t s) { return RetType(Num<T>(s, P)); }};
}
template <class LS, class T, int P>
Prog MkList(ValueType t) {
  return {t, reinterpret_cast<void*>(&FnList<LS, T, P>), [](uint64_t s) {
            s += P;
            std::vector<T> v;
            for (size_t i = 0; i < Len(s); ++i) v.push_back(Num<T>(s, i));
            return RetType(v);
          }};
}
static const std::vector<Prog>& Progs() {
  using V = ValueType;
  static std::vector<Prog> p = {
      MkNum<uint8_t, 0>(V::kU8), MkNum<uint16_t, 1>(V::kU16), MkNum<uint32_t, 2>(V::kU32), MkNum<uint64_t, 3>(V::kU64),
      MkNum<int8_t, 4>(V::kI8), MkNum<int16_t, 5>(V::kI16), MkNum<int32_t, 6>(V::kI32), MkNum<int64_t, 7>(V::kI64),
      MkNum<float, 8>(V::kF32), MkNum<double, 9>(V::kF64),
      {V::kString, reinterpret_cast<void*>(&FnStr<10>), [](uint64_t s) { return RetType(Text(s, 10)); }},
      MkList<U8ListStruct, uint8_t, 11>(V::kU8List), MkList<U16ListStruct, uint16_t, 12>(V::kU16List), MkList<U32ListStruct, uint32_t, 13>(V::kU32List), MkList<U64ListStruct, uint64_t, 14>(V::kU64List),
      MkList<I8ListStruct, int8_t, 15>(V::kI8List), MkList<I16ListStruct, int16_t, 16>(V::kI16List), MkList<I32ListStruct, int32_t, 17>(V::kI32List), MkList<I64ListStruct, int64_t, 18>(V::kI64List),
      MkList<F32ListStruct, float, 19>(V::kF32List), MkList<F64ListStruct, double, 20>(V::kF64List),
      {V::kStringList, reinterpret_cast<void*>(&FnList<StringListStruct, StringStruct, 21>), [](uint64_t s) {
         s += 21;
         std::vector<std::string> v;
         for (size_t i = 0; i < Len(s); ++i) v.push_back(Text(s, i));
         return RetType(v);
       }},
      {V::kVoid, reinterpret_cast<void*>(&FnStore<22>), nullptr}};
  return p;
}
static const int kVoidProg = 22;
static std::unique_ptr<FunctionRegistry> MkReg(bool all = true) {
  std::unique_ptr<FunctionRegistry> reg;
  if (!FunctionRegistryFactory::CreateFunctionRegistry(&reg).ok()) abort();
  for (size_t i = 0; all && i < Progs().size(); ++i) {
    const Prog& p = Progs()[i];
    Status st = Status::OK();
    if (static_cast<int>(i) == kVoidProg)
      st = reg->RegisterStoreCFunc(FunctionSignature("p" + std::to_string(i), {ValueType::kPtr, ValueType::kPtr, ValueType::kPtr}, ValueType::kVoid), p.fn, 1);
    else
      st = reg->RegisterReadOnlyCFunc(FunctionSignature("p" + std::to_string(i), {ValueType::kPtr, ValueType::kPtr}, p.t), p.fn);
    if (!st.ok()) abort();
  }
  return reg;
}
static NodeP MkProg(int i) {
  std::vector<NodeP> a;
  if (i == kVoidProg) a.emplace_back(new OutputNode);
  a.emplace_back(new EntryArgumentNode);
  a.emplace_back(new ExecContextNode);
  NodeP f(new FunctionNode("p" + std::to_string(i), std::move(a)));
  if (i != kVoidProg) return f;
  std::vector<NodeP> l;
  l.push_back(std::move(f));
  return NodeP(new NoOPNode(std::move(l)));
}
static const RetType& Sentinel() {
  static RetType s = std::string("untouched");
  return s;
}
static bool Same(const RetType& a, const RetType& b) {
  return a == b;
}
// one execution's outcome against what was asked for; prog >= 0
static bool Judge(int prog, const Args& a, bool typed, const Status& st, const RetType& r, uint64_t out, unsigned calls0, std::string* msg) {
  if (a.calls[prog] != calls0 + 1) { *msg = "program " + std::to_string(prog) + " called " + std::to_string(a.calls[prog] - calls0) + " times"; return false; }
  if (st.ok() != (a.errs[prog] == 0)) { *msg = "program " + std::to_string(prog) + ": status " + st.ToString() + " with " + std::to_string(a.errs[prog]) + " errors recorded"; return false; }
  if (!st.ok()) {
    std::string m = st.ToString();
    size_t at = 0;
    for (unsigned i = 0; i < a.errs[prog]; ++i) {
      size_t q = m.find(ErrText(prog, i), at);
      if (q == std::string::npos) { *msg = "the message of error " + std::to_string(i) + " is missing: " + m; return false; }
      at = q + 1;
    }
    size_t n = 0;
    for (char c : m) n += c == '!';
    if (n != a.errs[prog]) { *msg = "messages of other executions: " + m; return false; }
    return true;
  }
  if (typed && prog != kVoidProg && !Same(r, Progs()[prog].value(a.seed))) { *msg = "program " + std::to_string(prog) + " delivered another value"; return false; }
  if (!typed && prog == kVoidProg && out != Mix(a.seed, prog)) { *msg = "the store of the void program is missing"; return false; }
  return true;
}
