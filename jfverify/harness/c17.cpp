// JF_FLAGS: -Wno-everything
// Histories of compiles, loads (each with failures at several steps) and executions on one engine of each kind.
#include "eng.h"
static std::unique_ptr<FunctionRegistry> g_reg, g_few;
static std::vector<std::string> g_single, g_batch;  // saved programs
static NodeP Bad(int kind) {
  std::vector<NodeP> a;
  switch (kind) {
    case 0: return NodeP(new FunctionNode("nosuch", std::move(a)));                         // validation
    case 1: return NodeP(new BinaryOPNode(BinaryOPType::kAdd, NodeP(new ConstantValueNode(ConstantValueType(int32_t(1)))), NodeP(new ConstantListValueNode(ConstantListValueType(std::vector<std::string>{"a"})))));  // types
    case 2: return NodeP(new FunctionNode("badir", std::move(a)));                          // module verification
    case 3: return NodeP(new FunctionNode("dangling", std::move(a)));                       // symbol lookup
    default: return NodeP();                                                                // no program
  }
}
static std::unique_ptr<FunctionRegistry> Registry(bool all) {
  auto reg = MkReg(all);
  reg->RegisterLLVMIntrinicFunc(FunctionSignature("badir", {}, ValueType::kI32), [](const FunctionSignature&, const std::vector<llvm::Type*>&, const std::vector<llvm::Value*>&, IRCodeGenContext& c) -> llvm::Value* { return llvm::ConstantInt::get(llvm::Type::getInt64Ty(c.context), 1); });
  reg->RegisterLLVMIntrinicFunc(FunctionSignature("dangling", {}, ValueType::kI32), [](const FunctionSignature&, const std::vector<llvm::Type*>&, const std::vector<llvm::Value*>&, IRCodeGenContext& c) -> llvm::Value* {
    auto f = c.module.getOrInsertFunction("jf_no_such_symbol", llvm::Type::getInt32Ty(c.context));
    return c.builder.CreateCall(f, {});
  });
  return reg;
}
static void Init() {
  if (g_reg) return;
  g_reg = Registry(true);
  g_few = Registry(false);
  ExecEngineOption o;
  o.enable_save_compiled = true;
  for (int i : {0, 7, 10, 21}) {
    ExecEngine e(o);
    auto n = MkProg(i);
    std::string s;
    if (!e.Compile(n, g_reg).ok() || !e.SaveCompiled(&s).ok()) abort();
    g_single.push_back(s);
  }
  for (int k : {1, 2, 5}) {
    BatchExecEngine e(o);
    std::vector<NodeP> l;
    for (int i = 0; i < k; ++i) l.push_back(MkProg(i * 3 % 22));
    std::string s;
    if (!e.Compile(l, g_reg).ok() || !e.SaveCompiled(&s).ok()) abort();
    g_batch.push_back(s);
  }
}
// ops: c<prog> compile, C<kind> failing compile, l<blob> load, L<blob>,<kind> failing load, x<entry point> execute; the first word says s(ingle) or b(atch)
static std::string Op(Rng& r, bool batch) {
  switch (r.below(9)) {
    case 0: return " c" + std::to_string(r.below(22));
    case 1: case 2: return " C" + std::to_string(r.below(batch ? 6 : 4)) + "," + std::to_string(r.below(3));
    case 3: return " l" + std::to_string(r.below(3));
    case 4: case 5: return " L" + std::to_string(r.below(3)) + "," + std::to_string(r.below(7));
    default: return " x" + std::to_string(r.below(4));
  }
}
std::string Gen(Rng& r, long n) {
  bool b = r.below(2);
  std::string s = b ? "b" : "s";
  if (n < 4) return std::string(n < 2 ? "s" : "b") + (n & 1 ? " x0 x1 x2 x3" : " C0 x0 x1 x2 x3");
  if (n < 60) {  // an earlier program, one failing step, every entry point
    n -= 4;
    b = n & 1;
    n /= 2;
    return std::string(b ? "b" : "s") + (n % 2 ? " c4" : " l1") + " x0" + (n / 2 < 6 ? " C" + std::to_string(b ? n / 2 : n / 2 % 4) + ",1" : " L1," + std::to_string((n / 2 - 6) % 7)) + " x0 x1 x2 x3";
  }
  int k = 1 + r.below(8);
  for (int i = 0; i < k; ++i) s += Op(r, b);
  return s + " x" + std::to_string(r.below(4));
}
static std::string Damage(const std::string& blob, int kind, const std::vector<std::string>& other) {
  std::string s = blob;
  switch (kind) {
    case 0: return "";
    case 1: return s.substr(0, s.size() / 2);
    case 2: s[0] ^= 1; return s;
    case 3: return other[0];        // the other kind of engine
    case 4: { size_t p = s.find("x86_64"); if (p == std::string::npos) p = s.find("linux"); if (p != std::string::npos) s[p] ^= 1; else s[0] ^= 1; return s; }
    case 5: { size_t p = s.find("\x7f" "ELF"); if (p != std::string::npos) memset(&s[p], 'x', 64); else s[0] ^= 1; return s; }
    default: return s;              // with a registry that lacks the functions
  }
}
bool Run(const std::string& c, std::string* msg) {
  Init();
  std::stringstream in(c);
  std::string w;
  in >> w;
  bool batch = w == "b";
  ExecEngine e;
  BatchExecEngine be;
  std::vector<int> held;  // the programs the engine holds
  uint64_t seed = 3;
  while (in >> w) {
    char op = w[0];
    unsigned x = 0, y = 0;
    sscanf(w.c_str() + 1, "%u,%u", &x, &y);
    Status st = Status::OK();
    if (op == 'c') {
      held.clear();
      std::vector<NodeP> l;
      for (unsigned i = 0; i < (batch ? 1 + x % 3 : 1); ++i) { l.push_back(MkProg((x + i) % 22)); held.push_back((x + i) % 22); }
      st = batch ? be.Compile(l, g_reg) : e.Compile(l[0], g_reg);
      if (!st.ok()) { *msg = w + ": compile fails: " + st.ToString(); return false; }
    } else if (op == 'C') {
      held.clear();
      if (batch) {
        std::vector<NodeP> l;
        if (x < 4) {
          for (unsigned i = 0; i < y; ++i) l.push_back(MkProg(i));
          l.push_back(Bad(x));
          if (y == 2) l.push_back(MkProg(5));
        }
        st = be.Compile(l, g_reg);
      } else {
        auto n = Bad(x);
        st = e.Compile(n, g_reg);
      }
      if (st.ok()) { *msg = w + ": a program that cannot be compiled is accepted"; return false; }
    } else if (op == 'l') {
      held.clear();
      if (batch) { static const int k[] = {1, 2, 5}; for (int i = 0; i < k[x % 3]; ++i) held.push_back(i * 3 % 22); st = be.LoadCompiled(g_batch[x % 3], g_reg); }
      else { static const int k[] = {0, 7, 10, 21}; held.push_back(k[x % 4]); st = e.LoadCompiled(g_single[x % 4], g_reg); }
      if (!st.ok()) { *msg = w + ": load fails: " + st.ToString(); return false; }
    } else if (op == 'L') {
      held.clear();
      std::string s = batch ? Damage(g_batch[x % 3], y, g_single) : Damage(g_single[x % 4], y, g_batch);
      st = batch ? be.LoadCompiled(s, y == 6 ? g_few : g_reg) : e.LoadCompiled(s, y == 6 ? g_few : g_reg);
      if (st.ok()) { *msg = w + ": a bad artifact is accepted"; return false; }
    } else {
      ExecContext ctx(4096);
      Args a;
      a.seed = ++seed * 977;
      uint64_t out[8] = {};
      RetType r = Sentinel();
      if (!batch) {
        if (held.empty()) {
          st = x == 0 ? e.Execute(&a, &r) : x == 1 ? e.Execute(ctx, &a, &r) : x == 2 ? e.Execute(&a, static_cast<void*>(out)) : e.Execute(ctx, &a, static_cast<void*>(out));
          if (st.ok()) { *msg = w + ": an engine without a program executes"; return false; }
        } else {
          st = x & 1 ? e.Execute(ctx, &a, &r) : e.Execute(&a, &r);
          if (!Judge(held[0], a, true, st, r, 0, 0, msg)) { *msg = w + ": " + *msg; return false; }
        }
      } else {
        if (be.GetFunctionCount() != held.size()) { *msg = w + ": the engine reports " + std::to_string(be.GetFunctionCount()) + " programs"; return false; }
        if (held.empty()) {
          std::vector<RetType> rs;
          Status s1 = x == 0 ? be.ExecuteAt(0, &a, &r) : x == 1 ? be.ExecuteAt(0, ctx, &a, &r) : x == 2 ? be.ExecuteAt(0, &a, static_cast<void*>(out)) : be.ExecuteAt(0, ctx, &a, static_cast<void*>(out));
          Status s2 = x == 0 ? be.ExecuteAll(&a, &rs) : x == 1 ? be.ExecuteAll(ctx, &a, &rs) : x == 2 ? be.ExecuteAll(&a, static_cast<void*>(out)) : be.ExecuteAll(ctx, &a, static_cast<void*>(out));
          if (s1.ok() || s2.ok()) { *msg = w + ": an engine without programs executes"; return false; }
        } else {
          for (size_t i = 0; i < held.size(); ++i) {
            unsigned c0 = a.calls[held[i]];
            st = x & 1 ? be.ExecuteAt(i, ctx, &a, &r) : be.ExecuteAt(i, &a, &r);
            if (be.GetReturnType(i) != Progs()[held[i]].t) { *msg = w + ": return type of program " + std::to_string(i); return false; }
            if (!Judge(held[i], a, true, st, r, 0, c0, msg)) { *msg = w + ": " + *msg; return false; }
          }
        }
      }
      for (int i = 0; held.empty() && i < 23; ++i)
        if (a.calls[i]) { *msg = w + ": released code was called"; return false; }
    }
  }
  return true;
}
