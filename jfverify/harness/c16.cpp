// JF_FLAGS: -Wno-everything
// Executions of every result type through every entry point, on shared and own contexts, with and without recorded errors.
#include "eng.h"
static std::vector<std::unique_ptr<ExecEngine>> g_eng;
static std::unique_ptr<BatchExecEngine> g_all, g_void;
static std::unique_ptr<FunctionRegistry> g_reg;
static void Init() {
  if (g_reg) return;
  g_reg = MkReg();
  std::vector<NodeP> l, v;
  for (int i = 0; i <= kVoidProg; ++i) {
    g_eng.emplace_back(new ExecEngine);
    auto n = MkProg(i);
    auto st = g_eng.back()->Compile(n, g_reg);
    if (!st.ok()) { printf("%s\n", st.ToString().c_str()); abort(); }
    l.push_back(MkProg(i));
  }
  for (int i = 0; i < 3; ++i) v.push_back(MkProg(kVoidProg));
  g_all.reset(new BatchExecEngine);
  if (!g_all->Compile(l, g_reg).ok()) abort();
  g_void.reset(new BatchExecEngine);
  if (!g_void->Compile(v, g_reg).ok()) abort();
}
// ops: e<prog>,<errors>,<shared>  single   b<prog>,<errors>,<shared> batch ExecuteAt   a<mask>,<shared> ExecuteAll  v<..> void* overloads  o<index>,<shared> out of range
std::string Gen(Rng& r, long n) {
  if (n < 23 * 4) {  // every type through every single-value entry point first
    int p = n / 4, k = n % 4;
    return "s1 " + std::string(1, k < 2 ? 'e' : 'b') + std::to_string(p) + ",2," + std::to_string(k & 1) + " " + (k < 2 ? "e" : "b") + std::to_string(p) + ",0," + std::to_string(k & 1);
  }
  std::string s = "s" + std::to_string(r.below(1000000));
  int k = 1 + r.below(10);
  for (int i = 0; i < k; ++i) {
    int sh = r.below(2), e = r.one_in(2) ? 0 : r.below(4);
    switch (r.below(7)) {
      case 0: case 1: s += " e" + std::to_string(r.below(23)) + "," + std::to_string(e) + "," + std::to_string(sh); break;
      case 2: case 3: s += " b" + std::to_string(r.below(23)) + "," + std::to_string(e) + "," + std::to_string(sh); break;
      case 4: s += " a" + std::to_string(r.one_in(3) ? 0 : r.below(1 << 23)) + "," + std::to_string(e) + "," + std::to_string(sh); break;
      case 5: s += " v" + std::to_string(r.below(3)) + "," + std::to_string(e) + "," + std::to_string(sh); break;
      case 6: s += " o" + std::to_string(r.one_in(2) ? 23 : 24 + r.below(1000)) + "," + std::to_string(r.below(2)) + "," + std::to_string(sh); break;
    }
  }
  return s;
}
bool Run(const std::string& c, std::string* msg) {
  Init();
  ExecContext ctx(4096);
  Args a;
  std::stringstream in(c);
  std::string w;
  uint64_t seed = 0;
  while (in >> w) {
    char op = w[0];
    unsigned x = 0, y = 0, z = 0;
    sscanf(w.c_str() + 1, "%u,%u,%u", &x, &y, &z);
    if (op == 's') { seed = x; continue; }
    a.seed = ++seed * 7919;
    memset(a.errs, 0, sizeof a.errs);
    memset(a.calls, 0, sizeof a.calls);
    RetType r = Sentinel();
    uint64_t out = 0;
    if (op == 'e' || op == 'b') {
      if (x > 22) continue;
      a.errs[x] = y;
      Status st = op == 'e' ? (z ? g_eng[x]->Execute(ctx, &a, &r) : g_eng[x]->Execute(&a, &r)) : (z ? g_all->ExecuteAt(x, ctx, &a, &r) : g_all->ExecuteAt(x, &a, &r));
      if (!Judge(x, a, true, st, r, out, 0, msg)) { *msg = w + ": " + *msg; return false; }
      if (z && a.ctx != &ctx) { *msg = w + ": another context was used"; return false; }
    } else if (op == 'v') {
      a.errs[22] = y;
      Status st = Status::OK();
      unsigned n = 1;
      if (x == 0) st = z ? g_eng[22]->Execute(ctx, &a, static_cast<void*>(&out)) : g_eng[22]->Execute(&a, static_cast<void*>(&out));
      else if (x == 1) st = z ? g_void->ExecuteAt(1, ctx, &a, static_cast<void*>(&out)) : g_void->ExecuteAt(1, &a, static_cast<void*>(&out));
      else {
        st = z ? g_void->ExecuteAll(ctx, &a, static_cast<void*>(&out)) : g_void->ExecuteAll(&a, static_cast<void*>(&out));
        if (a.calls[22] != 3 || st.ok() != (y == 0) || (st.ok() && out != Mix(a.seed, 22))) { *msg = w + ": ExecuteAll(void*): " + st.ToString(); return false; }
        std::string m = st.ToString();
        size_t bangs = 0;
        for (char ch : m) bangs += ch == '!';
        if (!st.ok() && bangs != 3 * y) { *msg = w + ": messages " + m; return false; }
        n = 3;
      }
      if (n == 1 && !Judge(22, a, false, st, r, out, 0, msg)) { *msg = w + ": " + *msg; return false; }
    } else if (op == 'a') {
      unsigned bad = 0;
      for (int i = 0; i < 23; ++i)
        if (x >> i & 1) { a.errs[i] = y; bad += y; }
      std::vector<RetType> rs;
      Status st = z ? g_all->ExecuteAll(ctx, &a, &rs) : g_all->ExecuteAll(&a, &rs);
      if (st.ok() != (bad == 0)) { *msg = w + ": ExecuteAll status " + st.ToString(); return false; }
      std::string m = st.ToString();
      size_t bangs = 0;
      for (char ch : m) bangs += ch == '!';
      if (!st.ok() && bangs != bad) { *msg = w + ": messages " + m; return false; }
      for (int i = 0; i < 23; ++i) {
        if (a.calls[i] != 1) { *msg = w + ": program " + std::to_string(i) + " called " + std::to_string(a.calls[i]) + " times"; return false; }
        if (!a.errs[i] && i != 22 && (rs.size() != 23 || !Same(rs[i], Progs()[i].value(a.seed)))) { *msg = w + ": value " + std::to_string(i); return false; }
        for (unsigned k = 0; k < a.errs[i]; ++k)
          if (m.find(ErrText(i, k)) == std::string::npos) { *msg = w + ": missing message in " + m; return false; }
      }
    } else if (op == 'o') {
      Status st = z ? (y ? g_all->ExecuteAt(x, ctx, &a, &r) : g_all->ExecuteAt(x, ctx, &a, static_cast<void*>(&out))) : (y ? g_all->ExecuteAt(x, &a, &r) : g_all->ExecuteAt(x, &a, static_cast<void*>(&out)));
      if (st.ok()) { *msg = w + ": execution out of range succeeds"; return false; }
    }
    if (ctx.HasErrors()) { *msg = w + ": the context still holds errors"; return false; }
  }
  return true;
}
