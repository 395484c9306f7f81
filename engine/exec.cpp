#include "exec.hpp"
#include "solver.hpp"
namespace sx {
std::vector<Event> events; std::string curFn; int curLine = 0; bool inImpl = false;
Memory mem;
std::vector<Ref> pathCond; std::vector<Oblig> obligs; std::vector<UfApp> ufApps;

void addEvent(EvKind k, const std::string &msg, const Ref &cond) {
  for (auto &e : events) if (e.kind == k && e.fn == curFn && e.line == curLine && e.msg == msg) return;
  events.push_back({k, curFn, curLine, msg, cond});
}
Val fromParts(std::vector<Ref> &&p) { Val v; v.w = 0; for (auto &r : p) v.w += r->width; v.v = std::make_shared<std::vector<Ref>>(std::move(p)); return v; }
std::vector<Ref> slices(const std::vector<Ref> &P, unsigned ew, unsigned n) {
  bool same = P.size() == n; if (same) for (auto &p : P) if (p->width != ew) { same = false; break; }
  if (same) return P;
  std::vector<Ref> out; out.reserve(n); size_t i = 0; unsigned o = 0; // o: bits consumed of P[i]
  for (unsigned e = 0; e < n; e++) {
    unsigned need = ew; std::vector<Ref> ps;
    while (need) {
      unsigned av = P[i]->width - o, t = std::min(av, need);
      ps.push_back(o == 0 && t == P[i]->width ? P[i] : extract(P[i], o, t));
      o += t; need -= t; if (o == P[i]->width) { i++; o = 0; }
    }
    out.push_back(ps.size() == 1 ? ps[0] : concat(ps));
  }
  return out;
}
std::vector<Ref> regroup(const Val &v, unsigned ew, unsigned n) {
  if (!v.v) {
    Ref r = toRef(v); std::vector<Ref> one{r};
    return slices(one, ew, n);
  }
  return slices(*v.v, ew, n);
}

// ------------------------------------------------------------ memory
u64 Memory::alloc(u64 size, u64 align, const std::string &name) {
  u32 idx;
  if (!freeList.empty()) { idx = freeList.back(); freeList.pop_back(); }
  else { idx = objs.size(); objs.emplace_back(); }
  auto o = std::make_unique<Obj>();
  u64 pad = shift == 32 ? 4096 : 1024; if (align < 1) align = 1; if (align > pad / 2) align = pad / 2;
  if (shift == 16 && size > 62000) throw Unsupported{"object too large for 32-bit layout: " + name};
  o->base = ((u64)(idx + 1) << shift) + pad + align; o->size = size; o->name = name;
  o->data.assign(size, 0); o->st.assign(size, 0);
  u64 b = o->base; objs[idx] = std::move(o); return b;
}
void Memory::release(u64 base) { u32 i = (base >> shift) - 1; objs[i]->live = false; freeList.push_back(i); }
Obj *Memory::find(u64 a) { u64 i = a >> shift; if (i == 0 || i > objs.size() || !objs[i - 1] || !objs[i - 1]->live) return nullptr; return objs[i - 1].get(); }
unsigned minAlign = 16;      // accesses needing less are taken to work at any address on this machine
bool Memory::access(u64 addr, u64 n, bool write, unsigned align, Obj *&o, u64 &o0) {
  o = find(addr); char b[200];
  if (!o) { snprintf(b, 200, "%s of %llu bytes through an invalid pointer", write ? "write" : "read", (unsigned long long)n); addEvent(EV_NULL, b); return false; }
  if (addr < o->base || addr + n > o->base + o->size) {
    snprintf(b, 200, "%s of %llu bytes at offset %lld of %s (%llu bytes)", write ? "write" : "read", (unsigned long long)n, (long long)(addr - o->base), o->name.c_str(), (unsigned long long)o->size);
    addEvent(EV_OOB, b); return false;
  }
  o0 = addr - o->base;
  if (align >= minAlign && addr % align) { snprintf(b, 200, "%s needing %u-byte alignment at offset %llu of %s", write ? "write" : "read", align, (unsigned long long)o0, o->name.c_str()); addEvent(EV_ALIGN, b); }
  if (write && o->readonly) { snprintf(b, 200, "write to read-only %s at offset %llu", o->name.c_str(), (unsigned long long)o0); addEvent(EV_READONLY, b); if (o->isConstGlobal) return false; }
  return true;
}
static Ref uninitByte() { return newVar(8, "uninit", 0, -1, F_UNINIT); }
std::vector<Ref> Memory::load(u64 addr, u64 n, unsigned align, bool) {
  Obj *o; u64 a; std::vector<Ref> out;
  if (!access(addr, n, false, align, o, a)) { for (u64 i = 0; i < n; i++) out.push_back(newVar(8, "oob", 0, -1, F_UNINIT | F_JUNK)); return out; }
  u64 i = 0;
  while (i < n) {
    u64 p = a + i;
    if (o->st[p] == 1) {
      u64 v = 0; unsigned k = 0; while (i + k < n && k < 8 && o->st[p + k] == 1) { v |= (u64)o->data[p + k] << (8 * k); k++; }
      out.push_back(konst(8 * k, v)); i += k; continue;
    }
    if (o->st[p] == 0) { o->ensureSym(); Ref u = uninitByte(); o->st[p] = 2; o->sym[p] = u; o->off[p] = 0; }
    Ref &r = o->sym[p]; unsigned f = o->off[p], k = 1;
    while (i + k < n && k < 8 && o->st[p + k] == 2 && o->sym[p + k] == r && o->off[p + k] == f + k) k++;
    if (f == 0 && k * 8 == r->width) out.push_back(r); else out.push_back(extract(r, f * 8, k * 8));
    i += k;
  }
  return out;
}
void Memory::store(u64 addr, const std::vector<Ref> &parts, unsigned align) {
  u64 n = 0; for (auto &p : parts) n += p->width; n /= 8;
  Obj *o; u64 a; if (!access(addr, n, true, align, o, a)) return;
  for (auto &p : parts) {
    unsigned k = p->width / 8;
    if (p->kind == K_CONST) { for (unsigned i = 0; i < k; i++) { if (o->st[a + i] == 2) o->sym[a + i] = Ref(); o->st[a + i] = 1; o->data[a + i] = p->val >> (8 * i); } }
    else { o->ensureSym(); for (unsigned i = 0; i < k; i++) { o->st[a + i] = 2; o->sym[a + i] = p; o->off[a + i] = i; } }
    a += k;
  }
}
void Memory::storeConc(u64 addr, u64 v, unsigned n, unsigned align) {
  Obj *o; u64 a; if (!access(addr, n, true, align, o, a)) return;
  for (unsigned i = 0; i < n; i++) { if (o->st[a + i] == 2) o->sym[a + i] = Ref(); o->st[a + i] = 1; o->data[a + i] = v >> (8 * i); }
}
bool Memory::loadConc(u64 addr, unsigned n, unsigned align, u64 &v) {
  Obj *o = find(addr); if (!o || addr < o->base || addr + n > o->base + o->size) return false;
  u64 a = addr - o->base; v = 0;
  if (align >= minAlign && addr % align) return false;
  for (unsigned i = 0; i < n; i++) { if (o->st[a + i] != 1) return false; v |= (u64)o->data[a + i] << (8 * i); }
  return true;
}
void Memory::copy(u64 dst, u64 src, u64 n) {
  if (!n) return;
  Obj *s, *d; u64 a, b;
  bool okS = access(src, n, false, 1, s, a), okD = access(dst, n, true, 1, d, b);
  if (!okD) return;
  if (!okS) { std::vector<Ref> ps; for (u64 i = 0; i < n; i++) ps.push_back(newVar(8, "oob", 0, -1, F_UNINIT | F_JUNK)); store(dst, ps, 1); return; }
  std::vector<uint8_t> st(s->st.begin() + a, s->st.begin() + a + n), da(s->data.begin() + a, s->data.begin() + a + n), of; std::vector<Ref> sy;
  if (!s->sym.empty()) { sy.assign(s->sym.begin() + a, s->sym.begin() + a + n); of.assign(s->off.begin() + a, s->off.begin() + a + n); }
  if (!sy.empty()) d->ensureSym();
  for (u64 i = 0; i < n; i++) {
    d->st[b + i] = st[i]; d->data[b + i] = da[i];
    if (!d->sym.empty()) { if (st[i] == 2) { d->sym[b + i] = sy[i]; d->off[b + i] = of[i]; } else d->sym[b + i] = Ref(); }
  }
}
Ref Memory::byteAt(u64 addr) { auto p = load(addr, 1, 1); return p[0]; }

// ------------------------------------------------------------ inputs and uninterpreted functions
static std::map<std::pair<std::string, u32>, Node *> symReg;
unsigned long long traceHash = 0; bool concreteMode = false; u64 concreteSeed = 0; std::map<std::string, std::vector<uint8_t>> concreteIn;
Ref symByte(const std::string &name, u32 idx, uint8_t flags) {
  if (concreteMode) {
    std::string q = name; for (auto &c : q) if (c == ' ') c = '_';
    auto it = concreteIn.find(q); if (it != concreteIn.end() && idx < it->second.size()) return konst(8, it->second[idx]);
    u64 z = concreteSeed * 0x9e3779b97f4a7c15ULL + idx; for (char c : q) z = (z ^ (uint8_t)c) * 0x100000001b3ULL; z ^= z >> 31; z *= 0x94d049bb133111ebULL; z ^= z >> 29; return konst(8, z & 255);
  }
  auto k = std::make_pair(name, idx); auto it = symReg.find(k);
  if (it != symReg.end()) return it->second;
  Ref r = newVar(8, name, idx, -1, flags); symReg[k] = r.p; return r;
}
static std::vector<std::unique_ptr<Assign>> sims;
static u64 rnd64(u64 &s) { s += 0x9e3779b97f4a7c15ULL; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static std::vector<u64> sigOf(const std::vector<Ref> &in) {
  if (sims.empty()) for (int i = 0; i < 3; i++) { sims.emplace_back(new Assign); u64 salt = 1000 + i; sims.back()->dflt = [salt](u32 v) { u64 s = salt * 0x1234567 + v; return rnd64(s); }; }
  std::vector<u64> r;
  for (auto &s : sims) { u64 h = in.size(); for (auto &b : in) { h = h * 0x100000001b3ULL ^ eval(b, *s); h ^= h >> 29; } r.push_back(h); }
  return r;
}
static std::map<std::pair<std::string, std::pair<u32, u32>>, Node *> ufReg;
extern std::vector<std::string> ufNotes;
std::vector<std::string> ufNotes;
void ufApply(const std::string &name, std::vector<Ref> in, u64 outlen, std::vector<Ref> &out) {
  for (auto &b : in) b = intern(b);
  int hit = -1;
  for (size_t i = 0; i < ufApps.size() && hit < 0; i++) {
    auto &u = ufApps[i]; if (u.name != name || u.in.size() != in.size()) continue;
    bool same = true; for (size_t j = 0; j < in.size(); j++) if (u.in[j] != in[j]) { same = false; break; }
    if (same) hit = i;
  }
  std::vector<u64> sg;
  if (hit < 0) {
    sg = sigOf(in);
    for (size_t i = 0; i < ufApps.size() && hit < 0; i++) {
      auto &u = ufApps[i]; if (u.name != name || u.in.size() != in.size()) continue;
      // on a path with conditions the signature is only a hint
      if (u.sig != sg && pathCond.empty()) continue;
      std::vector<std::pair<Ref, Ref>> ps; for (size_t j = 0; j < in.size(); j++) if (u.in[j] != in[j]) ps.push_back({u.in[j], in[j]});
      if (getenv("SX_UFD")) { fprintf(stderr, "UFD %s %zu of %zu differ\n", name.c_str(), ps.size(), in.size()); for (size_t q = 0; q < ps.size() && q < 2; q++) for (unsigned b = 0; b < 2; b++) fprintf(stderr, "  %s\n  %s\n", show(bitOf(ps[q].first, b), atoi(getenv("SX_UFD"))).c_str(), show(bitOf(ps[q].second, b), atoi(getenv("SX_UFD"))).c_str()); }
      Res r = checkDiffer(ps, pathCond, false, 20000, nullptr);
      if (r != R_UNSAT) r = checkDiffer(ps, pathCond, true, 60000, nullptr);
      if (r != R_UNSAT && u.sig == sg) {
        bool all = true; size_t cnt = 0;
        for (auto &p : ps) { if (++cnt > 4000) { all = false; break; } for (unsigned b = 0; b < 8 && all; b++) { Ref x = bitOf(p.first, b), y = bitOf(p.second, b); if (x != y && !deepEqualBit(x, y, 400000)) all = false; } if (!all) break; }
        if (all) r = R_UNSAT;
        else { u64 sats = 0; if (sweepEqual(ps, pathCond, 60, sats)) r = R_UNSAT; }
      }
      if (r == R_UNSAT) hit = i;
    }
  }
  if (hit < 0) {
    hit = ufApps.size(); ufApps.emplace_back(); auto &u = ufApps.back(); u.name = name; u.in = in; u.sig = sg.empty() ? sigOf(in) : sg; u.who = curFn;
  }
  auto &u = ufApps[hit]; uint8_t fl = 0; for (auto &b : u.in) fl |= flagsOf(b) & F_SECRET;
  while (u.out.size() < outlen) {
    u32 k = u.out.size(); auto key = std::make_pair(name, std::make_pair((u32)hit, k));
    auto it = ufReg.find(key);
    if (it == ufReg.end()) { Ref r = newVar(8, name + "#" + std::to_string(hit), k, hit, fl); ufReg[key] = r.p; u.out.push_back(r); }
    else { it->second->flags |= fl; u.out.push_back(Ref(it->second)); }
  }
  out.assign(u.out.begin(), u.out.begin() + outlen);
}
}
