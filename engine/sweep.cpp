// SAT sweeping: the bits of both sides of the obligations are visited bottom-up; bits with equal values on 128 random
// assignments are candidates, and a candidate pair is merged only when proved equal over a cut of the circuit whose
// leaves are free (linear elimination, exhaustive evaluation of the cut, or z3).  Merged bits act as one leaf above.
#include "solver.hpp"
#include "exec.hpp"
#include <z3.h>
#include <chrono>
#include <queue>
#include <set>
#include <cmath>
namespace sx {
namespace {
typedef unsigned __int128 Sig;
double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct Cls { u32 rep; u32 level; uint8_t op; u32 tab = 0; u32 tbit = 0; std::vector<u32> kids; };   // op: 0 leaf, 1 and, 2 xor, 3 table bit; kids are literals
std::vector<Cls> cls; std::vector<Sig> sigOf; std::unordered_map<u32, u32> litOf;     // interned bit id -> literal (class*2+neg)
std::map<std::vector<u32>, u32> byStruct; std::unordered_map<u64, std::vector<u32>> bySig; std::vector<std::unique_ptr<Assign>> pats; u64 satCount, mergeStruct, mergeLin, mergeTT, mergeSat, tries; double deadline;
struct Timeout {};

u32 newCls(u32 rep, uint8_t op, std::vector<u32> kids) {
  Cls c; c.rep = rep; c.op = op; c.level = 0; for (u32 k : kids) c.level = std::max(c.level, cls[k >> 1].level + 1); c.kids = std::move(kids);
  cls.push_back(std::move(c)); sigOf.push_back(0); return cls.size() - 1;
}
Sig sigLit(u32 l) { return l & 1 ? ~sigOf[l >> 1] : sigOf[l >> 1]; }

// linear elimination: x ^ y ^ parity == 0 by expanding XORs only
bool linearEqual(u32 x, u32 y) {
  std::map<std::pair<u32, u32>, int> s; int par = 0;   // (level, class), highest last
  auto tog = [&](u32 l) { par ^= l & 1; u32 c = l >> 1; if (c == 0) return; auto k = std::make_pair(cls[c].level, c); auto it = s.find(k); if (it == s.end()) s[k] = 1; else s.erase(it); };
  tog(x); tog(y);
  for (int n = 0; n < 4000 && !s.empty(); n++) {
    auto it = std::prev(s.end()); u32 c = it->first.second;
    // the highest bit has to cancel or be an XOR
    if (cls[c].op != 2) { bool any = false; for (auto j = s.rbegin(); j != s.rend(); ++j) if (cls[j->first.second].op == 2) { c = j->first.second; s.erase(std::prev(j.base())); any = true; break; } if (!any) return false; }
    else s.erase(it);
    for (u32 k : cls[c].kids) tog(k);
    if (s.size() > 300) return false;
  }
  return s.empty() && !par;
}
std::string vname(u32 k);
// cut-based equality of two classes (up to the given polarity)
int cutEqual(u32 x, u32 y, size_t gates, std::vector<unsigned> *profile) {   // 1 equal, 0 different on the cut, -1 different with nothing left to expand
  std::set<std::pair<u32, u32>> fr; std::vector<u32> inner; std::set<u32> seen;
  auto push = [&](u32 l) { u32 c = l >> 1; if (c && seen.insert(c).second) fr.insert({cls[c].level, c}); };
  push(x); push(y); std::set<u32> leaves;
  while (!fr.empty() && inner.size() < gates) {
    auto it = std::prev(fr.end()); u32 c = it->second; fr.erase(it);
    if (!cls[c].op) { leaves.insert(c); continue; }
    inner.push_back(c); for (u32 k : cls[c].kids) push(k);
    if (profile) profile->push_back(leaves.size() + fr.size());
  }
  if (profile) return 0;
  bool full = true; for (auto &f : fr) { leaves.insert(f.second); if (cls[f.second].op) full = false; }
  std::sort(inner.begin(), inner.end(), [](u32 a, u32 b) { return cls[a].level != cls[b].level ? cls[a].level < cls[b].level : a < b; });
  tries++;
  if (leaves.size() <= 14) {
    static const u64 pat[6] = {0xaaaaaaaaaaaaaaaaULL, 0xccccccccccccccccULL, 0xf0f0f0f0f0f0f0f0ULL, 0xff00ff00ff00ff00ULL, 0xffff0000ffff0000ULL, 0xffffffff00000000ULL};
    std::unordered_map<u32, u64> v; size_t words = leaves.size() > 6 ? 1ULL << (leaves.size() - 6) : 1;
    for (size_t w = 0; w < words; w++) {
      v.clear(); v[0] = 0; unsigned i = 0; for (u32 l : leaves) { v[l] = i < 6 ? pat[i] : (w >> (i - 6) & 1 ? ~0ULL : 0); i++; }
      auto lit = [&](u32 l) { u64 r = v[l >> 1]; return l & 1 ? ~r : r; };
      for (u32 c : inner) {
        const Cls &k = cls[c]; u64 r = 0;
        if (k.op == 1) r = lit(k.kids[0]) & lit(k.kids[1]);
        else if (k.op == 2) { for (u32 q : k.kids) r ^= lit(q); }
        else { u64 b[16]; for (size_t j = 0; j < k.kids.size(); j++) b[j] = lit(k.kids[j]); auto &T = tableData(k.tab); for (int p = 0; p < 64; p++) { u64 ix = 0; for (size_t j = 0; j < k.kids.size(); j++) ix |= (b[j] >> p & 1) << j; if (ix < T.size()) r |= (T[ix] >> k.tbit & 1) << p; } }
        v[c] = r;
      }
      u64 m = leaves.size() >= 6 ? ~0ULL : maskw(1u << leaves.size());
      if ((lit(x) ^ lit(y)) & m) return full ? -1 : 0;
    }
    mergeTT++; return 1;
  }
  if (gates < 100 || leaves.size() > 400) return full ? -1 : 0;
  if (getenv("SX_SWEEP")) fprintf(stderr, "z3 %zu gates %zu leaves x %s (op%d,%zu kids,lev %u) y %s (op%d,%zu kids, lev %u)\n", inner.size(), leaves.size(), vname(x >> 1).c_str(), cls[x >> 1].op, cls[x >> 1].kids.size(), cls[x >> 1].level, vname(y >> 1).c_str(), cls[y >> 1].op, cls[y >> 1].kids.size(), cls[y >> 1].level);
  Z3_config cf = Z3_mk_config(); Z3_context z = Z3_mk_context(cf); Z3_del_config(cf); Z3_solver s = Z3_mk_simple_solver(z); Z3_solver_inc_ref(z, s);
  Z3_params ps = Z3_mk_params(z); Z3_params_inc_ref(z, ps); Z3_params_set_uint(z, ps, Z3_mk_string_symbol(z, "timeout"), 2000); Z3_solver_set_params(z, s, ps);
  std::unordered_map<u32, Z3_ast> v; Z3_sort B = Z3_mk_bool_sort(z); v[0] = Z3_mk_false(z);
  for (u32 l : leaves) v[l] = Z3_mk_const(z, Z3_mk_int_symbol(z, l), B);
  auto lit = [&](u32 l) { Z3_ast r = v[l >> 1]; return l & 1 ? Z3_mk_not(z, r) : r; };
  for (u32 c : inner) {
    const Cls &k = cls[c]; Z3_ast r;
    if (k.op == 1) { Z3_ast a[2] = {lit(k.kids[0]), lit(k.kids[1])}; r = Z3_mk_and(z, 2, a); }
    else if (k.op == 2) { r = lit(k.kids[0]); for (size_t j = 1; j < k.kids.size(); j++) r = Z3_mk_xor(z, r, lit(k.kids[j])); }
    else { auto &T = tableData(k.tab); std::function<Z3_ast(size_t, u64)> mux = [&](size_t j, u64 ix) -> Z3_ast { if (!j) return ix < T.size() && (T[ix] >> k.tbit & 1) ? Z3_mk_true(z) : Z3_mk_false(z); Z3_ast a = mux(j - 1, ix | 1ULL << (j - 1)), b = mux(j - 1, ix); return a == b ? a : Z3_mk_ite(z, lit(k.kids[j - 1]), a, b); }; r = mux(k.kids.size(), 0); }
    v[c] = r;
  }
  Z3_solver_assert(z, s, Z3_mk_xor(z, lit(x), lit(y))); double t0 = now(); Z3_lbool r = Z3_solver_check(z, s); zstat.time += now() - t0; zstat.queries++; satCount++;
  Z3_params_dec_ref(z, ps); Z3_solver_dec_ref(z, s); Z3_del_context(z);
  if (r == Z3_L_FALSE) { zstat.unsat++; mergeSat++; return 1; }
  if (r == Z3_L_TRUE) zstat.sat++; else zstat.unknown++;
  return full && r == Z3_L_TRUE ? -1 : 0;
}
bool proveEqual(u32 x, u32 y) {
  if (linearEqual(x, y)) { mergeLin++; return true; }
  std::vector<unsigned> pf; cutEqual(x, y, 1500, &pf);
  std::vector<std::pair<unsigned, size_t>> best;      // the narrowest places of the circuit below the two bits
  for (size_t i = 0; i < pf.size(); i++) if (pf[i] <= 14 && (i + 1 == pf.size() || pf[i + 1] > pf[i])) best.push_back({pf[i], i + 1});
  std::sort(best.begin(), best.end()); if (best.size() > 6) best.resize(6); std::sort(best.begin(), best.end(), [](auto &a, auto &b) { return a.second < b.second; });
  for (auto &b : best) { if (now() > deadline) throw Timeout(); int r = cutEqual(x, y, b.second, nullptr); if (r == 1) return true; if (r < 0) return false; }
  if (best.empty()) for (size_t g : {140, 400}) { if (now() > deadline) throw Timeout(); int r = cutEqual(x, y, g, nullptr); if (r == 1) return true; if (r < 0) return false; }
  return false;
}
u32 visit(const Ref &n);
std::string vname(u32 k) { return byId[cls[k].rep] ? show(Ref(byId[cls[k].rep]), 2).substr(0, 150) : ""; }
u32 place(u32 id, uint8_t op, std::vector<u32> kids, u32 tab, u32 tbit, const Ref &n) {
  // structural identity over classes first
  Sig sg = 0; std::vector<u32> key0;
  if (op) {
    key0 = {op, tab, tbit}; key0.insert(key0.end(), kids.begin(), kids.end());
    auto it = byStruct.find(key0); if (it != byStruct.end()) { mergeStruct++; return it->second; }
    if (op == 1) sg = sigLit(kids[0]) & sigLit(kids[1]);
    else if (op == 2) { for (u32 k : kids) sg ^= sigLit(k); }
    else { auto &T = tableData(tab); for (unsigned p = 0; p < 128; p++) { u64 ix = 0; for (size_t j = 0; j < kids.size(); j++) ix |= (u64)(sigLit(kids[j]) >> p & 1) << j; if (ix < T.size()) sg |= (Sig)(T[ix] >> tbit & 1) << p; } }
  } else for (unsigned p = 0; p < pats.size(); p++) sg |= (Sig)(eval(n, *pats[p]) & 1) << p;
  bool neg = sg & 1; Sig can = neg ? ~sg : sg; u64 key = (u64)can ^ (u64)(can >> 64) * 0x9e3779b97f4a7c15ULL;
  u32 c = newCls(id, op, std::move(kids)); cls[c].tab = tab; cls[c].tbit = tbit; sigOf[c] = sg;
  auto &cand = bySig[key];
  int t = 0;
  if (op || !cand.empty()) for (u32 d : cand) {
    u32 dl = d << 1; if (sigOf[d] != sg) { if (sigOf[d] != ~sg) continue; dl |= 1; }
    if (++t > 3) break;
    double tq = now(); bool eqv = proveEqual(c << 1, dl);
    if (getenv("SX_SWEEP") && (!eqv || now() - tq > 0.3)) { auto sh = [&](u32 k) { std::string z = "op" + std::to_string(cls[k].op) + " lev" + std::to_string(cls[k].level) + " " + vname(k) + " ["; for (u32 q : cls[k].kids) z += std::to_string(q >> 1) + ":" + std::to_string(cls[q >> 1].op) + " "; return z + "]"; }; fprintf(stderr, "%s %.2fs class %u %s | %u %s\n", eqv ? "slow" : "fail", now() - tq, c, sh(c).c_str(), d, sh(d).c_str()); }
    if (eqv) { cls.pop_back(); sigOf.pop_back(); if (op) byStruct[key0] = dl; return dl; }
  }
  cand.push_back(c); if (op) byStruct[key0] = c << 1;
  return c << 1;
}
u32 visit(const Ref &n0) {
  Ref n = intern(n0);
  if (isConst(n)) return n->val & 1;
  auto it = litOf.find(n->id); if (it != litOf.end()) return it->second;
  if (now() > deadline) throw Timeout();
  u32 r;
  if (n->kind == K_NOT) r = visit(n->kids[0]) ^ 1;
  else if (n->kind == K_AND) {
    u32 a = visit(n->kids[0]), b = visit(n->kids[1]); if (a > b) std::swap(a, b);
    if (a == 0 || (a ^ 1) == b) r = 0; else if (a == 1 || a == b) r = b; else r = place(n->id, 1, {a, b}, 0, 0, n);
  } else if (n->kind == K_XOR) {
    u32 par = 0; std::map<u32, int> s; for (auto &k : n->kids) { u32 l = visit(k); par ^= l & 1; if ((l >> 1) && !s.erase(l & ~1u)) s[l & ~1u] = 1; }
    std::vector<u32> ks; for (auto &e : s) ks.push_back(e.first);
    if (ks.empty()) r = par; else if (ks.size() == 1) r = ks[0] ^ par; else r = place(n->id, 2, ks, 0, 0, n) ^ par;
  } else if (n->kind == K_EXTRACT && n->kids[0]->kind == K_TABLE && n->kids[0]->kids[0]->width <= 12) {
    Ref ix = n->kids[0]->kids[0]; std::vector<u32> ks; bool allc = true; u64 cv = 0;
    for (unsigned j = 0; j < ix->width; j++) { ks.push_back(visit(bitOf(ix, j))); if (ks.back() >> 1) allc = false; else cv |= (u64)(ks.back() & 1) << j; }
    if (allc) { auto &T = tableData(n->kids[0]->val); r = cv < T.size() ? T[cv] >> n->val & 1 : 0; }
    else r = place(n->id, 3, ks, n->kids[0]->val, n->val, n);
  } else r = place(n->id, 0, {}, 0, 0, n);
  litOf[n->id] = r; return r;
}
}
bool sweepEqual(const std::vector<std::pair<Ref, Ref>> &pairs, const std::vector<Ref> &, double budget, u64 &sats) {
  deadline = now() + budget; cls.clear(); sigOf.clear(); litOf.clear(); byStruct.clear(); bySig.clear(); pats.clear(); satCount = mergeStruct = mergeLin = mergeTT = mergeSat = tries = 0;
  for (int p = 0; p < 128; p++) { pats.push_back(std::make_unique<Assign>()); u64 s0 = 0x1234567 + p; pats.back()->dflt = [s0](u32 v) { u64 z = s0 * 0x9e3779b97f4a7c15ULL + v * 0xd1342543de82ef95ULL + 1; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }; }
  newCls(0, 0, {}); bySig[0].push_back(0); // the constant
  bool ok = true; u32 done = 0;
  try {
    for (auto &pr : pairs) {
      Ref a = intern(pr.first), b = intern(pr.second); if (a->width != b->width) return false;
      for (unsigned i = 0; i < a->width; i++) { u32 x = visit(bitOf(a, i)), y = visit(bitOf(b, i)); if (x != y) { ok = false; goto out; } }
      done++;
    }
  } catch (Timeout &) { ok = false; }
out:
  if (getenv("SX_SWEEP")) fprintf(stderr, "sweep: %s, %u of %zu pairs, %zu classes, merged: structural %llu, linear %llu, cut %llu, z3 %llu; %llu cuts, %.1fs\n", ok ? "proved" : "not proved", done, pairs.size(), cls.size(), (unsigned long long)mergeStruct, (unsigned long long)mergeLin, (unsigned long long)mergeTT, (unsigned long long)mergeSat, (unsigned long long)tries, now() - (deadline - budget));
  sats += satCount; pats.clear(); return ok;
}
}
