#include "solver.hpp"
#include <z3++.h>
#include <chrono>
#include <unordered_set>
namespace sx {
SolverStats zstat;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Enc {
  z3::context &c; bool exact;
  std::unordered_map<u32, z3::expr> bits, words;
  std::unordered_map<u32, z3::expr> varW;
  std::unordered_map<u32, u32> varOfBit;            // free bits
  const std::unordered_set<u32> *cut = nullptr;     // subterms both sides share: left free
  Enc(z3::context &cc, bool e) : c(cc), exact(e) {}
  z3::expr var(u32 i) {
    auto it = varW.find(i); if (it != varW.end()) return it->second;
    z3::expr e = c.bv_const(("v" + std::to_string(i)).c_str(), vars[i].width);
    varW.emplace(i, e); return e;
  }
  z3::expr b2w(const z3::expr &b) { return z3::ite(b, c.bv_val(1, 1), c.bv_val(0, 1)); }
  z3::expr word(const Ref &n0) {
    Ref n = n0->id ? n0 : intern(n0);
    auto it = words.find(n->id); if (it != words.end()) return it->second;
    z3::expr e(c);
    switch (n->kind) {
      case K_CONST: e = c.bv_val((uint64_t)n->val, n->width); break;
      case K_VAR: e = var(n->val); break;
      case K_OPQ: if (n->width > 1) { e = opqWord(n); break; } e = b2w(bit(n)); break;
      case K_CONCAT: { e = word(n->kids[0]); for (size_t i = 1; i < n->kids.size(); i++) e = z3::concat(word(n->kids[i]), e); break; }
      case K_TABLE: {
        auto &d = tableData(n->val); z3::expr ix = word(n->kids[0]); unsigned iw = n->kids[0]->width;
        // balanced multiplexer over the index bits
        std::function<z3::expr(u64, unsigned)> mux = [&](u64 base, unsigned b) -> z3::expr {
          if (b == 0) return c.bv_val((uint64_t)(base < d.size() ? d[base] : 0), n->width);
          z3::expr sel = ix.extract(b - 1, b - 1) == c.bv_val(1, 1);
          return z3::ite(sel, mux(base | 1ULL << (b - 1), b - 1), mux(base, b - 1));
        };
        e = mux(0, iw); break;
      }
      case K_WRAP: {
        i64 mn = 0; for (auto k : n->coefs) if (k < 0) mn += k;
        e = c.bv_val((int64_t)-mn, n->width);
        for (size_t i = 0; i < n->kids.size(); i++) e = e + z3::ite(bit(n->kids[i]), c.bv_val((int64_t)n->coefs[i], n->width), c.bv_val(0, n->width));
        break;
      }
      case K_EXTRACT: if (n->kids[0]->kind != K_POLY) { if (n->width == 1) { e = word(n->kids[0]).extract(n->val, n->val); break; } e = word(n->kids[0]).extract(n->val + n->width - 1, n->val); break; }
        if (exact && small(n->kids[0])) { e = polyWord(n->kids[0]).extract(n->val + n->width - 1, n->val); break; }
        // fallthrough
      case K_POLY:
        if (exact && n->kind == K_POLY && small(n)) { e = polyWord(n); break; }
        // fallthrough
      default: {
        if (n->width == 1) { e = b2w(bit(n)); break; }
        e = b2w(bit(bitOf(n, 0)));
        for (unsigned i = 1; i < n->width; i++) e = z3::concat(b2w(bit(bitOf(n, i))), e);
      }
    }
    words.emplace(n->id, e); return e;
  }
  z3::expr opqWord(const Ref &n) {
    z3::expr x = word(n->kids[0]), y = word(n->kids[1]);
    switch (n->op) {
      case O_UDIV: return z3::udiv(x, y); case O_UREM: return z3::urem(x, y);
      case O_SDIV: return x / y; case O_SREM: return z3::srem(x, y);
      case O_SHL: return z3::shl(x, y); case O_LSHR: return z3::lshr(x, y); case O_ASHR: return z3::ashr(x, y);
      case O_MUL: return x * y;
    }
    return x;
  }
  bool small(const Ref &p) { if (p->poly->t.size() > 40) return false; size_t q = 0; for (auto &t : p->poly->t) if (t.key >> 32 && byId[(u32)t.key]->width > 1 && byId[t.key >> 32]->width > 1) q++; return q <= 2; }
  z3::expr polyWord(const Ref &p) {
    auto it = words.find(p->id); if (p->id && it != words.end()) return it->second;
    unsigned w = p->width; u64 m = maskw(w);
    auto fit = [&](const z3::expr &e) { unsigned s = e.get_sort().bv_size(); return s < w ? z3::zext(e, w - s) : s > w ? e.extract(w - 1, 0) : e; };
    z3::expr e = c.bv_val((uint64_t)(p->poly->c & m), w);
    for (auto &t : p->poly->t) {
      u64 k = t.coef & m; if (!k) continue;
      Node *f = byId[(u32)t.key], *g = t.key >> 32 ? byId[t.key >> 32] : nullptr;
      if (g && f->width != 1) std::swap(f, g);
      z3::expr x = fit(word(Ref(f)));
      if (g) x = f->width == 1 ? z3::ite(bit(Ref(f)), fit(word(Ref(g))), c.bv_val(0, w)) : x * fit(word(Ref(g)));
      e = e + c.bv_val((uint64_t)k, w) * x;
    }
    return e;
  }
  z3::expr bit(const Ref &n0) {
    Ref n = n0->id ? n0 : intern(n0);
    auto it = bits.find(n->id); if (it != bits.end()) return it->second;
    z3::expr e(c);
    if (cut && n->kind != K_CONST && n->kind != K_NOT && cut->count(n->id)) { e = c.bool_const(("b" + std::to_string(n->id)).c_str()); bits.emplace(n->id, e); return e; }
    switch (n->kind) {
      case K_CONST: e = c.bool_val(n->val != 0); break;
      case K_VAR: e = var(n->val) == c.bv_val(1, 1); break;
      case K_NOT: e = !bit(n->kids[0]); break;
      case K_AND: e = bit(n->kids[0]) && bit(n->kids[1]); break;
      case K_XOR: e = bit(n->kids[0]); for (size_t i = 1; i < n->kids.size(); i++) e = (e != bit(n->kids[i])); break;
      case K_EXTRACT:
        if (n->kids[0]->kind != K_POLY) { e = word(n->kids[0]).extract(n->val, n->val) == c.bv_val(1, 1); break; }
        if (exact && small(n->kids[0])) { e = polyWord(n->kids[0]).extract(n->val, n->val) == c.bv_val(1, 1); break; }
        e = c.bool_const(("b" + std::to_string(n->id)).c_str()); break;
      case K_POLY: {
        if (exact && small(n)) { e = polyWord(n) == c.bv_val(1, 1); break; }
        e = c.bool_const(("b" + std::to_string(n->id)).c_str()); break;
      }
      case K_OPQ:
        if (n->op == O_ULT) e = z3::ult(word(n->kids[0]), word(n->kids[1]));
        else if (n->op == O_SLT) e = word(n->kids[0]) < word(n->kids[1]);
        else e = opqWord(n) == c.bv_val(1, 1);
        break;
      default: e = word(n) == c.bv_val(1, 1);
    }
    bits.emplace(n->id, e); return e;
  }
};
static Res run(z3::solver &s, Enc &enc, unsigned timeoutMs, Assign *model) {
  double t0 = now(); zstat.queries++;
  z3::params p(s.ctx()); p.set("timeout", timeoutMs); s.set(p);
  z3::check_result r;
  try { r = s.check(); } catch (z3::exception &) { r = z3::unknown; }
  zstat.time += now() - t0;
  if (r == z3::unsat) { zstat.unsat++; return R_UNSAT; }
  if (r == z3::unknown) { zstat.unknown++; return R_UNKNOWN; }
  zstat.sat++;
  if (model) {
    z3::model m = s.get_model();
    if (model->v.size() < vars.size()) { model->v.resize(vars.size(), 0); model->have.resize(vars.size(), 0); }
    for (auto &kv : enc.varW) {
      z3::expr e = m.eval(kv.second, false);
      uint64_t v; if (e.is_numeral() && e.is_numeral_u64(v)) { model->v[kv.first] = v; model->have[kv.first] = 1; }
    }
  }
  return R_SAT;
}
static void gates(const Ref &n0, std::unordered_set<u32> &seen) {      // the Boolean structure above words and sums
  std::vector<Node *> st{(n0->id ? n0 : intern(n0)).p};
  while (!st.empty()) {
    Node *n = st.back(); st.pop_back();
    if (!n->id || !seen.insert(n->id).second) continue;
    if (n->kind == K_NOT || n->kind == K_AND || n->kind == K_XOR) for (auto &k : n->kids) st.push_back(k.p);
  }
}
Res checkDiffer(const std::vector<std::pair<Ref, Ref>> &pairs, const std::vector<Ref> &conds, bool exact, unsigned timeoutMs, Assign *model) {
  if (!exact && !model) {        // a weaker query first, in which shared subterms are free: enough when only the shape above them differs
    std::unordered_set<u32> sa, sb, both; bool any = false;
    for (auto &pr : pairs) {
      Ref a = intern(pr.first), b = intern(pr.second); if (a == b) continue; any = true;
      for (unsigned i = 0; i < a->width; i++) { Ref x = bitOf(a, i), y = bitOf(b, i); if (x != y) { gates(x, sa); gates(y, sb); } }
    }
    if (any) {
      for (u32 i : sa) if (sb.count(i)) both.insert(i);
      z3::context c; Enc enc(c, false); enc.cut = &both; z3::solver s(c); z3::expr_vector ds(c);
      for (auto &pr : pairs) {
        Ref a = intern(pr.first), b = intern(pr.second); if (a == b) continue;
        for (unsigned i = 0; i < a->width; i++) { Ref x = bitOf(a, i), y = bitOf(b, i); if (x != y) ds.push_back(enc.bit(x) != enc.bit(y)); }
      }
      s.add(z3::mk_or(ds));
      if (run(s, enc, std::min(timeoutMs, 3000u), nullptr) == R_UNSAT) return R_UNSAT;
    }
  }
  z3::context c; Enc enc(c, exact); z3::solver s(c);
  z3::expr_vector ds(c);
  for (auto &pr : pairs) {
    Ref a = intern(pr.first), b = intern(pr.second);
    if (a == b) { z3::expr v = c.bv_const(("n" + std::to_string(a->id)).c_str(), a->width); ds.push_back((v != v).simplify()); zstat.identical++; continue; }
    for (unsigned i = 0; i < a->width; i++) {
      Ref x = bitOf(a, i), y = bitOf(b, i);
      if (x == y) continue;
      ds.push_back(enc.bit(x) != enc.bit(y));
    }
  }
  for (auto &k : conds) s.add(enc.bit(k));
  s.add(z3::mk_or(ds));
  if (getenv("SX_DUMPZ")) fprintf(stderr, "ZQ %d\n%s\n", exact, s.to_smt2().c_str());
  return run(s, enc, timeoutMs, model);
}
Res checkSat(const std::vector<Ref> &conds, bool exact, unsigned timeoutMs, Assign *model) {
  z3::context c; Enc enc(c, exact); z3::solver s(c);
  for (auto &k : conds) s.add(enc.bit(k));
  return run(s, enc, timeoutMs, model);
}
}
