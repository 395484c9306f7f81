#include "expr.hpp"
#include <unordered_set>
namespace sx {
std::vector<VarInfo> vars;
std::vector<Node *> byId;
u64 statInterned = 0, statPolyOps = 0;
static std::vector<u32> parentOf;         // by id: a wider interned node this one is the low part of
static std::vector<std::vector<u64>> tables; static std::map<std::vector<u64>, u32> tableIds;

static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; }

// ---------------------------------------------------------------- interning
struct Table {
  std::vector<Node *> slot; size_t n = 0;
  Table() : slot(1 << 16, nullptr) {}
  void grow() {
    std::vector<Node *> old; old.swap(slot); slot.assign(old.size() * 2, nullptr);
    for (Node *p : old) if (p) { size_t i = p->hash & (slot.size() - 1); while (slot[i]) i = (i + 1) & (slot.size() - 1); slot[i] = p; }
  }
};
static Table tab;
static u64 nodeHash(const Node &n) {
  u64 h = mix(mix(n.kind * 131 + n.op, n.width), n.val);
  for (auto &k : n.kids) h = mix(h, k->id);
  for (auto c : n.coefs) h = mix(h, (u64)c);
  return h;
}
static bool nodeEq(const Node &a, const Node &b) {
  if (a.kind != b.kind || a.op != b.op || a.width != b.width || a.val != b.val || a.kids.size() != b.kids.size() || a.coefs != b.coefs) return false;
  for (size_t i = 0; i < a.kids.size(); i++) if (a.kids[i].p != b.kids[i].p) return false;
  return true;
}
static void registerNode(Node *p) {
  p->immortal = true; p->id = byId.size(); byId.push_back(p); parentOf.push_back(0); statInterned++;
}
static Node *internTmp(Node &tmp) {       // tmp: all kids interned
  if (byId.empty()) { byId.push_back(nullptr); parentOf.push_back(0); }
  tmp.hash = nodeHash(tmp);
  size_t i = tmp.hash & (tab.slot.size() - 1);
  while (tab.slot[i]) { if (tab.slot[i]->hash == tmp.hash && nodeEq(*tab.slot[i], tmp)) return tab.slot[i]; i = (i + 1) & (tab.slot.size() - 1); }
  Node *p = new Node(std::move(tmp));
  for (auto &k : p->kids) p->flags |= k->flags;
  registerNode(p);
  tab.slot[i] = p;
  if (++tab.n * 2 > tab.slot.size()) tab.grow();
  return p;
}
void freeNode(Node *p) { delete p; }

Ref konst(unsigned w, u64 v) {
  static Node *cache[65][257];
  v &= maskw(w);
  if (v < 257 && cache[w][v]) return cache[w][v];
  Node t; t.kind = K_CONST; t.width = t.prec = w; t.val = v;
  Node *p = internTmp(t);
  if (v < 257) cache[w][v] = p;
  return p;
}
Ref newVar(unsigned w, const std::string &name, u32 index, int ufapp, uint8_t flags) {
  if (byId.empty()) { byId.push_back(nullptr); parentOf.push_back(0); }
  Node *p = new Node; p->kind = K_VAR; p->width = p->prec = w; p->val = vars.size(); p->flags = flags;
  registerNode(p);
  vars.push_back({name, index, w, ufapp, p, flags});
  return p;
}
Ref junk(unsigned w) { return newVar(w, "junk", 0, -1, F_JUNK); }
uint8_t flagsOf(const Ref &n) {
  if (n->id) return n->flags;
  uint8_t f = n->flags;
  for (auto &k : n->kids) f |= flagsOf(k);
  if (n->poly) for (auto &t : n->poly->t) { f |= byId[(u32)t.key]->flags; if (t.key >> 32) f |= byId[t.key >> 32]->flags; }
  return f;
}

// ---------------------------------------------------------------- bits
static Ref mkNot(const Ref &a) {
  if (isConst(a)) return konst(1, !a->val);
  if (a->kind == K_NOT) return a->kids[0];
  Node t; t.kind = K_NOT; t.width = t.prec = 1; t.kids.push_back(a);
  return internTmp(t);
}
static Ref mkAnd(Ref a, Ref b) {
  if (isConst(a)) return a->val ? b : a;
  if (isConst(b)) return b->val ? a : b;
  if (a == b) return a;
  if ((a->kind == K_NOT && a->kids[0] == b) || (b->kind == K_NOT && b->kids[0] == a)) return konst(1, 0);
  if (a->id > b->id) std::swap(a, b);
  Node t; t.kind = K_AND; t.width = t.prec = 1; t.kids.push_back(a); t.kids.push_back(b);
  return internTmp(t);
}
static Ref mkOr(const Ref &a, const Ref &b) { return mkNot(mkAnd(mkNot(a), mkNot(b))); }
static Ref mkXor(const Ref &a, const Ref &b) {
  if (a == b) return konst(1, 0);
  if (isConst(a)) return a->val ? mkNot(b) : b;
  if (isConst(b)) return b->val ? mkNot(a) : a;
  bool inv = false; Ref x[2] = {a, b};
  Node *l[24]; int n = 0; Ref keep[24];
  for (auto &r : x) if (r->kind == K_NOT) { inv = !inv; r = r->kids[0]; }
  if (x[0] == x[1]) return konst(1, inv);
  size_t cnt = 0;
  bool fl[2];
  for (int i = 0; i < 2; i++) { fl[i] = x[i]->kind == K_XOR && !x[i]->op; cnt += fl[i] ? x[i]->kids.size() : 1; }
  if (cnt > 22) fl[0] = fl[1] = false;
  for (int i = 0; i < 2; i++) { if (fl[i]) for (auto &k : x[i]->kids) l[n++] = k.p; else l[n++] = x[i].p; }
  std::sort(l, l + n, [](Node *p, Node *q) { return p->id < q->id; });
  int m = 0;
  for (int i = 0; i < n;) { if (i + 1 < n && l[i] == l[i + 1]) i += 2; else l[m++] = l[i++]; }
  if (m > 11 && (fl[0] || fl[1])) {       // too long: treat the longer operand(s) as closed atoms
    // an operand holding an AND stays flattened only when the list stays within the limit plus one
    bool hasAnd = false; for (int i = 0; i < m; i++) hasAnd |= l[i]->kind == K_AND;
    if (!(hasAnd && m == 12)) {
      l[0] = x[0].p; l[1] = x[1].p; m = 2; if (l[0]->id > l[1]->id) std::swap(l[0], l[1]);
    }
  }
  if (m == 0) return konst(1, inv);
  if (m == 1) return inv ? mkNot(l[0]) : Ref(l[0]);
  Node t; t.kind = K_XOR; t.width = t.prec = 1;
  for (int i = 0; i < m; i++) { t.kids.push_back(l[i]); if (l[i]->kind == K_AND) t.op = 1; }
  if (m > 11) t.op = 1;
  Ref r = internTmp(t);
  return inv ? mkNot(r) : r;
}

// ---------------------------------------------------------------- polynomials
struct PV { PolyP p; unsigned prec; };
static inline unsigned ctz64(u64 v) { return v ? __builtin_ctzll(v) : 64; }
static bool isAtomKind(const Ref &n) { return n->kind != K_CONST && n->kind != K_NOT && n->kind != K_POLY; }
static u64 atomMax(const Node *n) { return n->kind == K_WRAP ? n->val : maskw(n->width); }

// integer range of the polynomial with coefficients read as signed / unsigned residues mod 2^prec
static bool polyRange(const Poly &p, unsigned prec, bool sgn, i128 &mn, i128 &mx) {
  if (p.t.size() > 64) return false;
  u64 m = maskw(prec);
  auto val = [&](u64 c) -> i128 { c &= m; if (sgn && (c >> (prec - 1) & 1)) return (i128)c - ((i128)1 << prec); return (i128)c; };
  mn = mx = val(p.c);
  i128 lim = (i128)1 << 100;
  for (auto &t : p.t) {
    u128 a = atomMax(byId[(u32)t.key]);
    if (t.key >> 32) { u64 b = atomMax(byId[t.key >> 32]); if (a > maskw(32) || b > maskw(32)) return false; a *= b; }
    i128 c = val(t.coef);
    if (a > maskw(40) || c > (i128)maskw(40) || c < -(i128)maskw(40)) return false;
    if (c > 0) mx += c * (i128)a; else mn += c * (i128)a;
    if (mx > lim || mn < -lim) return false;
  }
  return true;
}

static Ref mkPolyNode(unsigned w, unsigned prec, PolyP p) {
  Node *n = new Node; n->kind = K_POLY; n->width = w; n->prec = prec; n->poly = std::move(p);
  return Ref(n);
}
// tries to read a (small, linear) polynomial as a concatenation of disjoint slices
static bool tryConcat(unsigned w, const Poly &p, Ref &out) {
  if (p.t.size() > w) return false;
  u64 m = maskw(w);
  struct Piece { unsigned o, len; Ref r; unsigned rep; };
  std::vector<Piece> ps; u64 occ = 0, c = p.c & m;
  std::vector<const Term *> later;
  for (auto &t : p.t) {
    if (t.key >> 32) return false;
    u64 k = t.coef & m; if (!k) continue;
    Node *a = byId[(u32)t.key];
    unsigned o = ctz64(k); u64 q = k >> o;
    if (a->width == 1) {
      if (q & (q + 1)) { later.push_back(&t); continue; }
      if (((c & k) && q != 1) || (c & k)) { later.push_back(&t); continue; }
      if (occ & k) return false;
      unsigned len = q == 1 ? 1 : 64 - __builtin_clzll(q);
      occ |= k; ps.push_back({o, len, a, len});
    } else {
      if (q != 1) return false;
      unsigned len = std::min<unsigned>(a->width, w - o);
      u64 bm = a->kind == K_WRAP ? maskw(len) << o : maskw(len) << o; bm &= m;
      if ((occ & bm) || (c & bm)) return false;
      occ |= bm; ps.push_back({o, len, extract(Ref(a), 0, len), 1});
    }
  }
  for (auto *t : later) {
    u64 k = t->coef & m; Node *a = byId[(u32)t->key]; unsigned o = ctz64(k);
    u64 top = m & ~maskw(o);
    u64 nk = (0 - k) & m, nq = nk >> o;
    if (!(nq & (nq + 1)) && (c & nk) == nk && !(occ & nk)) {                       // ones << o, minus as much when b is set
      unsigned len = 64 - __builtin_clzll(nq); c &= ~nk; occ |= nk; ps.push_back({o, len, mkNot(a), len});
    } else if (k == (1ULL << o) && (c & top) == top && !(occ & top)) {             // -2^o + 2^o b
      c &= ~top; occ |= top; ps.push_back({o, w - o, mkNot(a), w - o});
    } else return false;
  }
  if (c & occ) return false;
  std::sort(ps.begin(), ps.end(), [](const Piece &a, const Piece &b) { return a.o < b.o; });
  std::vector<Ref> parts; unsigned pos = 0;
  for (auto &q : ps) {
    if (q.o > pos) parts.push_back(konst(q.o - pos, c >> pos));
    if (q.rep > 1 || (q.rep == q.len && q.r->width == 1)) for (unsigned i = 0; i < q.rep; i++) parts.push_back(q.r);
    else parts.push_back(q.r);
    pos = q.o + q.len;
  }
  if (pos < w) parts.push_back(konst(w - pos, c >> pos));
  out = concat(parts);
  return true;
}
static Ref mkPoly(unsigned w, unsigned prec, PolyP p) {
  if (prec > w) prec = w;
  if (prec == 0) return junk(w);
  if (prec == w && p->t.size() <= 64) {
    if (p->t.empty()) return konst(w, p->c);
    Ref r;
    bool lin = true; for (auto &t : p->t) if (t.key >> 32) { lin = false; break; }
    if (lin && tryConcat(w, *p, r)) return r;
  }
  return mkPolyNode(w, prec, std::move(p));
}

static PolyP polyConst(u64 c) { auto q = std::make_shared<Poly>(); q->c = c; return q; }
static PolyP polyAtom(u32 id, u64 coef, u64 c) { auto q = std::make_shared<Poly>(); q->t.push_back({id, coef}); q->c = c; return q; }
static void sortTerms(std::vector<Term> &t) {
  std::sort(t.begin(), t.end(), [](const Term &a, const Term &b) { return a.key < b.key; });
  size_t m = 0;
  for (size_t i = 0; i < t.size();) {
    u64 k = t[i].key, c = 0; while (i < t.size() && t[i].key == k) c += t[i++].coef;
    if (c) t[m++] = {k, c};
  }
  t.resize(m);
}

static Ref internPoly(const Ref &n);
static bool smallLinear(const Poly &p) { if (p.t.size() > 12) return false; for (auto &t : p.t) { if (t.key >> 32) return false; Node *n = byId[(u32)t.key]; if (n->width != 1 && n->kind != K_WRAP) return false; } return true; }
bool atomPolys;   // keep a reduced sum below known bits as an atom instead of giving up what lies above it
static PV toPoly(const Ref &n) {
  unsigned w = n->width;
  switch (n->kind) {
    case K_CONST: return {polyConst(n->val), w};
    case K_POLY: return {n->poly, n->prec};
    case K_NOT: return {polyAtom(n->kids[0]->id, ~0ULL, 1), w};
    case K_VAR: if (n->flags & F_JUNK) { if (vars[n->val].flags & F_JUNK) return {polyConst(0), 0}; } break;
    case K_CONCAT: break;
    default: break;
  }
  if (n->kind != K_CONCAT) { Ref a = intern(n); return {polyAtom(a->id, 1, 0), w}; }
  auto q = std::make_shared<Poly>(); unsigned prec = w;
  std::vector<Ref> run; unsigned ro = 0;
  auto flush = [&]() {
    if (run.empty()) return;
    Ref a = intern(run.size() == 1 ? run[0] : concat(run));
    q->t.push_back({a->id, 1ULL << ro}); run.clear();
  };
  unsigned o = 0;
  for (size_t i = 0; i < n->kids.size(); i++) {
    const Ref &k = n->kids[i]; unsigned kw = k->width;
    if (k->kind == K_CONST) { flush(); q->c += k->val << o; o += kw; continue; }
    if (k->kind == K_VAR && (vars[k->val].flags & F_JUNK)) { flush(); prec = std::min(prec, o); break; }
    if (kw == 1) {
      size_t j = i; while (j + 1 < n->kids.size() && n->kids[j + 1] == k) j++;
      unsigned t = j - i + 1, so = o;
      bool peeled = false;
      if (!run.empty() && k->kind != K_NOT) {
        Ref &last = run.back(); Ref tb = last->width == 1 ? last : bitOf(last, last->width - 1);
        if (tb == k) {
          if (last->width == 1) run.pop_back(); else last = extract(last, 0, last->width - 1);
          so--; t++; peeled = true;
        }
      }
      if (t > 1 || peeled || k->kind == K_NOT) {
        flush();
        u64 K = (t >= 64 ? ~0ULL : maskw(t)) << so;
        if (k->kind == K_NOT) { q->c += K; q->t.push_back({k->kids[0]->id, 0 - K}); }
        else q->t.push_back({k->id, K});
      } else { if (run.empty()) ro = o; run.push_back(k); }
      o += j - i + 1; i = j; continue;
    }
    if (k->kind == K_POLY) {
      flush();
      u64 km = maskw(k->prec);
      i128 mn, mx; bool exact = false, sg = false;
      if (o + kw < w && k->prec == kw) {
        if (polyRange(*k->poly, kw, false, mn, mx) && mx < ((i128)1 << kw)) exact = true;
        else if (polyRange(*k->poly, kw, true, mn, mx) && mn >= 0 && mx < ((i128)1 << kw)) exact = sg = true;
      }
      bool wrapped = false;
      if (!exact && k->prec == kw && o + kw < w && smallLinear(*k->poly) && polyRange(*k->poly, kw, true, mn, mx) && mn >= -((i128)1 << (kw - 1)) && mx < ((i128)1 << (kw - 1))) {
        Ref sb = bitOf(k, kw - 1);          // unsigned value = signed value + 2^kw * sign bit
        if (sb->kind == K_NOT) { q->c += 1ULL << (o + kw); q->t.push_back({sb->kids[0]->id, 0 - (1ULL << (o + kw))}); }
        else if (sb->kind == K_CONST) q->c += sb->val << (o + kw);
        else q->t.push_back({sb->id, 1ULL << (o + kw)});
        wrapped = exact = sg = true;
      }
      (void)wrapped;
      if (atomPolys && !exact && k->prec == kw && o + kw < w && k->poly->t.size() <= 40) { q->t.push_back({intern(k)->id, 1ULL << o}); o += kw; continue; }
      for (auto &t : k->poly->t) {
        u64 c = t.coef & km; if (sg && (c >> (kw - 1) & 1)) c |= ~km;
        if (c) q->t.push_back({t.key, c << o});
      }
      u64 c = k->poly->c & km; if (sg && (c >> (kw - 1) & 1)) c |= ~km;
      q->c += c << o;
      if (!exact) {
        prec = std::min(prec, o + k->prec);
        if (o + kw < w || k->prec < kw) { o += kw; break; }
      }
      o += kw; continue;
    }
    if (run.empty()) ro = o;
    run.push_back(k); o += kw;
  }
  flush();
  sortTerms(q->t);
  return {q, prec};
}

static PolyP polyLin(const Poly &a, const Poly &b, u64 sb, u64 m) { // a + sb*b
  auto r = std::make_shared<Poly>();
  r->c = (a.c + sb * b.c) & m;
  auto &A = a.t; auto &B = b.t; auto &R = r->t;
  R.reserve(A.size() + B.size());
  size_t i = 0, j = 0;
  statPolyOps += A.size() + B.size();
  if (B.size() * 8 < A.size()) {                   // few terms into many: copy runs (coefficients may stay unreduced above m)
    for (; j < B.size(); j++) {
      u64 key = B[j].key, c = (sb * B[j].coef) & m; if (!c) continue;
      size_t lo = std::lower_bound(A.begin() + i, A.end(), key, [](const Term &x, u64 k) { return x.key < k; }) - A.begin();
      R.insert(R.end(), A.begin() + i, A.begin() + lo); i = lo;
      if (i < A.size() && A[i].key == key) { c = (c + A[i].coef) & m; i++; if (!c) continue; }
      R.push_back({key, c});
    }
    R.insert(R.end(), A.begin() + i, A.end());
    return r;
  }
  while (i < A.size() && j < B.size()) {
    if (A[i].key < B[j].key) { if (A[i].coef & m) R.push_back({A[i].key, A[i].coef & m}); i++; }
    else if (A[i].key > B[j].key) { u64 c = (sb * B[j].coef) & m; if (c) R.push_back({B[j].key, c}); j++; }
    else { u64 c = (A[i].coef + sb * B[j].coef) & m; if (c) R.push_back({A[i].key, c}); i++; j++; }
  }
  for (; i < A.size(); i++) if (A[i].coef & m) R.push_back({A[i].key, A[i].coef & m});
  for (; j < B.size(); j++) { u64 c = (sb * B[j].coef) & m; if (c) R.push_back({B[j].key, c}); }
  return r;
}
static PolyP polyScale(const Poly &a, u64 s, u64 m) {
  auto r = std::make_shared<Poly>(); r->c = (a.c * s) & m; r->t.reserve(a.t.size());
  for (auto &t : a.t) { u64 c = (t.coef * s) & m; if (c) r->t.push_back({t.key, c}); }
  statPolyOps += a.t.size();
  return r;
}
static PolyP polyShr(const Poly &a, unsigned k, u64 m) { // coefficients divisible by 2^k under mask m
  auto r = std::make_shared<Poly>(); r->c = (a.c & m) >> k; r->t.reserve(a.t.size());
  for (auto &t : a.t) { u64 c = (t.coef & m) >> k; if (c) r->t.push_back({t.key, c}); }
  return r;
}

static bool pureAtom(const Ref &n) {      // its own polynomial form is the single atom n
  if (n->pure >= 0) return n->pure;
  bool r;
  if (!isAtomKind(n) || !n->id) r = false;
  else if (n->kind != K_CONCAT) r = !(n->kind == K_VAR && (vars[n->val].flags & F_JUNK));
  else { PV p = toPoly(n); r = p.prec == n->width && p.p->c == 0 && p.p->t.size() == 1 && p.p->t[0].key == n->id && p.p->t[0].coef == 1; }
  n->pure = r; return r;
}
static std::unordered_map<u64, Node *> truncMemo;
static Ref truncAtom(u32 id, unsigned aw) {
  u64 k = (u64)id << 8 | aw; auto it = truncMemo.find(k);
  if (it != truncMemo.end()) return Ref(it->second);
  Ref r = intern(extract(Ref(byId[id]), 0, aw)); truncMemo[k] = r.p;
  if (!parentOf[r->id] && r->id != id && isAtomKind(r)) parentOf[r->id] = id;
  return r;
}

std::vector<Term> canonTerms(const Node *n, unsigned prec, u64 &c) {
  u64 m = maskw(prec); const Poly &p = *n->poly; c = p.c & m;
  std::vector<Term> T; T.reserve(p.t.size());
  bool hasPar = false;
  for (auto &t : p.t) {
    u64 k = t.coef & m; if (!k) continue;
    T.push_back({t.key, k});
    if (parentOf[(u32)t.key] || (t.key >> 32 && parentOf[t.key >> 32])) hasPar = true;
  }
  statPolyOps += p.t.size();
  auto tidy = [&]() { size_t n0 = T.size(); sortTerms(T); for (auto &t : T) t.coef &= m; T.erase(std::remove_if(T.begin(), T.end(), [](const Term &t) { return !t.coef; }), T.end()); return T.size() != n0; };
  auto lift = [&]() {             // a low part of an atom stands for the atom itself where the rest does not count
    bool changed = false;
    for (auto &t : T) {
      unsigned v = ctz64(t.coef); u32 lo = (u32)t.key, hi = t.key >> 32, x = lo, y = hi;
      while (parentOf[x] && byId[x]->width + v >= prec) x = parentOf[x];
      if (y) while (parentOf[y] && byId[y]->width + v >= prec) y = parentOf[y];
      if (x != lo || y != hi) { if (y && x < y) std::swap(x, y); t.key = (u64)y << 32 | x; changed = true; }
    }
    if (changed) tidy();
  };
 for (int round = 0; round < 4; round++) {
  if (hasPar) lift();
  bool redo = false; size_t N = T.size();
  for (size_t i = 0; i < N; i++) {
    unsigned aw = prec - ctz64(T[i].coef);
    u32 lo = (u32)T[i].key, hi = T[i].key >> 32;
    auto whole = [&](u32 id) { return byId[id]->kind == K_POLY && byId[id]->width >= aw; };   // a sum of its own: inline it
    if (byId[lo]->width <= aw && (!hi || byId[hi]->width <= aw) && !whole(lo) && !(hi && whole(hi))) continue;
    redo = true;
    Ref L = byId[lo], H = hi ? Ref(byId[hi]) : Ref();
    if (L->width > aw) L = truncAtom(lo, aw);
    if (H && H->width > aw) H = truncAtom(hi, aw);
    if (pureAtom(L) && (!H || pureAtom(H))) {
      u32 x = L->id, y = H ? H->id : 0; if (x < y) std::swap(x, y);
      T[i].key = (u64)y << 32 | x;
    } else {                                       // general: re-expand
      PV a = toPoly(L), b = H ? toPoly(H) : PV{polyConst(1), 64};
      if (H) {                                     // a product of products stays as it is
        bool quad = false; for (auto *p : {&a, &b}) for (auto &t : p->p->t) if (t.key >> 32) quad = true;
        if (quad) { u32 x = intern(L)->id, y = intern(H)->id; if (x < y) std::swap(x, y); T[i].key = (u64)y << 32 | x; continue; }
      }
      u64 k = T[i].coef; T[i].coef = 0;
      c += k * a.p->c * b.p->c; c &= m;
      for (auto &t : a.p->t) T.push_back({t.key, (k * t.coef * b.p->c) & m});
      for (auto &t : b.p->t) T.push_back({t.key, (k * t.coef * a.p->c) & m});
      for (auto &s : a.p->t) for (auto &t : b.p->t) {
        u32 x = (u32)s.key, y = (u32)t.key; if (x < y) std::swap(x, y);
        T.push_back({(u64)y << 32 | x, (k * s.coef * t.coef) & m});
      }
    }
  }
  if (!redo || !tidy()) break;
  hasPar = true;
 }
  return T;
}

struct H128 { u64 a, b; bool operator==(const H128 &o) const { return a == o.a && b == o.b; } };
struct HH { size_t operator()(const H128 &h) const { return h.a; } };
static std::unordered_map<H128, Node *, HH> polyTab;

// interned POLY nodes: prec == width, identified by a 128-bit hash of their canonical terms
static Ref internPoly(const Ref &n) {
  if (n->id) return n;
  if (n->prec < n->width) return intern(concat2(internPoly(mkPoly(n->prec, n->prec, n->poly)), junk(n->width - n->prec)));
  unsigned w = n->width; u64 c; std::vector<Term> T = canonTerms(n.p, w, c);
  if (T.size() <= 64) {
    if (T.empty()) return konst(w, c);
    Poly q; q.t = T; q.c = c; Ref r; bool lin = true;
    for (auto &t : T) if (t.key >> 32) lin = false;
    if (lin && tryConcat(w, q, r)) return intern(r);
  }
  H128 h{mix(w, c), mix(c ^ 0x1234567, w)};
  for (auto &t : T) { h.a = mix(mix(h.a, t.key), t.coef); h.b = (h.b ^ (t.key * 0x9E3779B97F4A7C15ULL + t.coef)) * 0xD6E8FEB86659FD93ULL; h.b ^= h.b >> 29; }
  auto it = polyTab.find(h);
  if (it != polyTab.end()) return it->second;
  Node *p = new Node; p->kind = K_POLY; p->width = p->prec = w; p->poly = n->poly; p->hash = h.a;
  for (auto &t : T) { p->flags |= byId[(u32)t.key]->flags; if (t.key >> 32) p->flags |= byId[t.key >> 32]->flags; }
  if (T.size() <= 64) { auto q = std::make_shared<Poly>(); q->t = T; q->c = c; p->poly = q; }
  registerNode(p); polyTab[h] = p;
  return p;
}
Ref intern(const Ref &n) {
  if (n->id) return n;
  if (n->kind == K_POLY) return internPoly(n);
  std::vector<Ref> ks; for (auto &k : n->kids) ks.push_back(intern(k));
  if (n->kind == K_CONCAT) return concat(ks);
  Node t; t.kind = n->kind; t.op = n->op; t.width = n->width; t.prec = n->prec; t.val = n->val; t.kids = ks; t.coefs = n->coefs;
  return internTmp(t);
}

// ---------------------------------------------------------------- words
static Ref mkExtract(const Ref &base, unsigned lo, unsigned len) { // base interned, not CONCAT/CONST
  if (lo == 0 && len == base->width) return base;
  Node t; t.kind = K_EXTRACT; t.width = t.prec = len; t.val = lo; t.kids.push_back(base);
  return internTmp(t);
}
Ref extract(const Ref &n, unsigned lo, unsigned len) {
  if (lo == 0 && len == n->width) return n;
  if (lo + len > n->width || len == 0) { fprintf(stderr, "extract out of range\n"); abort(); }
  switch (n->kind) {
    case K_CONST: return konst(len, n->val >> lo);
    case K_EXTRACT: {
      Ref b = n->kids[0];
      if (b->kind == K_POLY && n->val + lo + len < b->width) return extract(b, n->val + lo, len);
      Ref r = mkExtract(b, n->val + lo, len);
      if (lo == 0 && r->id && !parentOf[r->id] && n->id) parentOf[r->id] = n->id;
      return r;
    }
    case K_CONCAT: {
      std::vector<Ref> ps; unsigned o = 0;
      for (auto &k : n->kids) {
        unsigned kw = k->width, a = std::max(o, lo), b = std::min(o + kw, lo + len);
        if (a < b) ps.push_back(a == o && b == o + kw ? k : extract(k, a - o, b - a));
        o += kw; if (o >= lo + len) break;
      }
      Ref r = concat(ps);
      if (lo == 0 && n->id && r->id && isAtomKind(r) && !parentOf[r->id]) parentOf[r->id] = n->id;
      return r;
    }
    case K_POLY: {
      unsigned hi = lo + len;
      if (hi > n->prec) {
        if (lo >= n->prec) return junk(len);
        return concat2(extract(n, lo, n->prec - lo), junk(hi - n->prec));
      }
      if (lo == 0) {
        if (n->id && len == n->width) return n;
        return mkPoly(len, len, n->poly);
      }
      u64 m = maskw(hi), lm = maskw(lo);
      bool div = !(n->poly->c & lm);
      bool all = div;
      if (all) for (auto &t : n->poly->t) if (t.coef & lm) { all = false; break; }
      if (all) return mkPoly(len, len, polyShr(*n->poly, lo, m));
      if (n->poly->t.size() <= 96) {
        Poly L; auto H = std::make_shared<Poly>(); bool ok = true;
        for (auto &t : n->poly->t) {
          u64 k = t.coef & m; if (!k) continue;
          if (k & lm) L.t.push_back({t.key, k}); else H->t.push_back({t.key, k >> lo});
          if (L.t.size() > 60) { ok = false; break; }
        }
        if (ok) {
          u64 c = n->poly->c & m; i128 mn, mx;
          L.c = c & lm; H->c = c >> lo;
          if (polyRange(L, hi, false, mn, mx) && mx < ((i128)1 << lo)) return mkPoly(len, len, H);
          // signed reading: the constant may be needed whole to keep the low part non-negative
          if (polyRange(L, hi, true, mn, mx) && mn >= 0 && mx < ((i128)1 << lo)) return mkPoly(len, len, H);
        }
      }
      {   // the upper bits of -q, 0 <= q < 2^lo, tell whether q is zero
        i128 mn, mx;
        if (n->poly->t.size() <= 64 && polyRange(*n->poly, hi, true, mn, mx) && mx <= 0 && mn > -((i128)1 << lo)) {
          auto Q = std::make_shared<Poly>(); u64 hm = maskw(hi); Q->c = (0 - n->poly->c) & hm;
          for (auto &t : n->poly->t) { u64 k = (0 - t.coef) & hm; if (k) Q->t.push_back({t.key, k}); }
          Ref q = mkPoly(hi, hi, Q), nz = bnot(eq(extract(q, 0, lo), konst(lo, 0)));
          std::vector<Ref> ps(len, nz); return concat(ps);
        }
      }
      Ref b = internPoly(mkPolyNode(hi, hi, n->poly));
      if (b->kind != K_POLY) return extract(b, lo, len);
      return mkExtract(b, lo, len);
    }
    default: {
      if (n->width == 1) return n;
      Ref b = intern(n), r = mkExtract(b, lo, len);
      if (lo == 0 && !parentOf[r->id]) parentOf[r->id] = b->id;
      return r;
    }
  }
}
Ref bitOf(const Ref &n, unsigned i) {
  Ref r = extract(n, i, 1);
  if (r->kind == K_POLY || !r->id) r = intern(r);
  return r;
}

static bool sameTrunc(const Ref &small, const Ref &big) {  // POLY small == big mod 2^width(small)
  if (small->poly == big->poly) return true;
  Ref t = internPoly(mkPolyNode(small->width, small->width, big->poly));
  return t == internPoly(small);
}
static bool tryMerge(const Ref &a, const Ref &b, Ref &out) {
  if (a->kind == K_CONST && b->kind == K_CONST) { if (a->width + b->width > 64) return false; out = konst(a->width + b->width, a->val | b->val << a->width); return true; }
  auto cover = [](const Ref &n, Ref &base, unsigned &lo) {
    if (n->kind == K_EXTRACT) { base = n->kids[0]; lo = n->val; return true; }
    if (n->kind == K_VAR || n->kind == K_WRAP || n->kind == K_TABLE || n->kind == K_OPQ) { base = n; lo = 0; return true; }
    if (n->kind == K_POLY && n->prec == n->width) { base = n; lo = 0; return true; }
    return false;
  };
  if (b->kind != K_EXTRACT) return false;
  Ref ba, bb; unsigned la, lb;
  if (!cover(a, ba, la) || !cover(b, bb, lb) || lb == 0) return false;
  if (lb != la + a->width) return false;
  if (bb->kind == K_POLY) {
    if (ba->kind != K_POLY || ba->width != la + a->width) return false;
    if (!sameTrunc(ba, bb)) return false;
    out = la == 0 ? bb : mkExtract(bb, la, a->width + b->width);
    return true;
  }
  if (ba != bb) return false;
  out = mkExtract(ba, la, a->width + b->width);
  return true;
}
Ref concat(const std::vector<Ref> &parts) {
  if (parts.size() == 1) return parts[0];
  std::vector<Ref> fl;
  auto push = [&](const Ref &r) {
    Ref cur = r;
    while (!fl.empty()) { Ref m; if (tryMerge(fl.back(), cur, m)) { fl.pop_back(); cur = m; } else break; }
    fl.push_back(cur);
  };
  for (auto &p : parts) { if (p->kind == K_CONCAT) for (auto &k : p->kids) push(k); else push(p); }
  if (fl.size() == 1) return fl[0];
  unsigned w = 0; bool loose = false;
  for (auto &f : fl) { w += f->width; if (!f->id) loose = true; }
  if (w > 64) { fprintf(stderr, "concat wider than 64\n"); abort(); }
  if (loose) {
    Node *n = new Node; n->kind = K_CONCAT; n->width = n->prec = w; n->kids = std::move(fl);
    return Ref(n);
  }
  Node t; t.kind = K_CONCAT; t.width = t.prec = w; t.kids = std::move(fl);
  return internTmp(t);
}
Ref concat2(const Ref &lo, const Ref &hi) { std::vector<Ref> v{lo, hi}; return concat(v); }
Ref zext(const Ref &n, unsigned w) {
  if (w == n->width) return n;
  if (n->kind == K_CONST) return konst(w, n->val);
  return concat2(n, konst(w - n->width, 0));
}
Ref sext(const Ref &n, unsigned w) {
  unsigned k = n->width; if (w == k) return n;
  if (n->kind == K_CONST) { u64 v = n->val; if (v >> (k - 1) & 1) v |= ~maskw(k); return konst(w, v); }
  if (n->kind == K_POLY) {
    i128 mn, mx;
    if (n->prec == k && polyRange(*n->poly, k, true, mn, mx) && mn >= -((i128)1 << (k - 1)) && mx < ((i128)1 << (k - 1))) {
      auto q = std::make_shared<Poly>(); u64 m = maskw(k);
      auto sg = [&](u64 c) { c &= m; if (c >> (k - 1) & 1) c |= ~m; return c & maskw(w); };
      for (auto &t : n->poly->t) if (t.coef & m) q->t.push_back({t.key, sg(t.coef)});
      q->c = sg(n->poly->c);
      return mkPoly(w, w, q);
    }
    if (n->poly->t.size() > 24) return mkPolyNode(w, n->prec, n->poly);
  }
  if (n->kind == K_CONCAT && n->kids.back()->kind == K_POLY && n->kids.back()->poly->t.size() > 24) {
    PV p = toPoly(n); return mkPoly(w, std::min<unsigned>(p.prec, k), p.p);
  }
  Ref s = bitOf(n, k - 1);
  std::vector<Ref> ps{n}; for (unsigned i = k; i < w; i++) ps.push_back(s);
  return concat(ps);
}
static void cuts(const Ref &n, std::vector<unsigned> &c) {
  if (n->kind != K_CONCAT) return;
  unsigned o = 0; for (auto &k : n->kids) { o += k->width; c.push_back(o); }
}
static Ref notWord(const Ref &a) {
  if (a->kind == K_CONST) return konst(a->width, ~a->val);
  if (a->width == 1) return mkNot(intern(a));
  if (a->kind == K_POLY) return mkPoly(a->width, a->prec, polyLin(*polyConst(maskw(a->prec)), *a->poly, ~0ULL, maskw(a->prec)));
  std::vector<Ref> ps;
  if (a->kind == K_CONCAT) { for (auto &k : a->kids) ps.push_back(notWord(k)); return concat(ps); }
  for (unsigned i = 0; i < a->width; i++) ps.push_back(mkNot(bitOf(a, i)));
  return concat(ps);
}
Ref bnot(const Ref &a) { return notWord(a); }
enum BOp { B_AND, B_OR, B_XOR };
static Ref bitwise(BOp op, const Ref &a, const Ref &b) {
  if (a->width != b->width) { fprintf(stderr, "bitwise width mismatch\n"); abort(); }
  unsigned w = a->width;
  if (a->kind == K_CONST && b->kind == K_CONST) return konst(w, op == B_AND ? a->val & b->val : op == B_OR ? a->val | b->val : a->val ^ b->val);
  if (a->kind == K_CONST) return bitwise(op, b, a);
  if (a == b) return op == B_XOR ? konst(w, 0) : a;
  if (b->kind == K_CONST) {
    u64 v = b->val; if (v == 0) return op == B_AND ? b : a;
    if (v == maskw(w)) return op == B_AND ? a : op == B_OR ? b : notWord(a);
  }
  if (w == 1) { Ref x = intern(a), y = intern(b); return op == B_AND ? mkAnd(x, y) : op == B_OR ? mkOr(x, y) : mkXor(x, y); }
  std::vector<unsigned> cs{0, w}; cuts(a, cs);
  if (b->kind == K_CONST) { for (unsigned i = 1; i < w; i++) if ((b->val >> i & 1) != (b->val >> (i - 1) & 1)) cs.push_back(i); }
  else cuts(b, cs);
  std::sort(cs.begin(), cs.end()); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  if (b->kind == K_CONST && op != B_XOR) {         // masks: keep long slices
    std::vector<unsigned> c2{0, w};
    for (unsigned i = 1; i < w; i++) if ((b->val >> i & 1) != (b->val >> (i - 1) & 1)) c2.push_back(i);
    std::sort(c2.begin(), c2.end()); cs = c2;
  }
  std::vector<Ref> ps;
  for (size_t i = 0; i + 1 < cs.size(); i++) {
    unsigned lo = cs[i], len = cs[i + 1] - lo;
    if (b->kind == K_CONST) {
      bool one = b->val >> lo & 1;
      if (op == B_AND) ps.push_back(one ? extract(a, lo, len) : konst(len, 0));
      else if (op == B_OR) ps.push_back(one ? konst(len, ~0ULL) : extract(a, lo, len));
      else ps.push_back(one ? notWord(extract(a, lo, len)) : extract(a, lo, len));
      continue;
    }
    Ref x = extract(a, lo, len), y = extract(b, lo, len);
    if (x == y) { ps.push_back(op == B_XOR ? konst(len, 0) : x); continue; }
    if (x->kind == K_CONST || y->kind == K_CONST || len == 1) {
      if (x->kind == K_CONST || y->kind == K_CONST) {
        if (x->kind == K_CONST) std::swap(x, y);
        if (y->val == 0) { ps.push_back(op == B_AND ? y : x); continue; }
        if (y->val == maskw(len)) { ps.push_back(op == B_AND ? x : op == B_OR ? y : notWord(x)); continue; }
        ps.push_back(bitwise(op, x, y)); continue;
      }
    }
    for (unsigned j = 0; j < len; j++) {
      Ref p = bitOf(x, j), q = bitOf(y, j);
      ps.push_back(op == B_AND ? mkAnd(p, q) : op == B_OR ? mkOr(p, q) : mkXor(p, q));
    }
  }
  return concat(ps);
}
Ref band(const Ref &a, const Ref &b) { return bitwise(B_AND, a, b); }
Ref bor(const Ref &a, const Ref &b) { return bitwise(B_OR, a, b); }
Ref bxor(const Ref &a, const Ref &b) { return bitwise(B_XOR, a, b); }

static Ref lin(const Ref &a, const Ref &b, u64 sb) {
  unsigned w = a->width;
  if (a->kind == K_CONST && b->kind == K_CONST) return konst(w, a->val + sb * b->val);
  if (isConstVal(b, 0)) return a;
  if (isConstVal(a, 0) && sb == 1) return b;
  if (w == 1) return bitwise(B_XOR, a, b);
  PV x = toPoly(a), y = toPoly(b);
  unsigned prec = std::min(x.prec, y.prec);
  if (prec == 0) return junk(w);
  return mkPoly(w, prec, polyLin(*x.p, *y.p, sb, maskw(prec)));
}
Ref add(const Ref &a, const Ref &b) { return lin(a, b, 1); }
Ref sub(const Ref &a, const Ref &b) { return lin(a, b, ~0ULL); }
Ref shlc(const Ref &a, unsigned k) {
  unsigned w = a->width; if (k == 0) return a; if (k >= w) return konst(w, 0);
  if (a->kind == K_POLY) return mkPoly(w, std::min<unsigned>(w, a->prec + k), polyScale(*a->poly, 1ULL << k, maskw(std::min<unsigned>(w, a->prec + k))));
  return concat2(konst(k, 0), extract(a, 0, w - k));
}
Ref lshrc(const Ref &a, unsigned k) {
  unsigned w = a->width; if (k == 0) return a; if (k >= w) return konst(w, 0);
  return concat2(extract(a, k, w - k), konst(k, 0));
}
Ref ashrc(const Ref &a, unsigned k) {
  unsigned w = a->width; if (k == 0) return a; if (k >= w) k = w - 1;
  if (a->kind == K_POLY && a->prec < w && a->poly->t.size() > 24) { // sign unknown: keep what is known
    Ref e = extract(mkPolyNode(a->prec, a->prec, a->poly), k, a->prec - k);
    if (e->kind == K_POLY) return mkPolyNode(w, e->prec, e->poly);
  }
  return sext(extract(a, k, w - k), w);
}
Ref mul(const Ref &a, const Ref &b) {
  unsigned w = a->width;
  if (a->kind == K_CONST && b->kind == K_CONST) return konst(w, a->val * b->val);
  if (a->kind == K_CONST) return mul(b, a);
  if (w == 1) return bitwise(B_AND, a, b);
  if (b->kind == K_CONST) {
    u64 v = b->val; if (v == 0) return b; if (v == 1) return a;
    if (!(v & (v - 1))) return shlc(a, ctz64(v));
    PV x = toPoly(a); unsigned prec = std::min<unsigned>(w, x.prec + ctz64(v));
    if (prec == 0) return junk(w);
    return mkPoly(w, prec, polyScale(*x.p, v, maskw(prec)));
  }
  PV x = toPoly(a), y = toPoly(b);
  unsigned prec = std::min(x.prec, y.prec); if (prec == 0) return junk(w);
  u64 m = maskw(prec);
  for (auto *p : {&x, &y}) for (auto &t : p->p->t) if (t.key >> 32) {
    if (x.p->t.empty() || y.p->t.empty()) break;
    return opq(O_MUL, w, {a, b});
  }
  if (x.p->t.size() * y.p->t.size() > 200000) return opq(O_MUL, w, {a, b});
  auto r = std::make_shared<Poly>(); auto &T = r->t;
  T.reserve((x.p->t.size() + 1) * (y.p->t.size() + 1));
  r->c = (x.p->c * y.p->c) & m;
  for (auto &s : x.p->t) {
    u64 k = (s.coef * y.p->c) & m; if (k) T.push_back({s.key, k});
    for (auto &t : y.p->t) {
      u64 c = (s.coef * t.coef) & m; if (!c) continue;
      u32 p = (u32)s.key, q = (u32)t.key;
      if (p == q && byId[p]->width == 1) { T.push_back({p, c}); continue; }
      if (p < q) std::swap(p, q);
      T.push_back({(u64)q << 32 | p, c});
    }
  }
  for (auto &t : y.p->t) { u64 k = (t.coef * x.p->c) & m; if (k) T.push_back({t.key, k}); }
  statPolyOps += T.size();
  if (T.size() > 1) sortTerms(T);
  for (auto &t : T) t.coef &= m;
  T.erase(std::remove_if(T.begin(), T.end(), [](const Term &t) { return !t.coef; }), T.end());
  return mkPoly(w, prec, r);
}
Ref ite(const Ref &c, const Ref &a, const Ref &b) {
  if (isConst(c)) return c->val ? a : b;
  if (a == b) return a;
  Ref cc = intern(c); unsigned w = a->width;
  std::vector<Ref> ps;
  for (unsigned i = 0; i < w; i++) {
    Ref x = bitOf(a, i), y = bitOf(b, i);
    ps.push_back(x == y ? x : mkXor(y, mkAnd(cc, mkXor(x, y))));
  }
  return concat(ps);
}
static bool rangeOf(const Ref &n, u64 &mn, u64 &mx) {
  if (n->kind == K_CONST) { mn = mx = n->val; return true; }
  if (n->kind == K_CONCAT) { mn = mx = 0; unsigned o = 0; for (auto &k : n->kids) { u64 a, b; rangeOf(k, a, b); mn |= a << o; mx |= b << o; o += k->width; } return true; }
  if (n->kind == K_WRAP) { mn = 0; mx = n->val; return true; }
  if (n->kind == K_TABLE) { mn = ~0ULL; mx = 0; for (u64 v : tables[n->val]) { mn = std::min(mn, v); mx = std::max(mx, v); } return true; }
  if (n->kind == K_POLY && n->prec == n->width) {
    i128 a, b; if (polyRange(*n->poly, n->width, true, a, b) && a >= 0 && b <= (i128)maskw(n->width)) { mn = (u64)a; mx = (u64)b; return true; }
  }
  mn = 0; mx = maskw(n->width); return true;
}
Ref eq(const Ref &a, const Ref &b) {
  if (a == b) return konst(1, 1);
  if (isConst(a) && isConst(b)) return konst(1, a->val == b->val);
  u64 a0, a1, b0, b1; rangeOf(a, a0, a1); rangeOf(b, b0, b1);
  if (a1 < b0 || b1 < a0) return konst(1, 0);
  Ref r = konst(1, 1);
  for (unsigned i = 0; i < a->width; i++) {
    Ref x = bitOf(a, i), y = bitOf(b, i);
    r = mkAnd(r, mkNot(mkXor(x, y)));
    if (isConstVal(r, 0)) return r;
  }
  return r;
}
Ref ult(const Ref &a, const Ref &b) {
  if (a == b) return konst(1, 0);
  u64 a0, a1, b0, b1; rangeOf(a, a0, a1); rangeOf(b, b0, b1);
  if (a1 < b0) return konst(1, 1);
  if (a0 >= b1) return konst(1, 0);
  return opq(O_ULT, 1, {a, b});
}
Ref slt(const Ref &a, const Ref &b) {
  if (a == b) return konst(1, 0);
  unsigned w = a->width; auto sg = [&](u64 v) { return (i64)(v << (64 - w)) >> (64 - w); };
  if (isConst(a) && isConst(b)) return konst(1, sg(a->val) < sg(b->val));
  u64 a0, a1, b0, b1; rangeOf(a, a0, a1); rangeOf(b, b0, b1); u64 half = 1ULL << (w - 1);
  if (isConstVal(b, 0)) return bitOf(a, w - 1);
  if (a1 < half && b1 < half) return ult(a, b);
  return opq(O_SLT, 1, {a, b});
}
Ref opq(OpqOp op, unsigned w, const std::vector<Ref> &kids) {
  Node t; t.kind = K_OPQ; t.op = op; t.width = t.prec = w;
  bool jk = false;
  for (auto &k : kids) t.kids.push_back(intern(k));
  (void)jk;
  if (op == O_MUL && t.kids[0]->id > t.kids[1]->id) std::swap(t.kids[0], t.kids[1]);
  return internTmp(t);
}
Ref table(const std::vector<u64> &data, unsigned ew, const Ref &index) {
  bool same = true; for (auto v : data) if (v != data[0]) same = false;
  if (same) return konst(ew, data[0]);
  auto it = tableIds.find(data); u32 id;
  if (it == tableIds.end()) { id = tables.size(); tables.push_back(data); tableIds[data] = id; } else id = it->second;
  Node t; t.kind = K_TABLE; t.width = t.prec = ew; t.val = id; t.kids.push_back(intern(index));
  return internTmp(t);
}
const std::vector<u64> &tableData(u64 id) { return tables[id]; }

Ref storeNorm(const Ref &a) {
  PolyP src; unsigned w = a->width;
  if (w < 4) return a;
  if (a->kind == K_CONCAT) {              // masked small sums
    bool ch = false; std::vector<Ref> ks = a->kids;
    for (auto &k : ks) if (k->kind == K_POLY && k->width >= 4 && k->poly->t.size() <= 10) { Ref n = storeNorm(k); if (n != k) { k = n; ch = true; } }
    if (ch) return concat(ks);
  }
  if (a->kind == K_POLY) {
    if (a->prec < w || a->poly->t.size() > 10 || a->poly->t.empty()) return a;
    src = a->poly;
  } else if (a->kind == K_CONCAT && a->id && w <= 32 && a->kids.size() >= 3 && a->kids.size() <= 40 && a->kids.back()->width == 1 && a->kids.back() == a->kids[a->kids.size() - 2]) {
    PV p = toPoly(a); if (p.prec < w || p.p->t.size() > 10) return a;
    auto q = std::make_shared<Poly>(*p.p);          // split short word atoms into bits
    std::vector<Term> T;
    for (auto &t : q->t) {
      Node *n = byId[(u32)t.key]; if (t.key >> 32 || n->width > 4) return a;
      if (n->width == 1 || n->kind == K_WRAP) { T.push_back(t); continue; }
      for (unsigned i = 0; i < n->width; i++) { Ref b = bitOf(Ref(n), i); if (b->kind == K_CONST || b->kind == K_NOT) return a; T.push_back({b->id, t.coef << i}); }
    }
    sortTerms(T); q->t = T; src = q;
  } else return a;
  if (src->t.size() == 1 && byId[(u32)src->t[0].key]->kind == K_WRAP && (src->t[0].coef & maskw(w)) == 1 && !(src->t[0].key >> 32)) return a;
  std::vector<std::pair<u32, i64>> bits; i64 c = (i64)(src->c << (64 - w)) >> (64 - w); i64 adj = 0;
  std::map<u32, i64> acc; bool hadWrap = false;
  for (auto &t : src->t) {
    if (t.key >> 32) return a;
    Node *n = byId[(u32)t.key]; i64 k = (i64)(t.coef << (64 - w)) >> (64 - w);
    if (k > 16 || k < -16) return a;
    if (n->kind == K_WRAP) {
      hadWrap = true; i64 mn = 0; for (size_t i = 0; i < n->kids.size(); i++) { acc[n->kids[i]->id] += k * n->coefs[i]; if (n->coefs[i] < 0) mn += n->coefs[i]; }
      adj -= k * mn;                                // W = sum - mn
    } else if (n->width == 1) acc[n->id] += k;
    else return a;
    if (acc.size() > 10) return a;
  }
  for (auto &p : acc) if (p.second) { if (p.second > 8 || p.second < -8 || (hadWrap && p.second != 1 && p.second != -1)) return a; bits.push_back(p); }
  if (bits.size() < 2) return a;
  Node t; t.kind = K_WRAP; i64 mn = 0, mx = 0;
  for (auto &b : bits) { t.kids.push_back(byId[b.first]); t.coefs.push_back(b.second); if (b.second < 0) mn += b.second; else mx += b.second; }
  t.val = mx - mn; unsigned ww = 1; while (maskw(ww) < t.val) ww++;
  if (ww > w) return a;
  t.width = t.prec = ww;
  Ref W = internTmp(t);
  auto q = std::make_shared<Poly>(); q->t.push_back({W->id, 1}); q->c = (u64)(c + adj + mn) & maskw(w);
  return mkPoly(w, w, q);
}

// ---------------------------------------------------------------- misc
Assign *showVal;
std::string show(const Ref &n, int d) {
  char buf[64];
  static const char *nm[] = {"const", "var", "ex", "cat", "poly", "not", "and", "xor", "wrap", "table", "opq"};
  if (n->kind == K_CONST) { snprintf(buf, 64, "%llx:%u", (unsigned long long)n->val, n->width); return buf; }
  if (n->kind == K_VAR) { auto &v = vars[n->val]; snprintf(buf, 64, "[%u]", v.index); return v.name + buf + (showVal ? "=" + std::to_string(eval(n, *showVal)) : ""); }
  snprintf(buf, 64, "%s%u#%u", nm[n->kind], n->width, n->id);
  std::string s = buf;
  if (showVal) s += "=" + std::to_string(eval(n, *showVal));
  if (d <= 0) return s;
  s += "(";
  if (n->kind == K_EXTRACT) s += std::to_string(n->val) + ";";
  if (n->kind == K_POLY) {
    s += "prec" + std::to_string(n->prec) + " n=" + std::to_string(n->poly->t.size()) + " c=" + std::to_string(n->poly->c & maskw(n->prec)) + ": ";
    int k = 0;
    for (auto &t : n->poly->t) { if (k++ > 5) { s += "..."; break; } s += std::to_string(t.coef & maskw(n->prec)) + "*" + show(Ref(byId[(u32)t.key]), d - 1); if (t.key >> 32) s += "*" + show(Ref(byId[t.key >> 32]), d - 1); s += " + "; }
  }
  int k = 0;
  for (auto &c : n->kids) { if (k++ > 12) { s += "..."; break; } s += show(c, d - 1) + " "; }
  return s + ")";
}
static void collect(const Node *n, std::unordered_set<u32> &seen, std::vector<u32> &out) {
  if (n->id && !seen.insert(n->id).second) return;
  if (n->kind == K_VAR) { out.push_back(n->val); return; }
  for (auto &k : n->kids) collect(k.p, seen, out);
  if (n->poly) { u64 m = maskw(n->prec); for (auto &t : n->poly->t) { if (!(t.coef & m)) continue; collect(byId[(u32)t.key], seen, out); if (t.key >> 32) collect(byId[t.key >> 32], seen, out); } }
}
void collectVars(const Ref &n, std::vector<u32> &out) { std::unordered_set<u32> seen; collect(n.p, seen, out); }

u64 Assign::get(u32 i) {
  if (v.size() < vars.size()) { v.resize(vars.size(), 0); have.resize(vars.size(), 0); }
  if (!have[i]) { u64 x = dflt ? dflt(i) & maskw(vars[i].width) : 0; have[i] = 1; v[i] = x; }
  return v[i];
}
u64 eval(const Ref &n, Assign &a) {
  if (n->kind == K_CONST) return n->val;
  if (n->kind == K_VAR) return a.get(n->val);
  if (n->id) { auto it = a.memo.find(n->id); if (it != a.memo.end()) return it->second; }
  u64 r = 0; u64 m = maskw(n->width);
  switch (n->kind) {
    case K_EXTRACT: r = eval(n->kids[0], a) >> n->val; break;
    case K_CONCAT: { unsigned o = 0; for (auto &k : n->kids) { r |= eval(k, a) << o; o += k->width; } break; }
    case K_POLY: {
      u64 s = n->poly->c; u64 pm = maskw(n->prec);
      for (auto &t : n->poly->t) { if (!(t.coef & pm)) continue; u64 x = t.coef * eval(Ref(byId[(u32)t.key]), a); if (t.key >> 32) x *= eval(Ref(byId[t.key >> 32]), a); s += x; }
      r = s & pm; break;
    }
    case K_NOT: r = !eval(n->kids[0], a); break;
    case K_AND: r = eval(n->kids[0], a) & eval(n->kids[1], a); break;
    case K_XOR: for (auto &k : n->kids) r ^= eval(k, a); break;
    case K_WRAP: { i64 s = 0; for (size_t i = 0; i < n->kids.size(); i++) { if (eval(n->kids[i], a)) s += n->coefs[i]; if (n->coefs[i] < 0) s -= n->coefs[i]; } r = s; break; }
    case K_TABLE: { auto &d = tables[n->val]; u64 i = eval(n->kids[0], a); r = i < d.size() ? d[i] : 0; break; }
    case K_OPQ: {
      u64 x = eval(n->kids[0], a), y = eval(n->kids[1], a); unsigned w = n->kids[0]->width;
      i64 sx_ = (i64)(x << (64 - w)) >> (64 - w), sy = (i64)(y << (64 - w)) >> (64 - w);
      switch (n->op) {
        case O_UDIV: r = y ? x / y : ~0ULL; break; case O_UREM: r = y ? x % y : x; break;
        case O_SDIV: r = sy ? (u64)(sx_ / sy) : ~0ULL; break; case O_SREM: r = sy ? (u64)(sx_ % sy) : x; break;
        case O_SHL: r = y >= w ? 0 : x << y; break; case O_LSHR: r = y >= w ? 0 : x >> y; break;
        case O_ASHR: r = (u64)(sx_ >> (y >= w ? w - 1 : y)); break;
        case O_MUL: r = x * y; break; case O_ULT: r = x < y; break; case O_SLT: r = sx_ < sy; break;
      }
      break;
    }
    default: break;
  }
  r &= m;
  if (n->id) a.memo[n->id] = r;
  return r;
}

// ---------------------------------------------------------------- deep comparison
typedef std::map<std::vector<u32>, u64> BitPoly;
static bool bpMulAdd(BitPoly &out, const BitPoly &x, const BitPoly &y, u64 k, u64 m, size_t limit) {
  for (auto &a : x) for (auto &b : y) {
    u64 c = (k * a.second * b.second) & m; if (!c) continue;
    std::vector<u32> key; std::set_union(a.first.begin(), a.first.end(), b.first.begin(), b.first.end(), std::back_inserter(key));
    u64 &r = out[key]; r = (r + c) & m; if (out.size() > limit) return false;
  }
  return true;
}
static bool bpOfAtom(const Ref &n, BitPoly &out, u64 m) {
  if (n->kind == K_WRAP) {
    u64 off = 0;
    for (size_t i = 0; i < n->kids.size(); i++) {
      Ref b = n->kids[i]; u64 k = (u64)n->coefs[i]; if (n->coefs[i] < 0) off -= k;
      if (b->kind == K_NOT) { off += k; k = 0 - k; b = b->kids[0]; }
      out[{b->id}] += k;
    }
    out[{}] += off; return true;
  }
  for (unsigned i = 0; i < n->width; i++) {
    Ref b = n->width == 1 ? n : bitOf(n, i); u64 k = 1ULL << i;
    if (b->kind == K_CONST) { out[{}] += k * b->val; continue; }
    if (b->kind == K_NOT) { out[{}] += k; out[{b->kids[0]->id}] -= k; continue; }
    if (b->kind == K_EXTRACT && b->kids[0]->kind == K_WRAP && b->val == 0) {  // parity of a small sum: keep as a bit
    }
    out[{b->id}] += k;
  }
  (void)m; return true;
}
static bool bpOf(const Node *n, unsigned prec, BitPoly &out, size_t limit) {
  u64 m = maskw(prec); out[{}] = n->poly->c & m;
  std::unordered_map<u32, BitPoly> memo;
  auto get = [&](u32 id) -> BitPoly & { auto it = memo.find(id); if (it != memo.end()) return it->second; BitPoly &b = memo[id]; bpOfAtom(Ref(byId[id]), b, m); return b; };
  BitPoly one; one[{}] = 1;
  for (auto &t : n->poly->t) {
    u64 k = t.coef & m; if (!k) continue;
    BitPoly &x = get((u32)t.key);
    if (!bpMulAdd(out, x, t.key >> 32 ? get(t.key >> 32) : one, k, m, limit)) return false;
  }
  return true;
}
bool deepEqualBit(const Ref &a, const Ref &b, size_t limit) {
  auto base = [](const Ref &n, Ref &p, unsigned &k) {
    if (n->kind == K_EXTRACT && n->kids[0]->kind == K_POLY) { p = n->kids[0]; k = n->val + n->width; return true; }
    if (n->kind == K_POLY) { p = n; k = n->width; return true; }
    return false;
  };
  Ref p, q; unsigned k, l;
  if (!base(a, p, k)) { std::swap(p, q); }
  auto toP = [&](const Ref &n, Ref &r, unsigned &kk) { if (base(n, r, kk)) return true; PV v = toPoly(n); if (v.prec < n->width) return false; r = mkPolyNode(n->width, n->width, v.p); kk = n->width; return true; };
  if (!toP(a, p, k) || !toP(b, q, l) || k != l || a->width != b->width) return false;
  BitPoly x, y; if (!bpOf(p.p, k, x, limit) || !bpOf(q.p, k, y, limit)) return false;
  u64 m = maskw(k);
  for (auto &t : y) { u64 &r = x[t.first]; r = (r - t.second) & m; }
  for (auto &t : x) if (t.second & m) return false;
  return true;
}
}
