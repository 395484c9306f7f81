// Term language of the symbolic executor: bit-slice/concat words, XOR/AND bits and polynomials over Z/2^k.
//
// A word term denotes an unsigned integer of `width` bits.  POLY denotes (sum coef*atom[*atom] + c) mod 2^prec in
// its low `prec` bits; the bits at and above prec are unspecified ("junk"): reading them gives a fresh variable,
// which can only make an obligation harder to discharge, never easier.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <memory>
#include <functional>
#include <algorithm>

namespace sx {
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef unsigned __int128 u128; typedef __int128 i128;

enum Kind : uint8_t {
  K_CONST, K_VAR, K_EXTRACT, K_CONCAT, K_POLY,
  K_NOT, K_AND, K_XOR,          // 1-bit nodes
  K_WRAP,                       // sum of few single bits with small signed coefficients, made non-negative by an offset
  K_TABLE,                      // constant table lookup (val = table id, kid = index)
  K_OPQ                         // any other operation
};
enum OpqOp : uint8_t { O_UDIV, O_UREM, O_SDIV, O_SREM, O_SHL, O_LSHR, O_ASHR, O_MUL, O_ULT, O_SLT };

struct Term { u64 key; u64 coef; };   // key: (hi<<32|lo) node ids, hi==0: linear, hi<=lo
struct Poly { std::vector<Term> t; u64 c = 0; };
typedef std::shared_ptr<const Poly> PolyP;

struct Node;
struct Ref {
  Node *p;
  Ref() : p(nullptr) {}
  Ref(Node *q);
  Ref(const Ref &o);
  Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
  ~Ref();
  Ref &operator=(const Ref &o);
  Ref &operator=(Ref &&o) noexcept { std::swap(p, o.p); return *this; }
  Node *operator->() const { return p; }
  Node &operator*() const { return *p; }
  explicit operator bool() const { return p != nullptr; }
  bool operator==(const Ref &o) const { return p == o.p; }
  bool operator!=(const Ref &o) const { return p != o.p; }
};

enum { F_JUNK = 1, F_UNINIT = 2, F_SECRET = 4, F_HAVOC = 8 };
struct Node {
  Kind kind; uint8_t op = 0; uint8_t flags = 0; bool immortal = false;
  uint16_t width = 0, prec = 0;
  u32 id = 0, rc = 0; int8_t pure = -1;
  u64 val = 0;                   // CONST value; EXTRACT lo; VAR index; TABLE id; WRAP max value
  std::vector<Ref> kids;
  std::vector<i64> coefs;        // WRAP
  PolyP poly;
  u64 hash = 0;
};

inline void incref(Node *p) { if (p && !p->immortal) p->rc++; }
void freeNode(Node *p);
inline void decref(Node *p) { if (p && !p->immortal && --p->rc == 0) freeNode(p); }
inline Ref::Ref(Node *q) : p(q) { incref(p); }
inline Ref::Ref(const Ref &o) : p(o.p) { incref(p); }
inline Ref::~Ref() { decref(p); }
inline Ref &Ref::operator=(const Ref &o) { Node *q = o.p; incref(q); decref(p); p = q; return *this; }

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }

struct VarInfo { std::string name; u32 index; u32 width; int ufapp; Node *node; uint8_t flags; };
extern std::vector<VarInfo> vars;
extern std::vector<Node *> byId;          // interned nodes by id
extern u64 statInterned, statPolyOps;

Ref konst(unsigned w, u64 v);
Ref newVar(unsigned w, const std::string &name, u32 index, int ufapp = -1, uint8_t flags = 0);
Ref junk(unsigned w);
Ref extract(const Ref &n, unsigned lo, unsigned len);
Ref concat(const std::vector<Ref> &partsLsbFirst);
Ref concat2(const Ref &lo, const Ref &hi);
Ref zext(const Ref &n, unsigned w);
Ref sext(const Ref &n, unsigned w);
inline Ref trunc(const Ref &n, unsigned w) { return extract(n, 0, w); }
Ref band(const Ref &a, const Ref &b);
Ref bor(const Ref &a, const Ref &b);
Ref bxor(const Ref &a, const Ref &b);
Ref bnot(const Ref &a);
Ref add(const Ref &a, const Ref &b);
Ref sub(const Ref &a, const Ref &b);
Ref mul(const Ref &a, const Ref &b);
Ref shlc(const Ref &a, unsigned k);
Ref lshrc(const Ref &a, unsigned k);
Ref ashrc(const Ref &a, unsigned k);
Ref ite(const Ref &c, const Ref &a, const Ref &b);
Ref eq(const Ref &a, const Ref &b);
Ref ult(const Ref &a, const Ref &b);
Ref slt(const Ref &a, const Ref &b);
Ref opq(OpqOp op, unsigned w, const std::vector<Ref> &kids);
Ref table(const std::vector<u64> &data, unsigned ew, const Ref &index);  // index < data.size() guaranteed by caller
const std::vector<u64> &tableData(u64 id);
Ref storeNorm(const Ref &a);              // wrapping of small bit sums, applied when a value is stored
Ref intern(const Ref &n);
Ref bitOf(const Ref &n, unsigned i);
inline bool isConst(const Ref &n) { return n->kind == K_CONST; }
inline bool isConstVal(const Ref &n, u64 v) { return n->kind == K_CONST && n->val == v; }
extern bool atomPolys; struct Assign; extern Assign *showVal;
std::string show(const Ref &n, int depth = 3);
uint8_t flagsOf(const Ref &n);
void collectVars(const Ref &n, std::vector<u32> &out);
// POLY comparison with every word atom expanded into bits (complete for polynomials over free bits)
bool deepEqualBit(const Ref &a, const Ref &b, size_t limit);

// concrete evaluation under an assignment of all variables
struct Assign {
  std::vector<u64> v; std::vector<uint8_t> have;
  std::function<u64(u32)> dflt;
  std::unordered_map<u32, u64> memo;      // interned node id -> value
  u64 get(u32 i);
};
u64 eval(const Ref &n, Assign &a);
std::vector<Term> canonTerms(const Node *p, unsigned prec, u64 &c);
inline unsigned widthOfId(u32 id) { return byId[id]->width; }
}
