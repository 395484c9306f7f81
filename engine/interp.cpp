#include "interp.hpp"
#include "solver.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;
namespace sx {
std::set<std::string> fnExecuted, globalsWritten, knownWritten; u64 instrCount = 0;
static Module *M; static const DataLayout *DL; static unsigned PW;

struct Opnd { int slot = -1; Val cst; bool lazy = false; const Constant *lc = nullptr; };
struct DInst { const Instruction *I; unsigned op; int dst = -1; std::vector<Opnd> ops; u32 w = 0; u32 ew = 0, n = 0; u64 imm = 0; std::vector<u64> scales; std::vector<int> mask; int line = 0; unsigned align = 1; unsigned ow = 0, oew = 0, on = 0; std::vector<int> targets; Function *callee = nullptr; std::string calleeName; int builtin = 0; };
struct PhiIn { int dst; std::map<int, Opnd> in; };
struct DBlock { std::vector<PhiIn> phis; std::vector<DInst> ins; };
struct DFunc { Function *F; std::string name; int nslots = 0; std::vector<int> args; std::vector<DBlock> blocks; bool impl; };
static std::map<Function *, std::unique_ptr<DFunc>> dfs;
static std::map<const GlobalValue *, u64> gaddr; static std::map<u64, Function *> faddr;
static std::map<u64, GlobalVariable *> objGlobal;
static u64 callDepth = 0;

static void shape(Type *t, u32 &w, u32 &ew, u32 &n) {
  n = 0; ew = 0;
  if (t->isVoidTy()) { w = 0; return; }
  if (auto *v = dyn_cast<FixedVectorType>(t)) { u32 a, b; shape(v->getElementType(), ew, a, b); n = v->getNumElements(); w = ew * n; return; }
  if (t->isPointerTy()) { w = PW; return; }
  if (t->isIntegerTy()) { w = t->getIntegerBitWidth(); return; }
  if (t->isFloatTy()) { w = 32; return; } if (t->isDoubleTy()) { w = 64; return; }
  if (t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) { w = 0; return; }
  w = 0xffffffff;
}
static std::string baseName(StringRef s) { std::string r = s.str(); size_t p = r.find_last_of('.'); if (p != std::string::npos && p + 1 < r.size() && r.find_first_not_of("0123456789", p + 1) == std::string::npos) r = r.substr(0, p); return r; }
static bool harnessName(const std::string &n) { return n.compare(0, 5, "spec_") == 0 || n.compare(0, 5, "stub_") == 0 || n.compare(0, 3, "sx_") == 0 || n.compare(0, 2, "h_") == 0 || n.compare(0, 7, "harness") == 0; }

static Val constVal(const Constant *c);
static u64 constInt(const Constant *c) { Val v = constVal(c); if (!v.conc()) throw Unsupported{"non-integer constant"}; return v.c; }
static Val constVal(const Constant *c) {
  u32 w, ew, n; shape(c->getType(), w, ew, n);
  if (n) {
    std::vector<Ref> ps;
    for (u32 i = 0; i < n; i++) { Constant *e = c->getAggregateElement(i); if (!e) throw Unsupported{"vector constant"}; ps.push_back(toRef(constVal(e))); }
    return fromParts(std::move(ps));
  }
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (w > 64) throw Unsupported{"wide integer"}; return Val(w, ci->getZExtValue()); }
  if (isa<ConstantPointerNull>(c)) return Val(w, 0);
  if (isa<PoisonValue>(c) || isa<UndefValue>(c)) { return fromRef(newVar(w, "undef", 0, -1, F_UNINIT)); }
  if (auto *cf = dyn_cast<ConstantFP>(c)) return Val(w, cf->getValueAPF().bitcastToAPInt().getZExtValue());
  if (auto *g = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) throw Unsupported{"unknown global " + g->getName().str()}; return Val(PW, it->second); }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { Val v = constVal(ce->getOperand(0)); return Val(w, v.c); }
      case Instruction::GetElementPtr: {
        APInt off(DL->getIndexTypeSizeInBits(ce->getType()), 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsupported{"constant gep"};
        return Val(w, constInt(ce->getOperand(0)) + off.getSExtValue());
      }
      case Instruction::Add: return Val(w, constInt(ce->getOperand(0)) + constInt(ce->getOperand(1)));
      case Instruction::Sub: return Val(w, constInt(ce->getOperand(0)) - constInt(ce->getOperand(1)));
      case Instruction::Trunc: return Val(w, constInt(ce->getOperand(0)));
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); throw Unsupported{"constant " + os.str().substr(0, 80)};
}
static void initBytes(u64 addr, const Constant *c) {
  Type *t = c->getType(); u64 sz = DL->getTypeStoreSize(t);
  if (isa<ConstantAggregateZero>(c) || c->isNullValue()) { for (u64 i = 0; i < sz; i++) mem.storeConc(addr + i, 0, 1, 1); return; }
  if (isa<UndefValue>(c)) return;
  if (auto *s = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(s); for (u64 i = 0; i < sz; i++) mem.storeConc(addr + i, 0, 1, 1); for (unsigned i = 0; i < s->getNumElements(); i++) initBytes(addr + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (auto *a = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) initBytes(addr + i * es, c->getAggregateElement(i)); return; }
  Val v = constVal(c);
  if (v.v) { mem.store(addr, slices(*v.v, 8, v.w / 8), 1); return; }
  mem.store(addr, {v.w % 8 ? zext(toRef(v), (v.w + 7) / 8 * 8) : toRef(v)}, 1);
}
Module *interpModule() { return M; }
void interpLoad(Module *m) {
  M = m; DL = &M->getDataLayout(); PW = DL->getPointerSizeInBits(0);
  mem.shift = PW == 32 ? 16 : 32;
}
void interpInitMemory() {
  mem.reset(); gaddr.clear(); faddr.clear(); objGlobal.clear(); dfs.clear();
  u64 fa = 16;
  for (auto &f : *M) { gaddr[&f] = fa; faddr[fa] = &f; fa += 16; if (fa >= (1ULL << mem.shift)) throw Unsupported{"too many functions"}; }
  for (auto &g : M->globals()) {
    u64 sz = DL->getTypeAllocSize(g.getValueType());
    u64 al = g.getAlign() ? g.getAlign()->value() : DL->getABITypeAlign(g.getValueType()).value();
    if (PW == 64 && sz >= 32 && al < 32) al = 32;      // what compilers give tables of that size
    u64 a = mem.alloc(sz, al, g.getName().str()); gaddr[&g] = a; objGlobal[a] = &g; mem.find(a)->global = true;
  }
  for (auto &g : M->aliases()) if (auto *b = dyn_cast<GlobalValue>(g.getAliasee()->stripPointerCasts())) gaddr[&g] = gaddr[b];
  for (auto &g : M->globals()) {
    if (g.hasInitializer()) initBytes(gaddr[&g], g.getInitializer());
    else { Obj *o = mem.find(gaddr[&g]); o->external = true; if (armHas(g.getName().str())) {} }
    if (g.isConstant()) { Obj *o = mem.find(gaddr[&g]); o->readonly = true; o->isConstGlobal = true; }
  }
  armInitMemory();
}
std::set<std::string> globalsHavocked; unsigned havocMin = 0;
void havocGlobals(bool onlyWritten) {
  for (auto &g : M->globals()) {
    std::string nm = g.getName().str();
    if (g.isConstant() || harnessName(baseName(nm)) || nm.compare(0, 4, "llvm") == 0) continue;
    if (onlyWritten && !knownWritten.count(nm) && !globalsWritten.count(nm)) continue;
    globalsHavocked.insert(nm); if (onlyWritten && M->getDataLayout().getTypeAllocSize(g.getValueType()) < havocMin) continue;
    Obj *o = mem.find(gaddr[&g]); if (!o) continue;
    std::vector<Ref> ps; for (u64 i = 0; i < o->size; i++) ps.push_back(symByte("g:" + nm, i, F_HAVOC));
    mem.store(o->base, ps, 1);
  }
}

// ------------------------------------------------------------ decoding
static Opnd mkOp(const Value *v, std::map<const Value *, int> &slots) {
  Opnd o; auto it = slots.find(v);
  if (it != slots.end()) { o.slot = it->second; return o; }
  if (auto *c = dyn_cast<Constant>(v)) { if (isa<UndefValue>(c)) { o.lazy = true; o.lc = c; return o; } try { o.cst = constVal(c); } catch (Unsupported &) { o.lazy = true; o.lc = c; } return o; }
  o.lazy = true; return o;
}
enum { BI_NONE, BI_IGNORE };
static DFunc *decode(Function *F) {
  auto &up = dfs[F]; if (up) return up.get();
  up.reset(new DFunc); DFunc *d = up.get(); d->F = F; d->name = baseName(F->getName()); d->impl = !harnessName(d->name);
  std::map<const Value *, int> slots; std::map<const BasicBlock *, int> bb; int n = 0;
  for (auto &a : F->args()) { slots[&a] = n; d->args.push_back(n++); }
  int b = 0;
  for (auto &B : *F) { bb[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) slots[&I] = n++; }
  d->nslots = n;
  for (auto &B : *F) {
    d->blocks.emplace_back(); DBlock &db = d->blocks.back();
    for (auto &I : B) {
      if (auto *p = dyn_cast<PHINode>(&I)) {
        PhiIn pi; pi.dst = slots[p];
        for (unsigned i = 0; i < p->getNumIncomingValues(); i++) pi.in[bb[p->getIncomingBlock(i)]] = mkOp(p->getIncomingValue(i), slots);
        db.phis.push_back(pi); continue;
      }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      DInst x; x.I = &I; x.op = I.getOpcode(); if (!I.getType()->isVoidTy()) x.dst = slots[&I];
      shape(I.getType(), x.w, x.ew, x.n);
      if (I.getDebugLoc()) x.line = I.getDebugLoc().getLine();
      if (auto *br = dyn_cast<BranchInst>(&I)) {
        if (br->isConditional()) x.ops.push_back(mkOp(br->getCondition(), slots));
        for (unsigned i = 0; i < br->getNumSuccessors(); i++) x.targets.push_back(bb[br->getSuccessor(i)]);
      } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
        x.ops.push_back(mkOp(sw->getCondition(), slots)); x.targets.push_back(bb[sw->getDefaultDest()]);
        for (auto &c : sw->cases()) { x.scales.push_back(c.getCaseValue()->getZExtValue()); x.targets.push_back(bb[c.getCaseSuccessor()]); }
      } else if (auto *ci = dyn_cast<CallInst>(&I)) {
        for (auto &a : ci->args()) x.ops.push_back(mkOp(a.get(), slots));
        if (ci->isInlineAsm()) { auto *ia = cast<InlineAsm>(ci->getCalledOperand()); x.calleeName = "asm"; if (ia->getAsmString().empty() || x.w == 0) x.builtin = BI_IGNORE; }
        else if (auto *cf = dyn_cast<Function>(ci->getCalledOperand()->stripPointerCasts())) {
          std::string nm = cf->getName().str(); x.calleeName = cf->isIntrinsic() ? nm : baseName(nm); x.callee = cf;
          if (cf->isIntrinsic() && (nm.find("llvm.lifetime") == 0 || nm.find("llvm.dbg") == 0 || nm.find("llvm.stackrestore") == 0 || nm.find("llvm.assume") == 0 || nm.find("llvm.experimental.noalias") == 0 || nm.find("llvm.va_") == 0)) x.builtin = BI_IGNORE;
          if (!cf->isIntrinsic() && !(harnessName(d->name) && d->name.compare(0, 5, "stub_") == 0)) {
            if (d->impl || !harnessName(x.calleeName)) if (Function *st = M->getFunction("stub_" + x.calleeName)) if (!st->isDeclaration() && d->name != "spec_" + x.calleeName) { x.callee = st; x.calleeName = st->getName().str(); }
          }
          if (x.ops.size() > cf->arg_size() && false) x.ops.resize(cf->arg_size());
        } else { x.calleeName = "*"; x.ops.push_back(mkOp(ci->getCalledOperand(), slots)); }
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        x.ops.push_back(mkOp(g->getPointerOperand(), slots)); u64 off = 0;
        for (auto it = gep_type_begin(g); it != gep_type_end(g); ++it) {
          Value *ix = it.getOperand();
          if (StructType *st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          u64 sc = DL->getTypeAllocSize(it.getIndexedType());
          if (auto *c = dyn_cast<ConstantInt>(ix)) { off += sc * c->getSExtValue(); continue; }
          x.ops.push_back(mkOp(ix, slots)); x.scales.push_back(sc);
        }
        x.imm = off;
      } else {
        for (auto &o : I.operands()) x.ops.push_back(mkOp(o.get(), slots));
        if (auto *l = dyn_cast<LoadInst>(&I)) x.align = l->getAlign().value();
        if (auto *s = dyn_cast<StoreInst>(&I)) { x.align = s->getAlign().value(); shape(s->getValueOperand()->getType(), x.ow, x.oew, x.on); }
        if (auto *a = dyn_cast<AllocaInst>(&I)) { x.imm = DL->getTypeAllocSize(a->getAllocatedType()); x.align = a->getAlign().value(); }
        if (auto *s = dyn_cast<ShuffleVectorInst>(&I)) { for (int m : s->getShuffleMask()) x.mask.push_back(m); }
        if (I.getNumOperands() && !isa<StoreInst>(&I)) shape(I.getOperand(0)->getType(), x.ow, x.oew, x.on);
        if (auto *c = dyn_cast<CmpInst>(&I)) x.imm = c->getPredicate();
        if (auto *e = dyn_cast<ExtractValueInst>(&I)) x.imm = e->getIndices()[0];
        if (auto *e = dyn_cast<InsertValueInst>(&I)) x.imm = e->getIndices()[0];
      }
      db.ins.push_back(std::move(x));
    }
  }
  return d;
}

// ------------------------------------------------------------ scalar operations
static Ref sop(unsigned op, const Ref &a, const Ref &b) {
  switch (op) {
    case Instruction::Add: return add(a, b);
    case Instruction::Sub: return sub(a, b);
    case Instruction::Mul: return mul(a, b);
    case Instruction::And: return band(a, b);
    case Instruction::Or: return bor(a, b);
    case Instruction::Xor: return bxor(a, b);
    case Instruction::Shl: if (isConst(b)) return shlc(a, b->val); return opq(O_SHL, a->width, {a, b});
    case Instruction::LShr: if (isConst(b)) return lshrc(a, b->val); return opq(O_LSHR, a->width, {a, b});
    case Instruction::AShr: if (isConst(b)) return ashrc(a, b->val); return opq(O_ASHR, a->width, {a, b});
    case Instruction::UDiv: if (isConst(b) && b->val && !(b->val & (b->val - 1))) return lshrc(a, __builtin_ctzll(b->val)); return opq(O_UDIV, a->width, {a, b});
    case Instruction::URem: if (isConst(b) && b->val && !(b->val & (b->val - 1))) return band(a, konst(a->width, b->val - 1)); return opq(O_UREM, a->width, {a, b});
    case Instruction::SDiv: return opq(O_SDIV, a->width, {a, b});
    case Instruction::SRem: return opq(O_SREM, a->width, {a, b});
  }
  throw Unsupported{"binary operator"};
}
static u64 cop(unsigned op, u64 a, u64 b, unsigned w) {
  i64 sa = (i64)(a << (64 - w)) >> (64 - w), sb = (i64)(b << (64 - w)) >> (64 - w);
  switch (op) {
    case Instruction::Add: return a + b; case Instruction::Sub: return a - b; case Instruction::Mul: return a * b;
    case Instruction::And: return a & b; case Instruction::Or: return a | b; case Instruction::Xor: return a ^ b;
    case Instruction::Shl: return b >= w ? 0 : a << b; case Instruction::LShr: return b >= w ? 0 : a >> b;
    case Instruction::AShr: return (u64)(sa >> (b >= w ? w - 1 : b));
    case Instruction::UDiv: return b ? a / b : 0; case Instruction::URem: return b ? a % b : 0;
    case Instruction::SDiv: return sb ? (u64)(sa / sb) : 0; case Instruction::SRem: return sb ? (u64)(sa % sb) : 0;
  }
  throw Unsupported{"binary operator"};
}
static Ref scmp(unsigned p, const Ref &a, const Ref &b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return eq(a, b); case CmpInst::ICMP_NE: return bnot(eq(a, b));
    case CmpInst::ICMP_ULT: return ult(a, b); case CmpInst::ICMP_UGT: return ult(b, a);
    case CmpInst::ICMP_ULE: return bnot(ult(b, a)); case CmpInst::ICMP_UGE: return bnot(ult(a, b));
    case CmpInst::ICMP_SLT: return slt(a, b); case CmpInst::ICMP_SGT: return slt(b, a);
    case CmpInst::ICMP_SLE: return bnot(slt(b, a)); case CmpInst::ICMP_SGE: return bnot(slt(a, b));
  }
  throw Unsupported{"comparison"};
}
static bool ccmp(unsigned p, u64 a, u64 b, unsigned w) {
  i64 sa = (i64)(a << (64 - w)) >> (64 - w), sb = (i64)(b << (64 - w)) >> (64 - w);
  switch (p) {
    case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_ULE: return a <= b; case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_SLT: return sa < sb; case CmpInst::ICMP_SGT: return sa > sb; case CmpInst::ICMP_SLE: return sa <= sb; case CmpInst::ICMP_SGE: return sa >= sb;
  }
  throw Unsupported{"comparison"};
}
// all concrete values a symbolic address or length can take: (condition, value)
static void enumerate(const Ref &r, std::vector<std::pair<Ref, u64>> &out, Ref &single, std::vector<u64> &tabv, Ref *whole = nullptr) {
  unsigned bits = 0; std::vector<u32> neg;   // atoms that enter the address complemented
  // work on the set of symbolic bits of the word when it is a plain concatenation, else on the linear atoms
  Ref n = r; std::vector<Ref> at;
  if (n->kind == K_POLY) {
    if (n->prec < n->width) throw Unsupported{"symbolic address with unknown bits"};
    auto ts = n->poly->t; std::stable_sort(ts.begin(), ts.end(), [](const Term &a, const Term &b) { return (a.coef & -a.coef) < (b.coef & -b.coef); });
    for (auto &t : ts) { at.push_back(Ref(byId[(u32)t.key])); if (!(t.key >> 32) && at.back()->width == 1 && (t.coef & maskw(n->width)) >> (n->width - 1)) neg.push_back((u32)t.key); if (t.key >> 32) at.push_back(Ref(byId[t.key >> 32])); }
  } else if (n->kind == K_CONCAT) { for (auto &k : n->kids) if (k->kind != K_CONST) { if (k->kind == K_POLY) throw Unsupported{"symbolic address"}; at.push_back(k); } }
  else at.push_back(n);
  // atoms in the order of their place in the address; a bit and its complement count once
  { std::vector<Ref> u; for (auto &a : at) { bool dup = false; for (auto &b : u) dup = dup || a == b || (a->kind == K_NOT && a->kids[0] == b) || (b->kind == K_NOT && b->kids[0] == a); if (!dup) u.push_back(a); } at.swap(u); }
  for (size_t i = 0; i < at.size(); i++) if (at[i]->kind == K_NOT) { Ref base = at[i]->kids[0]; for (auto &k : n->kids) if (k == base) at[i] = base; }
  for (auto &a : at) bits += a->width;
  if (bits > 12) throw Unsupported{"symbolic address with more than 12 free bits"};
  single = at.size() == 1 ? at[0] : Ref(); if (whole) { std::vector<Ref> wp; for (auto &a : at) wp.push_back(a->width == 1 && std::find(neg.begin(), neg.end(), a->id) != neg.end() ? bnot(a) : a); *whole = wp.size() == 1 ? at[0] : concat(wp); }
  // evaluate by substituting atom values
  for (u64 v = 0; v < (1ULL << bits); v++) {
    if (at.size() == 1 && at[0]->kind == K_WRAP && v > at[0]->val) break;
    Assign as; unsigned o = 0; Ref c = konst(1, 1);
    for (auto &a : at) { u64 x = v >> o & maskw(a->width); o += a->width; if (at.size() > 1 && a->width == 1 && std::find(neg.begin(), neg.end(), a->id) != neg.end()) x ^= 1; if (a->kind == K_VAR) { as.get(a->val); as.v[a->val] = x; as.have[a->val] = 1; } else as.memo[a->id] = x; if (at.size() > 1) c = band(c, eq(a, konst(a->width, x))); }
    u64 val = eval(r, as);
    out.push_back({c, val}); tabv.push_back(val);
  }
}
static std::vector<Ref> symLoad(const Ref &addr, u64 nbytes, unsigned align) {
  if (inImpl) addEvent(EV_ADDR, "memory address depends on data", addr);
  std::vector<std::pair<Ref, u64>> cs; Ref single, whole; std::vector<u64> tv; enumerate(addr, cs, single, tv, &whole);
  if (nbytes > 8) throw Unsupported{"wide load from a symbolic address"};
  bool allc = true; std::vector<u64> data; std::vector<Ref> vals;
  for (auto &c : cs) {
    u64 v; Obj *o = mem.find(c.second);
    bool inb = o && c.second >= o->base && c.second + nbytes <= o->base + o->size;
    if (!inb) {
      Ref cond = single ? eq(single, konst(single->width, data.size())) : c.first;
      std::vector<Ref> pc = pathCond; pc.push_back(cond);
      if (checkSat(pc, true, 20000, nullptr) != R_UNSAT) { auto l = mem.load(c.second, nbytes, align); }
      data.push_back(0); vals.push_back(konst(nbytes * 8, 0)); continue;
    }
    if (mem.loadConc(c.second, nbytes, align, v)) { data.push_back(v); vals.push_back(konst(nbytes * 8, v)); }
    else { allc = false; auto l = mem.load(c.second, nbytes, align); vals.push_back(l.size() == 1 ? l[0] : concat(l)); data.push_back(0); }
  }
  if (allc && single) return {table(data, nbytes * 8, single)};
  if (allc && data.size() == 1ULL << whole->width) return {table(data, nbytes * 8, whole)};
  Ref r = vals[0];
  for (size_t i = 1; i < cs.size(); i++) r = ite(single ? eq(single, konst(single->width, i)) : cs[i].first, vals[i], r);
  return {r};
}
static void symStore(const Ref &addr, const std::vector<Ref> &parts, unsigned align) {
  if (inImpl) addEvent(EV_ADDR, "memory address depends on data", addr);
  std::vector<std::pair<Ref, u64>> cs; Ref single; std::vector<u64> tv; enumerate(addr, cs, single, tv);
  u64 n = 0; for (auto &p : parts) n += p->width; n /= 8; auto by = slices(parts, 8, n);
  for (size_t i = 0; i < cs.size(); i++) {
    Ref c = single ? eq(single, konst(single->width, i)) : cs[i].first;
    Obj *o = mem.find(cs[i].second);
    bool inb = o && cs[i].second >= o->base && cs[i].second + n <= o->base + o->size;
    if (!inb) { std::vector<Ref> pc = pathCond; pc.push_back(c); if (checkSat(pc, true, 20000, nullptr) != R_UNSAT) mem.store(cs[i].second, parts, align); continue; }
    auto old = slices(mem.load(cs[i].second, n, 1), 8, n); std::vector<Ref> nw;
    for (u64 k = 0; k < n; k++) nw.push_back(ite(c, by[k], old[k]));
    mem.store(cs[i].second, nw, align);
  }
}

// ------------------------------------------------------------ AES round (AES-NI intrinsics)
static const std::vector<u64> &aesSbox() {
  static std::vector<u64> S; if (!S.empty()) return S;
  S.resize(256); uint8_t p = 1, q = 1;
  do { p = p ^ (p << 1) ^ (p & 0x80 ? 0x1b : 0); q ^= q << 1; q ^= q << 2; q ^= q << 4; if (q & 0x80) q ^= 0x09;
    auto rl = [](uint8_t x, int k) { return (uint8_t)(x << k | x >> (8 - k)); };
    S[p] = (uint8_t)(q ^ rl(q, 1) ^ rl(q, 2) ^ rl(q, 3) ^ rl(q, 4) ^ 0x63); } while (p != 1);
  S[0] = 0x63; return S;
}
static Ref sub1(const Ref &b) { if (isConst(b)) return konst(8, aesSbox()[b->val]); return table(aesSbox(), 8, b); }
static Ref xtime(const Ref &b) {
  Ref h = bitOf(b, 7), z = konst(1, 0); std::vector<Ref> m{h, h, z, h, h, z, z, z};
  return bxor(shlc(b, 1), concat(m));
}
static std::vector<Ref> aesRound(const std::vector<Ref> &s, const std::vector<Ref> &k, bool last) {
  std::vector<Ref> t(16), o(16);
  for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) t[4 * c + r] = sub1(s[4 * ((c + r) % 4) + r]);
  if (last) { for (int i = 0; i < 16; i++) o[i] = bxor(t[i], k[i]); return o; }
  for (int c = 0; c < 4; c++) {
    Ref *a = &t[4 * c]; Ref all = bxor(bxor(a[0], a[1]), bxor(a[2], a[3]));
    for (int r = 0; r < 4; r++) o[4 * c + r] = bxor(bxor(bxor(a[r], all), xtime(bxor(a[r], a[(r + 1) % 4]))), k[4 * c + r]);
  }
  return o;
}

static Val call(Function *f, const std::vector<Val> &args, const std::string &name);
static std::string cstr(u64 a) { std::string s; u64 v; while (mem.loadConc(a, 1, 1, v) && v) { s += (char)v; a++; } return s; }
static u64 cint(const Val &v, const char *what) { if (!v.conc() && inImpl) addEvent(EV_ADDR, std::string(what) + " depends on data", v.r ? intern(v.r) : Ref()); if (!v.conc()) throw Unsupported{std::string("symbolic ") + what}; return v.c; }

static bool intrinsic(const DInst &x, std::vector<Val> &a, Val &ret) {
  const std::string &n = x.calleeName;
  auto st = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
  if (st("llvm.memcpy") || st("llvm.memmove")) { mem.copy(cint(a[0], "memcpy target"), cint(a[1], "memcpy source"), cint(a[2], "memcpy length")); return true; }
  if (st("llvm.memset")) { u64 p = cint(a[0], "memset target"), k = cint(a[2], "memset length"); if (!k) return true; std::vector<Ref> ps(k, toRef(a[1])); mem.store(p, ps, 1); return true; }
  if (st("llvm.stacksave")) { ret = Val(x.w, 0); return true; }
  if (st("llvm.bswap")) {
    unsigned w = x.w; auto b = regroup(a[0], 8, w / 8); std::reverse(b.begin(), b.end()); ret = fromRef(concat(b)); return true;
  }
  if (st("llvm.fshl") || st("llvm.fshr")) {
    bool left = st("llvm.fshl"); unsigned ew = x.n ? x.ew : x.w, cnt = x.n ? x.n : 1;
    auto p = regroup(a[0], ew, cnt), q = regroup(a[1], ew, cnt), s = regroup(a[2], ew, cnt); std::vector<Ref> o;
    for (unsigned i = 0; i < cnt; i++) { if (!isConst(s[i])) throw Unsupported{"symbolic funnel shift"}; u64 k = s[i]->val % ew; Ref r = left ? (k ? bor(shlc(p[i], k), lshrc(q[i], ew - k)) : p[i]) : (k ? bor(shlc(p[i], ew - k), lshrc(q[i], k)) : q[i]); o.push_back(r); }
    ret = x.n ? fromParts(std::move(o)) : fromRef(o[0]); return true;
  }
  if (st("llvm.umin") || st("llvm.umax") || st("llvm.smin") || st("llvm.smax")) {
    unsigned ew = x.n ? x.ew : x.w, cnt = x.n ? x.n : 1; auto p = regroup(a[0], ew, cnt), q = regroup(a[1], ew, cnt); std::vector<Ref> o;
    for (unsigned i = 0; i < cnt; i++) { Ref c = n[5] == 'u' ? ult(p[i], q[i]) : slt(p[i], q[i]); o.push_back(n.compare(6, 3, "min") == 0 ? ite(c, p[i], q[i]) : ite(c, q[i], p[i])); }
    ret = x.n ? fromParts(std::move(o)) : fromRef(o[0]); return true;
  }
  if (st("llvm.sadd.sat") || st("llvm.uadd.sat") || st("llvm.ssub.sat") || st("llvm.usub.sat")) {
    unsigned ew = x.n ? x.ew : x.w, cnt = x.n ? x.n : 1; bool sg = n[5] == 's', ad = n.compare(6, 3, "add") == 0; if (ew > 63) throw Unsupported{"intrinsic " + n};
    auto p = regroup(a[0], ew, cnt), q = regroup(a[1], ew, cnt); std::vector<Ref> o;
    for (unsigned i = 0; i < cnt; i++) {
      Ref u = sg ? sext(p[i], ew + 1) : zext(p[i], ew + 1), v = sg ? sext(q[i], ew + 1) : zext(q[i], ew + 1), r = ad ? add(u, v) : sub(u, v), lo = extract(r, 0, ew), top = bitOf(r, ew);
      if (!sg) o.push_back(ite(top, konst(ew, ad ? maskw(ew) : 0), lo));
      else o.push_back(ite(bxor(top, bitOf(r, ew - 1)), ite(top, konst(ew, 1ULL << (ew - 1)), konst(ew, maskw(ew - 1))), lo));
    }
    ret = x.n ? fromParts(std::move(o)) : fromRef(o[0]); return true;
  }
  if (st("llvm.expect") || st("llvm.annotation")) { ret = a[0]; return true; }
  if (st("llvm.objectsize")) { ret = Val(x.w, ~0ULL); return true; }
  if (st("llvm.prefetch")) return true;
  if (st("llvm.trap")) throw PathAbort{"trap"};
  if (st("llvm.x86.")) {
    std::string k = n.substr(9);
    auto sh = [&](unsigned ew, int dir) { auto p = regroup(a[0], ew, x.w / ew); u64 c = cint(a[1], "shift count"); for (auto &r : p) r = dir > 0 ? shlc(r, c) : dir == 0 ? lshrc(r, c) : ashrc(r, c > ew - 1 ? ew - 1 : c); ret = fromParts(std::move(p)); };
    auto has = [&](const char *s) { return k.find(s) != std::string::npos; };
    if (has(".pslli.w")) { sh(16, 1); return true; } if (has(".pslli.d")) { sh(32, 1); return true; } if (has(".pslli.q")) { sh(64, 1); return true; }
    if (has(".psrli.w")) { sh(16, 0); return true; } if (has(".psrli.d")) { sh(32, 0); return true; } if (has(".psrli.q")) { sh(64, 0); return true; }
    if (has(".psrai.w")) { sh(16, -1); return true; } if (has(".psrai.d")) { sh(32, -1); return true; }
    if (has(".psllv.") || has(".psrlv.") || has(".psrav.")) {
      unsigned ew = x.ew; auto p = regroup(a[0], ew, x.n), q = regroup(a[1], ew, x.n);
      for (unsigned i = 0; i < x.n; i++) { if (!isConst(q[i])) throw Unsupported{"symbolic vector shift"}; u64 c = q[i]->val; p[i] = has(".psllv.") ? shlc(p[i], c > ew ? ew : c) : has(".psrlv.") ? lshrc(p[i], c > ew ? ew : c) : ashrc(p[i], c > ew - 1 ? ew - 1 : c); }
      ret = fromParts(std::move(p)); return true;
    }
    if (has(".psll.") || has(".psrl.") || has(".psra.")) {
      unsigned ew = x.ew; auto p = regroup(a[0], ew, x.n); auto q = regroup(a[1], 64, 2); if (!isConst(q[0])) throw Unsupported{"symbolic vector shift"}; u64 c = q[0]->val;
      for (auto &r : p) r = has(".psll.") ? shlc(r, c > ew ? ew : c) : has(".psrl.") ? lshrc(r, c > ew ? ew : c) : ashrc(r, c > ew - 1 ? ew - 1 : c);
      ret = fromParts(std::move(p)); return true;
    }
    if (has("pshuf.b")) {
      unsigned nb = x.w / 8; auto p = regroup(a[0], 8, nb), q = regroup(a[1], 8, nb); std::vector<Ref> o;
      for (unsigned i = 0; i < nb; i++) { if (!isConst(q[i])) throw Unsupported{"symbolic byte shuffle"}; u64 c = q[i]->val; o.push_back(c & 0x80 ? konst(8, 0) : p[(i & ~15u) + (c & 15)]); }
      ret = fromParts(std::move(o)); return true;
    }
    if (has("maskstore.d.256") || has("maskstore.d") || has("maskstore.q")) {
      unsigned ew = has(".q") ? 64 : 32; u64 p = cint(a[0], "maskstore target"); auto m = regroup(a[1], ew, a[1].w / ew), v = regroup(a[2], ew, a[2].w / ew);
      for (size_t i = 0; i < m.size(); i++) { Ref s = bitOf(m[i], ew - 1); if (isConst(s)) { if (s->val) mem.store(p + i * ew / 8, {v[i]}, 1); } else { auto old = mem.load(p + i * ew / 8, ew / 8, 1); mem.store(p + i * ew / 8, {ite(s, v[i], old.size() == 1 ? old[0] : concat(old))}, 1); } }
      return true;
    }
    if (has("maskload.d") || has("maskload.q")) {
      unsigned ew = has(".q") ? 64 : 32; u64 p = cint(a[0], "maskload source"); auto m = regroup(a[1], ew, a[1].w / ew); std::vector<Ref> o;
      for (size_t i = 0; i < m.size(); i++) { Ref s = bitOf(m[i], ew - 1); if (isConst(s) && !s->val) { o.push_back(konst(ew, 0)); continue; } auto l = mem.load(p + i * ew / 8, ew / 8, 1); Ref v = l.size() == 1 ? l[0] : concat(l); o.push_back(ite(s, v, konst(ew, 0))); }
      ret = fromParts(std::move(o)); return true;
    }
    if (has("pack")) {
      bool us = has("packus"); unsigned iw = has("dw") ? 32 : 16, ow = iw / 2; unsigned nn = x.w / ow, lanes = x.w / 128, per = 128 / iw;
      auto p = regroup(a[0], iw, x.w / iw), q = regroup(a[1], iw, x.w / iw); std::vector<Ref> o;
      auto sat = [&](const Ref &r) {
        // exact when the value provably fits; saturation otherwise
        Ref lo = extract(r, 0, ow), up = us ? zext(lo, iw) : sext(lo, iw);
        if (up == r) return lo;
        Ref fits = eq(up, r); if (isConst(fits) && fits->val) return lo;
        Ref neg = bitOf(r, iw - 1);
        Ref big = us ? konst(ow, maskw(ow)) : konst(ow, maskw(ow - 1)), small = us ? konst(ow, 0) : konst(ow, 1ULL << (ow - 1));
        return ite(fits, lo, ite(neg, small, big));
      };
      (void)nn;
      for (unsigned l = 0; l < lanes; l++) { for (unsigned i = 0; i < per; i++) o.push_back(sat(p[l * per + i])); for (unsigned i = 0; i < per; i++) o.push_back(sat(q[l * per + i])); }
      ret = fromParts(std::move(o)); return true;
    }
    if (has(".pavg.")) {
      unsigned ew = x.ew; auto p = regroup(a[0], ew, x.n), q = regroup(a[1], ew, x.n);
      for (unsigned i = 0; i < x.n; i++) p[i] = extract(add(add(zext(p[i], ew + 1), zext(q[i], ew + 1)), konst(ew + 1, 1)), 1, ew);
      ret = fromParts(std::move(p)); return true;
    }
    if (has(".pmulh.w") || has(".pmulhu.w")) {
      auto p = regroup(a[0], 16, x.n), q = regroup(a[1], 16, x.n); bool sg = has(".pmulh.w");
      for (unsigned i = 0; i < x.n; i++) p[i] = extract(mul(sg ? sext(p[i], 32) : zext(p[i], 32), sg ? sext(q[i], 32) : zext(q[i], 32)), 16, 16);
      ret = fromParts(std::move(p)); return true;
    }
    if (has("pblendvb")) {
      unsigned nb = x.w / 8; auto p = regroup(a[0], 8, nb), q = regroup(a[1], 8, nb), m = regroup(a[2], 8, nb);
      for (unsigned i = 0; i < nb; i++) p[i] = ite(bitOf(m[i], 7), q[i], p[i]);
      ret = fromParts(std::move(p)); return true;
    }
    if (has("aesni.aesenclast")) { ret = fromParts(aesRound(regroup(a[0], 8, 16), regroup(a[1], 8, 16), true)); return true; }
    if (has("aesni.aesenc")) { ret = fromParts(aesRound(regroup(a[0], 8, 16), regroup(a[1], 8, 16), false)); return true; }
    if (has("aesni.aeskeygenassist")) {
      auto p = regroup(a[0], 8, 16); u64 rc = cint(a[1], "rcon"); std::vector<Ref> o;
      for (int h = 0; h < 2; h++) { int b = h ? 12 : 4; std::vector<Ref> s; for (int i = 0; i < 4; i++) s.push_back(sub1(p[b + i])); for (auto &r : s) o.push_back(r); o.push_back(bxor(s[1], konst(8, rc))); o.push_back(s[2]); o.push_back(s[3]); o.push_back(s[0]); }
      ret = fromParts(std::move(o)); return true;
    }
    if (has("pmadd.wd")) {
      auto p = regroup(a[0], 16, x.w / 16), q = regroup(a[1], 16, x.w / 16); std::vector<Ref> o;
      for (unsigned i = 0; i < x.w / 32; i++) o.push_back(add(mul(sext(p[2 * i], 32), sext(q[2 * i], 32)), mul(sext(p[2 * i + 1], 32), sext(q[2 * i + 1], 32))));
      ret = fromParts(std::move(o)); return true;
    }
    if (has("pmovmskb") || has("movmsk")) {
      unsigned ew = has("movmsk.ps") ? 32 : has("movmsk.pd") ? 64 : 8; auto p = regroup(a[0], ew, a[0].w / ew); std::vector<Ref> o; for (auto &r : p) o.push_back(bitOf(r, ew - 1)); Ref r = concat(o); ret = fromRef(r->width < x.w ? zext(r, x.w) : r); return true;
    }
    if (has("ptest")) {
      // ptestz: (a & b) == 0 ; ptestc: (~a & b) == 0
      auto p = regroup(a[0], 64, a[0].w / 64), q = regroup(a[1], 64, a[1].w / 64); Ref r = konst(1, 1);
      for (size_t i = 0; i < p.size(); i++) r = band(r, eq(band(has("ptestc") ? bnot(p[i]) : p[i], q[i]), konst(64, 0)));
      ret = fromRef(zext(r, x.w)); return true;
    }
    if (has("permd") || has("permps")) { auto p = regroup(a[0], 32, 8), q = regroup(a[1], 32, 8); std::vector<Ref> o; for (auto &i : q) { if (!isConst(i)) throw Unsupported{"symbolic permute"}; o.push_back(p[i->val & 7]); } ret = fromParts(std::move(o)); return true; }
  }
  if (st("llvm.vector.reduce.or") || st("llvm.vector.reduce.xor") || st("llvm.vector.reduce.and") || st("llvm.vector.reduce.add")) {
    unsigned nn = a[0].w / x.w; auto p = regroup(a[0], x.w, nn); Ref r = p[0]; for (unsigned i = 1; i < nn; i++) r = n.find(".or") != std::string::npos ? bor(r, p[i]) : n.find(".xor") != std::string::npos ? bxor(r, p[i]) : n.find(".and.") != std::string::npos ? band(r, p[i]) : add(r, p[i]); ret = fromRef(r); return true;
  }
  if (st("llvm.abs")) { Ref r = toRef(a[0]); ret = fromRef(ite(bitOf(r, x.w - 1), sub(konst(x.w, 0), r), r)); return true; }
  throw Unsupported{"intrinsic " + n};
}

// harness primitives and a few libc functions
static bool builtin(const std::string &n, std::vector<Val> &a, Val &ret, unsigned rw) {
  if (n == "sx_symbolic" || n == "sx_secret") { u64 p = cint(a[0], "pointer"), k = cint(a[1], "length"); std::string nm = cstr(cint(a[2], "name")); std::vector<Ref> ps; for (u64 i = 0; i < k; i++) ps.push_back(symByte(nm, i, n == "sx_secret" ? F_SECRET : 0)); mem.store(p, ps, 1); return true; }
  if (n == "sx_check_eq") {
    u64 p = cint(a[0], "pointer"), q = cint(a[1], "pointer"), k = cint(a[2], "length"); std::string nm = cstr(cint(a[3], "label"));
    bool sv = inImpl; inImpl = false;
    for (u64 i = 0; i < k; i++) obligs.push_back({mem.byteAt(p + i), mem.byteAt(q + i), nm, (u32)i});
    inImpl = sv; return true;
  }
  if (n == "sx_defined") {
    u64 p = cint(a[0], "pointer"), k = cint(a[1], "length"); std::string nm = cstr(cint(a[2], "label"));
    bool sv = inImpl; inImpl = false;
    for (u64 i = 0; i < k; i++) { Ref b = intern(mem.byteAt(p + i)); bool u = flagsOf(b) & (F_UNINIT | F_JUNK); if (u) addEvent(EV_UNINIT, nm + " depends on memory that was never written", b); obligs.push_back({b, u ? newVar(8, "uninit", 0, -1, F_UNINIT) : b, nm, (u32)i}); }
    inImpl = sv; return true;
  }
  if (n == "sx_same") {   // whether two byte strings are the same terms: a way for a harness to find its witness
    u64 p = cint(a[0], "pointer"), q = cint(a[1], "pointer"), k = cint(a[2], "length"); bool eqv = true;
    for (u64 i = 0; i < k && eqv; i++) eqv = intern(mem.byteAt(p + i)) == intern(mem.byteAt(q + i));
    ret = Val(rw ? rw : 32, eqv); return true;
  }
  if (n == "sx_assert") { Ref c = toRef(a[0]); obligs.push_back({zext(bnot(eq(c, konst(c->width, 0))), 8), konst(8, 1), cstr(cint(a[1], "label")), 0}); return true; }
  if (n == "sx_assume") { Ref c = toRef(a[0]); Ref b = bnot(eq(c, konst(c->width, 0))); if (isConst(b)) { if (!b->val) throw PathAbort{"assumption"}; return true; } pathCond.push_back(b); return true; }
  if (n == "sx_alloc") { ret = Val(PW, mem.alloc(cint(a[0], "size"), cint(a[1], "align"), cstr(cint(a[2], "name")))); return true; }
  if (n == "sx_free") { mem.release(cint(a[0], "pointer")); return true; }
  if (n == "sx_readonly") { Obj *o = mem.find(cint(a[0], "pointer")); if (o) o->readonly = cint(a[1], "flag"); return true; }
  if (n == "sx_havoc_globals") { havocGlobals(cint(a[0], "flag")); return true; }
  if (n == "sx_uf") {
    std::string nm = cstr(cint(a[0], "name")); u64 o = cint(a[1], "pointer"), ol = cint(a[2], "length"), in = cint(a[3], "pointer"), il = cint(a[4], "length");
    std::vector<Ref> iv, ov; for (u64 i = 0; i < il; i++) iv.push_back(mem.byteAt(in + i));
    ufApply(nm, iv, ol, ov); if (ol) mem.store(o, ov, 1); return true;
  }
  if (n == "sx_note" || n == "sx_mark" || n == "sx_public") return true;
  if (n == "sx_is_engine") { ret = Val(rw, 1); return true; }
  if (n == "sx_impl") { inImpl = cint(a[0], "flag"); return true; }
  if (n == "sx_show") { u64 p = cint(a[0], "pointer"), k = cint(a[1], "length"); for (u64 i = 0; i < k; i++) { Ref r = mem.byteAt(p + i); fprintf(stderr, "%s[%llu] = %s\n", cstr(cint(a[2], "name")).c_str(), (unsigned long long)i, show(r, 4).c_str()); } return true; }
  if (n == "memcpy" || n == "memmove" || n == "__aeabi_memcpy" || n == "__aeabi_memcpy4" || n == "__aeabi_memcpy8") { mem.copy(cint(a[0], "pointer"), cint(a[1], "pointer"), cint(a[2], "memcpy length")); ret = a[0]; return true; }
  if (n == "memset") { u64 p = cint(a[0], "pointer"), k = cint(a[2], "memset length"); if (k) { std::vector<Ref> ps(k, extract(toRef(a[1]), 0, 8)); mem.store(p, ps, 1); } ret = a[0]; return true; }
  if (n == "memcmp" || n == "bcmp" || n == "CRYPTO_memcmp") {
    u64 p = cint(a[0], "pointer"), q = cint(a[1], "pointer"), k = cint(a[2], "memcmp length"); Ref e = konst(1, 1), res = konst(rw, 0);
    for (u64 i = k; i-- > 0;) { Ref x = mem.byteAt(p + i), y = mem.byteAt(q + i); Ref d = sub(zext(x, rw), zext(y, rw)); res = ite(eq(x, y), res, d); }
    (void)e; if (inImpl && n != "CRYPTO_memcmp" && !isConst(res)) addEvent(EV_BRANCH, "memcmp on data", intern(res));
    ret = fromRef(res); return true;
  }
  if (n == "malloc" || n == "calloc" || n == "aligned_alloc" || n == "_mm_malloc") {
    u64 sz = n == "malloc" ? cint(a[0], "size") : n == "calloc" ? cint(a[0], "size") * cint(a[1], "size") : n == "aligned_alloc" ? cint(a[1], "size") : cint(a[0], "size");
    u64 al = n == "aligned_alloc" ? cint(a[0], "align") : n == "_mm_malloc" ? cint(a[1], "align") : 16;
    u64 p = mem.alloc(sz, al, n); if (n == "calloc") for (u64 i = 0; i < sz; i++) mem.storeConc(p + i, 0, 1, 1); ret = Val(PW, p); return true;
  }
  if (n == "free" || n == "_mm_free") { u64 p = cint(a[0], "pointer"); if (p) { Obj *o = mem.find(p); if (!o || o->base != p) addEvent(EV_OOB, "invalid free"); else mem.release(p); } return true; }
  if (n == "printf" || n == "puts" || n == "fprintf" || n == "putchar") { ret = Val(rw, 0); return true; }
  if (n == "abort" || n == "exit" || n == "__assert_fail") throw PathAbort{n};
  return false;
}

static Val &opnd(const Opnd &o, std::vector<Val> &fr, Val &tmp) {
  if (o.slot >= 0) return fr[o.slot];
  if (o.lazy) { if (!o.lc) throw Unsupported{"operand"}; tmp = constVal(o.lc); return tmp; }
  return const_cast<Val &>(o.cst);
}
static Val runFunc(DFunc *d, const std::vector<Val> &args);
static Val call(Function *f, const std::vector<Val> &args0, const std::string &name) {
  std::vector<Val> args = args0; Val ret; u32 w, ew, n; shape(f->getReturnType(), w, ew, n);
  if (f->isDeclaration()) {
    if (builtin(name, args, ret, w)) return ret;
    if (armHas(name)) { fnExecuted.insert(name); std::string sf = curFn; int sl = curLine; Val r = armCall(name, args); curFn = sf; curLine = sl; if (w && r.w != w) r = fromRef(extract(toRef(r), 0, w)); return r; }
    throw Unsupported{"call to undefined function " + name};
  }
  if (args.size() > f->arg_size()) args.resize(f->arg_size());
  if (++callDepth > 200) throw Unsupported{"recursion depth"};
  DFunc *d = decode(f);
  if (d->impl) fnExecuted.insert(d->name);
  std::string sf = curFn; int sl = curLine; bool si = inImpl;
  if (harnessName(d->name)) inImpl = false; else inImpl = true;
  curFn = d->name;
  ret = runFunc(d, args);
  curFn = sf; curLine = sl; inImpl = si; callDepth--;
  return ret;
}
bool callByName(const std::string &fn, const std::vector<Val> &args, Val &ret) {
  Function *f = M->getFunction("stub_" + fn); if (!f || f->isDeclaration()) f = M->getFunction(fn);
  if (!f) { std::vector<Val> a = args; return builtin(fn, a, ret, PW); }
  if (f->isDeclaration() && armHas(fn)) return false;
  ret = call(f, args, baseName(f->getName())); return true;
}
Val interpRun(Function *f, const std::vector<Val> &args) { callDepth = 0; return call(f, args, baseName(f->getName())); }

static void noteWrite(u64 addr) {
  if (!inImpl) return;
  Obj *o = mem.find(addr); if (o && o->global) globalsWritten.insert(o->name);
}
static Val runFunc(DFunc *d, const std::vector<Val> &args) {
  std::vector<Val> fr(d->nslots); for (size_t i = 0; i < d->args.size() && i < args.size(); i++) fr[d->args[i]] = args[i];
  std::vector<u64> allocas; int cur = 0, prev = -1; Val t0, t1, t2;
  struct Cleanup { std::vector<u64> &a; ~Cleanup() { for (u64 p : a) mem.release(p); } } cl{allocas};
  for (;;) {
    DBlock &b = d->blocks[cur];
    if (!b.phis.empty()) {
      std::vector<Val> nv; for (auto &p : b.phis) { Val t; nv.push_back(opnd(p.in[prev], fr, t)); }
      for (size_t i = 0; i < b.phis.size(); i++) fr[b.phis[i].dst] = nv[i];
    }
    int next = -1;
    for (auto &x : b.ins) {
      instrCount++; if (x.line) curLine = x.line;
      switch (x.op) {
        case Instruction::Br:
          if (x.ops.empty()) next = x.targets[0];
          else { Val &c = opnd(x.ops[0], fr, t0); if (inImpl) implBranches++; bool v = c.conc() ? c.c : decide(c.r, "branch"); next = x.targets[v ? 0 : 1]; }
          break;
        case Instruction::Switch: {
          Val &c = opnd(x.ops[0], fr, t0); next = x.targets[0];
          if (c.conc()) { for (size_t i = 0; i < x.scales.size(); i++) if (x.scales[i] == c.c) next = x.targets[i + 1]; }
          else for (size_t i = 0; i < x.scales.size(); i++) if (decide(eq(c.r, konst(c.w, x.scales[i])), "switch")) { next = x.targets[i + 1]; break; }
          break;
        }
        case Instruction::Ret: { if (x.ops.empty()) return Val(); return opnd(x.ops[0], fr, t0); }
        case Instruction::Unreachable: addEvent(EV_UNREACHABLE, "unreachable executed"); throw PathAbort{"unreachable"};
        case Instruction::Alloca: {
          u64 n = cint(opnd(x.ops[0], fr, t0), "alloca size"); std::string nm = x.I->hasName() ? x.I->getName().str() : std::string("local");
          u64 a = mem.alloc(x.imm * n, x.align, d->name + ":" + nm); allocas.push_back(a); fr[x.dst] = Val(PW, a); break;
        }
        case Instruction::Load: {
          Val &p = opnd(x.ops[0], fr, t0);
          if (x.w == 0xffffffff) throw Unsupported{"aggregate load"};
          unsigned nb = (x.w + 7) / 8;
          if (!p.conc()) { auto l = symLoad(p.r, nb, x.align); Val v = x.n ? fromParts(std::move(l)) : fromRef(extract(l[0], 0, x.w)); fr[x.dst] = v; break; }
          u64 v;
          if (!x.n && mem.loadConc(p.c, nb, x.align, v)) { fr[x.dst] = Val(x.w, v); break; }
          auto l = mem.load(p.c, nb, x.align);
          if (x.n) fr[x.dst] = fromParts(std::move(l));
          else { Ref r = l.size() == 1 ? l[0] : concat(l); if (r->width > x.w) r = extract(r, 0, x.w); fr[x.dst] = fromRef(r); }
          break;
        }
        case Instruction::Store: {
          Val &v = opnd(x.ops[0], fr, t0); Val &p = opnd(x.ops[1], fr, t1);
          if (x.ow == 0xffffffff) throw Unsupported{"aggregate store"};
          if (p.conc() && v.conc() && !x.on) { noteWrite(p.c); mem.storeConc(p.c, v.c, (x.ow + 7) / 8, x.align); break; }
          std::vector<Ref> ps;
          if (x.on) { ps = regroup(v, x.oew, x.on); for (auto &r : ps) if (!isConst(r)) r = storeNorm(r); if (x.oew % 8) throw Unsupported{"vector of bits stored"}; }
          else { Ref r = toRef(v); if (r->width % 8) r = zext(r, (r->width + 7) / 8 * 8); ps.push_back(isConst(r) ? r : storeNorm(r)); }
          if (p.conc()) { noteWrite(p.c); mem.store(p.c, ps, x.align); } else symStore(p.r, ps, x.align);
          break;
        }
        case Instruction::GetElementPtr: {
          if (x.n) throw Unsupported{"vector gep"};
          Val &p = opnd(x.ops[0], fr, t0); bool sym = !p.conc(); u64 a = p.c + x.imm;
          for (size_t i = 0; i < x.scales.size() && !sym; i++) {
            Val &ix = opnd(x.ops[i + 1], fr, t1); if (!ix.conc()) { sym = true; break; }
            i64 s = (i64)(ix.c << (64 - ix.w)) >> (64 - ix.w); a += x.scales[i] * (u64)s;
          }
          if (!sym) { fr[x.dst] = Val(PW, a); break; }
          Ref r = add(toRef(p), konst(PW, x.imm));
          for (size_t i = 0; i < x.scales.size(); i++) { Val &ix = opnd(x.ops[i + 1], fr, t1); Ref q = toRef(ix); q = q->width < PW ? sext(q, PW) : extract(q, 0, PW); r = add(r, mul(q, konst(PW, x.scales[i]))); }
          fr[x.dst] = fromRef(r); break;
        }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
          Val &p = opnd(x.ops[0], fr, t0); Val &q = opnd(x.ops[1], fr, t1);
          if (x.n) {
            std::vector<Ref> A, B;
            if (x.op == Instruction::And || x.op == Instruction::Or || x.op == Instruction::Xor) {
              // bitwise: follow the finer of the two part layouts when they agree, else the element type
              if (p.v && q.v && p.v->size() == q.v->size()) { bool same = true; for (size_t i = 0; i < p.v->size(); i++) if ((*p.v)[i]->width != (*q.v)[i]->width) { same = false; break; } if (same) { A = *p.v; B = *q.v; } }
              if (A.empty()) {
                std::vector<unsigned> cs; unsigned o = 0; for (auto &r : *p.v) { o += r->width; cs.push_back(o); } o = 0; for (auto &r : *q.v) { o += r->width; cs.push_back(o); }
                std::sort(cs.begin(), cs.end()); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
                auto cut = [&](const std::vector<Ref> &P) { std::vector<Ref> out; size_t i = 0; unsigned o = 0, base = 0, pos = 0; for (unsigned c : cs) { unsigned len = c - pos; out.push_back(o == 0 && len == P[i]->width ? P[i] : extract(P[i], o, len)); pos = c; o = pos - base; if (o == P[i]->width) { base = pos; o = 0; i++; } } return out; };
                A = cut(*p.v); B = cut(*q.v);
              }
            } else { A = regroup(p, x.ew, x.n); B = regroup(q, x.ew, x.n); }
            std::vector<Ref> o; o.reserve(A.size()); for (size_t i = 0; i < A.size(); i++) o.push_back(sop(x.op, A[i], B[i]));
            fr[x.dst] = fromParts(std::move(o)); break;
          }
          if (p.conc() && q.conc()) {
            if ((x.op == Instruction::UDiv || x.op == Instruction::SDiv || x.op == Instruction::URem || x.op == Instruction::SRem) && !q.c) addEvent(EV_DIV, "division by zero");
            fr[x.dst] = Val(x.w, cop(x.op, p.c, q.c, x.w)); break;
          }
          fr[x.dst] = fromRef(sop(x.op, toRef(p), toRef(q))); break;
        }
        case Instruction::ICmp: {
          Val &p = opnd(x.ops[0], fr, t0); Val &q = opnd(x.ops[1], fr, t1);
          if (x.n) { auto A = regroup(p, x.oew, x.on), B = regroup(q, x.oew, x.on); std::vector<Ref> o; for (u32 i = 0; i < x.n; i++) o.push_back(scmp(x.imm, A[i], B[i])); fr[x.dst] = fromParts(std::move(o)); break; }
          if (p.conc() && q.conc()) { fr[x.dst] = Val(1, ccmp(x.imm, p.c, q.c, p.w)); break; }
          fr[x.dst] = fromRef(scmp(x.imm, toRef(p), toRef(q))); break;
        }
        case Instruction::Select: {
          Val &c = opnd(x.ops[0], fr, t0); Val &p = opnd(x.ops[1], fr, t1); Val &q = opnd(x.ops[2], fr, t2);
          if (c.v) { auto C = regroup(c, 1, x.n), A = regroup(p, x.ew, x.n), B = regroup(q, x.ew, x.n); std::vector<Ref> o; for (u32 i = 0; i < x.n; i++) o.push_back(ite(C[i], A[i], B[i])); fr[x.dst] = fromParts(std::move(o)); break; }
          if (c.conc()) { fr[x.dst] = c.c ? p : q; break; }
          if (x.n) { auto A = regroup(p, x.ew, x.n), B = regroup(q, x.ew, x.n); std::vector<Ref> o; for (u32 i = 0; i < x.n; i++) o.push_back(ite(c.r, A[i], B[i])); fr[x.dst] = fromParts(std::move(o)); break; }
          if (inImpl) bothWays(c.r, "select");
          if (p.w == PW && p.conc() && q.conc() && (mem.find(p.c) || mem.find(q.c))) { bool v = decide(c.r, "pointer select"); fr[x.dst] = v ? p : q; break; }
          fr[x.dst] = fromRef(ite(c.r, toRef(p), toRef(q))); break;
        }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
          Val &p = opnd(x.ops[0], fr, t0);
          if (x.n) { auto A = regroup(p, x.oew, x.n); for (auto &r : A) r = x.op == Instruction::Trunc ? trunc(r, x.ew) : x.op == Instruction::ZExt ? zext(r, x.ew) : sext(r, x.ew); fr[x.dst] = fromParts(std::move(A)); break; }
          if (x.w > 64) throw Unsupported{"integer wider than 64 bits"};
          if (p.conc()) { u64 v = p.c; if (x.op == Instruction::SExt && p.w < 64 && (v >> (p.w - 1) & 1)) v |= ~maskw(p.w); fr[x.dst] = Val(x.w, v); break; }
          fr[x.dst] = fromRef(x.op == Instruction::Trunc ? trunc(p.r, x.w) : x.op == Instruction::ZExt ? zext(p.r, x.w) : sext(p.r, x.w)); break;
        }
        case Instruction::BitCast: {
          Val &p = opnd(x.ops[0], fr, t0);
          if (x.n && !p.v) fr[x.dst] = fromParts({toRef(p)});
          else if (!x.n && p.v) { auto A = regroup(p, x.w, 1); fr[x.dst] = fromRef(A[0]); }
          else fr[x.dst] = p;
          break;
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
          Val &p = opnd(x.ops[0], fr, t0); if (p.conc()) fr[x.dst] = Val(x.w, p.c); else fr[x.dst] = fromRef(x.w < p.w ? trunc(p.r, x.w) : zext(p.r, x.w)); break;
        }
        case Instruction::Freeze: fr[x.dst] = opnd(x.ops[0], fr, t0); break;
        case Instruction::ExtractElement: {
          Val &p = opnd(x.ops[0], fr, t0); auto A = regroup(p, x.oew, x.on); u64 i = cint(opnd(x.ops[1], fr, t1), "element index"); fr[x.dst] = fromRef(A.at(i)); break;
        }
        case Instruction::InsertElement: {
          Val &p = opnd(x.ops[0], fr, t0); std::vector<Ref> A;
          if (x.ops[0].lazy) { for (u32 i = 0; i < x.n; i++) A.push_back(konst(x.ew, 0)); } else A = regroup(p, x.ew, x.n);
          u64 i = cint(opnd(x.ops[2], fr, t2), "element index"); A.at(i) = toRef(opnd(x.ops[1], fr, t1)); fr[x.dst] = fromParts(std::move(A)); break;
        }
        case Instruction::ShuffleVector: {
          Val &p = opnd(x.ops[0], fr, t0); auto A = regroup(p, x.oew, x.on); std::vector<Ref> B;
          bool needB = false; for (int m : x.mask) if (m >= (int)x.on) needB = true;
          if (needB) { Val &q = opnd(x.ops[1], fr, t1); B = regroup(q, x.oew, x.on); }
          std::vector<Ref> o; for (int m : x.mask) o.push_back(m < 0 ? konst(x.ew, 0) : m < (int)x.on ? A[m] : B[m - x.on]);
          fr[x.dst] = fromParts(std::move(o)); break;
        }
        case Instruction::Call: {
          if (x.builtin == BI_IGNORE) break;
          std::vector<Val> a; size_t na = x.ops.size();
          if (x.calleeName == "*") {
            na--; Val &f = opnd(x.ops[na], fr, t0); u64 fa = cint(f, "function pointer"); auto it = faddr.find(fa); if (it == faddr.end()) throw Unsupported{"indirect call"};
            for (size_t i = 0; i < na; i++) a.push_back(opnd(x.ops[i], fr, t0));
            Val r = call(it->second, a, baseName(it->second->getName())); if (x.dst >= 0) fr[x.dst] = r; break;
          }
          if (x.calleeName == "asm") throw Unsupported{"inline assembly"};
          for (size_t i = 0; i < na; i++) { if (x.callee && x.callee->isIntrinsic() && x.ops[i].lazy && !x.ops[i].lc) { a.emplace_back(); continue; } a.push_back(opnd(x.ops[i], fr, t0)); }
          Val r;
          if (x.callee && x.callee->isIntrinsic()) { if (inImpl && !a.empty() && x.calleeName.compare(0, 8, "llvm.mem") == 0 && a[0].conc()) noteWrite(a[0].c); intrinsic(x, a, r); }
          else r = call(x.callee, a, x.calleeName);
          if (x.dst >= 0) fr[x.dst] = r; break;
        }
        default: throw Unsupported{std::string("instruction ") + x.I->getOpcodeName()};
      }
    }
    prev = cur; cur = next;
    if (cur < 0) throw Unsupported{"block without terminator"};
  }
}
}
