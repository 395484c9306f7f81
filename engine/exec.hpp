// Shared execution state: values, memory, paths, obligations, uninterpreted functions.
#pragma once
#include "expr.hpp"
#include <set>
#include <array>
namespace sx {
// ------------------------------------------------------------ values
struct Val {
  u32 w = 0; u64 c = 0; Ref r; std::shared_ptr<std::vector<Ref>> v;
  Val() {}
  Val(u32 w_, u64 c_) : w(w_), c(c_ & maskw(w_)) {}
  bool conc() const { return !r && !v; }
};
inline Val fromRef(const Ref &r) { Val x; x.w = r->width; if (isConst(r)) x.c = r->val; else x.r = r; return x; }
inline Ref toRef(const Val &v) { return v.r ? v.r : konst(v.w, v.c); }
Val fromParts(std::vector<Ref> &&p);
std::vector<Ref> regroup(const Val &v, unsigned ew, unsigned n);
std::vector<Ref> slices(const std::vector<Ref> &parts, unsigned ew, unsigned n);

// ------------------------------------------------------------ events
enum EvKind { EV_OOB, EV_ALIGN, EV_READONLY, EV_UNINIT, EV_BRANCH, EV_ADDR, EV_UNSUPPORTED, EV_NULL, EV_UNREACHABLE, EV_DIV };
struct Event { EvKind kind; std::string fn; int line; std::string msg; Ref cond; };
extern std::vector<Event> events;
void addEvent(EvKind k, const std::string &msg, const Ref &cond = Ref());
extern std::string curFn; extern int curLine;
extern unsigned long long traceHash;        // instructions executed and addresses used by assembly
extern unsigned minAlign;
extern bool inImpl;                       // executing implementation code (not spec/harness)

struct PathAbort { std::string why; };
struct Unsupported { std::string why; };

// ------------------------------------------------------------ memory
struct Obj {
  u64 base = 0, size = 0; bool live = true, readonly = false, global = false, isConstGlobal = false, external = false; std::string name;
  std::vector<uint8_t> data, st, off;     // st: 0 uninitialised, 1 concrete, 2 symbolic
  std::vector<Ref> sym;
  void ensureSym() { if (sym.empty()) { sym.resize(size); off.resize(size); } }
};
struct Memory {
  unsigned shift = 32;                    // object index = addr >> shift
  std::vector<std::unique_ptr<Obj>> objs; std::vector<u32> freeList;
  u64 alloc(u64 size, u64 align, const std::string &name);
  void release(u64 base);
  Obj *find(u64 addr);
  bool access(u64 addr, u64 n, bool write, unsigned align, Obj *&o, u64 &o0);
  std::vector<Ref> load(u64 addr, u64 nbytes, unsigned align, bool norm = true);
  void store(u64 addr, const std::vector<Ref> &parts, unsigned align);
  void storeConc(u64 addr, u64 v, unsigned nbytes, unsigned align);
  bool loadConc(u64 addr, unsigned nbytes, unsigned align, u64 &v);
  void copy(u64 dst, u64 src, u64 n);
  Ref byteAt(u64 addr);
  void reset() { objs.clear(); freeList.clear(); }
};
extern Memory mem;

// ------------------------------------------------------------ paths
extern std::vector<Ref> pathCond;
extern u64 implBranches; void bothWays(const Ref &cond, const char *what);   // records an event when the condition can go either way
bool decide(const Ref &cond, const char *what);     // concrete truth value taken on this path

// ------------------------------------------------------------ obligations, UFs
struct Oblig { Ref a, b; std::string label; u32 index; };
extern std::vector<Oblig> obligs;
struct UfApp { std::string name; std::vector<Ref> in, out; std::vector<u64> sig; std::string who; };
extern std::vector<UfApp> ufApps;
void ufApply(const std::string &name, std::vector<Ref> in, u64 outlen, std::vector<Ref> &out);
extern bool concreteMode; extern u64 concreteSeed; extern std::map<std::string, std::vector<uint8_t>> concreteIn;   // replay: inputs are constants
Ref symByte(const std::string &name, u32 idx, uint8_t flags);

// ------------------------------------------------------------ arm
struct ArmImage;
bool armHas(const std::string &fn);
Val armCall(const std::string &fn, const std::vector<Val> &args);
void armLoad(const std::string &elf);
void armInitMemory();
bool callByName(const std::string &fn, const std::vector<Val> &args, Val &ret);   // IR functions, from ARM code
}
