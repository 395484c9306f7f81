// Driver: loads bitcode (and ARM ELF objects), explores the harness, discharges the obligations, writes a JSON report.
#include "interp.hpp"
#include "solver.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/Instructions.h>
#include <chrono>
#include <pthread.h>
#include <unistd.h>
#include <sys/resource.h>
using namespace sx;
namespace sx {
// ------------------------------------------------------------ path exploration
static u64 rnd(u64 &s) { s += 0x9e3779b97f4a7c15ULL; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
struct Dec { bool v, both; };
static std::vector<Dec> prefix; static size_t pos;
u64 implBranches; bool ctStop = false;
struct CtStop {};
// random inputs that keep to the path so far and go both ways
static bool seenBoth(const Ref &c) {
  bool t = false, f = false;
  for (int r = 0; r < 12 && !(t && f); r++) {
    Assign a; u64 s0 = 331 + r; a.dflt = [s0](u32 v) { u64 s = s0 * 0x51ed27 + v; return rnd(s); };
    bool ok = true; for (auto &p : pathCond) if (!eval(p, a)) { ok = false; break; }
    if (ok) (eval(c, a) ? t : f) = true;
  }
  return t && f;
}
bool decide(const Ref &c0, const char *what) {
  Ref c = intern(c0); if (isConst(c)) return c->val;
  for (size_t i = pathCond.size(); i-- > 0 && pathCond.size() - i < 64;) { if (pathCond[i] == c) return true; if (pathCond[i] == intern(bnot(c))) return false; }
  bool v;
  if (pos < prefix.size()) v = prefix[pos].v;
  else {
    std::vector<Ref> t = pathCond; t.push_back(c);
    std::vector<Ref> f = pathCond; f.push_back(bnot(c));
    bool sb = seenBoth(c), ft = sb || checkSat(t, true, 20000, nullptr) != R_UNSAT, ff = sb || checkSat(f, true, 20000, nullptr) != R_UNSAT;
    if (!ft && !ff) throw PathAbort{"infeasible"};
    v = ft; prefix.push_back({v, ft && ff}); if (inImpl && ft && ff) { addEvent(EV_BRANCH, std::string(what) + " on data", c); if (ctStop && flagsOf(c) & F_SECRET) throw CtStop{}; }
  }
  pos++;
  pathCond.push_back(v ? c : bnot(c));
  return v;
}
void bothWays(const Ref &c0, const char *what) {
  Ref c = intern(c0); if (isConst(c)) return;
  if (!seenBoth(c)) {
  std::vector<Ref> t = pathCond; t.push_back(c); if (checkSat(t, true, 20000, nullptr) == R_UNSAT) return;
  t.back() = bnot(c); if (checkSat(t, true, 20000, nullptr) == R_UNSAT) return;
  }
  addEvent(EV_BRANCH, std::string(what) + " on data", c);
}
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static const char *evName[] = {"oob", "align", "readonly", "uninit", "branch", "addr", "unsupported", "null", "unreachable", "div"};

static std::vector<std::string> bcs, elfs; static std::string outFile, entry = "harness", emitBc; static unsigned maxPaths = 64; static double budget = 600; static bool doSweep = true, sweepFirst = false; static std::set<std::string> written;
static int verbose = 0, concreteModel = 0; static std::string concreteFile;

static std::string hexOf(const std::vector<Ref> &v, Assign &a) { std::string s; char b[3]; for (auto &r : v) { snprintf(b, 3, "%02x", (unsigned)eval(r, a)); s += b; } return s; }
// a complete concrete candidate: named inputs and the uninterpreted applications in order
static std::string dumpModel(Assign &a) {
  std::map<std::string, std::map<u32, u64>> bufs;
  for (u32 i = 0; i < vars.size(); i++) if (vars[i].ufapp < 0 && !(vars[i].flags & (F_JUNK | F_UNINIT))) bufs[vars[i].name][vars[i].index] = a.get(i);
  std::string s = "{\"bufs\":{"; bool first = true;
  for (auto &b : bufs) { if (!first) s += ","; first = false; s += "\"" + esc(b.first) + "\":\""; u32 k = 0; char t[3]; for (auto &x : b.second) { while (k < x.first) { s += "00"; k++; } snprintf(t, 3, "%02x", (unsigned)x.second); s += t; k++; } s += "\""; }
  s += "},\"ufs\":["; first = true;
  for (auto &u : ufApps) { if (!first) s += ","; first = false; s += "[\"" + u.name + "\",\"" + hexOf(u.in, a) + "\",\"" + hexOf(u.out, a) + "\"]"; }
  return s + "]}";
}
static int appMain() {
  double t0 = now();
  llvm::LLVMContext ctx; llvm::SMDiagnostic err; std::unique_ptr<llvm::Module> mod;
  for (auto &b : bcs) {
    auto m = llvm::parseIRFile(b, err, ctx); if (!m) { fprintf(stderr, "cannot read %s: %s\n", b.c_str(), err.getMessage().str().c_str()); return 2; }
    if (!mod) mod = std::move(m); else if (llvm::Linker::linkModules(*mod, std::move(m))) { fprintf(stderr, "link error %s\n", b.c_str()); return 2; }
  }
  if (!emitBc.empty()) {   // redirect X -> stub_X for a native build of the stubbed program
    for (auto &f : *mod) {
      std::string nm = f.getName().str(); if (nm.compare(0, 5, "stub_") != 0 || f.isDeclaration()) continue;
      std::string x = nm.substr(5);
      for (auto &g : *mod) {
        std::string gn = g.getName().str(); size_t p = gn.find_last_of('.'); std::string base = gn;
        if (p != std::string::npos && p + 1 < gn.size() && gn.find_first_not_of("0123456789", p + 1) == std::string::npos) base = gn.substr(0, p);
        if (base != x) continue;
        std::vector<llvm::CallInst *> cs;
        for (auto *u : g.users()) if (auto *c = llvm::dyn_cast<llvm::CallInst>(u)) if (c->getCalledOperand() == &g && c->getFunction()->getName().str().compare(0, 5, "stub_") != 0) cs.push_back(c);
        for (auto *c : cs) c->setCalledOperand(&f);
      }
    }
    std::error_code ec; llvm::raw_fd_ostream os(emitBc, ec); llvm::WriteBitcodeToFile(*mod, os); return 0;
  }
  for (auto &e : elfs) armLoad(e);
  interpLoad(mod.get());
  knownWritten = written;
  llvm::Function *f = mod->getFunction(entry); if (!f) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  if (concreteMode) {
    FILE *cf = concreteFile == "-" ? nullptr : fopen(concreteFile.c_str(), "r"); char *line = nullptr; size_t cap = 0; int mi = -1;
    while (cf && getline(&line, &cap, cf) > 0) {
      std::string l = line; while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
      if (l == "model") mi++;
      if (mi == concreteModel && l.compare(0, 4, "set ") == 0) { size_t q = l.find(' ', 4); if (q == std::string::npos) continue; auto &v = concreteIn[l.substr(4, q - 4)]; for (size_t k = q + 1; k + 1 < l.size(); k += 2) v.push_back(strtoul(l.substr(k, 2).c_str(), nullptr, 16)); }
    }
    if (cf) fclose(cf);
    interpInitMemory(); int hit = 0;
    try { interpRun(f, {}); } catch (PathAbort &a) { if (a.why == "assumption") { printf("assumption not met\n"); return 0; } printf("stopped: %s\n", a.why.c_str()); } catch (Unsupported &u) { printf("unsupported: %s in %s line %d\n", u.why.c_str(), curFn.c_str(), curLine); return 2; }
    for (auto &o : obligs) { Ref a = intern(o.a), b = intern(o.b); if (a != b && (isConst(a) || isConst(b)) && hit++ == 0) printf("REPRODUCED by running the assembled code in the interpreter: %s[%u] is %s, specification says %s\n", o.label.c_str(), o.index, show(a, 1).c_str(), show(b, 1).c_str()); }
    printf("TRACE %016llx\n", traceHash);
    for (auto &e : events) printf("EVENT %s %s+%d %s\n", evName[e.kind], e.fn.c_str(), e.line, e.msg.c_str());
    return hit ? 3 : 0;
  }
  u64 paths = 0, total = 0, identical = 0, proved = 0, deep = 0, swept = 0, simRefuted = 0; std::vector<std::string> incomplete, unresolved, models; u64 unresolvedCount = 0, aborted = 0; bool reach = false;
  std::set<std::string> ufNames; std::map<std::string, u64> labels; double execT = 0;
  std::string ufShapes;
  for (;;) {
    double tp = now(); pos = 0; pathCond.clear(); obligs.clear(); ufApps.clear(); inImpl = false; curFn = entry;
    bool ok = true;
    try { interpInitMemory(); interpRun(f, {}); reach = true; }
    catch (PathAbort &a) { if (a.why == "infeasible" || a.why == "assumption") ok = false; else { aborted++; } }
    catch (Unsupported &u) { ok = true; char b[100]; snprintf(b, 100, " (in %s line %d)", curFn.c_str(), curLine); incomplete.push_back(u.why + b); }
    catch (CtStop &) { ok = false; maxPaths = 0; incomplete.push_back("stopped at the first branch on data"); }
    catch (std::out_of_range &) { incomplete.push_back("out of range in " + curFn); }
    execT += now() - tp; paths++;
    if (verbose) fprintf(stderr, "path %llu: exec %.1fs, %llu instr, %zu obligations, %llu nodes, %llu polyops\n", (unsigned long long)paths, now() - tp, (unsigned long long)instrCount, obligs.size(), (unsigned long long)statInterned, (unsigned long long)statPolyOps);
    if (ok && !obligs.empty()) {
      total += obligs.size();
      std::vector<std::pair<Ref, Ref>> same, diff; std::vector<size_t> di;
      for (size_t i = 0; i < obligs.size(); i++) { auto &o = obligs[i]; labels[o.label]++; o.a = intern(o.a); o.b = intern(o.b); if (o.a == o.b) same.push_back({o.a, o.b}); else { diff.push_back({o.a, o.b}); di.push_back(i); } }
      if (verbose > 2 && !diff.empty()) {
        Ref x = diff[0].first, y = diff[0].second;
        if (x->kind == K_POLY && y->kind == K_POLY) {
          u64 c1, c2; auto A = canonTerms(x.p, x->width, c1), B = canonTerms(y.p, y->width, c2); std::map<u64, std::pair<u64, u64>> d; for (auto &t : A) d[t.key].first = t.coef; for (auto &t : B) d[t.key].second = t.coef;
          int k = 0; for (auto &e : d) if (e.second.first != e.second.second && k++ < 60) fprintf(stderr, "%llu/%llu * %s * %s\n", (unsigned long long)e.second.first, (unsigned long long)e.second.second, show(Ref(byId[(u32)e.first]), 2).c_str(), e.first >> 32 ? show(Ref(byId[e.first >> 32]), 2).c_str() : "");
          fprintf(stderr, "%d differing terms, constants %llu %llu\n", k, (unsigned long long)c1, (unsigned long long)c2);
        }
      }
      identical += same.size();
      if (!same.empty() && checkDiffer(same, pathCond, false, 60000, nullptr) != R_UNSAT) incomplete.push_back("solver rejected identical obligations");
      if (!diff.empty()) {
        std::vector<char> st(diff.size(), 0);   // 1 proved, 2 refuted by a concrete candidate
        std::vector<std::unique_ptr<Assign>> cands;
        // a refutation by simulation is only a candidate: the native replay decides
        auto simulate = [&](Assign &a) {
          bool pc = true; for (auto &c : pathCond) if (!eval(c, a)) { pc = false; break; }
          if (!pc) return false; bool hit = false;
          for (size_t i = 0; i < diff.size(); i++) if (st[i] != 1 && eval(diff[i].first, a) != eval(diff[i].second, a)) { st[i] = 2; hit = true; }
          return hit;
        };
        for (int r = 0; r < 4; r++) { auto a = std::make_unique<Assign>(); u64 s0 = 77 + r; a->dflt = [s0](u32 v) { u64 s = s0 * 0x51ed27 + v; return rnd(s); }; if (simulate(*a)) cands.push_back(std::move(a)); }
        auto rest = [&]() { std::vector<std::pair<Ref, Ref>> v; for (size_t i = 0; i < diff.size(); i++) if (st[i] == 0) v.push_back(diff[i]); return v; };
        auto markAll = [&]() { for (auto &s : st) if (s == 0) s = 1; };
        u64 sats0 = 0; if (sweepFirst && !rest().empty()) { auto v = rest(); if (sweepEqual(v, pathCond, std::max(10.0, budget - (now() - t0)), sats0)) { swept += v.size(); markAll(); } }
        else if (!rest().empty()) {
          // one obligation at a time first; in growing groups while that succeeds; given up after a few failures
          auto tryOne = [&](size_t i) {
            std::vector<std::pair<Ref, Ref>> one{diff[i]};
            if (checkDiffer(one, pathCond, false, 3000, nullptr) == R_UNSAT || checkDiffer(one, pathCond, true, 8000, nullptr) == R_UNSAT) { proved++; return true; }
            bool all = true; for (unsigned b = 0; b < diff[i].first->width && all; b++) { Ref x = bitOf(diff[i].first, b), y = bitOf(diff[i].second, b); if (x != y && !deepEqualBit(x, y, 300000)) all = false; }
            if (all) deep++;
            return all;
          };
          std::vector<size_t> todo; for (size_t i = 0; i < diff.size(); i++) if (st[i] == 0) todo.push_back(i);
          size_t group = 1, p = 0; int fails = 0;
          while (p < todo.size() && now() - t0 < budget && fails < 6) {
            size_t g = std::min(group, todo.size() - p);
            if (g > 1) {
              std::vector<std::pair<Ref, Ref>> v; for (size_t k = 0; k < g; k++) v.push_back(diff[todo[p + k]]);
              if (checkDiffer(v, pathCond, false, 10000, nullptr) == R_UNSAT || checkDiffer(v, pathCond, true, 20000, nullptr) == R_UNSAT) { for (size_t k = 0; k < g; k++) st[todo[p + k]] = 1; proved += g; p += g; group = std::min<size_t>(group * 2, 256); continue; }
              group = 1; g = 1;
            }
            u64 pz = proved;
            if (tryOne(todo[p])) { st[todo[p]] = 1; if (proved > pz) group = 4; } else fails++;
            p++;
          }
        }
        if (doSweep && !sweepFirst && !rest().empty()) { u64 sats = 0; auto v = rest(); if (sweepEqual(v, pathCond, std::max(10.0, std::min(300.0, budget - (now() - t0))), sats)) { swept += v.size(); markAll(); } }
        if (!rest().empty()) {   // solver candidates, one per group of remaining obligations
          auto v = rest(); size_t step = std::max<size_t>(1, v.size() / 4);
          for (size_t i = 0; i < v.size() && cands.size() < 8 && (i == 0 || now() - t0 < budget); i += step) {
            std::vector<std::pair<Ref, Ref>> one(v.begin() + i, v.begin() + std::min(v.size(), i + step));
            auto a = std::make_unique<Assign>(); u64 s0 = 900 + i; a->dflt = [s0](u32 x) { u64 s = s0 * 0x51ed27 + x; return rnd(s); };
            Res r = checkDiffer(one, pathCond, true, 60000, a.get());
            if (r == R_UNSAT) for (auto &d : one) for (size_t k = 0; k < diff.size(); k++) if (st[k] == 0 && diff[k] == d) { st[k] = 1; proved++; }
            if (r == R_SAT) { simulate(*a); cands.push_back(std::move(a)); }
          }
        }
        for (size_t i = 0; i < diff.size(); i++) {
          if (st[i] == 2) simRefuted++;
          if (st[i] != 1 && verbose > 2 && unresolvedCount < 1) {      // follow differing applications down to the first argument that differs
            Ref a = diff[i].first, b = diff[i].second;
            if (getenv("SX_UF")) { unsigned u = 0, v = 0; sscanf(getenv("SX_UF"), "%u,%u", &u, &v); auto &U = ufApps[u], &V = ufApps[v]; for (size_t k = 0; k < U.in.size() && k < V.in.size(); k++) if (U.in[k] != V.in[k]) { fprintf(stderr, "uf byte %zu: %s\n  | %s\n", k, show(U.in[k], 7).substr(0, 1500).c_str(), show(V.in[k], 7).substr(0, 1500).c_str()); break; } }
            for (int lvl = 0; lvl < 40 && a && b; lvl++) {
              std::string x = show(a, 6), y = show(b, 6); fprintf(stderr, " at %s | %s\n", x.substr(0, 300).c_str(), y.substr(0, 300).c_str());
              unsigned u = 0, v = 0; size_t p = x.find('#'), q = y.find('#'); if (p == std::string::npos || q == std::string::npos || a->kind == b->kind && a->kids.size() > 1) { }
              if (p == std::string::npos || q == std::string::npos) break;
              u = atoi(x.c_str() + p + 1); v = atoi(y.c_str() + q + 1); if (u == v || u >= ufApps.size() || v >= ufApps.size()) break;
              auto &U = ufApps[u], &V = ufApps[v]; fprintf(stderr, "  %s (%s, %zu bytes) and %s (%s, %zu bytes)\n", U.name.c_str(), U.who.c_str(), U.in.size(), V.name.c_str(), V.who.c_str(), V.in.size());
              if (U.in.size() != V.in.size()) break;
              size_t k = 0; while (k < U.in.size() && U.in[k] == V.in[k]) k++;
              if (k == U.in.size()) break; fprintf(stderr, "  argument byte %zu\n", k); a = U.in[k]; b = V.in[k];
            }
          }
          if (verbose > 2 && st[i] != 1 && !cands.empty()) showVal = cands[0].get();
          if (st[i] != 1) { unresolvedCount++; if (unresolved.size() < 40) unresolved.push_back(obligs[di[i]].label + "[" + std::to_string(obligs[di[i]].index) + "]"); if (verbose > 1 && unresolvedCount < 6) fprintf(stderr, "DIFF %s[%u]\n  %s\n  %s\n", obligs[di[i]].label.c_str(), obligs[di[i]].index, show(diff[i].first, 5 + 5 * (verbose > 3)).c_str(), show(diff[i].second, 5).c_str()); }
        }
        for (auto &a : cands) if (models.size() < 8) models.push_back(dumpModel(*a));
      }
    } else if (ok && !incomplete.empty()) {}
    for (auto &u : ufApps) ufNames.insert(u.name);
    while (!prefix.empty() && !prefix.back().both) prefix.pop_back();
    if (prefix.empty()) break;
    if (models.size() >= 8) { incomplete.push_back("stopped after " + std::to_string(paths) + " paths: enough candidates"); break; }
    prefix.back().both = false; prefix.back().v = !prefix.back().v;
    if (paths >= maxPaths || now() - t0 > budget) { incomplete.push_back("path or time limit reached after " + std::to_string(paths) + " paths"); break; }
    if (!incomplete.empty() && incomplete.size() > 20) break;
  }
  FILE *o = outFile.empty() ? stdout : fopen(outFile.c_str(), "w");
  fprintf(o, "{\"paths\":%llu,\"aborted\":%llu,\"obligations\":%llu,\"identical\":%llu,\"z3_proved\":%llu,\"deep\":%llu,\"swept\":%llu,\"unresolved\":%llu,\"reached_end\":%s,\n", (unsigned long long)paths, (unsigned long long)aborted, (unsigned long long)total, (unsigned long long)identical, (unsigned long long)proved, (unsigned long long)deep, (unsigned long long)swept, (unsigned long long)unresolvedCount, reach ? "true" : "false");
  struct rusage ru; getrusage(RUSAGE_SELF, &ru); fprintf(o, "\"max_rss_mb\":%ld,\"impl_branches\":%llu,", ru.ru_maxrss / 1024, (unsigned long long)implBranches);
  fprintf(o, "\"instructions\":%llu,\"nodes\":%llu,\"poly_terms\":%llu,\"queries\":%llu,\"unsat\":%llu,\"sat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"exec_s\":%.3f,\"wall_s\":%.3f,\n", (unsigned long long)instrCount, (unsigned long long)statInterned, (unsigned long long)statPolyOps, (unsigned long long)zstat.queries, (unsigned long long)zstat.unsat, (unsigned long long)zstat.sat, (unsigned long long)zstat.unknown, zstat.time, execT, now() - t0);
  auto list = [&](const char *k, auto &v) { fprintf(o, "\"%s\":[", k); bool f1 = true; for (auto &s : v) { fprintf(o, "%s\"%s\"", f1 ? "" : ",", esc(s).c_str()); f1 = false; } fprintf(o, "],\n"); };
  list("incomplete", incomplete); list("unresolved_at", unresolved); list("functions", fnExecuted); list("globals_written", globalsWritten); list("globals_havocked", globalsHavocked); list("ufs", ufNames);
  fprintf(o, "\"labels\":{"); bool f1 = true; for (auto &l : labels) { fprintf(o, "%s\"%s\":%llu", f1 ? "" : ",", esc(l.first).c_str(), (unsigned long long)l.second); f1 = false; } fprintf(o, "},\n");
  fprintf(o, "\"events\":["); f1 = true;
  for (auto &e : events) { uint8_t fl = e.cond ? flagsOf(e.cond) : 0; fprintf(o, "%s{\"kind\":\"%s\",\"fn\":\"%s\",\"line\":%d,\"msg\":\"%s\",\"secret\":%d,\"uninit\":%d,\"havoc\":%d}", f1 ? "" : ",\n", evName[e.kind], esc(e.fn).c_str(), e.line, esc(e.msg).c_str(), !!(fl & F_SECRET), !!(fl & F_UNINIT), !!(fl & F_HAVOC)); f1 = false; }
  fprintf(o, "],\n\"models\":["); f1 = true; for (auto &m : models) { fprintf(o, "%s%s", f1 ? "" : ",\n", m.c_str()); f1 = false; }
  fprintf(o, "]}\n");
  fflush(o);
  return 0;
}
static int rcode;
static void *thr(void *) { rcode = appMain(); fflush(stdout); fflush(stderr); _exit(rcode); return nullptr; }
int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nxt = [&]() { return std::string(argv[++i]); };
    if (a == "--elf") elfs.push_back(nxt()); else if (a == "--out") outFile = nxt(); else if (a == "--entry") entry = nxt(); else if (a == "--paths") maxPaths = atoi(argv[++i]); else if (a == "--budget") budget = atof(argv[++i]);
    else if (a == "-v") verbose++; else if (a == "--ct") ctStop = true; else if (a == "--strict-align") minAlign = 2; else if (a == "--sweep") sweepFirst = true; else if (a == "--atompoly") atomPolys = true; else if (a == "--concrete") { concreteMode = true; concreteFile = nxt(); } else if (a == "--model") concreteModel = atoi(argv[++i]); else if (a == "--cseed") concreteSeed = atoi(argv[++i]); else if (a == "--nosweep") doSweep = false; else if (a == "--havoc-min") havocMin = atoi(argv[++i]); else if (a == "--written") written.insert(nxt()); else if (a == "--emit-redirected") emitBc = nxt(); else bcs.push_back(a);
  }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, (size_t)8 << 30); pthread_t t;
  if (pthread_create(&t, &at, thr, nullptr)) { perror("thread"); return 2; }
  pthread_join(t, nullptr); return rcode;
}
