#include <unistd.h>
// Interpreter for assembled Thumb-2 code (Cortex-M0 and Cortex-M4 integer and DSP instructions).  The instructions are
// the disassembly of the object file that was assembled from the repository's source on this run.
#include "interp.hpp"
#include <sys/stat.h>
namespace sx {
namespace {
enum Op { A_MOV, A_MVN, A_ADD, A_ADC, A_SUB, A_SBC, A_RSB, A_AND, A_ORR, A_ORN, A_EOR, A_BIC, A_LSL, A_LSR, A_ASR, A_ROR, A_MUL, A_MLA, A_MLS, A_CMP, A_CMN, A_TST, A_TEQ,
  A_LDR, A_LDRH, A_LDRB, A_LDRSH, A_LDRSB, A_LDRD, A_STR, A_STRH, A_STRB, A_STRD, A_LDM, A_STM, A_LDMDB, A_STMDB, A_PUSH, A_POP, A_B, A_BL, A_BX, A_BLX, A_CBZ, A_CBNZ, A_IT, A_ADR, A_NOP,
  A_UXTH, A_UXTB, A_SXTH, A_SXTB, A_UBFX, A_SBFX, A_BFI, A_BFC, A_UADD16, A_USUB16, A_PKHBT, A_PKHTB, A_SMUL, A_SMLA, A_SMUAD, A_SMUADX, A_SMLAD, A_SMLADX, A_SMUSD, A_SMUSDX, A_SMLSD, A_SMLSDX, A_MOVT, A_REV, A_DATA };
struct Ins { Op op = A_DATA; unsigned size = 2; int cond = 14; bool s = false, narrow = false; std::vector<int> r; bool hasImm = false; i64 imm = 0; int sh = -1, shReg = -1; unsigned shAmt = 0;
  int base = -1, idx = -1; i64 off = 0; int mode = 0; u32 list = 0; bool wb = false; u64 target = 0; std::string sym, text, extra; };
struct Img { std::string path; std::vector<uint8_t> bytes; std::map<u32, Ins> ins; std::map<std::string, u32> syms; std::set<std::string> globals; std::map<u32, std::string> names; std::vector<std::pair<u32, std::string>> rel; u64 base = 0; };
std::vector<Img> imgs;
const char *conds[] = {"eq", "ne", "cs", "cc", "mi", "pl", "vs", "vc", "hi", "ls", "ge", "lt", "gt", "le", "al"};
const std::map<std::string, Op> ops = {{"mov", A_MOV}, {"movw", A_MOV}, {"mvn", A_MVN}, {"add", A_ADD}, {"addw", A_ADD}, {"adc", A_ADC}, {"sub", A_SUB}, {"subw", A_SUB}, {"sbc", A_SBC}, {"rsb", A_RSB}, {"neg", A_RSB}, {"and", A_AND}, {"orr", A_ORR}, {"orn", A_ORN}, {"eor", A_EOR}, {"bic", A_BIC},
  {"lsl", A_LSL}, {"lsr", A_LSR}, {"asr", A_ASR}, {"ror", A_ROR}, {"mul", A_MUL}, {"mla", A_MLA}, {"mls", A_MLS}, {"cmp", A_CMP}, {"cmn", A_CMN}, {"tst", A_TST}, {"teq", A_TEQ},
  {"ldr", A_LDR}, {"ldrh", A_LDRH}, {"ldrb", A_LDRB}, {"ldrsh", A_LDRSH}, {"ldrsb", A_LDRSB}, {"ldrd", A_LDRD}, {"str", A_STR}, {"strh", A_STRH}, {"strb", A_STRB}, {"strd", A_STRD}, {"ldm", A_LDM}, {"ldmia", A_LDM}, {"stm", A_STM}, {"stmia", A_STM}, {"ldmdb", A_LDMDB}, {"stmdb", A_STMDB}, {"push", A_PUSH}, {"pop", A_POP},
  {"b", A_B}, {"bl", A_BL}, {"bx", A_BX}, {"blx", A_BLX}, {"cbz", A_CBZ}, {"cbnz", A_CBNZ}, {"adr", A_ADR}, {"nop", A_NOP}, {"uxth", A_UXTH}, {"uxtb", A_UXTB}, {"sxth", A_SXTH}, {"sxtb", A_SXTB}, {"ubfx", A_UBFX}, {"sbfx", A_SBFX}, {"bfi", A_BFI}, {"bfc", A_BFC},
  {"uadd16", A_UADD16}, {"sadd16", A_UADD16}, {"usub16", A_USUB16}, {"ssub16", A_USUB16}, {"pkhbt", A_PKHBT}, {"pkhtb", A_PKHTB}, {"smuad", A_SMUAD}, {"smuadx", A_SMUADX}, {"smlad", A_SMLAD}, {"smladx", A_SMLADX}, {"smusd", A_SMUSD}, {"smusdx", A_SMUSDX}, {"smlsd", A_SMLSD}, {"smlsdx", A_SMLSDX}, {"movt", A_MOVT}, {"rev", A_REV},
  {"smulbb", A_SMUL}, {"smulbt", A_SMUL}, {"smultb", A_SMUL}, {"smultt", A_SMUL}, {"smlabb", A_SMLA}, {"smlabt", A_SMLA}, {"smlatb", A_SMLA}, {"smlatt", A_SMLA}};
int regNo(const std::string &s) {
  if (s.size() >= 2 && s[0] == 'r' && isdigit(s[1])) return atoi(s.c_str() + 1);
  static const std::map<std::string, int> m = {{"sb", 9}, {"sl", 10}, {"fp", 11}, {"ip", 12}, {"sp", 13}, {"lr", 14}, {"pc", 15}};
  auto it = m.find(s); return it == m.end() ? -1 : it->second;
}
bool lookupOp(const std::string &m, Ins &x, std::string &base) {
  auto tryName = [&](const std::string &n, bool s, int c) { auto it = ops.find(n); if (it == ops.end()) return false; x.op = it->second; x.s = s; x.cond = c; base = n; return true; };
  if (tryName(m, false, 14)) return true;
  std::vector<std::pair<std::string, int>> cand{{m, 14}};
  if (m.size() > 2) for (int c = 0; c < 15; c++) if (m.compare(m.size() - 2, 2, conds[c]) == 0) cand.push_back({m.substr(0, m.size() - 2), c});
  if (m.size() > 2 && m.compare(m.size() - 2, 2, "hs") == 0) cand.push_back({m.substr(0, m.size() - 2), 2});
  if (m.size() > 2 && m.compare(m.size() - 2, 2, "lo") == 0) cand.push_back({m.substr(0, m.size() - 2), 3});
  for (auto &c : cand) { if (c.second != 14 && tryName(c.first, false, c.second)) return true; if (!c.first.empty() && c.first.back() == 's' && tryName(c.first.substr(0, c.first.size() - 1), true, c.second)) return true; }
  return false;
}
std::string trim(const std::string &s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t\r\n"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
std::vector<std::string> splitOps(const std::string &s) {
  std::vector<std::string> o; int d = 0; std::string cur;
  for (char c : s) { if (c == '[' || c == '{') d++; if (c == ']' || c == '}') d--; if (c == ',' && !d) { o.push_back(trim(cur)); cur.clear(); } else cur += c; }
  cur = trim(cur); if (!cur.empty()) o.push_back(cur); return o;
}
bool shiftOf(const std::string &t, Ins &x) {
  static const char *k[] = {"lsl", "lsr", "asr", "ror"};
  for (int i = 0; i < 4; i++) if (t.compare(0, 3, k[i]) == 0) { x.sh = i; std::string a = trim(t.substr(3)); if (a[0] == '#') x.shAmt = strtol(a.c_str() + 1, nullptr, 0); else x.shReg = regNo(a); return true; }
  return false;
}
void decodeText(Ins &x, std::string m, std::string rest, u32 addr) {
  x.text = m + " " + rest;
  size_t at = rest.find('@'); if (at != std::string::npos) rest = rest.substr(0, at);
  at = rest.find(';'); if (at != std::string::npos) rest = rest.substr(0, at);
  rest = trim(rest);
  if (m.size() > 2 && (m.substr(m.size() - 2) == ".w" || m.substr(m.size() - 2) == ".n")) m = m.substr(0, m.size() - 2);
  if (m[0] == '.') { x.op = A_DATA; return; }
  if (m[0] == 'i' && m[1] == 't' && m.find_first_not_of("te", 2) == std::string::npos) { x.op = A_IT; x.extra = m.substr(1); return; }
  std::string base; if (!lookupOp(m, x, base)) { x.op = A_DATA; return; }
  x.extra = base;
  auto os = splitOps(rest);
  if (x.op == A_B || x.op == A_BL) { x.target = strtoul(rest.c_str(), nullptr, 16); return; }
  if (x.op == A_CBZ || x.op == A_CBNZ) { x.r.push_back(regNo(os[0])); x.target = strtoul(os[1].c_str(), nullptr, 16); return; }
  for (size_t i = 0; i < os.size(); i++) {
    std::string t = os[i];
    if (t[0] == '{') {
      std::string c = t.substr(1, t.size() - 2); for (auto &p : splitOps(c)) { size_t d = p.find('-'); if (d == std::string::npos) x.list |= 1u << regNo(p); else for (int r = regNo(trim(p.substr(0, d))); r <= regNo(trim(p.substr(d + 1))); r++) x.list |= 1u << r; }
    } else if (t[0] == '[') {
      bool pre = t.back() == '!'; if (pre) t.pop_back(); auto ms = splitOps(t.substr(1, t.size() - 2));
      x.base = regNo(ms[0]); if (ms.size() > 1) { if (ms[1][0] == '#') x.off = strtol(ms[1].c_str() + 1, nullptr, 0); else x.idx = regNo(ms[1]); }
      if (ms.size() > 2) shiftOf(ms[2], x);
      x.mode = pre ? 1 : 0;
      if (i + 1 < os.size()) { x.mode = 2; x.off = strtol(os[i + 1].c_str() + 1, nullptr, 0); break; }
    } else if (t[0] == '#') { x.hasImm = true; if (x.op == A_UBFX || x.op == A_SBFX || x.op == A_BFI || x.op == A_BFC) { if (x.off == 0 && x.shAmt == 0 && !x.wb) { x.off = strtol(t.c_str() + 1, nullptr, 0); x.wb = true; } else x.shAmt = strtol(t.c_str() + 1, nullptr, 0); } else x.imm = strtol(t.c_str() + 1, nullptr, 0); }
    else if (shiftOf(t, x)) {}
    else { bool wb = t.back() == '!'; if (wb) t.pop_back(); int r = regNo(t); if (r < 0) { x.op = A_DATA; return; } x.r.push_back(r); if (wb) x.wb = true; }
  }
  if (x.op == A_MOV && base == "movw") x.s = false;
}
std::string run(const std::string &cmd) {      // a fork can fail for a moment when memory is short
  for (int k = 0; k < 8; k++) {
    std::string out; FILE *p = popen(cmd.c_str(), "r"); if (!p) { usleep(300000); continue; }
    char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) out.append(b, n);
    if (pclose(p) == 0) return out;
    usleep(300000);
  }
  throw Unsupported{"cannot run " + cmd};
}

// ------------------------------------------------------------ machine state
struct Cpu { Ref r[16]; Ref N, Z, C, V; Ref fa, fb; int fk = 0; };
Cpu *cpu;
Img *curImg(u64 pc) { for (auto &i : imgs) if (i.base && pc >= i.base && pc < i.base + i.bytes.size()) return &i; return nullptr; }
u32 addrOf(const Ref &r0, const char *what) {
  if (isConst(r0)) return r0->val;
  Ref r = intern(r0); if (isConst(r)) return r->val;
  addEvent(EV_ADDR, std::string(what) + " depends on data", r); throw Unsupported{std::string("symbolic ") + what + " in assembly"};
}
Ref word(const std::vector<Ref> &p) { return p.size() == 1 ? p[0] : concat(p); }
Ref lo(const Ref &a) { return extract(a, 0, 16); }
Ref hi(const Ref &a) { return extract(a, 16, 16); }
// a signed 16x16 product: the low half exactly, the high half only for constants (nothing here needs it otherwise)
Ref prod(const Ref &a, const Ref &b) {
  if (isConst(a) && isConst(b)) return konst(32, (u64)((i64)(int16_t)a->val * (int16_t)b->val));
  return concat2(mul(a, b), junk(16));
}
Ref shifted(const Ref &v, int sh, unsigned n) {
  if (sh < 0) return v;
  switch (sh) { case 0: return n >= 32 ? konst(32, 0) : shlc(v, n); case 1: if (n == 0) n = 32; return n >= 32 ? konst(32, 0) : lshrc(v, n); case 2: if (n == 0) n = 32; return ashrc(v, n); }
  n &= 31; return n ? concat2(extract(v, n, 32 - n), extract(v, 0, n)) : v;
}
void setNZ(const Ref &r) { cpu->N = bitOf(r, 31); cpu->Z = Ref(); cpu->fa = r; }
Ref zflag() { if (!cpu->Z) cpu->Z = eq(cpu->fa, konst(32, 0)); return cpu->Z; }
void setSub(const Ref &a, const Ref &b, const Ref &r) { setNZ(r); cpu->C = bnot(ult(a, b)); Ref s = slt(a, b); cpu->V = bxor(s, cpu->N); }
void setAdd(const Ref &a, const Ref &b, const Ref &r) { setNZ(r); cpu->C = ult(r, a); Ref x = band(bnot(bxor(bitOf(a, 31), bitOf(b, 31))), bxor(bitOf(a, 31), cpu->N)); cpu->V = x; }
bool holds(int c) {
  if (c == 14) return true;
  Ref t; bool inv = c & 1;
  switch (c >> 1) { case 0: t = zflag(); break; case 1: t = cpu->C; break; case 2: t = cpu->N; break; case 3: t = cpu->V; break; case 4: t = band(cpu->C, bnot(zflag())); break; case 5: t = bnot(bxor(cpu->N, cpu->V)); break; default: t = band(bnot(zflag()), bnot(bxor(cpu->N, cpu->V))); }
  if (!t) throw Unsupported{"flags used before they are set"};
  return decide(t, "assembly branch") != inv;
}
bool isM0 = false;
void trace(u64 x) { traceHash = (traceHash ^ x) * 0x100000001b3ULL; traceHash ^= traceHash >> 29; }
void chk(u32 a, unsigned n) { if (a % n) { char b[80]; snprintf(b, 80, "assembly access needing %u-byte alignment", n); addEvent(EV_ALIGN, b); } }
Ref ldn(u32 a, unsigned n, bool strict) { trace(a); if (isM0 || strict) chk(a, n); return word(mem.load(a, n, 1)); }
void stn(u32 a, const Ref &v, unsigned n, bool strict) { trace(a); if (isM0 || strict) chk(a, n); Ref x = n * 8 == 32 ? v : extract(v, 0, n * 8); mem.store(a, {storeNorm(x)}, 1); Obj *o = mem.find(a); if (o && o->global && inImpl) globalsWritten.insert(o->name); }
const u32 RET = 0xfffffff0u;
u64 steps;
void exec(u32 pc0) {
  u32 pc = pc0; std::vector<std::pair<int, bool>> it;
  for (;;) {
    if ((pc & ~1u) == RET) return;
    Img *im = curImg(pc & ~1u); if (!im) throw Unsupported{"assembly jumps outside the code"};
    u32 off = (pc & ~1u) - im->base; auto f = im->ins.find(off); if (f == im->ins.end()) throw Unsupported{"assembly jumps into the middle of an instruction"};
    Ins &x = f->second; u32 next = (pc & ~1u) + x.size; instrCount++; trace(off); if (++steps > 40000000) throw Unsupported{"assembly runs too long"};
    auto nm = im->names.upper_bound(off); if (nm != im->names.begin()) { --nm; curFn = nm->second; curLine = off - nm->first; }
    if (x.op == A_DATA) throw Unsupported{"assembly instruction " + x.text};
    Ref *R = cpu->r; R[15] = konst(32, (pc & ~1u) + 4);
    if (x.op == A_IT) {           // conditions of the following instructions come with their own suffix
      it.clear(); for (size_t i = 0; i < x.extra.size(); i++) it.push_back({0, true}); pc = next; continue;
    }
    bool inIt = !it.empty(); if (inIt) it.erase(it.begin());
    if (x.op != A_B && x.cond != 14 && !holds(x.cond)) { pc = next; continue; }
    bool S = x.s && !(inIt && x.narrow);
    auto nr = x.r.size();
    // second operand of data processing
    auto op2 = [&](size_t k) -> Ref { if (x.hasImm && nr <= k) return konst(32, x.imm); Ref v = R[x.r[k]]; if (x.sh >= 0) { unsigned n = x.shReg >= 0 ? addrOf(R[x.shReg], "shift amount") & 255 : x.shAmt; if (x.shReg >= 0 && n == 0) return v; return shifted(v, x.sh, n); } return v; };
    auto setReg = [&](int d, const Ref &v) { if (d == 15) next = addrOf(v, "jump") | 1; else R[d] = v; };
    switch (x.op) {
      case A_NOP: break;
      case A_MOV: case A_MVN: { Ref v = op2(1); if (x.op == A_MVN) v = bnot(v); setReg(x.r[0], v); if (S) setNZ(v); break; }
      case A_MOVT: R[x.r[0]] = concat2(lo(R[x.r[0]]), konst(16, x.imm)); break;
      case A_ADD: case A_SUB: case A_RSB: case A_AND: case A_ORR: case A_ORN: case A_EOR: case A_BIC: case A_ADC: case A_SBC: {
        bool three = nr == 3 || (nr == 2 && x.hasImm); Ref a = R[x.r[three ? 1 : 0]], b = x.hasImm ? konst(32, x.imm) : op2(three ? 2 : 1), v;
        if (x.op == A_ADD && three && x.r[1] == 15) a = konst(32, a->val & ~3u);
        if (x.extra == "neg") { a = konst(32, 0); b = R[x.r[1]]; x.hasImm = false; v = sub(a, b); setReg(x.r[0], v); if (S) setSub(a, b, v); break; }
        switch (x.op) {
          case A_ADD: v = add(a, b); if (S) setAdd(a, b, v); break;
          case A_SUB: v = sub(a, b); if (S) setSub(a, b, v); break;
          case A_RSB: v = sub(b, a); if (S) setSub(b, a, v); break;
          case A_ADC: if (S) throw Unsupported{x.text}; v = add(add(a, b), zext(cpu->C, 32)); break;
          case A_SBC: if (S) throw Unsupported{x.text}; v = sub(sub(a, b), zext(bnot(cpu->C), 32)); break;
          case A_AND: v = band(a, b); break; case A_ORR: v = bor(a, b); break; case A_ORN: v = bor(a, bnot(b)); break; case A_EOR: v = bxor(a, b); break; default: v = band(a, bnot(b));
        }
        if (S && x.op != A_ADD && x.op != A_SUB && x.op != A_RSB) setNZ(v);
        setReg(x.r[0], v); break;
      }
      case A_LSL: case A_LSR: case A_ASR: case A_ROR: {
        int k = x.op - A_LSL; Ref v = R[x.r[nr >= 2 && (x.hasImm || nr == 3) ? 1 : 0]]; unsigned n; bool byReg = !x.hasImm;
        if (x.hasImm) n = x.imm; else n = addrOf(R[x.r[nr - 1]], "shift amount") & 255;
        if (byReg && n == 0) {} else v = k == 3 ? shifted(v, 3, n) : n >= 32 ? (k == 2 ? ashrc(v, 32) : konst(32, 0)) : shifted(v, k, n);
        R[x.r[0]] = v; if (S) { setNZ(v); cpu->C = Ref(); } break;
      }
      case A_MUL: { Ref v = mul(R[x.r[nr == 3 ? 1 : 0]], R[x.r[nr == 3 ? 2 : 1]]); R[x.r[0]] = v; if (S) setNZ(v); break; }
      case A_MLA: R[x.r[0]] = add(mul(R[x.r[1]], R[x.r[2]]), R[x.r[3]]); break;
      case A_MLS: R[x.r[0]] = sub(R[x.r[3]], mul(R[x.r[1]], R[x.r[2]])); break;
      case A_CMP: { Ref a = R[x.r[0]], b = op2(1), v = sub(a, b); setSub(a, b, v); break; }
      case A_CMN: { Ref a = R[x.r[0]], b = op2(1), v = add(a, b); setAdd(a, b, v); break; }
      case A_TST: setNZ(band(R[x.r[0]], op2(1))); break;
      case A_TEQ: setNZ(bxor(R[x.r[0]], op2(1))); break;
      case A_LDR: case A_LDRH: case A_LDRB: case A_LDRSH: case A_LDRSB: case A_STR: case A_STRH: case A_STRB: case A_LDRD: case A_STRD: {
        u32 b = addrOf(R[x.base], "address"), ea; if (x.base == 15) b &= ~3u;
        i64 o = x.idx >= 0 ? (i64)addrOf(shifted(R[x.idx], x.sh, x.shAmt), "address") : x.off;
        ea = x.mode == 2 ? b : (u32)(b + o); int d = x.r[0];
        switch (x.op) {
          case A_LDR: { Ref v = ldn(ea, 4, false); if (x.mode) R[x.base] = konst(32, (u32)(b + o)); setReg(d, v); break; }
          case A_LDRH: R[d] = zext(ldn(ea, 2, false), 32); break; case A_LDRB: R[d] = zext(ldn(ea, 1, false), 32); break;
          case A_LDRSH: R[d] = sext(ldn(ea, 2, false), 32); break; case A_LDRSB: R[d] = sext(ldn(ea, 1, false), 32); break;
          case A_STR: stn(ea, R[d], 4, false); break; case A_STRH: stn(ea, R[d], 2, false); break; case A_STRB: stn(ea, R[d], 1, false); break;
          case A_LDRD: { Ref v = ldn(ea, 4, true), w = ldn(ea + 4, 4, true); R[d] = v; R[x.r[1]] = w; break; }
          default: stn(ea, R[d], 4, true); stn(ea + 4, R[x.r[1]], 4, true);
        }
        if (x.mode && x.op != A_LDR) R[x.base] = konst(32, (u32)(b + o));
        break;
      }
      case A_LDM: case A_LDMDB: case A_POP: case A_STM: case A_STMDB: case A_PUSH: {
        int bs = x.op == A_PUSH || x.op == A_POP ? 13 : x.r[0]; u32 b = addrOf(R[bs], "address"), n = __builtin_popcount(x.list) * 4;
        bool ld = x.op == A_LDM || x.op == A_LDMDB || x.op == A_POP, db = x.op == A_LDMDB || x.op == A_STMDB || x.op == A_PUSH; u32 a = db ? b - n : b; Ref npc;
        for (int i = 0; i < 16; i++) if (x.list >> i & 1) { if (ld) { Ref v = ldn(a, 4, true); if (i == 15) npc = v; else R[i] = v; } else stn(a, R[i], 4, true); a += 4; }
        bool wb = x.op == A_PUSH || x.op == A_POP || x.wb; if (wb && !(ld && (x.list >> bs & 1))) R[bs] = konst(32, db ? b - n : b + n);
        if (npc) next = addrOf(npc, "jump");
        break;
      }
      case A_B: if (holds(x.cond)) next = im->base + x.target; break;
      case A_BL: case A_BLX: case A_BX: {
        if (x.op != A_BX) R[14] = konst(32, next | 1);
        if (x.op != A_BL) { next = addrOf(R[x.r[0]], "jump"); break; }
        if (x.sym.empty()) { next = im->base + x.target; break; }
        Img *t = nullptr; u32 to = 0; for (auto &i : imgs) { auto s = i.syms.find(x.sym); if (s != i.syms.end() && (&i == im || i.globals.count(x.sym))) { t = &i; to = s->second; if (&i == im) break; } }
        if (t) { next = t->base + to; break; }
        std::vector<Val> as; for (int i = 0; i < 4; i++) as.push_back(fromRef(R[i])); Val ret; std::string sf = curFn; int sl = curLine;
        if (!callByName(x.sym, as, ret)) throw Unsupported{"assembly calls " + x.sym};
        curFn = sf; curLine = sl;
        Ref r0 = ret.w ? zext(extract(toRef(ret), 0, std::min<u32>(ret.w, 32)), 32) : Ref(); bool m = x.sym.compare(0, 3, "mem") == 0;
        R[0] = m ? toRef(as[0]) : r0 ? r0 : newVar(32, "clobbered", 0, -1, F_UNINIT);
        for (int i : {1, 2, 3, 12, 14}) R[i] = newVar(32, "clobbered", 0, -1, F_UNINIT);
        cpu->N = cpu->Z = cpu->C = cpu->V = cpu->fa = Ref();
        break;
      }
      case A_CBZ: case A_CBNZ: { Ref z = eq(R[x.r[0]], konst(32, 0)); if (decide(z, "assembly branch") == (x.op == A_CBZ)) next = im->base + x.target; break; }
      case A_ADR: throw Unsupported{x.text};
      case A_UXTH: R[x.r[0]] = zext(lo(shifted(R[x.r[1]], x.sh, x.shAmt)), 32); break;
      case A_UXTB: R[x.r[0]] = zext(extract(shifted(R[x.r[1]], x.sh, x.shAmt), 0, 8), 32); break;
      case A_SXTH: R[x.r[0]] = sext(lo(shifted(R[x.r[1]], x.sh, x.shAmt)), 32); break;
      case A_SXTB: R[x.r[0]] = sext(extract(shifted(R[x.r[1]], x.sh, x.shAmt), 0, 8), 32); break;
      case A_UBFX: R[x.r[0]] = zext(extract(R[x.r[1]], x.off, x.shAmt), 32); break;
      case A_SBFX: R[x.r[0]] = sext(extract(R[x.r[1]], x.off, x.shAmt), 32); break;
      case A_BFI: case A_BFC: {
        Ref v = x.op == A_BFC ? konst(x.shAmt, 0) : extract(R[x.r[1]], 0, x.shAmt); std::vector<Ref> p; Ref d = R[x.r[0]];
        if (x.off) p.push_back(extract(d, 0, x.off)); p.push_back(v); if (x.off + x.shAmt < 32) p.push_back(extract(d, x.off + x.shAmt, 32 - x.off - x.shAmt)); R[x.r[0]] = concat(p); break;
      }
      case A_UADD16: case A_USUB16: { size_t k = nr == 3 ? 1 : 0; Ref a = R[x.r[k]], b = R[x.r[k + 1]]; R[x.r[0]] = x.op == A_UADD16 ? concat2(add(lo(a), lo(b)), add(hi(a), hi(b))) : concat2(sub(lo(a), lo(b)), sub(hi(a), hi(b))); break; }
      case A_PKHBT: case A_PKHTB: { Ref a = R[x.r[nr - 2]], b = shifted(R[x.r[nr - 1]], x.sh, x.shAmt); R[x.r[0]] = x.op == A_PKHBT ? concat2(lo(a), hi(b)) : concat2(lo(b), hi(a)); break; }
      case A_SMUL: case A_SMLA: { Ref a = R[x.r[1]], b = R[x.r[2]]; char p = x.extra[4], q = x.extra[5]; Ref v = prod(p == 't' ? hi(a) : lo(a), q == 't' ? hi(b) : lo(b)); R[x.r[0]] = x.op == A_SMLA ? add(v, R[x.r[3]]) : v; break; }
      case A_SMUAD: case A_SMUADX: case A_SMLAD: case A_SMLADX: case A_SMUSD: case A_SMUSDX: case A_SMLSD: case A_SMLSDX: {
        bool cross = x.extra.back() == 'x', minus = x.extra[2] == 'u' ? x.extra[3] == 's' : x.extra[3] == 's', acc = x.extra[2] == 'l';
        Ref a = R[x.r[1]], b = R[x.r[2]], p = prod(lo(a), cross ? hi(b) : lo(b)), q = prod(hi(a), cross ? lo(b) : hi(b)), v = minus ? sub(p, q) : add(p, q);
        R[x.r[0]] = acc ? add(v, R[x.r[3]]) : v; break;
      }
      case A_REV: { Ref a = R[x.r[1]]; R[x.r[0]] = concat({extract(a, 24, 8), extract(a, 16, 8), extract(a, 8, 8), extract(a, 0, 8)}); break; }
      default: throw Unsupported{"assembly instruction " + x.text};
    }
    pc = next;
  }
}
}
bool armHas(const std::string &fn) { for (auto &i : imgs) if (i.globals.count(fn)) return true; return false; }
void armLoad(const std::string &path) {
  Img im; im.path = path; isM0 = path.find(".m0.") != std::string::npos;
  std::string q = "'" + path + "'", bin = path + "." + std::to_string(getpid()) + ".bin";
  run("arm-none-eabi-objcopy -O binary -j .text " + q + " '" + bin + "'");
  if (FILE *f = fopen(bin.c_str(), "rb")) { uint8_t b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) im.bytes.insert(im.bytes.end(), b, b + n); fclose(f); }
  unlink(bin.c_str());
  std::string hd = run("arm-none-eabi-size -A " + q); { size_t p = 0; while ((p = hd.find('\n', p)) != std::string::npos) { p++; char nm[100]; unsigned long sz; if (sscanf(hd.c_str() + p, "%99s %lu", nm, &sz) == 2 && sz) { std::string s = nm; if (s == ".data" || s == ".bss" || s.compare(0, 7, ".rodata") == 0) throw Unsupported{"assembly with a " + s + " section"}; } } }
  std::string st = run("arm-none-eabi-nm " + q); size_t p = 0;
  while (p < st.size()) { size_t e = st.find('\n', p); if (e == std::string::npos) e = st.size(); std::string l = st.substr(p, e - p); p = e + 1; char nm[300], ty; unsigned a; if (sscanf(l.c_str(), "%x %c %299s", &a, &ty, nm) == 3 && (ty == 't' || ty == 'T') && nm[0] != '$') { im.syms[nm] = a & ~1u; im.names[a & ~1u] = nm; if (ty == 'T') im.globals.insert(nm); } }
  std::string d = run("arm-none-eabi-objdump -d -r -M force-thumb " + q); p = 0; u32 last = 0; bool have = false;
  while (p < d.size()) {
    size_t e = d.find('\n', p); if (e == std::string::npos) e = d.size(); std::string l = d.substr(p, e - p); p = e + 1;
    size_t rl = l.find("R_ARM_");
    if (rl != std::string::npos) {
      std::string t = l.substr(rl), ty = t.substr(0, t.find_first_of(" \t")), sy = trim(t.substr(ty.size())); size_t plus = sy.find('+'); if (plus != std::string::npos) sy = sy.substr(0, plus);
      if (have && (ty == "R_ARM_THM_CALL" || ty == "R_ARM_THM_JUMP24")) im.ins[last].sym = sy;
      else if (ty == "R_ARM_ABS32") im.rel.push_back({(u32)strtoul(trim(l.substr(0, rl)).c_str(), nullptr, 16), sy});
      else throw Unsupported{"relocation " + ty};
      continue;
    }
    size_t c = l.find(":\t"); if (c == std::string::npos || l[0] != ' ') continue;
    u32 a = strtoul(l.c_str(), nullptr, 16); size_t t1 = l.find('\t', c + 2); if (t1 == std::string::npos) continue;
    std::string raw = trim(l.substr(c + 2, t1 - c - 2)), tx = l.substr(t1 + 1); unsigned nb = 0; for (char ch : raw) if (isxdigit(ch)) nb++;
    size_t t2 = tx.find('\t'); Ins x; x.size = nb / 2; decodeText(x, trim(tx.substr(0, t2)), t2 == std::string::npos ? "" : tx.substr(t2 + 1), a); x.narrow = x.size == 2;
    im.ins[a] = x; last = a; have = true;
  }
  imgs.push_back(std::move(im));
}
void armInitMemory() {
  for (auto &im : imgs) {
    im.base = mem.alloc(im.bytes.size(), 256, "code"); Obj *o = mem.find(im.base); im.base = o->base = (o->base + 511) & ~511ull;
    for (auto &r : im.rel) {
      u32 v = 0; if (r.first + 4 > im.bytes.size()) throw Unsupported{"relocation outside the code"};
      if (r.second != ".text") { auto s = im.syms.find(r.second); if (s == im.syms.end()) throw Unsupported{"relocation against " + r.second}; v = s->second; }
      for (int i = 3; i >= 0; i--) v += (u32)im.bytes[r.first + i] << 8 * i;
      v += im.base; for (int i = 0; i < 4; i++) im.bytes[r.first + i] = v >> 8 * i;
    }
    for (size_t i = 0; i < im.bytes.size(); i++) { o->st[i] = 1; o->data[i] = im.bytes[i]; }
    o->readonly = o->isConstGlobal = true;
  }
}
Val armCall(const std::string &fn, const std::vector<Val> &args) {
  Img *im = nullptr; for (auto &i : imgs) if (i.globals.count(fn)) { im = &i; break; }
  Cpu c, *save = cpu; cpu = &c; bool si = inImpl; inImpl = true;
  u64 stk = mem.alloc(16384, 8, "assembly stack"); u32 sp = stk + 16384; sp &= ~7u;
  for (int i = 0; i < 16; i++) c.r[i] = newVar(32, "register r" + std::to_string(i), 0, -1, F_UNINIT);
  if (args.size() > 4) throw Unsupported{"assembly call with more than four arguments"};
  for (size_t i = 0; i < args.size(); i++) { Ref a = toRef(args[i]); if (a->width > 32) throw Unsupported{"wide argument"}; c.r[i] = zext(a, 32); }
  c.r[13] = konst(32, sp); c.r[14] = konst(32, RET | 1); std::vector<Ref> saved(c.r, c.r + 16);
  fnExecuted.insert(fn);
  exec(im->base + im->syms[fn]);
  for (int i : {4, 5, 6, 7, 8, 9, 10, 11, 13}) obligs.push_back({c.r[i], saved[i], fn + " preserves r" + std::to_string(i), 0});
  Val r = fromRef(c.r[0]); cpu = save; inImpl = si; mem.release(stk); return r;
}
}
