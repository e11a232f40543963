#include "exec.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <random>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <cerrno>
#include <unistd.h>
#include <llvm/IR/LLVMContext.h>

static Mod mod; static Options opt;
static std::vector<std::string> strs; static std::map<std::string, uint32_t> strIdx;
static uint32_t internStr(const std::string &s) { auto it = strIdx.find(s); if (it != strIdx.end()) return it->second; strIdx[s] = strs.size(); strs.push_back(s); return strs.size() - 1; }

// ------------------------------------------------------------------ memory
static Obj *objNew(uint32_t size, OK k, bool fill) { Obj *o = new Obj(); memset(o, 0, sizeof *o); o->ref = 1; o->size = size; o->kind = k; o->b = (uint8_t *)malloc(size ? size : 1); if (fill) memset(o->b, k == K_GLOBAL ? 0 : 0xBE, size); return o; }
static void objUnref(Obj *o) { if (--o->ref == 0) { free(o->b); free(o->s); delete o; } }
static Obj *objClone(Obj *o) { Obj *n = new Obj(*o); n->ref = 1; n->b = (uint8_t *)malloc(o->size ? o->size : 1); if (o->b) memcpy(n->b, o->b, o->size); else { free(n->b); n->b = nullptr; } if (o->s) { n->s = (SymByte *)malloc(sizeof(SymByte) * o->size); memcpy(n->s, o->s, sizeof(SymByte) * o->size); } return n; }
static void pageUnref(Page *p) { if (p && --p->ref == 0) { for (auto *o : p->o) if (o) objUnref(o); delete p; } }
State::State(const State &o) : th(o.th), cur(o.cur), pc(o.pc), model(o.model), inputs(o.inputs), log(o.log), reached(o.reached), mtx(o.mtx), heapNext(o.heapNext), mallocNext(o.mallocNext), live(o.live), instrs(o.instrs), depth(o.depth), schedDone(o.schedDone), preempts(o.preempts), choiceCache(o.choiceCache), hasChoice(o.hasChoice), nsched(o.nsched), faultAlloc(o.faultAlloc), race(o.race), asserts(o.asserts) {
    for (int i = 0; i < 8; i++) { reg[i].p = o.reg[i].p; for (auto *p : reg[i].p) if (p) p->ref++; }
}
State::~State() { for (auto &r : reg) for (auto *p : r.p) pageUnref(p); }
static inline Obj *slotGet(State &s, uint64_t addr) { unsigned r = (addr >> 44) & 7; if (addr >> 47) return nullptr; uint64_t id = (addr >> 20) & 0xFFFFFF; auto &p = s.reg[r].p; if ((id >> 6) >= p.size()) return nullptr; Page *pg = p[id >> 6]; return pg ? pg->o[id & 63] : nullptr; }
static Page *pageW(State &s, unsigned r, uint64_t id) { auto &p = s.reg[r].p; if ((id >> 6) >= p.size()) p.resize((id >> 6) + 1, nullptr); Page *&pg = p[id >> 6]; if (!pg) { pg = new Page(); memset(pg, 0, sizeof *pg); pg->ref = 1; } else if (pg->ref > 1) { Page *n = new Page(*pg); n->ref = 1; for (auto *o : n->o) if (o) o->ref++; pg->ref--; pg = n; } return pg; }
static void slotSet(State &s, uint64_t addr, Obj *o) { unsigned r = addr >> 44; uint64_t id = (addr >> 20) & 0xFFFFFF; Page *pg = pageW(s, r, id); Obj *&x = pg->o[id & 63]; if (x) objUnref(x); x = o; }
static inline Obj *slotW(State &s, uint64_t addr) { unsigned r = addr >> 44; uint64_t id = (addr >> 20) & 0xFFFFFF; Page *pg = s.reg[r].p[id >> 6]; if (pg->ref > 1) pg = pageW(s, r, id); Obj *&x = pg->o[id & 63]; if (x->ref > 1) { Obj *n = objClone(x); x->ref--; x = n; } return x; }

struct EngineErr { std::string s; };
struct PathEnd { int kind; }; // 0 done 1 violation 2 infeasible 3 limit 4 engine error
enum { PE_DONE, PE_VIOL, PE_INFEAS, PE_LIMIT, PE_ERR };
struct Redo {};   // state changed: refetch and go on
struct Stats { uint64_t paths = 0, infeasible = 0, forks = 0, instrs = 0, limit = 0, errors = 0, branches = 0, checks = 0, checksSolver = 0; };
static Stats stats;
static std::vector<Violation> viols; static std::map<std::string, int> violKeys; static std::map<std::string, uint64_t> reachedCnt; static std::map<std::string, uint64_t> errCnt; static std::map<std::string, uint64_t> checkCnt;
static std::vector<State *> work; static std::mt19937_64 rng; static uint64_t traceSeen = 0; static std::set<uint64_t> traceHashes;
struct Sample { std::vector<std::pair<std::string, uint64_t>> inputs; std::vector<std::pair<std::string, uint64_t>> log; std::string cond; };
static std::vector<Sample> samples; static std::chrono::steady_clock::time_point t0; static bool timedOut = false;
static uint64_t addrNewUndef;

static std::string locStr(uint32_t l) { if (!l || l >= mod.locs.size()) return "?"; return mod.locs[l].first + ":" + std::to_string(mod.locs[l].second); }
static std::vector<std::string> stackOf(State &s) { std::vector<std::string> r; auto &t = s.th[s.cur]; for (size_t i = t.fr.size(); i-- > 0 && r.size() < 40;) { auto &f = t.fr[i]; uint32_t pc = i + 1 == t.fr.size() ? f.pc : f.callPc; std::string n = f.fn->dname; if (n.size() > 160) n = n.substr(0, 160) + "..."; r.push_back(n + " at " + locStr(pc < f.fn->code.size() ? f.fn->code[pc].loc : 0)); } return r; }
static std::vector<std::pair<std::string, uint64_t>> inputsOf(State &s, const Assign &m) { std::vector<std::pair<std::string, uint64_t>> r; for (uint32_t v : s.inputs) r.push_back({allVars()[v].name, (v < m.size() ? m[v] : 0) & maskw(allVars()[v].w)}); return r; }
static void addViol(State &s, const std::string &kind, const std::string &msg, const Assign &m) {
    Violation v; v.kind = kind; v.msg = msg; v.stack = stackOf(s); v.inputs = inputsOf(s, m);
    std::string key = kind + "|" + msg; // one per distinct failure
    if (kind != "check") { for (auto &f : v.stack) if (f.find("/repo/") != std::string::npos || f.find("rotor/") != std::string::npos) { key += "|" + f; break; } }
    v.key = key; int &n = violKeys[key]; if (n++ < 2 && viols.size() < opt.maxViol * 4) viols.push_back(v);
}
[[noreturn]] static void violate(State &s, const std::string &kind, const std::string &msg) { addViol(s, kind, msg, s.model); throw PathEnd{PE_VIOL}; }

static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val fromE(E e) { if (e->k == EConst) return cv(e->c); return Val{0, e}; }

static void pushConstraint(State &s, E e) { if (e->k == EConst) return; s.pc.push_back(e); }
// decides a width-1 condition; forks when both outcomes are possible. The copy re-executes nothing: `onFork` adjusts it.
static State *forkState(State &s) { stats.forks++; State *n = new State(s); n->depth++; s.depth++; return n; }
static int feasible(State &s, E q, Assign &m) { m = s.model; int r = solverCheck(s.pc, q, m); if (r < 0) throw EngineErr{"solver gave up"}; return r; }

// branch: returns the value for the current state; if the other one is feasible too a sibling is queued that will re-execute the instruction under the opposite constraint
static bool decide(State &s, E c) {
    if (c->k == EConst) return c->c != 0;
    stats.branches++;
    bool v = evalExpr(c, s.model) != 0; E other = v ? mkNot(c) : c; Assign m;
    if (feasible(s, other, m)) { State *n = forkState(s); n->model = m; pushConstraint(*n, other); n->instrs++; work.push_back(n); pushConstraint(s, v ? c : mkNot(c)); }
    return v;
}
static uint64_t concretize(State &s, const Val &v, unsigned w) {
    if (!v.e) return v.c;
    uint64_t x = evalExpr(v.e, s.model); E eq = mkEq(v.e, mkConst(x, w)); Assign m; E ne = mkNot(eq);
    if (feasible(s, ne, m)) { State *n = forkState(s); n->model = m; pushConstraint(*n, ne); work.push_back(n); pushConstraint(s, eq); }
    return x;
}
static Val newVar(State &s, const std::string &name, unsigned w) { E e = mkVar((uint32_t)s.inputs.size(), name, w); s.inputs.push_back((uint32_t)e->c); if (s.model.size() <= e->c) s.model.resize(e->c + 1, 0); s.model[e->c] = 0; return Val{0, e}; }

static Obj *access(State &s, uint64_t addr, uint64_t size, bool wr, uint64_t &off) {
    Obj *o = slotGet(s, addr);
    if (!o) { char b[128]; snprintf(b, sizeof b, "%s of %llu bytes at %s address 0x%llx", wr ? "write" : "read", (unsigned long long)size, addr < 0x10000 ? "null" : "invalid", (unsigned long long)addr); violate(s, addr < 0x10000 ? "null-deref" : "invalid-access", b); }
    off = addr & 0xFFFFF;
    if (o->cont) { off += (uint64_t)o->cont << 20; o = slotGet(s, addr - ((uint64_t)o->cont << 20)); }
    if (o->freed) { violate(s, "use-after-free", std::string(wr ? "write to" : "read of") + " released memory (allocated at " + locStr(o->loc) + ", released at " + locStr(o->freeLoc) + ")"); }
    if (o->kind == K_FN) violate(s, "invalid-access", "data access to a function");
    if (off + size > o->size) { char b[128]; snprintf(b, sizeof b, "%s of %llu bytes at offset %llu of an object of %u bytes", wr ? "write" : "read", (unsigned long long)size, (unsigned long long)off, o->size); violate(s, "out-of-bounds", b); }
    if (wr && o->ro) violate(s, "write-to-constant", "write to read-only memory");
    return o;
}
static inline Obj *writable(State &s, uint64_t addr, Obj *o) { (void)o; Obj *h = slotGet(s, addr); if (h->cont) addr -= (uint64_t)h->cont << 20; return slotW(s, addr); }
static Val memLoad(State &s, uint64_t addr, unsigned w) {
    uint64_t off; unsigned n = (w + 7) / 8; Obj *o = access(s, addr, n, false, off);
    if (o->s) { bool any = false; for (unsigned i = 0; i < n; i++) if (o->s[off + i].e) { any = true; break; }
        if (any) { auto &f = o->s[off]; bool same = f.e; for (unsigned i = 1; same && i < n; i++) same = o->s[off + i].e == f.e && o->s[off + i].i == f.i + i;
            if (same && (f.i + n) * 8u <= f.e->w) return fromE(mkExtract(f.e, f.i * 8, w));
            E r = nullptr; for (int i = (int)n - 1; i >= 0; i--) { auto &sb = o->s[off + i]; E x = sb.e ? mkExtract(sb.e->w < 8 * (sb.i + 1u) ? mkZExt(sb.e, 8 * (sb.i + 1)) : sb.e, sb.i * 8, 8) : mkConst(o->b[off + i], 8); r = r ? mkConcat(r, x) : x; } if (w < n * 8) r = mkExtract(r, 0, w); return fromE(r); } }
    uint64_t v = 0; memcpy(&v, o->b + off, n); return cv(v & maskw(w));
}
static void memStore(State &s, uint64_t addr, const Val &v, unsigned w) {
    uint64_t off; unsigned n = (w + 7) / 8; Obj *o = access(s, addr, n, true, off); o = writable(s, addr, o);
    if (v.e) { if (!o->s) { o->s = (SymByte *)calloc(o->size, sizeof(SymByte)); } E e = v.e->w < n * 8 ? mkZExt(v.e, n * 8) : v.e; for (unsigned i = 0; i < n; i++) o->s[off + i] = SymByte{e, (uint8_t)i}; return; }
    uint64_t c = v.c & maskw(w); memcpy(o->b + off, &c, n); if (o->s) for (unsigned i = 0; i < n; i++) o->s[off + i].e = nullptr;
}
static void memCopy(State &s, uint64_t d, uint64_t a, uint64_t n) {
    if (!n) return; uint64_t fo, to; Obj *f = access(s, a, n, false, fo); std::vector<uint8_t> b(f->b + fo, f->b + fo + n); std::vector<SymByte> sb; if (f->s) sb.assign(f->s + fo, f->s + fo + n);
    Obj *t = access(s, d, n, true, to); t = writable(s, d, t); memcpy(t->b + to, b.data(), n);
    bool any = false; for (auto &x : sb) if (x.e) any = true;
    if (any) { if (!t->s) t->s = (SymByte *)calloc(t->size, sizeof(SymByte)); memcpy(t->s + to, sb.data(), n * sizeof(SymByte)); } else if (t->s) memset(t->s + to, 0, n * sizeof(SymByte));
}
static void memSet(State &s, uint64_t d, Val v, uint64_t n) { if (!n) return; uint64_t to; Obj *t = access(s, d, n, true, to); t = writable(s, d, t); if (v.e) { E e = mkExtract(v.e, 0, 8); if (!t->s) t->s = (SymByte *)calloc(t->size, sizeof(SymByte)); for (uint64_t i = 0; i < n; i++) t->s[to + i] = SymByte{e, 0}; return; } memset(t->b + to, (int)v.c, n); if (t->s) memset(t->s + to, 0, n * sizeof(SymByte)); }
static std::string readStr(State &s, uint64_t a) { std::string r; for (int i = 0; i < 4096; i++) { Val v = memLoad(s, a + i, 8); if (v.e) v = cv(evalExpr(v.e, s.model)); if (!v.c) break; r += (char)v.c; } return r; }
static uint64_t heapAlloc(State &s, uint64_t size, AK ak, OK kind, uint32_t loc) {
    if (size > (64u << 20)) throw EngineErr{"allocation too large"};
    // what operator new gives lies in a region of its own: the native build (rt/native.cpp) hands out the same addresses, so that pointer-keyed hash containers are iterated in the same order
    bool isNew = ak == A_NEW || ak == A_NEWARR; uint64_t &next = isNew ? s.heapNext : s.mallocNext;
    uint64_t slots = 1 + (size >> 20); uint64_t a = ((isNew ? 7ull : 1ull) << 44) | (next << 20); next += slots; Obj *o = objNew((uint32_t)size, kind, true); o->ak = ak; o->loc = loc; slotSet(s, a, o);
    for (uint64_t i = 1; i < slots; i++) { Obj *c = objNew(0, kind, false); c->cont = (uint32_t)i; slotSet(s, a + (i << 20), c); }
    if (kind == K_HEAP) s.live++; return a;
}
static uint32_t curLoc(State &s) { auto &t = s.th[s.cur]; for (size_t i = t.fr.size(); i-- > 0;) { auto &f = t.fr[i]; uint32_t pc = i + 1 == t.fr.size() ? f.pc : f.callPc; uint32_t l = pc < f.fn->code.size() ? f.fn->code[pc].loc : 0; if (f.fn->repo && l) return l; } if (t.fr.empty()) return 0; auto &f = t.fr.back(); return f.pc < f.fn->code.size() ? f.fn->code[f.pc].loc : 0; }
static void heapFree(State &s, uint64_t a, AK ak) {
    if (!a) return; Obj *o = slotGet(s, a); if (!o || o->kind != K_HEAP || (a & 0xFFFFF) || o->cont) violate(s, "bad-free", "release of a pointer that was not allocated");
    if (o->freed) violate(s, "double-free", "memory released twice (allocated at " + locStr(o->loc) + ")");
    if (o->ak != ak) violate(s, "mismatched-free", "allocation and release functions do not match");
    if (s.th.size() > 1 && a >> 44 == 7 && s.race.released(s.cur, a, o->size)) violate(s, "data-race", "memory is released while another thread still accesses it");
    o = slotW(s, a); o->freed = true; o->freeLoc = curLoc(s); free(o->b); o->b = nullptr; free(o->s); o->s = nullptr; s.live--;
}

// ------------------------------------------------------------------ frames
static void pushFrame(State &s, Thread &t, Fn *fn, const std::vector<Val> &args, int32_t dst, uint32_t retLeaves) {
    if (!fn->decoded) mod.decode(fn);
    if (fn->code.empty()) throw EngineErr{"call of external function " + fn->dname};
    if (t.fr.size() > opt.maxDepth) violate(s, "stack-overflow", "recursion deeper than " + std::to_string(opt.maxDepth) + " frames");
    fn->calls++; Frame f; f.fn = fn; f.pc = 0; f.base = (uint32_t)t.rs.size(); f.dst = dst; f.retLeaves = retLeaves; f.stackMark = t.stackNext; f.callPc = 0; t.rs.resize(t.rs.size() + fn->nregs, cv(0));
    size_t n = std::min<size_t>(args.size(), fn->nargs); for (size_t i = 0; i < n; i++) t.rs[f.base + i] = args[i];
    t.fr.push_back(f);
}
static void dropStack(State &s, Thread &t, uint32_t mark) { unsigned tid = (unsigned)(&t - &s.th[0]); while (t.stackNext > mark) { t.stackNext--; uint64_t a = ((uint64_t)(2 + tid) << 44) | ((uint64_t)(t.stackNext + 1) << 20); slotSet(s, a, nullptr); } }
static void popFrame(State &s, Thread &t) { Frame &f = t.fr.back(); dropStack(s, t, f.stackMark); t.rs.resize(f.base); t.fr.pop_back(); }
static void takeEdge(Thread &t, Frame &f, uint32_t e) {
    const Edge &ed = f.fn->edges[e]; Val *R = &t.rs[f.base]; size_t n = ed.moves.size();
    auto get = [&](int32_t i) { return i >= 0 ? R[i] : f.fn->consts[-i - 1]; };
    if (n == 1) R[ed.moves[0].first] = get(ed.moves[0].second);
    else if (n) { Val tmp[64]; if (n > 64) { std::vector<Val> v(n); for (size_t i = 0; i < n; i++) v[i] = get(ed.moves[i].second); for (size_t i = 0; i < n; i++) R[ed.moves[i].first] = v[i]; } else { for (size_t i = 0; i < n; i++) tmp[i] = get(ed.moves[i].second); for (size_t i = 0; i < n; i++) R[ed.moves[i].first] = tmp[i]; } }
    f.pc = ed.target;
}
// value returned by a builtin or function to the calling frame `f` whose pc is at the call
static void finishCall(Thread &t, Val *vals, unsigned n) {
    Frame &f = t.fr.back(); const Inst &I = f.fn->code[f.pc]; const CallInfo *ci = (const CallInfo *)I.p;
    if (I.dst >= 0) for (unsigned i = 0; i < I.imm; i++) t.rs[f.base + I.dst + i] = i < n ? vals[i] : cv(0);
    if (ci->normal >= 0) takeEdge(t, f, (uint32_t)ci->normal); else f.pc++;
}

// ------------------------------------------------------------------ RTTI & exceptions
static uint64_t ld(State &s, uint64_t a) { return concretize(s, memLoad(s, a, 64), 64); }
static uint64_t gaddr(const char *n) { auto it = mod.globalByName.find(n); return it == mod.globalByName.end() ? 0 : it->second; }
static bool findBase(State &s, uint64_t ti, uint64_t p, uint64_t want, uint64_t &out) {
    static uint64_t si = gaddr("_ZTVN10__cxxabiv120__si_class_type_infoE"), vmi = gaddr("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
    if (ti == want) { out = p; return true; }
    uint64_t vp = ld(s, ti);
    if (si && vp == si + 16) return findBase(s, ld(s, ti + 16), p, want, out);
    if (vmi && vp == vmi + 16) { uint64_t n = ld(s, ti + 16) >> 32; for (uint64_t i = 0; i < n; i++) { uint64_t bt = ld(s, ti + 24 + 16 * i); int64_t of = (int64_t)ld(s, ti + 32 + 16 * i); int64_t o = of >> 8; uint64_t bp; if (of & 1) { if (!p) { bp = 0; } else { uint64_t vt = ld(s, p); bp = p + ld(s, vt + o); } } else bp = p + o; if (findBase(s, bt, bp, want, out)) return true; } }
    return false;
}
static std::map<uint64_t, uint32_t> tids; static uint32_t typeId(uint64_t a) { auto it = tids.find(a); if (it != tids.end()) return it->second; uint32_t v = tids.size() + 1; tids[a] = v; return v; }
static void unwind(State &s) {
    Thread &t = s.th[s.cur];
    // phase 1: is there a handler at all
    for (size_t i = t.fr.size(); i-- > 0;) {
        Frame &f = t.fr[i]; uint32_t pc = f.pc;
        const Inst &I = f.fn->code[pc];
        if (I.op == OP_CALL) { const CallInfo *ci = (const CallInfo *)I.p;
            if (ci->unwind >= 0) {
                uint32_t tgt = f.fn->edges[ci->unwind].target; const Inst &L = f.fn->code[tgt]; if (L.op != OP_LPAD) throw EngineErr{"no landing pad"};
                const LPInfo *lp = (const LPInfo *)L.p; uint32_t sel = 0; bool hit = lp->cleanup; uint64_t adj = t.excObj;
                for (auto &c : lp->clauses) { uint64_t out; if (c.first == 1) { hit = true; sel = 0xFFFFFFFF; break; } if (c.second == 0 || findBase(s, t.excTi, t.excObj, c.second, out)) { hit = true; sel = typeId(c.second); if (c.second) adj = out; break; } }
                if (hit) { while (t.fr.size() > i + 1) popFrame(s, t); Frame &g = t.fr.back(); takeEdge(t, g, (uint32_t)ci->unwind); Val *R = &t.rs[g.base]; R[L.dst] = cv(adj); R[L.dst + 1] = cv(sel); g.pc = tgt + 1; t.unwinding=false; return; }
            }
        }
        if (f.fn->nounwind) violate(s, "terminate", "exception leaves a noexcept function " + f.fn->dname);
    }
    violate(s, "terminate", "uncaught exception");
}

// ------------------------------------------------------------------ scheduling
static bool enabledT(State &s, unsigned i) { Thread &t = s.th[i]; switch (t.st) { case T_RUN: return true; case T_MUTEX: { auto it = s.mtx.find(t.wait); return it == s.mtx.end() || it->second.count == 0; } case T_JOIN: return s.th[t.wait].st == T_DONE; default: return false; } }
static void wake(State &s, unsigned i) { // make thread i runnable when chosen
    Thread &t = s.th[i];
    if (t.st == T_COND) { // time-out
        t.condResult = true; auto &m = s.mtx[t.mutex]; if (m.count == 0) { t.st = T_RUN; } else { t.st = T_MUTEX; t.wait = t.mutex; t.timed = false; } }
    else t.st = T_RUN;
}
static void chooseThread(State &s, bool mustSwitch) {
    // when schedules matter: pick the next thread to run; a new symbolic choice per decision
    std::vector<unsigned> en; bool curOk = !mustSwitch && s.th[s.cur].st == T_RUN;
    if (curOk) en.push_back(s.cur);
    if (!curOk || s.preempts < opt.preempt) for (unsigned i = 0; i < s.th.size(); i++) if (i != s.cur || !curOk) if (enabledT(s, i)) { en.push_back(i); }
    if (en.empty()) for (unsigned i = 0; i < s.th.size(); i++) if (s.th[i].st == T_COND && s.th[i].timed) en.push_back(i); // a deadline is later than anything which is ready to run
    if (en.empty()) { violate(s, "deadlock", "no thread can make progress"); }
    unsigned k = 0;
    if (en.size() > 1) {
        Val v = newVar(s, "sched" + std::to_string(s.nsched++), 8); pushConstraint(s, mkBin(EUlt, v.e, mkConst(en.size(), 8)));
        // enumerate: fork a state per alternative
        for (unsigned i = 1; i < en.size(); i++) { E eq = mkEq(v.e, mkConst(i, 8)); Assign m; if (!feasible(s, eq, m)) continue; State *n = forkState(s); n->model = m; pushConstraint(*n, eq); if (curOk) n->preempts++; n->cur = en[i]; wake(*n, en[i]); n->schedDone = true; work.push_back(n); }
        E eq = mkEq(v.e, mkConst(0, 8)); pushConstraint(s, eq); s.model[v.e->c] = 0;
    }
    s.cur = en[k]; wake(s, en[k]);
    s.schedDone = true;
}
// returns true when the current instruction has to be fetched again (thread switch)
static bool schedPoint(State &s) {
    if (s.th.size() < 2) return false;
    if (s.schedDone) { s.schedDone = false; return false; }
    unsigned alive = 0; for (auto &t : s.th) if (t.st != T_DONE) alive++;
    if (alive < 2) return false;
    chooseThread(s, false); return true;
}

// ------------------------------------------------------------------ builtins
enum BI { B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWARR, B_NEWNT, B_NEWARRNT, B_NEWAL, B_DEL, B_DELARR, B_DELSZ, B_DELARRSZ, B_DELAL, B_POSIXMEM, B_ALIGNED, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_STRLEN, B_ASSERT, B_ABORT, B_EXIT, B_PUREV, B_TERM, B_UNREACH,
    B_ATEXIT, B_DYNCAST, B_CXA_ALLOC, B_CXA_FREE, B_CXA_THROW, B_CXA_BEGIN, B_CXA_END, B_CXA_RETHROW, B_CXA_GET, B_UNCAUGHT, B_PERSONALITY, B_CALLTERM,
    B_SYM, B_RANGE, B_CHOICE, B_ASSUME, B_CHECK, B_REACH, B_LOG, B_LIVE, B_END, B_FAIL, B_CONC, B_ISSYM, B_DBG, B_EQUALS,
    B_MLOCK, B_MTRY, B_MUNLOCK, B_MINIT, B_CWAIT, B_CTWAIT, B_CSIG, B_CBROAD, B_TCREATE, B_TJOIN, B_TSELF, B_YIELD, B_TCOUNT, B_RELEASE, B_NOP0, B_TRAP };
static const std::map<std::string, int> &bmap() {
    static std::map<std::string, int> m = {
        {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"_Znwm", B_NEW}, {"_Znam", B_NEWARR}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEWARR}, {"_ZnwmSt11align_val_t", B_NEW}, {"_ZdlPv", B_DEL}, {"_ZdaPv", B_DELARR}, {"_ZdlPvm", B_DEL}, {"_ZdaPvm", B_DELARR}, {"_ZdlPvSt11align_val_t", B_DEL}, {"_ZdlPvmSt11align_val_t", B_DEL}, {"_ZdlPvRKSt9nothrow_t", B_DEL},
        {"posix_memalign", B_POSIXMEM}, {"aligned_alloc", B_ALIGNED}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN},
        {"__assert_fail", B_ASSERT}, {"abort", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT}, {"__cxa_pure_virtual", B_PUREV}, {"_ZSt9terminatev", B_TERM}, {"__clang_call_terminate", B_CALLTERM}, {"llvm.trap", B_TRAP}, {"llvm.ubsantrap", B_TRAP}, {"llvm.debugtrap", B_TRAP},
        {"__cxa_atexit", B_ATEXIT}, {"__cxa_thread_atexit", B_ATEXIT}, {"atexit", B_ATEXIT}, {"__dynamic_cast", B_DYNCAST}, {"__cxa_allocate_exception", B_CXA_ALLOC}, {"__cxa_free_exception", B_CXA_FREE}, {"__cxa_throw", B_CXA_THROW}, {"__cxa_begin_catch", B_CXA_BEGIN}, {"__cxa_end_catch", B_CXA_END}, {"__cxa_rethrow", B_CXA_RETHROW}, {"__cxa_get_exception_ptr", B_CXA_GET}, {"_ZSt18uncaught_exceptionv", B_UNCAUGHT}, {"_ZSt19uncaught_exceptionsv", B_UNCAUGHT}, {"__gxx_personality_v0", B_PERSONALITY},
        {"vp_sym", B_SYM}, {"vp_range", B_RANGE}, {"vp_choice", B_CHOICE}, {"vp_assume", B_ASSUME}, {"vp_check", B_CHECK}, {"vp_reach", B_REACH}, {"vp_log", B_LOG}, {"vp_live", B_LIVE}, {"vp_end", B_END}, {"vp_fail", B_FAIL}, {"vp_concretize", B_CONC}, {"vp_debug", B_DBG}, {"vp_may_equal", B_EQUALS},
        {"pthread_mutex_lock", B_MLOCK}, {"pthread_mutex_trylock", B_MTRY}, {"pthread_mutex_unlock", B_MUNLOCK}, {"pthread_mutex_init", B_MINIT}, {"pthread_mutex_destroy", B_MINIT}, {"vp_cond_wait", B_CWAIT}, {"vp_cond_timedwait", B_CTWAIT}, {"vp_cond_signal", B_CSIG}, {"vp_cond_broadcast", B_CBROAD}, {"vp_thread_create", B_TCREATE}, {"vp_thread_join", B_TJOIN}, {"pthread_self", B_TSELF}, {"vp_yield", B_YIELD}, {"sched_yield", B_YIELD}, {"pthread_cond_init", B_MINIT}, {"pthread_cond_destroy", B_MINIT}, {"vp_threads", B_TCOUNT}, {"vp_race_release", B_RELEASE}};
    return m;
}
int builtinId(const std::string &n) { auto it = bmap().find(n); if (it != bmap().end()) return it->second; if (n.compare(0, 11, "llvm.memcpy") == 0) return B_MEMCPY; if (n.compare(0, 12, "llvm.memmove") == 0) return B_MEMMOVE; if (n.compare(0, 11, "llvm.memset") == 0) return B_MEMSET; return -1; }
int builtinOverride(const std::string &n) { if (n == "__clang_call_terminate") return B_CALLTERM; return -1; }

static void endSample(State &s) {
    uint64_t h = 1469598103934665603ull; for (auto &l : s.log) { uint64_t v = l.v.e ? evalExpr(l.v.e, s.model) : l.v.c; h = (h ^ l.tag) * 1099511628211ull; h = (h ^ v) * 1099511628211ull; } traceHashes.insert(h);
    traceSeen++; size_t slot; if (samples.size() < opt.samples) { slot = samples.size(); samples.emplace_back(); } else { slot = rng() % traceSeen; if (slot >= opt.samples) return; }
    Assign m = s.model; if (solverCheckAll(s.pc, m) != 1) m = s.model;
    Sample sp; sp.inputs = inputsOf(s, m); for (auto &l : s.log) sp.log.push_back({strs[l.tag], l.v.e ? evalExpr(l.v.e, m) : l.v.c});
    std::string c; for (size_t i = 0; i < s.pc.size() && c.size() < 400; i++) c += (i ? " & " : "") + exprStr(s.pc[i], 3); sp.cond = c; samples[slot] = sp;
}
static void startThrow(State &s, uint64_t obj, uint64_t ti) { Thread &t = s.th[s.cur]; t.excObj = obj; t.excTi = ti; unwind(s); }

// executes a builtin; returns true if finishCall must be done with ret (n leaves)
static bool builtin(State &s, int id, std::vector<Val> &a, Val *ret, unsigned &n) {
    Thread &t = s.th[s.cur]; n = 1; ret[0] = cv(0); auto C = [&](size_t i, unsigned w = 64) { return a[i].e ? (a[i].c = concretize(s, a[i], w), a[i].e = nullptr, a[i].c) : a[i].c; };
    switch (id) {
    case B_MALLOC: ret[0] = cv(heapAlloc(s, C(0), A_MALLOC, K_HEAP, curLoc(s))); return true;
    case B_CALLOC: { uint64_t z = C(0) * C(1); uint64_t p = heapAlloc(s, z, A_MALLOC, K_HEAP, curLoc(s)); memSet(s, p, cv(0), z); ret[0] = cv(p); return true; }
    case B_REALLOC: { uint64_t o = C(0), z = C(1); uint64_t p = heapAlloc(s, z, A_MALLOC, K_HEAP, curLoc(s)); if (o) { Obj *ob = slotGet(s, o); if (ob) memCopy(s, p, o, std::min<uint64_t>(z, ob->size)); heapFree(s, o, A_MALLOC); } ret[0] = cv(p); return true; }
    case B_FREE: heapFree(s, C(0), A_MALLOC); return true;
    case B_NEW: ret[0] = cv(heapAlloc(s, C(0), A_NEW, K_HEAP, curLoc(s))); return true;
    case B_NEWARR: ret[0] = cv(heapAlloc(s, C(0), A_NEWARR, K_HEAP, curLoc(s))); return true;
    case B_DEL: heapFree(s, C(0), A_NEW); return true;
    case B_DELARR: heapFree(s, C(0), A_NEWARR); return true;
    case B_POSIXMEM: { uint64_t p = heapAlloc(s, C(2), A_MALLOC, K_HEAP, curLoc(s)); memStore(s, C(0), cv(p), 64); return true; }
    case B_ALIGNED: ret[0] = cv(heapAlloc(s, C(1), A_MALLOC, K_HEAP, curLoc(s))); return true;
    case B_MEMCPY: case B_MEMMOVE: memCopy(s, C(0), C(1), C(2)); ret[0] = a[0]; return true;
    case B_MEMSET: memSet(s, C(0), a[1], C(2)); ret[0] = a[0]; return true;
    case B_MEMCMP: { uint64_t p = C(0), q = C(1), k = C(2); bool sym = false; std::vector<Val> x(k), y(k); for (uint64_t i = 0; i < k; i++) { x[i] = memLoad(s, p + i, 8); y[i] = memLoad(s, q + i, 8); if (x[i].e || y[i].e) sym = true; }
        if (!sym) { int r = 0; for (uint64_t i = 0; i < k; i++) if (x[i].c != y[i].c) { r = x[i].c < y[i].c ? -1 : 1; break; } ret[0] = cv((uint32_t)r); return true; }
        E r = mkConst(0, 32); for (uint64_t i = k; i-- > 0;) { E A = toE(x[i], 8), B = toE(y[i], 8); r = mkIte(mkEq(A, B), r, mkIte(mkBin(EUlt, A, B), mkConst(0xFFFFFFFF, 32), mkConst(1, 32))); } ret[0] = fromE(r); return true; }
    case B_STRLEN: { uint64_t p = C(0), k = 0; while (true) { Val v = memLoad(s, p + k, 8); if (v.e) v.c = concretize(s, v, 8); if (!v.c) break; k++; } ret[0] = cv(k); return true; }
    case B_ASSERT: violate(s, "assertion", "assertion `" + readStr(s, C(0)) + "' failed in " + readStr(s, C(1)).substr(readStr(s, C(1)).rfind('/') + 1));
    case B_ABORT: violate(s, "abort", "abort() called"); case B_EXIT: throw PathEnd{PE_DONE};
    case B_PUREV: violate(s, "pure-virtual", "pure virtual function called"); case B_TERM: case B_CALLTERM: violate(s, "terminate", "std::terminate called (exception escapes a noexcept function)"); case B_TRAP: violate(s, "trap", "trap instruction reached");
    case B_ATEXIT: return true; case B_PERSONALITY: return true; case B_NOP0: return true;
    case B_DYNCAST: { uint64_t p = C(0), dt = C(2); if (!p) return true; uint64_t vt = ld(s, p); int64_t off = (int64_t)ld(s, vt - 16); uint64_t ti = ld(s, vt - 8); uint64_t out = 0; if (findBase(s, ti, p + off, dt, out)) ret[0] = cv(out); return true; }
    case B_CXA_ALLOC: ret[0] = cv(heapAlloc(s, C(0), A_NONE, K_EXC, 0)); return true; case B_CXA_FREE: return true;
    case B_CXA_THROW: startThrow(s, C(0), C(1)); return false;
    case B_CXA_BEGIN: t.caught.push_back({t.excObj, t.excTi}); ret[0] = a[0]; return true; case B_CXA_GET: ret[0] = a[0]; return true;
    case B_CXA_END: if (!t.caught.empty()) t.caught.pop_back(); return true;
    case B_CXA_RETHROW: { if (t.caught.empty()) violate(s, "terminate", "rethrow without exception"); auto p = t.caught.back(); startThrow(s, p.first, p.second); return false; }
    case B_UNCAUGHT: return true;
    case B_SYM: { unsigned w = (unsigned)C(1); Val v = newVar(s, readStr(s, C(0)), w); ret[0] = fromE(mkZExt(v.e, 64)); return true; }
    case B_RANGE: { uint64_t lo = C(1), hi = C(2); if (lo > hi) throw EngineErr{"vp_range"}; unsigned w = 1; while (w < 64 && (hi >> w)) w++; std::string nm = readStr(s, C(0)); if (lo == hi) { ret[0] = cv(lo); return true; } Val v = newVar(s, nm, w); pushConstraint(s, mkBin(EUle, mkConst(lo, w), v.e)); pushConstraint(s, mkBin(EUle, v.e, mkConst(hi, w))); s.model[v.e->c] = lo; ret[0] = fromE(mkZExt(v.e, 64)); return true; }
    case B_CHOICE: { uint64_t k = C(1); if (k < 1) throw EngineErr{"vp_choice"}; if (k == 1) { ret[0] = cv(0); return true; } unsigned w = 1; while (w < 32 && ((k - 1) >> w)) w++; std::string nm = readStr(s, C(0)); Val v = newVar(s, nm, w); pushConstraint(s, mkBin(EUle, v.e, mkConst(k - 1, w))); s.model[v.e->c] = 0;
        for (uint64_t i = k; i-- > 1;) { E eq = mkEq(v.e, mkConst(i, w)); Assign m; if (!feasible(s, eq, m)) continue; State *x = forkState(s); x->model = m; pushConstraint(*x, eq); Val r = cv(i); finishCall(x->th[x->cur], &r, 1); work.push_back(x); }
        pushConstraint(s, mkEq(v.e, mkConst(0, w))); ret[0] = cv(0); return true; }
    case B_ASSUME: { E c = a[0].e ? mkNot(mkEq(a[0].e, mkConst(0, a[0].e->w))) : mkConst(a[0].c != 0, 1); if (c->k == EConst) { if (!c->c) throw PathEnd{PE_INFEAS}; return true; } Assign m; if (!feasible(s, c, m)) throw PathEnd{PE_INFEAS}; s.model = m; pushConstraint(s, c); return true; }
    case B_CHECK: { std::string msg = readStr(s, C(1)); stats.checks++; checkCnt[msg]++; E c = a[0].e ? mkNot(mkEq(a[0].e, mkConst(0, a[0].e->w))) : mkConst((uint32_t)a[0].c != 0, 1);
        if (c->k == EConst) { if (!c->c) violate(s, "check", msg); return true; }
        stats.checksSolver++; Assign m; if (feasible(s, mkNot(c), m)) { addViol(s, "check", msg, m); Assign m2; if (!feasible(s, c, m2)) throw PathEnd{PE_VIOL}; s.model = m2; } else { m = s.model; if (!evalExpr(c, m)) throw EngineErr{"model lost"}; } pushConstraint(s, c); return true; }
    case B_FAIL: violate(s, "check", readStr(s, C(0)));
    case B_REACH: { uint32_t i = internStr(readStr(s, C(0))); if (std::find(s.reached.begin(), s.reached.end(), i) == s.reached.end()) s.reached.push_back(i); return true; }
    case B_LOG: s.log.push_back({internStr(readStr(s, C(0))), a[1]}); return true;
    case B_LIVE: ret[0] = cv(s.live); return true;
    case B_END: throw PathEnd{PE_DONE};
    case B_CONC: ret[0] = cv(C(0)); return true;
    case B_EQUALS: ret[0] = cv(0); return true;
    case B_DBG: if (opt.verbose) { fprintf(stderr, "dbg %s = %s\n", readStr(s, C(0)).c_str(), a[1].e ? exprStr(a[1].e).c_str() : std::to_string(a[1].c).c_str()); } return true;
    case B_MINIT: return true;
    case B_MLOCK: { uint64_t m = C(0); if (schedPoint(s)) return false; auto &mx = s.mtx[m]; if (mx.count && mx.owner != (int)s.cur) { s.th[s.cur].st = T_MUTEX; s.th[s.cur].wait = m; chooseThread(s, true); return false; } if (mx.count) violate(s, "deadlock", "mutex locked twice by the same thread"); mx.owner = (int)s.cur; mx.count = 1; if (s.th.size() > 1) s.race.lock(s.cur, m); return true; }
    case B_MTRY: { uint64_t m = C(0); if (schedPoint(s)) return false; auto &mx = s.mtx[m]; if (mx.count) { ret[0] = cv(16); return true; } mx.owner = (int)s.cur; mx.count = 1; if (s.th.size() > 1) s.race.lock(s.cur, m); return true; }
    case B_MUNLOCK: { uint64_t m = C(0); if (schedPoint(s)) return false; auto &mx = s.mtx[m]; if (!mx.count || mx.owner != (int)s.cur) violate(s, "mutex", "unlock of a mutex not held"); mx.count = 0; if (s.th.size() > 1) s.race.unlock(s.cur, m); return true; }
    case B_CWAIT: case B_CTWAIT: { uint64_t c = C(0), m = C(1);
        if (s.th[s.cur].cphase == 1) { // woken up: take the mutex again
            s.schedDone = false; auto &mx = s.mtx[m]; Thread &th = s.th[s.cur];
            if (mx.count) { th.st = T_MUTEX; th.wait = m; chooseThread(s, true); return false; }
            mx.owner = (int)s.cur; mx.count = 1; if (s.th.size() > 1) s.race.lock(s.cur, m); th.cphase = 0; ret[0] = cv(th.condResult ? 1 : 0); th.condResult = false; return true; }
        if (schedPoint(s)) return false;
        auto &mx = s.mtx[m]; if (!mx.count || mx.owner != (int)s.cur) violate(s, "mutex", "condition wait without holding the mutex"); mx.count = 0; if (s.th.size() > 1) s.race.unlock(s.cur, m);
        Thread &th = s.th[s.cur]; th.st = T_COND; th.wait = c; th.mutex = m; th.timed = id == B_CTWAIT; th.condResult = false; th.cphase = 1; chooseThread(s, true); return false; }
    case B_CSIG: case B_CBROAD: { uint64_t c = C(0); if (schedPoint(s)) return false; for (auto &x : s.th) if (x.st == T_COND && x.wait == c) { x.st = T_MUTEX; x.wait = x.mutex; x.timed = false; if (id == B_CSIG) break; } return true; }
    case B_TCREATE: { uint64_t f = C(0); auto it = mod.fnAt.find(f); if (it == mod.fnAt.end()) throw EngineErr{"thread function"}; if (s.th.size() >= 5) throw EngineErr{"too many threads"}; s.th.emplace_back(); s.race.create(s.cur, (unsigned)s.th.size() - 1); pushFrame(s, s.th.back(), it->second, {a[1]}, -1, 0); ret[0] = cv(s.th.size() - 1); return true; }
    case B_TJOIN: { uint64_t i = C(0); if (i >= s.th.size()) throw EngineErr{"join"}; if (s.th[i].st != T_DONE) { s.th[s.cur].st = T_JOIN; s.th[s.cur].wait = i; chooseThread(s, true); return false; } s.schedDone = false; s.race.join(s.cur, (unsigned)i); return true; }
    case B_RELEASE: if (s.th.size() > 1) s.race.release(s.cur, C(0)); return true;
    case B_TSELF: ret[0] = cv(s.cur + 1); return true;
    case B_TCOUNT: ret[0] = cv(s.th.size()); return true;
    case B_YIELD: if (schedPoint(s)) return false; return true;
    default: throw EngineErr{"builtin " + std::to_string(id)};
    }
}

// ------------------------------------------------------------------ interpreter
static double asD(uint64_t c, unsigned w) { if (w == 32) { float f; uint32_t u = (uint32_t)c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static uint64_t frD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t c; memcpy(&c, &d, 8); return c; }
static Val binop(State &s, Op op, unsigned w, const Val &a, const Val &b) {
    static const EK K[] = {EAdd, ESub, EMul, EUDiv, ESDiv, EURem, ESRem, EAnd, EOr, EXor, EShl, ELShr, EAShr};
    if (op <= OP_ASHR) {
        bool dv = op >= OP_UDIV && op <= OP_SREM;
        if (!a.e && !b.e) { uint64_t r; if (!foldBin(K[op], w, a.c, b.c, r)) violate(s, "division-by-zero", "division by zero"); return cv(r); }
        if (dv) { if (b.e) { E z = mkEq(b.e, mkConst(0, w)); if (decide(s, z)) violate(s, "division-by-zero", "division by zero"); } else if (!b.c) violate(s, "division-by-zero", "division by zero"); }
        return fromE(mkBin(K[op], toE(a, w), toE(b, w)));
    }
    bool sym = a.e || b.e;
    if (!sym) { uint64_t x = a.c & maskw(w), y = b.c & maskw(w); int64_t p = sx(x, w), q = sx(y, w); switch (op) { case OP_EQ: return cv(x == y); case OP_NE: return cv(x != y); case OP_ULT: return cv(x < y); case OP_ULE: return cv(x <= y); case OP_UGT: return cv(x > y); case OP_UGE: return cv(x >= y); case OP_SLT: return cv(p < q); case OP_SLE: return cv(p <= q); case OP_SGT: return cv(p > q); default: return cv(p >= q); } }
    E x = toE(a, w), y = toE(b, w);
    switch (op) { case OP_EQ: return fromE(mkEq(x, y)); case OP_NE: return fromE(mkNot(mkEq(x, y))); case OP_ULT: return fromE(mkBin(EUlt, x, y)); case OP_ULE: return fromE(mkBin(EUle, x, y)); case OP_UGT: return fromE(mkBin(EUlt, y, x)); case OP_UGE: return fromE(mkBin(EUle, y, x)); case OP_SLT: return fromE(mkBin(ESlt, x, y)); case OP_SLE: return fromE(mkBin(ESle, x, y)); case OP_SGT: return fromE(mkBin(ESlt, y, x)); default: return fromE(mkBin(ESle, y, x)); }
}
static bool sharedAddr(State &s, uint64_t a) { (void)s; unsigned r = a >> 44; return r < 2 || r != 2 + s.cur; }

// happens-before: memory which the program shares between its threads (not the nodes of the lock-free containers, which come from malloc)
static void noteAccess(State &s, uint64_t a, unsigned w, bool write, bool atomic) {
    unsigned r = (unsigned)(a >> 44); if (r == 1 || r == 2 + s.cur) return;
    if (r == 0 && !write) { Obj *o = slotGet(s, a); if (!o || o->ro) return; }
    if (s.race.access(s.cur, a, (w + 7) / 8, write, atomic)) violate(s, "data-race", "two threads access the same memory without synchronization, one of them writes");
}
static void noteAtomic(State &s, uint64_t a, unsigned w, int kind, unsigned order) { noteAccess(s, a, w, kind != 0, true); if (kind == 0) s.race.aload(s.cur, a, order); else if (kind == 1) s.race.astore(s.cur, a, order); else s.race.armw(s.cur, a, order); }

static void step(State &s) {
    while (true) {
        Thread &t = s.th[s.cur]; Frame &f = t.fr.back(); Fn *fn = f.fn; const Inst *code = fn->code.data(); Val *R = &t.rs[f.base]; const Val *K = fn->consts.data();
        auto G = [&](int32_t i) -> const Val & { return i >= 0 ? R[i] : K[-i - 1]; };
        const Inst &I = code[f.pc]; s.instrs++; fn->hit[f.pc] = 1;
        switch (I.op) {
        case OP_ADD: { const Val &a = G(I.a), &b = G(I.b); if (!a.e && !b.e) R[I.dst] = cv((a.c + b.c) & maskw(I.w)); else R[I.dst] = binop(s, OP_ADD, I.w, a, b); f.pc++; break; }
        case OP_SUB: case OP_MUL: case OP_UDIV: case OP_SDIV: case OP_UREM: case OP_SREM: case OP_AND: case OP_OR: case OP_XOR: case OP_SHL: case OP_LSHR: case OP_ASHR: case OP_EQ: case OP_NE: case OP_ULT: case OP_ULE: case OP_UGT: case OP_UGE: case OP_SLT: case OP_SLE: case OP_SGT: case OP_SGE: { Val v = binop(s, (Op)I.op, I.w, G(I.a), G(I.b)); R[I.dst] = v; f.pc++; break; }
        case OP_SELECT: { const Val &c = G(I.c); if (!c.e) R[I.dst] = (c.c & 1) ? G(I.a) : G(I.b); else { const Val &a = G(I.a), &b = G(I.b); R[I.dst] = fromE(mkIte(c.e, toE(a, I.w), toE(b, I.w))); } f.pc++; break; }
        case OP_ZEXT: { const Val &a = G(I.a); R[I.dst] = a.e ? fromE(mkZExt(a.e, I.w)) : cv(a.c & maskw(I.w2)); f.pc++; break; }
        case OP_SEXT: { const Val &a = G(I.a); R[I.dst] = a.e ? fromE(mkSExt(a.e, I.w)) : cv((uint64_t)sx(a.c, I.w2) & maskw(I.w)); f.pc++; break; }
        case OP_TRUNC: { const Val &a = G(I.a); R[I.dst] = a.e ? fromE(mkExtract(a.e, 0, I.w)) : cv(a.c & maskw(I.w)); f.pc++; break; }
        case OP_MOV: R[I.dst] = G(I.a); f.pc++; break;
        case OP_GEP: { const Val &a = G(I.a); if (!a.e) R[I.dst] = cv(a.c + I.imm); else R[I.dst] = fromE(mkBin(EAdd, a.e, mkConst(I.imm, 64))); f.pc++; break; }
        case OP_GEPX: { const GepInfo *g = (const GepInfo *)I.p; Val v = G(I.a); uint64_t off = I.imm; E eo = nullptr; for (auto &x : g->t) { const Val &i = G(x.r); if (!i.e) off += (uint64_t)sx(i.c, x.w) * x.scale; else { E m = mkBin(EMul, mkSExt(i.e, 64), mkConst(x.scale, 64)); eo = eo ? mkBin(EAdd, eo, m) : m; } }
            if (!v.e && !eo) R[I.dst] = cv(v.c + off); else { E r = mkBin(EAdd, toE(v, 64), mkConst(off, 64)); if (eo) r = mkBin(EAdd, r, eo); R[I.dst] = fromE(r); } f.pc++; break; }
        case OP_LOAD: { const Val &p = G(I.a); uint64_t a = (p.e ? concretize(s, p, 64) : p.c) + I.imm; if (I.w2 && opt.atomicSched && s.th.size() > 1 && sharedAddr(s, a) && schedPoint(s)) break; if (s.th.size() > 1) { if (I.w2) noteAtomic(s, a, I.w, 0, I.w2); else if (!I.b) noteAccess(s, a, I.w, false, false); } Val v = memLoad(s, a, I.w); R[I.dst] = v; f.pc++; break; }
        case OP_STORE: { const Val &p = G(I.b); uint64_t a = (p.e ? concretize(s, p, 64) : p.c) + I.imm; if (I.w2 && opt.atomicSched && s.th.size() > 1 && sharedAddr(s, a) && schedPoint(s)) break; if (s.th.size() > 1) { if (I.w2) noteAtomic(s, a, I.w, 1, I.w2); else if (!I.c) noteAccess(s, a, I.w, true, false); } memStore(s, a, G(I.a), I.w); f.pc++; break; }
        case OP_ALLOCA: { const Val &nv = G(I.a); uint64_t n = nv.e ? concretize(s, nv, 64) : nv.c; uint64_t sz = n * I.imm; if (sz >= (1u << 20)) throw EngineErr{"alloca too large"}; unsigned tid = s.cur; uint64_t a = ((uint64_t)(2 + tid) << 44) | ((uint64_t)(++t.stackNext) << 20); Obj *o = objNew((uint32_t)sz, K_STACK, true); slotSet(s, a, o); R[I.dst] = cv(a); f.pc++; break; }
        case OP_BR: takeEdge(t, f, (uint32_t)I.a); break;
        case OP_CBR: { const Val &c = G(I.c); bool v = c.e ? decide(s, c.e) : (c.c & 1); takeEdge(t, f, (uint32_t)(v ? I.a : I.b)); if (s.instrs > opt.maxInstr) throw PathEnd{PE_LIMIT}; break; }
        case OP_SWITCH: { const SwitchInfo *si = (const SwitchInfo *)I.p; const Val &c = G(I.a); uint32_t e = si->def; if (!c.e) { for (auto &x : si->cases) if (x.first == (c.c & maskw(I.w))) { e = x.second; break; } } else { for (auto &x : si->cases) if (decide(s, mkEq(c.e, mkConst(x.first, I.w)))) { e = x.second; break; } } takeEdge(t, f, e); break; }
        case OP_CALL: {
            const CallInfo *ci = (const CallInfo *)I.p; Fn *callee = ci->fn;
            if (!callee) { const Val &p = G(ci->target); uint64_t a = p.e ? concretize(s, p, 64) : p.c; auto it = mod.fnAt.find(a); if (it == mod.fnAt.end()) { char b[80]; snprintf(b, sizeof b, "call through invalid function pointer 0x%llx", (unsigned long long)a); violate(s, "invalid-call", b); } callee = it->second; }
            std::vector<Val> args(ci->args.size()); for (size_t i = 0; i < args.size(); i++) { args[i] = G(ci->args[i]); }
            for (size_t i = 0; i < args.size(); i++) if (ci->byval[i]) { uint64_t a = ((uint64_t)(2 + s.cur) << 44) | ((uint64_t)(++t.stackNext) << 20); slotSet(s, a, objNew(ci->byval[i], K_STACK, true)); memCopy(s, a, args[i].c, ci->byval[i]); args[i] = cv(a); }
            if (callee->builtin >= 0) { f.callPc = f.pc; Val ret[2]; unsigned n; callee->calls++; if (builtin(s, callee->builtin, args, ret, n)) finishCall(s.th[s.cur], ret, n); break; }
            f.callPc = f.pc; pushFrame(s, t, callee, args, I.dst, (uint32_t)I.imm); break; }
        case OP_RET: {
            Val ret[16]; unsigned n = (unsigned)std::min<uint64_t>(I.imm, 16); for (unsigned i = 0; i < n; i++) ret[i] = G(I.a >= 0 ? I.a + (int)i : I.a - (int)i);
            popFrame(s, t); if (t.fr.empty()) { if (s.cur == 0) throw PathEnd{PE_DONE}; t.st = T_DONE; s.schedDone = false; chooseThread(s, true); break; }
            finishCall(t, ret, n); if (s.instrs > opt.maxInstr) throw PathEnd{PE_LIMIT}; break; }
        case OP_UNREACHABLE: violate(s, "unreachable", "unreachable code reached");
        case OP_LPAD: f.pc++; break;
        case OP_RESUME: { popFrame(s, t); if (t.fr.empty()) violate(s, "terminate", "uncaught exception"); unwind(s); break; }
        case OP_CMPXCHG: { const Val &p = G(I.a); uint64_t a = p.e ? concretize(s, p, 64) : p.c; if (opt.atomicSched && s.th.size() > 1 && sharedAddr(s, a) && schedPoint(s)) break; Val o = memLoad(s, a, I.w); Val eq = binop(s, OP_EQ, I.w, o, G(I.b)); bool v = eq.e ? decide(s, eq.e) : eq.c; if (s.th.size() > 1) noteAtomic(s, a, I.w, v ? 2 : 0, v ? I.w2 & 15 : I.w2 >> 4); if (v) memStore(s, a, G(I.c), I.w); R[I.dst] = o; R[I.dst + 1] = cv(v); f.pc++; break; }
        case OP_RMW: { const Val &p = G(I.a); uint64_t a = p.e ? concretize(s, p, 64) : p.c; if (!I.c && opt.atomicSched && s.th.size() > 1 && sharedAddr(s, a) && schedPoint(s)) break; if (s.th.size() > 1) noteAtomic(s, a, I.w, 2, I.w2); Val o = memLoad(s, a, I.w); const Val &b = G(I.b); Val nv; switch ((llvm::AtomicRMWInst::BinOp)I.imm) { case llvm::AtomicRMWInst::Xchg: nv = b; break; case llvm::AtomicRMWInst::Add: nv = binop(s, OP_ADD, I.w, o, b); break; case llvm::AtomicRMWInst::Sub: nv = binop(s, OP_SUB, I.w, o, b); break; case llvm::AtomicRMWInst::And: nv = binop(s, OP_AND, I.w, o, b); break; case llvm::AtomicRMWInst::Or: nv = binop(s, OP_OR, I.w, o, b); break; case llvm::AtomicRMWInst::Xor: nv = binop(s, OP_XOR, I.w, o, b); break; default: throw EngineErr{"atomicrmw"}; } memStore(s, a, nv, I.w); R[I.dst] = o; f.pc++; break; }
        case OP_MINMAX: { const Val &a = G(I.a), &b = G(I.b); static const Op o[] = {OP_SGT, OP_SLT, OP_UGT, OP_ULT}; Val c = binop(s, o[I.imm], I.w, a, b); R[I.dst] = c.e ? fromE(mkIte(c.e, toE(a, I.w), toE(b, I.w))) : (c.c ? a : b); f.pc++; break; }
        case OP_BITOP: { Val a = G(I.a); if (a.e) { if (I.imm == 4) { E z = mkBin(ESlt, a.e, mkConst(0, I.w)); R[I.dst] = fromE(mkIte(z, mkBin(ESub, mkConst(0, I.w), a.e), a.e)); f.pc++; break; } if (I.imm==3) { E r=nullptr; for(unsigned i=0;i<I.w/8u;i++){ E x=mkExtract(a.e,i*8,8); r=r?mkConcat(r,x):x; } R[I.dst]=fromE(r); f.pc++; break; } a = cv(concretize(s, a, I.w)); } uint64_t x = a.c & maskw(I.w), r = 0; switch (I.imm) { case 0: r = __builtin_popcountll(x); break; case 1: r = x ? __builtin_clzll(x) - (64 - I.w) : I.w; break; case 2: r = x ? __builtin_ctzll(x) : I.w; break; case 3: r = __builtin_bswap64(x) >> (64 - I.w); break; case 4: { int64_t q = sx(x, I.w); r = (uint64_t)(q < 0 ? -q : q) & maskw(I.w); break; } } R[I.dst] = cv(r); f.pc++; break; }
        case OP_OVF: { Val a = G(I.a), b = G(I.b); unsigned w = I.w; if (a.e || b.e) { if (w <= 32) { bool sg = I.imm & 1; Op o = I.imm / 2 == 0 ? OP_ADD : I.imm / 2 == 1 ? OP_SUB : OP_MUL; E x = sg ? mkSExt(toE(a, w), 64) : mkZExt(toE(a, w), 64), y = sg ? mkSExt(toE(b, w), 64) : mkZExt(toE(b, w), 64); Val r = binop(s, o, 64, fromE(x), fromE(y)); E re = toE(r, 64), tr = mkExtract(re, 0, w); E back = sg ? mkSExt(tr, 64) : mkZExt(tr, 64); R[I.dst] = fromE(tr); R[I.dst + 1] = fromE(mkNot(mkEq(re, back))); f.pc++; break; } if (I.imm == 0) { Val r = binop(s, OP_ADD, w, a, b); R[I.dst] = r; R[I.dst + 1] = binop(s, OP_ULT, w, r, a); f.pc++; break; } if (I.imm == 2) { R[I.dst] = binop(s, OP_SUB, w, a, b); R[I.dst + 1] = binop(s, OP_ULT, w, a, b); f.pc++; break; } a = cv(concretize(s, a, w)); b = cv(concretize(s, b, w)); }
            uint64_t x = a.c & maskw(w), y = b.c & maskw(w); bool o; uint64_t r; if (I.imm & 1) { __int128 q = (__int128)sx(x, w); __int128 z = (__int128)sx(y, w); __int128 v = I.imm == 1 ? q + z : I.imm == 3 ? q - z : q * z; r = (uint64_t)v & maskw(w); o = v != (__int128)sx(r, w); } else { unsigned __int128 q = x, z = y; unsigned __int128 v = I.imm == 0 ? q + z : I.imm == 2 ? q - z : q * z; r = (uint64_t)v & maskw(w); o = v != (unsigned __int128)r; } R[I.dst] = cv(r); R[I.dst + 1] = cv(o); f.pc++; break; }
        case OP_SAT: { const Val &a = G(I.a), &b = G(I.b); if (I.imm == 1) { Val c = binop(s, OP_ULT, I.w, a, b); Val d = binop(s, OP_SUB, I.w, a, b); R[I.dst] = c.e ? fromE(mkIte(c.e, mkConst(0, I.w), toE(d, I.w))) : c.c ? cv(0) : d; } else { Val d = binop(s, OP_ADD, I.w, a, b); Val c = binop(s, OP_ULT, I.w, d, a); R[I.dst] = c.e ? fromE(mkIte(c.e, mkConst(maskw(I.w), I.w), toE(d, I.w))) : c.c ? cv(maskw(I.w)) : d; } f.pc++; break; }
        case OP_FSH: { const Val &a = G(I.a), &b = G(I.b); Val c = G(I.c); unsigned w = I.w; uint64_t k = (c.e ? concretize(s, c, w) : c.c) % w; if (k == 0) R[I.dst] = I.imm ? b : a; else { unsigned l = I.imm ? w - k : k; Val x = binop(s, OP_SHL, w, a, cv(l)), y = binop(s, OP_LSHR, w, b, cv(w - l)); R[I.dst] = binop(s, OP_OR, w, x, y); } f.pc++; break; }
        case OP_FBIN: { Val a = G(I.a), b = G(I.b); if (a.e) a = cv(concretize(s, a, I.w)); if (b.e) b = cv(concretize(s, b, I.w)); double x = asD(a.c, I.w), y = asD(b.c, I.w), r = 0; switch (I.imm) { case llvm::Instruction::FAdd: r = x + y; break; case llvm::Instruction::FSub: r = x - y; break; case llvm::Instruction::FMul: r = x * y; break; case llvm::Instruction::FDiv: r = x / y; break; default: r = std::fmod(x, y); } R[I.dst] = cv(frD(r, I.w)); f.pc++; break; }
        case OP_FCMP: { Val a = G(I.a), b = G(I.b); if (a.e) a = cv(concretize(s, a, I.w)); if (b.e) b = cv(concretize(s, b, I.w)); double x = asD(a.c, I.w), y = asD(b.c, I.w); bool u = std::isnan(x) || std::isnan(y), r = false; unsigned p = (unsigned)I.imm; if (u) r = p & 8; else { if (x == y) r = p & 1; else if (x > y) r = p & 2; else r = p & 4; } R[I.dst] = cv(r); f.pc++; break; }
        case OP_FCAST: { Val a = G(I.a); if (a.e) a = cv(concretize(s, a, I.w2)); uint64_t r = 0; switch (I.imm) { case llvm::Instruction::SIToFP: r = frD((double)sx(a.c, I.w2), I.w); if (I.w == 32) { float q = (float)sx(a.c, I.w2); uint32_t z; memcpy(&z, &q, 4); r = z; } break; case llvm::Instruction::UIToFP: if (I.w == 32) { float q = (float)(a.c & maskw(I.w2)); uint32_t z; memcpy(&z, &q, 4); r = z; } else r = frD((double)(a.c & maskw(I.w2)), I.w); break; case llvm::Instruction::FPToSI: r = (uint64_t)(int64_t)asD(a.c, I.w2) & maskw(I.w); break; case llvm::Instruction::FPToUI: r = (uint64_t)asD(a.c, I.w2) & maskw(I.w); break; default: r = frD(asD(a.c, I.w2), I.w); } R[I.dst] = cv(r); f.pc++; break; }
        case OP_FUN1: { Val a = G(I.a); if (a.e) a = cv(concretize(s, a, I.w)); double x = asD(a.c, I.w); switch (I.imm) { case 0: x = std::ceil(x); break; case 1: x = std::floor(x); break; case 2: x = std::fabs(x); break; case 3: x = std::trunc(x); break; case 4: x = std::nearbyint(x); break; default: x = -x; } R[I.dst] = cv(frD(x, I.w)); f.pc++; break; }
        case OP_WIDE: { // 128 bit, concrete
            auto W = [&](int32_t r) { Val lo = G(r), hi = G(r >= 0 ? r + 1 : r - 1); if (lo.e) lo = cv(concretize(s, lo, 64)); if (hi.e) hi = cv(concretize(s, hi, 64)); return ((unsigned __int128)hi.c << 64) | lo.c; };
            unsigned __int128 x = W(I.a), y = W(I.b), r = 0;
            if (I.imm >= 1000) { bool b; __int128 p = (__int128)x, q = (__int128)y; switch (I.imm - 1000) { case llvm::CmpInst::ICMP_EQ: b = x == y; break; case llvm::CmpInst::ICMP_NE: b = x != y; break; case llvm::CmpInst::ICMP_ULT: b = x < y; break; case llvm::CmpInst::ICMP_ULE: b = x <= y; break; case llvm::CmpInst::ICMP_UGT: b = x > y; break; case llvm::CmpInst::ICMP_UGE: b = x >= y; break; case llvm::CmpInst::ICMP_SLT: b = p < q; break; case llvm::CmpInst::ICMP_SLE: b = p <= q; break; case llvm::CmpInst::ICMP_SGT: b = p > q; break; default: b = p >= q; } R[I.dst] = cv(b); f.pc++; break; }
            switch (I.imm) { case llvm::Instruction::Add: r = x + y; break; case llvm::Instruction::Sub: r = x - y; break; case llvm::Instruction::Mul: r = x * y; break; case llvm::Instruction::UDiv: if (!y) violate(s, "division-by-zero", "division by zero"); r = x / y; break; case llvm::Instruction::URem: if (!y) violate(s, "division-by-zero", "division by zero"); r = x % y; break; case llvm::Instruction::SDiv: if (!y) violate(s, "division-by-zero", "division by zero"); r = (unsigned __int128)((__int128)x / (__int128)y); break; case llvm::Instruction::SRem: if (!y) violate(s, "division-by-zero", "division by zero"); r = (unsigned __int128)((__int128)x % (__int128)y); break; case llvm::Instruction::And: r = x & y; break; case llvm::Instruction::Or: r = x | y; break; case llvm::Instruction::Xor: r = x ^ y; break; case llvm::Instruction::Shl: r = y > 127 ? 0 : x << (unsigned)y; break; case llvm::Instruction::LShr: r = y > 127 ? 0 : x >> (unsigned)y; break; default: r = (unsigned __int128)((__int128)x >> (unsigned)(y > 127 ? 127 : y)); }
            R[I.dst] = cv((uint64_t)r); R[I.dst + 1] = cv((uint64_t)(r >> 64)); f.pc++; break; }
        case OP_TYPEID: R[I.dst] = cv(typeId(G(I.a).c)); f.pc++; break;
        case OP_FENCE: if (s.th.size() > 1) s.race.fence(s.cur, (unsigned)I.imm); f.pc++; break;
        case OP_NOP: f.pc++; break;
        case OP_ERR: throw EngineErr{"unsupported instruction " + *(const std::string *)I.p + " in " + fn->dname};
        default: throw EngineErr{"opcode"};
        }
    }
}
static bool timeUp() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > opt.maxTime; }
static void runState(State *s) {
    uint64_t i0 = s->instrs;
    try { step(*s); } catch (PathEnd &p) {
        switch (p.kind) { case PE_DONE: stats.paths++; for (auto r : s->reached) reachedCnt[strs[r]]++; endSample(*s); break; case PE_VIOL: stats.paths++; for (auto r : s->reached) reachedCnt[strs[r]]++; break; case PE_INFEAS: stats.infeasible++; break; case PE_LIMIT: stats.limit++; addViol(*s, "non-termination", "path exceeds " + std::to_string(opt.maxInstr) + " instructions", s->model); break; }
    } catch (EngineErr &e) { stats.errors++; std::string m = e.s; auto st = stackOf(*s); for (size_t i = 0; i < st.size() && i < 8; i++) m += "\n    " + st[i]; errCnt[m]++; if (opt.verbose) fprintf(stderr, "engine error: %s\n", m.c_str()); }
    stats.instrs += s->instrs - i0; delete s;
}

// ------------------------------------------------------------------ output
static std::string js(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else if (c < 127) r += c; else r += '?'; } return r + "\""; }
static std::string jin(const std::vector<std::pair<std::string, uint64_t>> &v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + ("[" + js(v[i].first) + "," + std::to_string(v[i].second) + "]"); return r + "]"; }
static void writeResult(const std::string &path, size_t left) {
    FILE *f = fopen(path.c_str(), "w"); if (!f) exit(2);
    fprintf(f, "{\"paths\":%llu,\"infeasible\":%llu,\"forks\":%llu,\"instrs\":%llu,\"limit\":%llu,\"errors\":%llu,\"branches\":%llu,\"checks\":%llu,\"checks_symbolic\":%llu,\"left\":%zu,\"timeout\":%s,\n", (unsigned long long)stats.paths, (unsigned long long)stats.infeasible, (unsigned long long)stats.forks, (unsigned long long)stats.instrs, (unsigned long long)stats.limit, (unsigned long long)stats.errors, (unsigned long long)stats.branches, (unsigned long long)stats.checks, (unsigned long long)stats.checksSolver, left, timedOut ? "true" : "false");
    fprintf(f, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"solver_s\":%.3f,\"solver_max_s\":%.4f,\"exprs\":%zu,\n", (unsigned long long)gSolver.queries, (unsigned long long)gSolver.sat, (unsigned long long)gSolver.unsat, (unsigned long long)gSolver.unknown, (unsigned long long)gSolver.cacheHits, gSolver.secs, gSolver.maxSecs, exprCount());
    fprintf(f, "\"violations\":["); for (size_t i = 0; i < viols.size(); i++) { auto &v = viols[i]; fprintf(f, "%s{\"kind\":%s,\"msg\":%s,\"key\":%s,\"count\":%d,\"stack\":[", i ? ",\n" : "", js(v.kind).c_str(), js(v.msg).c_str(), js(v.key).c_str(), violKeys[v.key]); for (size_t k = 0; k < v.stack.size(); k++) fprintf(f, "%s%s", k ? "," : "", js(v.stack[k]).c_str()); fprintf(f, "],\"inputs\":%s}", jin(v.inputs).c_str()); } fprintf(f, "],\n");
    auto mp = [&](const char *n, const std::map<std::string, uint64_t> &m) { fprintf(f, "\"%s\":{", n); bool first = true; for (auto &x : m) { fprintf(f, "%s%s:%llu", first ? "" : ",", js(x.first).c_str(), (unsigned long long)x.second); first = false; } fprintf(f, "},\n"); };
    mp("reached", reachedCnt); mp("engine_errors", errCnt); mp("check_counts", checkCnt);
    fprintf(f, "\"trace_hashes\":["); { bool first = true; size_t n = 0; for (auto h : traceHashes) { if (n++ > 20000) break; fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)(h >> 12)); first = false; } } fprintf(f, "],\n");
    fprintf(f, "\"samples\":["); for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s{\"inputs\":%s,\"log\":%s,\"cond\":%s}", i ? ",\n" : "", jin(samples[i].inputs).c_str(), jin(samples[i].log).c_str(), js(samples[i].cond).c_str()); fprintf(f, "],\n");
    fprintf(f, "\"functions\":["); bool first = true; for (auto *fn : mod.fns) if (fn->repo && fn->calls) { fprintf(f, "%s%s", first ? "" : ",", js(fn->dname.substr(0, 200)).c_str()); first = false; } fprintf(f, "],\n");
    // line coverage of the repository's sources
    std::map<std::string, std::set<unsigned>> cov; for (auto *fn : mod.fns) if (fn->decoded) for (size_t i = 0; i < fn->code.size(); i++) if (fn->hit[i] && fn->code[i].loc) { auto &l = mod.locs[fn->code[i].loc]; if (l.first.find("rotor") != std::string::npos) cov[l.first].insert(l.second); }
    fprintf(f, "\"lines\":{"); first = true; for (auto &c : cov) { fprintf(f, "%s%s:[", first ? "" : ",\n", js(c.first).c_str()); bool f2 = true; for (unsigned l : c.second) { fprintf(f, "%s%u", f2 ? "" : ",", l); f2 = false; } fprintf(f, "]"); first = false; } fprintf(f, "}}\n"); fclose(f);
}
static State *initial() {
    State *s = new State(); s->th.emplace_back();
    for (auto *fn : mod.fns) { Obj *o = objNew(0, K_FN, true); o->ro = true; slotSet(*s, fn->addr, o); }
    for (auto &g : mod.globals) { Obj *o = objNew((uint32_t)g.size, K_GLOBAL, true); if (g.gv->hasInitializer()) { try { mod.initMem(g.gv->getInitializer(), o->b, 0); } catch (std::string &e) { fprintf(stderr, "engine: global %s: %s\n", g.gv->getName().str().c_str(), e.c_str()); } } o->ro = g.ro; slotSet(*s, g.addr, o); for (uint64_t i = 1; i <= (g.size >> 20); i++) { Obj *c = objNew(0, K_GLOBAL, false); c->cont = (uint32_t)i; slotSet(*s, g.addr + (i << 20), c); } }
    return s;
}
// ------------------------------------------------------------------ instrumentation for the native replay of schedules
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
static int instrument(const std::string &in, const std::string &out) {
    using namespace llvm; LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(in, err, ctx); if (!M) { fprintf(stderr, "cannot read %s\n", in.c_str()); return 2; }
    auto &DL = M->getDataLayout(); Type *P = PointerType::getUnqual(ctx), *I32 = Type::getInt32Ty(ctx), *I64 = Type::getInt64Ty(ctx), *V = Type::getVoidTy(ctx);
    auto hook = M->getOrInsertFunction("vp_hook", V, P, I64, I32, I32); auto cas = M->getOrInsertFunction("vp_hook_cas", V, P, I64, I64, I32, I32); auto fen = M->getOrInsertFunction("vp_hook_fence", V, I32);
    for (auto &F : *M) { if (F.isDeclaration()) continue; std::vector<Instruction *> is; for (auto &I : instructions(F)) is.push_back(&I);
        for (auto *I : is) { IRBuilder<> B(I); auto c32 = [&](unsigned v) { return ConstantInt::get(I32, v); }; auto sz = [&](Type *t) { return ConstantInt::get(I64, DL.getTypeStoreSize(t).getFixedValue()); };
            if (auto *l = dyn_cast<LoadInst>(I); l && (!l->isVolatile() || l->isAtomic())) B.CreateCall(hook, {l->getPointerOperand(), sz(l->getType()), c32(0), c32((unsigned)l->getOrdering())});
            else if (auto *s = dyn_cast<StoreInst>(I); s && (!s->isVolatile() || s->isAtomic())) B.CreateCall(hook, {s->getPointerOperand(), sz(s->getValueOperand()->getType()), c32(1), c32((unsigned)s->getOrdering())});
            else if (auto *r = dyn_cast<AtomicRMWInst>(I)) B.CreateCall(hook, {r->getPointerOperand(), sz(r->getType()), c32(mod.isQuiet(r) ? 3 : 2), c32((unsigned)r->getOrdering())});
            else if (auto *c = dyn_cast<AtomicCmpXchgInst>(I)) { Value *e = c->getCompareOperand(); e = e->getType()->isPointerTy() ? B.CreatePtrToInt(e, I64) : B.CreateZExtOrTrunc(e, I64); B.CreateCall(cas, {c->getPointerOperand(), sz(c->getCompareOperand()->getType()), e, c32((unsigned)c->getSuccessOrdering()), c32((unsigned)c->getFailureOrdering())}); }
            else if (auto *f = dyn_cast<FenceInst>(I)) B.CreateCall(fen, {c32((unsigned)f->getOrdering())}); } }
    std::error_code ec; raw_fd_ostream o(out, ec); if (ec) return 2; WriteBitcodeToFile(*M, o); return 0;
}
int main(int argc, char **argv) {
    if (argc >= 4 && std::string(argv[1]) == "--instrument") { if (argc > 4) mod.quiet = argv[4]; return instrument(argv[2], argv[3]); }
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--out") opt.out = nx(); else if (a == "--workers") opt.workers = std::stoi(nx()); else if (a == "--max-time") opt.maxTime = std::stod(nx()); else if (a == "--max-instr") opt.maxInstr = std::stoull(nx()); else if (a == "--max-depth") opt.maxDepth = std::stoi(nx()); else if (a == "--preempt") opt.preempt = std::stoi(nx()); else if (a == "--samples") opt.samples = std::stoi(nx()); else if (a == "--seed") opt.seed = std::stoull(nx()); else if (a == "--frontier") opt.frontier = std::stoi(nx()); else if (a == "--repo") opt.repo = nx(); else if (a == "--verbose") opt.verbose = true; else if (a == "--stop-first") opt.stopFirst = true; else if (a == "--no-atomic-sched") opt.atomicSched = false; else if (a == "--quiet") mod.quiet = nx(); else if (a == "--entry") opt.entry = nx(); else opt.bc = a; }
    t0 = std::chrono::steady_clock::now(); llvm::LLVMContext ctx; mod.repoPrefix = opt.repo; mod.load(ctx, opt.bc); rng.seed(opt.seed);
    State *s = initial();
    // static constructors, then the entry
    std::vector<std::pair<uint64_t, Fn *>> ctors;
    if (auto *g = mod.M->getNamedGlobal("llvm.global_ctors")) if (auto *ca = llvm::dyn_cast<llvm::ConstantArray>(g->getInitializer())) for (unsigned i = 0; i < ca->getNumOperands(); i++) { auto *cs = llvm::cast<llvm::ConstantStruct>(ca->getOperand(i)); ctors.push_back({llvm::cast<llvm::ConstantInt>(cs->getOperand(0))->getZExtValue(), mod.fnAt.at(mod.addrOf.at(cs->getOperand(1)->stripPointerCasts()))}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
    auto it = mod.fnByName.find(opt.entry); if (it == mod.fnByName.end()) { fprintf(stderr, "engine: no entry\n"); return 2; }
    try {
        for (auto &c : ctors) { pushFrame(*s, s->th[0], c.second, {}, -1, 0); try { step(*s); } catch (PathEnd &p) { if (p.kind != PE_DONE) { fprintf(stderr, "engine: static constructor failed: %s\n", viols.empty() ? "" : viols[0].msg.c_str()); for (auto &x : viols) for (auto &l : x.stack) fprintf(stderr, "  %s\n", l.c_str()); return 2; } } }
        pushFrame(*s, s->th[0], it->second, {cv(0), cv(0)}, -1, 0);
    } catch (EngineErr &e) { fprintf(stderr, "engine: %s\n", e.s.c_str()); for (auto &l : stackOf(*s)) fprintf(stderr, "  %s\n", l.c_str()); return 2; }
    s->instrs = 0; s->log.clear(); s->reached.clear(); work.push_back(s);
    auto doneEarly = [&]() { if (timeUp()) { timedOut = true; return true; } if (opt.stopFirst && !viols.empty()) return true; if (violKeys.size() >= opt.maxViol) return true; return false; };
    if (opt.workers <= 1) { while (!work.empty() && !doneEarly()) { State *x = work.back(); work.pop_back(); runState(x); } writeResult(opt.out + ".0", work.size()); _exit(0); }
    // breadth first until the frontier is wide enough, then one process per worker takes subtrees from a shared counter
    size_t head = 0; while (head < work.size() && work.size() - head < opt.frontier && !doneEarly()) { // take the shallowest
        State *x = work[head++]; size_t before = work.size(); runState(x); (void)before; if (head > 4096) { work.erase(work.begin(), work.begin() + head); head = 0; } }
    work.erase(work.begin(), work.begin() + head);
    writeResult(opt.out + ".0", 0); if (work.empty() || doneEarly()) { if (!work.empty()) { writeResult(opt.out + ".0", work.size()); } _exit(0); }
    auto *ctr = (volatile size_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); ctr[0] = 0; ctr[1] = 0; std::vector<State *> frontier = work;
    // A worker which has no subtree left ends; a busy one then splits off a process with half of its own pending states.
    prctl(PR_SET_CHILD_SUBREAPER, 1); ctr[2] = (size_t)opt.workers; ctr[3] = 1; // live workers, number of the next result
    auto child = [&](size_t id) { stats = Stats(); gSolver = SolverStats(); viols.clear(); violKeys.clear(); reachedCnt.clear(); errCnt.clear(); checkCnt.clear(); samples.clear(); traceSeen = 0; traceHashes.clear(); for (auto *fn : mod.fns) { fn->calls = 0; } rng.seed(opt.seed * 1000 + id); };
    auto claim = [&] { while (true) { size_t n = ctr[2]; if (n >= (size_t)opt.workers) return false; if (__sync_bool_compare_and_swap((size_t *)&ctr[2], n, n + 1)) return true; } };
    for (int w = 0; w < opt.workers; w++) { size_t id = __sync_fetch_and_add((size_t *)&ctr[3], 1); if (fork() == 0) {
            child(id); size_t left = 0; work.clear(); auto last = std::chrono::steady_clock::now();
            while (true) {
                if (work.empty()) { size_t i = ctr[0] >= frontier.size() ? frontier.size() : __sync_fetch_and_add((size_t *)&ctr[0], 1); if (i >= frontier.size()) break; work.push_back(frontier[i]); }
                if (doneEarly() || ctr[1]) { left += work.size(); break; }
                if (work.size() >= 2 && ctr[2] < (size_t)opt.workers && ctr[0] >= frontier.size()) { auto now = std::chrono::steady_clock::now(); if (std::chrono::duration<double>(now - last).count() > 0.25 && claim()) {
                        last = now; size_t nid = __sync_fetch_and_add((size_t *)&ctr[3], 1), half = work.size() / 2; pid_t p = fork();
                        if (p == 0) { id = nid; child(id); left = 0; work.resize(half); } else if (p > 0) work.erase(work.begin(), work.begin() + (long)half); else __sync_fetch_and_sub((size_t *)&ctr[2], 1); } }
                State *x = work.back(); work.pop_back(); runState(x); if (opt.stopFirst && !viols.empty()) ctr[1] = 1;
            }
            writeResult(opt.out + "." + std::to_string(id), left); __sync_fetch_and_sub((size_t *)&ctr[2], 1); _exit(0); } }
    int rc = 0, st; while (true) { pid_t p = waitpid(-1, &st, 0); if (p < 0) { if (errno == EINTR) continue; break; } if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "engine: worker died (status %d)\n", st); rc = 3; } }
    _exit(rc);
}
