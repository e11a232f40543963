// Hash-consed bit-vector expressions (width 1..64) and their translation to Z3.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <z3.h>

enum EK : uint8_t { EConst, EVar, EAdd, ESub, EMul, EUDiv, ESDiv, EURem, ESRem, EAnd, EOr, EXor, EShl, ELShr, EAShr,
                    EConcat, EExtract, EZExt, ESExt, EIte, EEq, EUlt, EUle, ESlt, ESle };

struct Expr {
    EK k; uint8_t w; uint32_t id; uint64_t c; // c: constant / extract low bit / variable index
    const Expr *a, *b, *d;
    mutable Z3_ast z; mutable uint64_t val; mutable uint32_t stamp;
    std::vector<uint32_t> vars; // sorted
};
typedef const Expr *E;

struct VarInfo { std::string name; uint8_t w; uint32_t seq; };

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

// concrete semantics; returns false on division by zero
bool foldBin(EK k, unsigned w, uint64_t a, uint64_t b, uint64_t &r);

E mkConst(uint64_t v, unsigned w);
E mkVar(uint32_t seq, const std::string &name, unsigned w);
E mkBin(EK k, E a, E b);
E mkNot(E a); // width 1
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E a, E b);
inline E mkEq(E a, E b) { return mkBin(EEq, a, b); }

typedef std::vector<uint64_t> Assign; // by variable index; missing = 0
uint64_t evalExpr(E e, const Assign &as);
const std::vector<VarInfo> &allVars();
std::string exprStr(E e, int depth = 6);
size_t exprCount();

struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0; double secs = 0; double maxSecs = 0; };
extern SolverStats gSolver;
// is (cs and q) satisfiable?  1 sat (model updated for the variables concerned), 0 unsat, -1 unknown
int solverCheck(const std::vector<E> &cs, E q, Assign &model);
// the whole conjunction, for final models
int solverCheckAll(const std::vector<E> &cs, Assign &model);
void solverDump(const std::vector<E> &cs, E q, const char *path);
