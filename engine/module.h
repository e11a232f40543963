// LLVM bitcode -> compact register code
#pragma once
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <unordered_map>

struct Val { uint64_t c; E e; };
inline Val cv(uint64_t c) { return Val{c, nullptr}; }

enum Op : uint16_t { OP_ADD, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_AND, OP_OR, OP_XOR, OP_SHL, OP_LSHR, OP_ASHR,
    OP_EQ, OP_NE, OP_ULT, OP_ULE, OP_UGT, OP_UGE, OP_SLT, OP_SLE, OP_SGT, OP_SGE,
    OP_SELECT, OP_ZEXT, OP_SEXT, OP_TRUNC, OP_MOV, OP_GEP, OP_GEPX, OP_LOAD, OP_STORE, OP_ALLOCA, OP_BR, OP_CBR, OP_SWITCH,
    OP_CALL, OP_RET, OP_UNREACHABLE, OP_LPAD, OP_RESUME, OP_CMPXCHG, OP_RMW, OP_FBIN, OP_FCMP, OP_FCAST, OP_WIDE,
    OP_MINMAX, OP_BITOP, OP_OVF, OP_SAT, OP_FSH, OP_FUN1, OP_TYPEID, OP_FENCE, OP_NOP, OP_ERR };

struct Fn;
struct Edge { uint32_t target; std::vector<std::pair<int32_t, int32_t>> moves; };
struct GepInfo { struct T { int32_t r; uint64_t scale; uint8_t w; }; std::vector<T> t; };
struct SwitchInfo { std::vector<std::pair<uint64_t, uint32_t>> cases; uint32_t def; };
struct CallInfo { Fn *fn; int32_t target; std::vector<int32_t> args; std::vector<uint8_t> argw; int32_t normal, unwind; std::vector<uint32_t> byval; };
struct LPInfo { bool cleanup; std::vector<std::pair<int, uint64_t>> clauses; /* 0 catch, 1 filter(empty) */ };

struct Inst { uint16_t op; uint8_t w, w2; int32_t dst, a, b, c; uint64_t imm; const void *p; uint32_t loc; };

struct Fn {
    std::string name, dname; const llvm::Function *F = nullptr; uint64_t addr = 0;
    bool decoded = false, repo = false, nounwind = false; int builtin = -1;
    std::vector<Inst> code; std::vector<Val> consts; std::vector<Edge> edges;
    uint32_t nregs = 0, nargs = 0; uint32_t retLeaves = 0; uint64_t calls = 0; std::string file;
    std::vector<uint8_t> hit;
};

struct Leaf { uint64_t off; uint8_t w; }; // w: 1..64 ints, 32/64 floats, 128 (two slots)

struct Mod {
    std::unique_ptr<llvm::Module> M; const llvm::DataLayout *DL = nullptr;
    std::unordered_map<const llvm::Value *, uint64_t> addrOf; std::unordered_map<uint64_t, Fn *> fnAt; std::map<std::string, Fn *> fnByName;
    std::unordered_map<std::string, uint64_t> globalByName;
    std::vector<Fn *> fns;
    struct G { const llvm::GlobalVariable *gv; uint64_t addr, size; bool ro; }; std::vector<G> globals;
    std::vector<std::pair<std::string, unsigned>> locs; // file, line
    std::map<std::pair<std::string, unsigned>, uint32_t> locIdx;
    std::string repoPrefix;
    void load(llvm::LLVMContext &ctx, const std::string &path);
    void decode(Fn *f);
    void leaves(llvm::Type *t, std::vector<Leaf> &out, uint64_t base = 0);
    void constLeaves(const llvm::Constant *c, std::vector<Val> &out);
    uint64_t constInt(const llvm::Constant *c);
    void initMem(const llvm::Constant *c, uint8_t *buf, uint64_t off);
    std::string quiet; bool isQuiet(const llvm::Instruction *I) const; // read-modify-write operations of these source files are no scheduling points
    uint32_t loc(const llvm::Instruction *I);
};
int builtinId(const std::string &name); // -1: none
int builtinOverride(const std::string &name); // builtins that win over a definition
