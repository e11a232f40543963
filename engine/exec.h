// Symbolic executor: states, memory, threads
#pragma once
#include "module.h"
#include "race.h"
#include <cstring>
#include <set>

struct SymByte { E e; uint8_t i; };
enum OK : uint8_t { K_GLOBAL, K_HEAP, K_STACK, K_FN, K_EXC };
enum AK : uint8_t { A_NONE, A_MALLOC, A_NEW, A_NEWARR };
struct Obj {
    uint32_t ref, size; OK kind; AK ak; bool ro, freed; uint32_t loc; uint32_t freeLoc; uint32_t cont; // cont: this slot continues the object `cont` slots before
    uint8_t *b; SymByte *s;
};
struct Page { uint32_t ref; Obj *o[64]; };
struct Region { std::vector<Page *> p; };

struct Frame { Fn *fn; uint32_t pc; uint32_t base; int32_t dst; uint32_t retLeaves; uint32_t stackMark; uint32_t callPc; };
enum TS : uint8_t { T_RUN, T_MUTEX, T_COND, T_JOIN, T_DONE };
struct Thread { std::vector<Frame> fr; std::vector<Val> rs; uint32_t stackNext = 0; TS st = T_RUN; uint64_t wait = 0, mutex = 0; bool timed = false; uint64_t excObj = 0, excTi = 0; std::vector<std::pair<uint64_t, uint64_t>> caught; bool condResult = false; bool unwinding = false; int cphase = 0; };
struct Mutex { int owner; int count; };
struct LogEnt { uint32_t tag; Val v; };
struct Input { uint32_t var; };
struct State {
    Region reg[8]; std::vector<Thread> th; unsigned cur = 0; std::vector<E> pc; Assign model; std::vector<uint32_t> inputs; std::vector<LogEnt> log;
    std::vector<uint32_t> reached; std::map<uint64_t, Mutex> mtx; uint64_t heapNext = 1, mallocNext = 1; uint64_t live = 0; uint64_t instrs = 0; uint32_t depth = 0; bool schedDone = false; int preempts = 0;
    uint64_t choiceCache = 0; bool hasChoice = false; uint32_t nsched = 0; uint64_t faultAlloc = 0;
    race::Detector race; // only of interest with several threads
    std::vector<uint32_t> asserts; // labels of the checks evaluated
    State() = default; State(const State &o); ~State(); State &operator=(const State &) = delete;
};
struct Violation { std::string kind, msg; std::vector<std::string> stack; std::vector<std::pair<std::string, uint64_t>> inputs; std::string key; };
struct Options { std::string bc, out, entry = "main", repo = "/repo/"; int workers = 1; double maxTime = 600; uint64_t maxInstr = 30000000; unsigned maxDepth = 400; int preempt = 2; unsigned samples = 24; unsigned frontier = 600; uint64_t seed = 1; bool stopFirst = false; unsigned maxViol = 8; bool verbose = false; bool atomicSched = true; std::string replay; std::string smtDir; };
