// Happens-before race detection (vector clocks), shared by the symbolic executor and the native replay runtime.
#pragma once
#include <array>
#include <cstdint>
#include <cstdlib>
#include <memory>
#include <unordered_map>
#include <vector>
namespace race {
template <class T> struct MA { // not operator new: natively that heap belongs to the program under test
    using value_type = T; MA() = default; template <class U> MA(const MA<U> &) {}
    T *allocate(size_t n) { return (T *)malloc(n * sizeof(T)); } void deallocate(T *p, size_t) { free(p); }
    template <class U> bool operator==(const MA<U> &) const { return true; } template <class U> bool operator!=(const MA<U> &) const { return false; }
};
constexpr unsigned N = 6, SH = 64;
struct VC { uint32_t c[N] = {0, 0, 0, 0, 0, 0}; void join(const VC &o) { for (unsigned i = 0; i < N; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Cell { uint8_t tid, mask, write, atomic; uint32_t clk; };
using Cells = std::vector<Cell, MA<Cell>>;
struct Shard { std::unordered_map<uint64_t, Cells, std::hash<uint64_t>, std::equal_to<uint64_t>, MA<std::pair<const uint64_t, Cells>>> m; };
struct Sync { std::unordered_map<uint64_t, VC, std::hash<uint64_t>, std::equal_to<uint64_t>, MA<std::pair<const uint64_t, VC>>> m; };
enum { RLX = 2, ACQ = 4, REL = 5, ACQREL = 6, SEQ = 7 };
inline bool acq(unsigned o) { return o == ACQ || o == ACQREL || o == SEQ; }
inline bool rel(unsigned o) { return o == REL || o == ACQREL || o == SEQ; }
struct Detector {
    VC vc[N], facq[N], frel[N]; std::shared_ptr<Shard> sh[SH]; std::shared_ptr<Sync> sync;
    template <class T> static T &own(std::shared_ptr<T> &p) { if (!p) p = std::allocate_shared<T>(MA<T>()); else if (p.use_count() > 1) p = std::allocate_shared<T>(MA<T>(), *p); return *p; }
    VC &L(uint64_t a) { return own(sync).m[a]; }
    void create(unsigned parent, unsigned child) { vc[parent].c[parent]++; vc[child] = vc[parent]; vc[child].c[child] = 1; vc[parent].c[parent]++; }
    void join(unsigned t, unsigned child) { vc[t].join(vc[child]); }
    void lock(unsigned t, uint64_t m) { vc[t].join(L(m ^ (1ull << 63))); }
    void unlock(unsigned t, uint64_t m) { L(m ^ (1ull << 63)) = vc[t]; vc[t].c[t]++; }
    void release(unsigned t, uint64_t a) { L(a).join(vc[t]); vc[t].c[t]++; }
    void aload(unsigned t, uint64_t a, unsigned o) { if (!sync) return; auto it = sync->m.find(a); if (it == sync->m.end()) return; if (acq(o)) vc[t].join(it->second); else facq[t].join(it->second); }
    void astore(unsigned t, uint64_t a, unsigned o) { if (rel(o)) { L(a) = vc[t]; vc[t].c[t]++; } else L(a) = frel[t]; }
    void armw(unsigned t, uint64_t a, unsigned o) { aload(t, a, o); if (rel(o)) { L(a).join(vc[t]); vc[t].c[t]++; } else L(a).join(frel[t]); }
    void fence(unsigned t, unsigned o) { if (acq(o)) vc[t].join(facq[t]); if (rel(o)) { frel[t] = vc[t]; vc[t].c[t]++; } }
    // true: the access races with an earlier one by another thread
    bool word(unsigned t, uint64_t w, uint8_t mask, bool write, bool atomic) {
        auto &p = sh[(w >> 3 ^ w >> 20) % SH]; uint32_t clk = vc[t].c[t];
        if (p) { auto it = p->m.find(w); if (it != p->m.end()) for (auto &c : it->second) if (c.tid == t && (c.mask & mask) == mask && c.clk == clk && c.write == write && c.atomic == atomic) return false; }
        Cells &cs = own(p).m[w];
        for (auto &c : cs) if (c.tid != t && (c.mask & mask) && (c.write || write) && !(c.atomic && atomic) && c.clk > vc[t].c[c.tid]) return true;
        size_t k = 0;
        for (size_t i = 0; i < cs.size(); i++) { Cell c = cs[i]; if (c.tid == t && c.write == write && c.atomic == atomic) { c.mask &= ~mask; if (!c.mask) continue; } cs[k++] = c; }
        cs.resize(k); cs.push_back(Cell{(uint8_t)t, mask, write, atomic, clk}); return false;
    }
    bool access(unsigned t, uint64_t a, uint64_t n, bool write, bool atomic) {
        bool r = false;
        while (n) { uint64_t w = a & ~7ull; unsigned lo = a & 7, k = (unsigned)(n < 8 - lo ? n : 8 - lo); r |= word(t, w, (uint8_t)(((1u << k) - 1) << lo), write, atomic); a += k; n -= k; }
        return r;
    }
    bool released(unsigned t, uint64_t a, uint64_t n) { // the object is freed: a write to all of it, which was used by several threads
        bool r = false; for (uint64_t w = a & ~7ull; w < a + n && w < (a & ~7ull) + 4096; w += 8) { auto &p = sh[(w >> 3 ^ w >> 20) % SH]; if (!p) continue; auto it = p->m.find(w); if (it == p->m.end()) continue;
            for (auto &c : it->second) if (c.tid != t && c.clk > vc[t].c[c.tid]) r = true; own(p).m.erase(w); }
        return r;
    }
};
}
