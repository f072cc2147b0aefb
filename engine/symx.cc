// Symbolic executor for LLVM IR: merges states at joins, so one run of an entry function yields, for
// every assertion and every potential undefined behaviour, one formula over all inputs.
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <sys/resource.h>
#include <unistd.h>
#include <chrono>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>

#include "expr.h"
#include "solver.h"

using namespace sx;
using llvm::BasicBlock;
using llvm::Function;
using llvm::Instruction;
using llvm::Type;
using llvm::Value;
namespace L = llvm;

static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch())
        .count();
}

struct Unsupported {
    std::string what;
};
[[noreturn]] static void unsup(const std::string &s) { throw Unsupported{s}; }

// ------------------------------------------------------------------ options / results
static unsigned optUnwind = 700;
static double optTimeout = 60, optTotal = 600;
static bool optZ3Only = false, optSplit = false, optConc = false;
static double tStart;

struct Obl {
    E cond;  // satisfiable = violated
    std::string kind, loc;
    int64_t id = -1;
};
static std::vector<Obl> obls, allObls;
struct Obs {
    E guard;
    int64_t id;
    E val;
};
static std::vector<Obs> observes;
static std::map<uint64_t, E> inputs;
static std::vector<std::pair<E, uint64_t>> splits;  // case splits: value < n, one by one
// forks: the harness is executed once per value < n of an input, and once for the rest
struct Fork {
    uint64_t id, n, k, m;
};
static std::vector<Fork> forks;
static size_t forkPos = 0;
static std::set<std::string> funcsEncoded;
static uint64_t nCases = 0;
static uint64_t nInstr = 0, nMerges = 0, nStates = 0, maxIter = 0;
static std::set<std::string> notes;

// ------------------------------------------------------------------ memory
struct Byte {
    E e = nullptr;
    uint32_t i = 0;
    bool operator==(const Byte &o) const { return e == o.e && i == o.i; }
};
struct Obj {
    std::vector<Byte> b;
    bool ro = false, heap = false;
    std::string name;
};
using ObjP = std::shared_ptr<Obj>;

static const uint64_t MID = 0x80000000ull;
static uint64_t baseOf(uint64_t id) { return ((id + 1) << 32) | MID; }

struct State {
    std::vector<E> guard;
    std::vector<ObjP> mem;
};
static uint64_t nextObj = 0;
static uint64_t undefCnt = 0;
static E freshUndef(unsigned w) { return mkVar("undef" + std::to_string(undefCnt++), w); }

static E conjAll(const std::vector<E> &g, size_t from = 0) {
    E r = mkTrue();
    for (size_t i = from; i < g.size(); i++) r = mkAnd(r, g[i]);
    return r;
}
// false when the conjunct contradicts the guard syntactically
static bool pushGuard(std::vector<E> &g, E c) {
    if (isTrue(c)) return true;
    if (isFalse(c)) return false;
    if (c->op == AND && c->w == 1) return pushGuard(g, c->k[0]) && pushGuard(g, c->k[1]);
    E n = mkNot(c);
    for (auto *x : g) {
        if (x == n) return false;
        if (x == c) return true;
        if (x->sem && c->sem) {
            E b = mkAnd(x, c);
            if (isFalse(b)) return false;
            if (b == x) return true;
        }
    }
    g.push_back(c);
    return true;
}

static uint64_t allocObj(State &s, uint64_t size, const std::string &name, bool heap = false) {
    if (size > (1u << 20)) unsup("allocation of " + std::to_string(size) + " bytes");
    uint64_t id = nextObj++;
    if (s.mem.size() <= id) s.mem.resize(id + 1);
    auto o = std::make_shared<Obj>();
    o->b.resize(size);
    o->name = name;
    o->heap = heap;
    s.mem[id] = o;
    return id;
}
static Obj &wr(State &s, uint64_t id) {
    auto &p = s.mem[id];
    if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
    return *p;
}
static E readBytes(const Obj &o, uint64_t off, unsigned n, std::vector<Byte> *fix = nullptr) {
    // little endian: last byte is the highest piece
    std::vector<E> parts;
    unsigned i = n;
    while (i > 0) {
        const Byte &t = o.b[off + i - 1];
        unsigned j = i - 1;
        if (!t.e) {
            while (j > 0 && !o.b[off + j - 1].e) j--;
            parts.push_back(freshUndef(8 * (i - j)));
            i = j;
            continue;
        }
        while (j > 0 && o.b[off + j - 1].e == t.e && o.b[off + j - 1].i + (i - j) == t.i) j--;
        unsigned lowIdx = t.i - (i - 1 - j);
        unsigned lo = 8 * lowIdx, hi = std::min<unsigned>(8 * (t.i + 1), t.e->w);
        E v = mkExtract(t.e, lo, hi - lo);
        v = mkZExt(v, 8 * (i - j));
        parts.push_back(v);
        i = j;
    }
    return mkConcat(parts);
}
static void writeBytes(Obj &o, uint64_t off, E v) {
    unsigned n = (v->w + 7) / 8;
    if (v->w % 8) v = mkZExt(v, n * 8);
    for (unsigned i = 0; i < n; i++) o.b[off + i] = {v, i};
}

struct Target {
    E cond;
    int64_t id;  // -1: null / invalid
    E off;       // 64-bit signed offset
};
static std::string hexs(const APInt &a);
static void resolve(State &s, E a, E cond, std::vector<Target> &out, int depth = 0) {
    if (isFalse(cond)) return;
    if (depth > 200) unsup("pointer expression too deep");
    auto known = [&](uint64_t addr, E extra) {
        int64_t id = (int64_t)(addr >> 32) - 1;
        if (id < 0 || (uint64_t)id >= nextObj) {
            out.push_back({cond, -1, nullptr});
            return;
        }
        E off = mkConst(addr - baseOf(id), 64);
        if (extra) off = mkAdd(extra, off);
        out.push_back({cond, id, off});
    };
    if (isConst(a)) return known(a->c.getZExtValue(), nullptr);
    if (a->op == ITE) {
        resolve(s, a->k[1], mkAnd(cond, a->k[0]), out, depth + 1);
        resolve(s, a->k[2], mkAnd(cond, mkNot(a->k[0])), out, depth + 1);
        return;
    }
    if (a->op == ADD && isConst(a->k[1]) && a->k[1]->c.getZExtValue() >= (1ull << 31) &&
        (a->k[1]->c.getZExtValue() >> 32) != 0xffffffffull &&
        (a->k[1]->c.getZExtValue() >> 32) >= 1 && (a->k[1]->c.getZExtValue() >> 32) <= nextObj)
        return known(a->k[1]->c.getZExtValue(), a->k[0]);
    APInt kn = a->kb.Zero | a->kb.One;
    if (kn.extractBits(32, 32).isAllOnes()) {
        uint64_t hi = a->kb.One.extractBits(32, 32).getZExtValue();
        int64_t id = (int64_t)hi - 1;
        if (id < 0 || (uint64_t)id >= nextObj) {
            out.push_back({cond, -1, nullptr});
            return;
        }
        out.push_back({cond, id, mkSub(a, mkConst(baseOf(id), 64))});
        return;
    }
    if (a->op == ADD || a->op == SUB) {
        // the pointer operand is the one that resolves
        auto isPtr = [&](E e) {
            for (int g = 0; g < 100; g++) {
                if (e->op == ITE)
                    e = isConst(e->k[2]) && e->k[2]->c.isZero() ? e->k[1] : e->k[2];
                else if (e->op == ADD && isConst(e->k[1]) &&
                         e->k[1]->c.getActiveBits() < 32)
                    e = e->k[0];
                else if (e->op == ADD && isConst(e->k[1]))
                    e = e->k[1];
                else
                    break;
            }
            APInt k2 = e->kb.Zero | e->kb.One;
            if (!k2.extractBits(32, 32).isAllOnes()) return false;
            uint64_t hi = e->kb.One.extractBits(32, 32).getZExtValue();
            return hi >= 1 && hi <= nextObj;
        };
        E p = nullptr, o = nullptr;
        if (isPtr(a->k[0]))
            p = a->k[0], o = a->k[1];
        else if (a->op == ADD && isPtr(a->k[1]))
            p = a->k[1], o = a->k[0];
        if (p) {
            if (a->op == SUB) o = mkSub(mkConst(0, 64), o);
            std::vector<Target> t;
            resolve(s, p, cond, t, depth + 1);
            for (auto &x : t) {
                if (x.id >= 0) x.off = mkAdd(x.off, o);
                out.push_back(x);
            }
            return;
        }
        // sum of an ITE that holds pointers and something else
        for (int i = 0; i < 2; i++)
            if (a->k[i]->op == ITE) {
                E t = a->k[i], o2 = a->k[1 - i];
                auto re = [&](E x) {
                    return a->op == ADD ? mkAdd(x, o2) : i == 0 ? mkSub(x, o2) : mkSub(o2, x);
                };
                resolve(s, re(t->k[1]), mkAnd(cond, t->k[0]), out, depth + 1);
                resolve(s, re(t->k[2]), mkAnd(cond, mkNot(t->k[0])), out, depth + 1);
                return;
            }
    }
    // a sum whose low bits were known and got replaced: X - (X mod 2^n) + c
    if (a->op == CONCAT && a->k.size() == 2 && isConst(a->k[1]) && a->k[0]->op == EXTRACT &&
        a->k[0]->lo == a->k[1]->w && a->k[0]->lo < 32) {
        E x = a->k[0]->k[0];
        unsigned n = a->k[1]->w;
        if (x->w == 64 && (x->kb.Zero | x->kb.One).extractBits(n, 0).isAllOnes()) {
            std::vector<Target> t;
            resolve(s, x, cond, t, depth + 1);
            APInt d = a->k[1]->c.zext(64) - x->kb.One.extractBits(n, 0).zext(64);
            for (auto &y : t) {
                if (y.id >= 0) y.off = mkAdd(y.off, mkConst(d));
                out.push_back(y);
            }
            return;
        }
    }
    // a choice inside the address: one case for each outcome
    if (depth < 40) {
        std::vector<E> st{a};
        for (int g = 0; !st.empty() && g < 200; g++) {
            E x = st.back();
            st.pop_back();
            if (x->op == ITE || x->w == 1) {
                E c = x->op == ITE ? x->k[0] : x;
                if (isConst(c)) continue;
                Subst t(c, mkTrue()), e(c, mkFalse());
                resolve(s, t(a), mkAnd(cond, c), out, depth + 1);
                resolve(s, e(a), mkAnd(cond, mkNot(c)), out, depth + 1);
                return;
            }
            for (auto *k : x->k) st.push_back(k);
        }
    }
    if (getenv("SYMX_DEBUG")) {
        std::function<void(E, int)> pr = [&](E x, int d) {
            fprintf(stderr, "%*s op%d w%u lo%u %s\n", 2 * d, "", (int)x->op, x->w, x->lo,
                    isConst(x) ? hexs(x->c).c_str() : "");
            if (d < 7)
                for (auto *k : x->k) pr(k, d + 1);
        };
        pr(a, 0);
    }
    unsup("pointer of unknown provenance");
}

static std::string curLoc;
static const Instruction *curInst = nullptr;
static std::string locOf(const Instruction *I) {
    if (!I) return "?";
    std::string r = I->getFunction()->getName().str();
    if (auto dl = I->getDebugLoc()) {
        std::string f;
        L::DILocation *d = dl.get();
        int n = 0;
        // innermost location first, then the call chain it was inlined from
        while (d && n < 6) {
            f += (n ? " < " : "") + L::StringRef(d->getFilename()).rsplit('/').second.str() + ":" +
                 std::to_string(d->getLine());
            if (f.size() && L::StringRef(d->getFilename()).find('/') == L::StringRef::npos)
                f = d->getFilename().str() + ":" + std::to_string(d->getLine());
            d = d->getInlinedAt();
            n++;
        }
        r = f;
    }
    return r;
}
static uint64_t nEarly = 0;  // discharged during execution
static void obligation(State &s, E bad, const std::string &kind, int64_t id = -1) {
    E c = mkAnd(conjAll(s.guard), bad);
    if (isFalse(c)) {
        if (id >= 0) nEarly++;
        return;
    }
    obls.push_back({c, kind, locOf(curInst), id});
}
// bad: violation; afterwards the path continues under !bad.  false: path is dead.
static bool check(State &s, E bad, const std::string &kind) {
    if (isFalse(bad)) return true;
    if (optConc) {
        // discharge it here if that is quick: the guard stays short
        auto g = s.guard;
        if (!pushGuard(g, bad) || feasible(g, 500) == UNSAT) {
            nEarly++;
            return true;
        }
    }
    obligation(s, bad, kind);
    return pushGuard(s.guard, mkNot(bad));
}
// candidate offsets of an in-bounds access
static std::vector<uint64_t> candidates(E off, uint64_t last) {
    std::vector<uint64_t> r;
    APInt z = off->kb.Zero, o = off->kb.One;
    for (uint64_t k = 0; k <= last; k++) {
        APInt v(64, k);
        if ((v & z) != 0) continue;
        if ((~v & o) != 0) continue;
        r.push_back(k);
    }
    if (r.size() > 5000) unsup("symbolic offset over too many candidates");
    return r;
}
static bool prepare(State &s, E addr, uint64_t n, std::vector<Target> &ts, bool write) {
    std::vector<Target> all;
    resolve(s, addr, mkTrue(), all);
    E bad = mkFalse();
    for (auto &t : all) {
        if (t.id < 0 || (size_t)t.id >= s.mem.size() || !s.mem[t.id] ||
            s.mem[t.id]->b.size() < n || (write && s.mem[t.id]->ro)) {
            bad = mkOr(bad, t.cond);
            continue;
        }
        E last = mkConst(s.mem[t.id]->b.size() - n, 64);
        E oob = mkUlt(last, t.off);
        bad = mkOr(bad, mkAnd(t.cond, oob));
        if (!isTrue(oob)) ts.push_back(t);
    }
    if (!check(s, bad, "memory-access")) return false;
    return !ts.empty();
}
// ---- lengths and pointers: a merged value that takes one of a few constants is often a single one
static uint64_t nConc = 0, nConcTried = 0;
// the constants an expression can take, if they are few and it is an ITE of constants and sums
static const std::vector<APInt> *leafValues(E e, int depth = 0) {
    static std::unordered_map<E, std::unique_ptr<std::vector<APInt>>> memo;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second.get();
    std::unique_ptr<std::vector<APInt>> r;
    auto add = [&](const APInt &v) {
        if (!r) return;
        for (auto &x : *r)
            if (x == v) return;
        r->push_back(v);
        if (r->size() > 8) r = nullptr;
    };
    auto start = [&] { r = std::make_unique<std::vector<APInt>>(); };
    if (depth < 200) switch (e->op) {
            case CONST: start(); add(e->c); break;
            case ITE: {
                auto *x = leafValues(e->k[1], depth + 1), *y = x ? leafValues(e->k[2], depth + 1) : nullptr;
                if (x && y) {
                    start();
                    for (auto &v : *x) add(v);
                    for (auto &v : *y) add(v);
                }
                break;
            }
            case ADD: {
                auto *x = leafValues(e->k[0], depth + 1), *y = x ? leafValues(e->k[1], depth + 1) : nullptr;
                if (x && y) {
                    start();
                    for (auto &v : *x)
                        for (auto &w : *y) add(v + w);
                }
                break;
            }
            case EXTRACT: {
                auto *x = leafValues(e->k[0], depth + 1);
                if (x) {
                    start();
                    for (auto &v : *x) add(v.extractBits(e->w, e->lo));
                }
                break;
            }
            case CONCAT: {
                start();
                add(APInt(e->w, 0));
                unsigned pos = e->w;
                for (auto *k : e->k) {
                    pos -= k->w;
                    const std::vector<APInt> *x = leafValues(k, depth + 1);
                    if (!x || !r) {
                        r = nullptr;
                        break;
                    }
                    auto old = std::move(r);
                    start();
                    for (auto &v : *old)
                        for (auto &w : *x) {
                            APInt t = v;
                            t.insertBits(w, pos);
                            add(t);
                        }
                }
                break;
            }
            default:
                if (e->w == 1) {
                    start();
                    add(APInt(1, 0));
                    add(APInt(1, 1));
                }
        }
    return (memo[e] = std::move(r)).get();
}
static E concretize(const std::vector<E> &guard, E e) {
    if (!optConc || isConst(e) || e->w < 32 || e->w > 64 || e->op == VAR) return e;
    auto *vs = leafValues(e);
    if (!vs) return e;
    // a plain choice of a bit is data
    if (e->op == CONCAT && e->k.size() == 2 && e->k[1]->w == 1) return e;
    static std::map<std::pair<E, E>, E> memo;
    auto key = std::make_pair(conjAll(guard), e);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    nConcTried++;
    E r = e;
    for (auto &v : *vs) {
        E ne = mkNot(mkEq(e, mkConst(v)));
        if (isFalse(ne)) {
            r = mkConst(v);
            break;
        }
        // the other way first is cheap: usually it is the first or none
        auto g = guard;
        g.push_back(ne);
        Verdict f = feasible(g, 1000);
        if (f == UNSAT) {
            r = mkConst(v);
            nConc++;
            break;
        }
        if (f == UNKNOWN) break;
    }
    return memo[key] = r;
}
// e holds whenever the first p conjuncts of the guard do
static bool implied(const std::vector<E> &guard, size_t p, E e) {
    if (!optConc || isTrue(e)) return isTrue(e);
    static std::unordered_map<E, bool> memo;
    auto it = memo.find(e);
    if (it == memo.end()) it = memo.emplace(e, feasible({mkNot(e)}, 1000) == UNSAT).first;
    if (it->second || p == 0) return it->second;
    std::vector<E> g(guard.begin(), guard.begin() + p);
    return !pushGuard(g, mkNot(e)) || feasible(g, 1000) == UNSAT;
}
static bool load(State &s, E addr, unsigned n, E &out) {
    std::vector<Target> ts;
    if (!prepare(s, addr, n, ts, false)) return false;
    E r = nullptr;
    for (auto &t : ts) {
        const Obj &o = *s.mem[t.id];
        E v = nullptr;
        if (isConst(t.off))
            v = readBytes(o, t.off->c.getZExtValue(), n);
        else {
            auto cs = candidates(t.off, o.b.size() - n);
            for (auto it = cs.rbegin(); it != cs.rend(); ++it) {
                E x = readBytes(o, *it, n);
                v = v ? mkIte(mkEq(t.off, mkConst(*it, 64)), x, v) : x;
            }
            if (!v) return false;
        }
        r = r ? mkIte(t.cond, v, r) : v;
    }
    if (optConc && n == 8 && !isConst(r)) {
        E c = concretize(s.guard, r);
        if (c != r) {
            r = c;
            if (ts.size() == 1 && isConst(ts[0].off) && !s.mem[ts[0].id]->ro) writeBytes(wr(s, ts[0].id), ts[0].off->c.getZExtValue(), r);
        }
    }
    out = r;
    return true;
}
static bool store(State &s, E addr, E val) {
    unsigned n = (val->w + 7) / 8;
    if (val->w % 8) val = mkZExt(val, 8 * n);
    std::vector<Target> ts;
    if (!prepare(s, addr, n, ts, true)) return false;
    for (auto &t : ts) {
        Obj &o = wr(s, t.id);
        if (isConst(t.off)) {
            uint64_t k = t.off->c.getZExtValue();
            if (isTrue(t.cond) || ts.size() == 1)
                writeBytes(o, k, val);
            else
                writeBytes(o, k, mkIte(t.cond, val, readBytes(o, k, n)));
        } else {
            for (uint64_t k : candidates(t.off, o.b.size() - n)) {
                E c = mkEq(t.off, mkConst(k, 64));
                if (ts.size() > 1) c = mkAnd(t.cond, c);
                writeBytes(o, k, mkIte(c, val, readBytes(o, k, n)));
            }
        }
    }
    return true;
}

// ------------------------------------------------------------------ module-level data
static std::unique_ptr<L::Module> M;
static const L::DataLayout *DL;
static std::unordered_map<const L::GlobalValue *, uint64_t> gvObj;
static std::vector<ObjP> globalsInit;  // by object id, filled before execution

static unsigned widthOf(Type *t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (auto *st = L::dyn_cast<L::StructType>(t)) {
        unsigned w = 0;
        for (auto *x : st->elements()) w += widthOf(x);
        return w;
    }
    if (auto *at = L::dyn_cast<L::ArrayType>(t)) return at->getNumElements() * widthOf(at->getElementType());
    if (auto *vt = L::dyn_cast<L::FixedVectorType>(t))
        return vt->getNumElements() * widthOf(vt->getElementType());
    std::string s;
    L::raw_string_ostream os(s);
    t->print(os);
    unsup("type " + s);
}
static E constVal(const L::Constant *c);
static E constExpr(const L::ConstantExpr *ce) {
    switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto *g = L::cast<L::GEPOperator>(ce);
            APInt off(64, 0);
            if (!g->accumulateConstantOffset(*DL, off)) unsup("constexpr gep");
            return mkAdd(constVal(L::cast<L::Constant>(g->getPointerOperand())), mkConst(off));
        }
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
        case Instruction::BitCast: {
            E v = constVal(ce->getOperand(0));
            unsigned w = widthOf(ce->getType());
            return w < v->w ? mkTrunc(v, w) : mkZExt(v, w);
        }
        case Instruction::Trunc:
            return mkTrunc(constVal(ce->getOperand(0)), widthOf(ce->getType()));
        case Instruction::Add:
            return mkAdd(constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
        case Instruction::Sub:
            return mkSub(constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
        case Instruction::ICmp: {
            E a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
            if (ce->getPredicate() == L::CmpInst::ICMP_EQ) return mkEq(a, b);
            if (ce->getPredicate() == L::CmpInst::ICMP_NE) return mkNot(mkEq(a, b));
            break;
        }
        default:
            break;
    }
    unsup("constant expression");
}
static E constVal(const L::Constant *c) {
    if (auto *i = L::dyn_cast<L::ConstantInt>(c)) return mkConst(i->getValue());
    if (auto *f = L::dyn_cast<L::ConstantFP>(c)) return mkConst(f->getValueAPF().bitcastToAPInt());
    if (L::isa<L::ConstantPointerNull>(c)) return mkConst(0, 64);
    if (L::isa<L::UndefValue>(c)) return freshUndef(widthOf(c->getType()));
    if (L::isa<L::ConstantAggregateZero>(c)) return mkConst(APInt(widthOf(c->getType()), 0));
    if (auto *g = L::dyn_cast<L::GlobalValue>(c)) {
        if (auto *ga = L::dyn_cast<L::GlobalAlias>(g))
            return constVal(ga->getAliasee());
        auto it = gvObj.find(g);
        if (it == gvObj.end()) unsup("global " + g->getName().str());
        return mkConst(baseOf(it->second), 64);
    }
    if (auto *ce = L::dyn_cast<L::ConstantExpr>(c)) return constExpr(ce);
    if (L::isa<L::ConstantAggregate>(c) || L::isa<L::ConstantDataSequential>(c)) {
        std::vector<E> parts;
        unsigned n = 0;
        if (auto *ca = L::dyn_cast<L::ConstantAggregate>(c))
            n = ca->getNumOperands();
        else
            n = L::cast<L::ConstantDataSequential>(c)->getNumElements();
        for (int i = (int)n - 1; i >= 0; i--) parts.push_back(constVal(c->getAggregateElement(i)));
        return mkConcat(parts);
    }
    unsup("constant kind");
}
static void initBytes(Obj &o, uint64_t off, const L::Constant *c) {
    Type *t = c->getType();
    uint64_t sz = DL->getTypeAllocSize(t);
    if (L::isa<L::ConstantAggregateZero>(c) || c->isNullValue()) {
        for (uint64_t i = 0; i < sz; i++) o.b[off + i] = {mkConst(0, 8), 0};
        return;
    }
    if (L::isa<L::UndefValue>(c)) return;
    if (auto *st = L::dyn_cast<L::StructType>(t)) {
        auto *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++)
            initBytes(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
        return;
    }
    if (auto *at = L::dyn_cast<L::ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); i++)
            initBytes(o, off + i * es, c->getAggregateElement(i));
        return;
    }
    E v = constVal(c);
    if (v->w % 8) v = mkZExt(v, (v->w + 7) / 8 * 8);
    writeBytes(o, off, v);
}
static void setupGlobals() {
    for (auto &g : M->globals()) {
        gvObj[&g] = nextObj++;
    }
    for (auto &f : *M) gvObj[&f] = nextObj++;
    globalsInit.resize(nextObj);
    for (auto &f : *M) {
        auto o = std::make_shared<Obj>();
        o->name = f.getName().str();
        o->ro = true;
        globalsInit[gvObj[&f]] = o;
    }
    for (auto &g : M->globals()) {
        auto o = std::make_shared<Obj>();
        o->name = g.getName().str();
        uint64_t sz = 0;
        if (g.getValueType()->isSized()) sz = DL->getTypeAllocSize(g.getValueType());
        if (sz > (1u << 20)) sz = 0;
        o->b.resize(sz);
        globalsInit[gvObj[&g]] = o;
        if (g.hasInitializer() && sz && !g.getName().starts_with("llvm.")) {
            try {
                initBytes(*o, 0, g.getInitializer());
            } catch (Unsupported &u) {
                o->b.clear();  // any access is then reported
                notes.insert("global " + o->name + " not modelled: " + u.what);
            }
        }
        o->ro = g.isConstant();
    }
}

// ------------------------------------------------------------------ per-function info
struct FInfo {
    std::unordered_map<const Value *, unsigned> num;
    unsigned n = 0;
    std::unordered_map<const BasicBlock *, unsigned> rpo;
    std::unordered_map<const BasicBlock *, std::vector<const BasicBlock *>> headers;  // outer..inner
    std::unordered_map<const BasicBlock *, std::vector<bool>> live;
    std::unique_ptr<L::DominatorTree> dt;
    std::unique_ptr<L::LoopInfo> li;
};
static std::unordered_map<const Function *, std::unique_ptr<FInfo>> finfo;
static FInfo &info(Function *F) {
    auto &p = finfo[F];
    if (p) return *p;
    p = std::make_unique<FInfo>();
    FInfo &f = *p;
    for (auto &a : F->args()) f.num[&a] = f.n++;
    for (auto &b : *F)
        for (auto &i : b)
            if (!i.getType()->isVoidTy()) f.num[&i] = f.n++;
    f.dt = std::make_unique<L::DominatorTree>(*F);
    f.li = std::make_unique<L::LoopInfo>(*f.dt);
    L::ReversePostOrderTraversal<Function *> rpot(F);
    unsigned k = 0;
    for (auto *b : rpot) f.rpo[b] = k++;
    for (auto *b : rpot) {
        std::vector<const BasicBlock *> h;
        for (auto *l = f.li->getLoopFor(b); l; l = l->getParentLoop()) h.insert(h.begin(), l->getHeader());
        f.headers[b] = h;
        for (auto *s : successors(b))
            if (f.rpo[s] <= f.rpo[b]) {
                // retreating edge: its target must be the header of a loop that contains b
                bool ok = false;
                for (auto *x : h) ok |= x == s;
                if (!ok) unsup("irreducible control flow in " + F->getName().str());
            }
    }
    // liveness
    std::unordered_map<const BasicBlock *, std::vector<bool>> use, def;
    for (auto *b : rpot) {
        std::vector<bool> u(f.n), d(f.n);
        for (auto &i : *b) {
            if (!L::isa<L::PHINode>(i))
                for (auto &op : i.operands()) {
                    auto it = f.num.find(op.get());
                    if (it != f.num.end() && !d[it->second]) u[it->second] = true;
                }
            auto it = f.num.find(&i);
            // phi results are defined on the edge: live into their block
            if (it != f.num.end() && !L::isa<L::PHINode>(i)) d[it->second] = true;
        }
        use[b] = u;
        def[b] = d;
        f.live[b] = u;
    }
    bool ch = true;
    std::vector<BasicBlock *> order(rpot.begin(), rpot.end());
    while (ch) {
        ch = false;
        for (auto it = order.rbegin(); it != order.rend(); ++it) {
            auto *b = *it;
            auto &lv = f.live[b];
            for (auto *s : successors(b)) {
                auto &ls = f.live[s];
                std::vector<bool> in = ls;
                for (auto &phi : s->phis()) in[f.num[&phi]] = false;
                for (auto &phi : s->phis()) {
                    auto *v = phi.getIncomingValueForBlock(b);
                    auto jt = f.num.find(v);
                    if (jt != f.num.end()) in[jt->second] = true;
                }
                auto &d = def[b];
                for (unsigned i = 0; i < f.n; i++)
                    if (in[i] && !d[i] && !lv[i]) {
                        lv[i] = true;
                        ch = true;
                    }
            }
            // phi results used here are live in by construction (defined on the edge)
        }
    }
    return f;
}

// ------------------------------------------------------------------ execution
using Key = std::vector<unsigned>;
struct Frame {
    State s;
    std::vector<E> env;
    BasicBlock *bb = nullptr;
    std::vector<unsigned> iter;
    E ret = nullptr;
};

static void mergeMem(State &a, const State &b, E c) {  // a under c, b otherwise
    if (a.mem.size() < b.mem.size()) a.mem.resize(b.mem.size());
    for (size_t i = 0; i < b.mem.size(); i++) {
        if (a.mem[i] == b.mem[i] || !b.mem[i]) continue;
        if (!a.mem[i]) {
            a.mem[i] = b.mem[i];
            continue;
        }
        const Obj &y = *b.mem[i];
        bool same = a.mem[i]->b == y.b;
        if (same) continue;
        Obj &x = wr(a, i);
        size_t n = x.b.size();
        for (size_t k = 0; k < n;) {
            if (x.b[k] == y.b[k]) {
                k++;
                continue;
            }
            size_t j = k + 1;
            while (j < n && j - k < 64 && !(x.b[j] == y.b[j]) && x.b[j].e == x.b[k].e &&
                   y.b[j].e == y.b[k].e && (!x.b[k].e || x.b[j].i == x.b[k].i + (j - k)) &&
                   (!y.b[k].e || y.b[j].i == y.b[k].i + (j - k)))
                j++;
            E vx = readBytes(x, k, j - k), vy = readBytes(y, k, j - k);
            writeBytes(x, k, mkIte(c, vx, vy));
            k = j;
        }
    }
}
// merges b into a; the guards are mutually exclusive
static void mergeFrames(Frame &a, Frame &&b, const std::vector<bool> *live) {
    nMerges++;
    size_t p = 0;
    auto &ga = a.s.guard;
    auto &gb = b.s.guard;
    while (p < ga.size() && p < gb.size() && ga[p] == gb[p]) p++;
    E ra = conjAll(ga, p), rb = conjAll(gb, p);
    E c = ra;
    if (p < ga.size() && p < gb.size() && ga[p] == mkNot(gb[p])) c = ga[p];
    E disj = mkOr(ra, rb);
    ga.resize(p);
    if (!implied(ga, p, disj)) ga.push_back(disj);
    mergeMem(a.s, b.s, c);
    for (size_t i = 0; i < a.env.size(); i++) {
        if (live && !(*live)[i]) {
            a.env[i] = nullptr;
            continue;
        }
        if (a.env[i] == b.env[i] || !b.env[i]) continue;
        if (!a.env[i]) {
            a.env[i] = b.env[i];
            continue;
        }
        a.env[i] = concretize(ga, mkIte(c, a.env[i], b.env[i]));
    }
    if (a.ret && b.ret) a.ret = mkIte(c, a.ret, b.ret);
}

static bool runFunction(Function *F, std::vector<E> args, State &st, E &ret, int depth);

static E fpBin(unsigned op, E a, E b) {
    if (!isConst(a) || !isConst(b) || a->w != 64) unsup("symbolic floating point");
    double x = a->c.bitsToDouble(), y = b->c.bitsToDouble(), r = 0;
    switch (op) {
        case Instruction::FAdd: r = x + y; break;
        case Instruction::FSub: r = x - y; break;
        case Instruction::FMul: r = x * y; break;
        case Instruction::FDiv: r = x / y; break;
        default: unsup("fp op");
    }
    return mkConst(APInt::doubleToBits(r));
}
static E elem(E v, Type *t, unsigned idx, unsigned &lo, unsigned &w, Type *&et) {
    lo = 0;
    if (auto *st = L::dyn_cast<L::StructType>(t)) {
        for (unsigned i = 0; i < idx; i++) lo += widthOf(st->getElementType(i));
        et = st->getElementType(idx);
    } else if (auto *at = L::dyn_cast<L::ArrayType>(t)) {
        et = at->getElementType();
        lo = idx * widthOf(et);
    } else {
        et = L::cast<L::VectorType>(t)->getElementType();
        lo = idx * widthOf(et);
    }
    w = widthOf(et);
    return v ? mkExtract(v, lo, w) : nullptr;
}
static E insertBits(E v, E x, unsigned lo) {
    std::vector<E> p;
    if (lo + x->w < v->w) p.push_back(mkExtract(v, lo + x->w, v->w - lo - x->w));
    p.push_back(x);
    if (lo) p.push_back(mkExtract(v, 0, lo));
    return mkConcat(p);
}
static E binop(unsigned op, E a, E b) {
    switch (op) {
        case Instruction::Add: return mkAdd(a, b);
        case Instruction::Sub: return mkSub(a, b);
        case Instruction::Mul: return mkMul(a, b);
        case Instruction::UDiv: return mkUDiv(a, b);
        case Instruction::SDiv: return mkSDiv(a, b);
        case Instruction::URem: return mkURem(a, b);
        case Instruction::SRem: return mkSRem(a, b);
        case Instruction::And: return mkAnd(a, b);
        case Instruction::Or: return mkOr(a, b);
        case Instruction::Xor: return mkXor(a, b);
        case Instruction::Shl: return mkShl(a, b);
        case Instruction::LShr: return mkLShr(a, b);
        case Instruction::AShr: return mkAShr(a, b);
        default: return fpBin(op, a, b);
    }
}
static E icmp(unsigned p, E a, E b) {
    using C = L::CmpInst;
    switch (p) {
        case C::ICMP_EQ: return mkEq(a, b);
        case C::ICMP_NE: return mkNot(mkEq(a, b));
        case C::ICMP_ULT: return mkUlt(a, b);
        case C::ICMP_ULE: return mkUle(a, b);
        case C::ICMP_UGT: return mkUlt(b, a);
        case C::ICMP_UGE: return mkUle(b, a);
        case C::ICMP_SLT: return mkSlt(a, b);
        case C::ICMP_SLE: return mkSle(a, b);
        case C::ICMP_SGT: return mkSlt(b, a);
        case C::ICMP_SGE: return mkSle(b, a);
    }
    unsup("icmp predicate");
}
static E lanes(Type *t, std::vector<E> ops, std::vector<Type *> ots,
               const std::function<E(std::vector<E>)> &f) {
    auto *vt = L::dyn_cast<L::FixedVectorType>(t);
    if (!vt) return f(ops);
    std::vector<E> parts;
    for (int i = (int)vt->getNumElements() - 1; i >= 0; i--) {
        std::vector<E> o;
        for (size_t k = 0; k < ops.size(); k++) {
            if (!ots[k]->isVectorTy()) {
                o.push_back(ops[k]);
                continue;
            }
            unsigned lo, w;
            Type *et;
            o.push_back(elem(ops[k], ots[k], i, lo, w, et));
        }
        parts.push_back(f(o));
    }
    return mkConcat(parts);
}
static E popcnt(E a) {
    E r = mkConst(0, a->w);
    // sum bit by bit in a balanced tree of small adders
    std::vector<E> v;
    for (unsigned i = 0; i < a->w; i++) v.push_back(mkExtract(a, i, 1));
    unsigned w = 1;
    while (v.size() > 1) {
        std::vector<E> n;
        for (size_t i = 0; i < v.size(); i += 2) {
            if (i + 1 < v.size())
                n.push_back(mkAdd(mkZExt(v[i], w + 1), mkZExt(v[i + 1], w + 1)));
            else
                n.push_back(mkZExt(v[i], w + 1));
        }
        v = n;
        w++;
    }
    r = v[0];
    return r->w < a->w ? mkZExt(r, a->w) : mkTrunc(r, a->w);
}
static E ctz(E a, bool leading) {
    E r = mkConst(a->w, a->w);
    for (unsigned k = 0; k < a->w; k++) {
        // lowest priority first
        unsigned bit = leading ? k : a->w - 1 - k;
        unsigned val = leading ? a->w - 1 - bit : bit;
        r = mkIte(mkExtract(a, bit, 1), mkConst(val, a->w), r);
    }
    return r;
}

static E evalVal0(const Value *v, Frame &f, FInfo &fi) {
    auto it = fi.num.find(v);
    if (it != fi.num.end()) {
        E e = f.env[it->second];
        if (!e) unsup("value not available: " + v->getName().str() + " in " +
                      f.bb->getParent()->getName().str());
        return e;
    }
    if (auto *c = L::dyn_cast<L::Constant>(v)) return constVal(c);
    unsup("operand kind");
}

enum class CallRes { Ok, Dead, NotHandled };
// resolves a choice that the path condition has already made
static E evalVal(const Value *v, Frame &f, FInfo &fi) {
    E e = evalVal0(v, f, fi);
    while (e->op == ITE) {
        E c = e->k[0], n = mkNot(c), r = nullptr;
        for (auto *g : f.s.guard) {
            if (g == c) r = e->k[1];
            if (g == n) r = e->k[2];
        }
        if (!r) break;
        e = r;
    }
    // the same for choices further down, which mkIte may have spread over the parts of a word
    auto &g = f.s.guard;
    if (isConst(e) || e->op == VAR || e->w > 64 || g.empty() || g.size() > 24) return e;
    E st[64], seen[64];
    int sp = 0, ns = 0;
    st[sp++] = e;
    std::vector<std::pair<E, bool>> hits;
    while (sp && ns < 48) {
        E x = st[--sp];
        if (x->op == CONST || x->op == VAR) continue;
        bool dup = false;
        for (int i = 0; i < ns; i++) dup |= seen[i] == x;
        if (dup) continue;
        seen[ns++] = x;
        if (x->w == 1) {
            E n = mkNot(x);
            int hit = -1;
            for (auto *a : g) {
                if (a == x) hit = 1;
                if (a == n) hit = 0;
            }
            if (hit >= 0) {
                hits.push_back({x, hit == 1});
                continue;
            }
        }
        for (auto *k : x->k)
            if (sp < 64) st[sp++] = k;
    }
    if (hits.empty()) return e;
    Subst sub(hits[0].first, mkConst(hits[0].second, 1));
    for (auto &h : hits) sub.m[h.first] = mkConst(h.second, 1);
    return sub(e);
}
static uint64_t constArg(E e, const char *what) {
    if (!isConst(e)) unsup(std::string("symbolic ") + what);
    return e->c.getZExtValue();
}
// upper bound of an unsigned value from known bits
static uint64_t maxOf(E e) {
    APInt m = e->kb.getMaxValue();
    return m.getActiveBits() > 64 ? ~0ull : m.getZExtValue();
}
static CallRes memcpyOp(State &s, E dst, E src, E len) {
    if (isConst(len)) {
        uint64_t n = len->c.getZExtValue();
        if (n == 0) return CallRes::Ok;
        // fast path: both concrete
        std::vector<Target> ts, td;
        if (!prepare(s, src, n, ts, false)) return CallRes::Dead;
        if (!prepare(s, dst, n, td, true)) return CallRes::Dead;
        if (ts.size() == 1 && td.size() == 1 && isConst(ts[0].off) && isConst(td[0].off)) {
            uint64_t so = ts[0].off->c.getZExtValue(), d0 = td[0].off->c.getZExtValue();
            std::vector<Byte> tmp(s.mem[ts[0].id]->b.begin() + so,
                                  s.mem[ts[0].id]->b.begin() + so + n);
            Obj &o = wr(s, td[0].id);
            std::copy(tmp.begin(), tmp.end(), o.b.begin() + d0);
            return CallRes::Ok;
        }
        E v;
        if (!load(s, src, n, v)) return CallRes::Dead;
        return store(s, dst, v) ? CallRes::Ok : CallRes::Dead;
    }
    // symbolic length
    uint64_t mx = maxOf(len);
    std::vector<Target> ts, td;
    resolve(s, src, mkTrue(), ts);
    resolve(s, dst, mkTrue(), td);
    auto bound = [&](std::vector<Target> &v) {
        uint64_t m = 0;
        for (auto &t : v)
            if (t.id >= 0 && (size_t)t.id < s.mem.size() && s.mem[t.id]) {
                uint64_t sz = s.mem[t.id]->b.size();
                m = std::max(m, sz);
            }
        return m;
    };
    uint64_t lim = std::min(bound(ts), bound(td));
    if (mx > lim) {
        if (!check(s, mkUlt(mkConst(lim, 64), len), "memory-access")) return CallRes::Dead;
        mx = lim;
    }
    if (mx > 600) {
        if (getenv("SYMX_DEBUG")) std::cerr << toSmt2(mkEq(len, mkVar("LEN", len->w))).substr(0, 6000) << "\n";
        unsup("symbolic memcpy length");
    }
    // bounds of both ranges, then byte by byte
    auto oob = [&](std::vector<Target> &v, bool w) {
        E bad = mkFalse();
        for (auto &t : v) {
            if (t.id < 0 || (size_t)t.id >= s.mem.size() || !s.mem[t.id] ||
                (w && s.mem[t.id]->ro)) {
                bad = mkOr(bad, t.cond);
                continue;
            }
            E sz = mkConst(s.mem[t.id]->b.size(), 64);
            bad = mkOr(bad, mkAnd(t.cond, mkOr(mkUlt(sz, t.off), mkUlt(mkSub(sz, t.off), len))));
        }
        return mkAnd(bad, mkNot(mkEq(len, mkConst(0, 64))));
    };
    if (!check(s, oob(ts, false), "memory-access")) return CallRes::Dead;
    if (!check(s, oob(td, true), "memory-access")) return CallRes::Dead;
    auto rd = [&](std::vector<Target> &v, uint64_t i) -> E {
        E r = nullptr;
        for (auto &t : v) {
            if (t.id < 0 || (size_t)t.id >= s.mem.size() || !s.mem[t.id]) continue;
            const Obj &o = *s.mem[t.id];
            E off = mkAdd(t.off, mkConst(i, 64));
            E x = nullptr;
            if (o.b.empty()) continue;
            if (isConst(off)) {
                if (off->c.ult(o.b.size())) x = readBytes(o, off->c.getZExtValue(), 1);
            } else
                for (uint64_t k : candidates(off, o.b.size() - 1)) {
                    E y = readBytes(o, k, 1);
                    x = x ? mkIte(mkEq(off, mkConst(k, 64)), y, x) : y;
                }
            if (!x) continue;
            r = r ? mkIte(t.cond, x, r) : x;
        }
        return r;
    };
    std::vector<E> bytes;
    for (uint64_t i = 0; i < mx; i++) bytes.push_back(rd(ts, i));
    for (uint64_t i = 0; i < mx; i++) {
        if (!bytes[i]) break;
        E on = mkUlt(mkConst(i, 64), len);
        if (isFalse(on)) break;
        for (auto &t : td) {
            if (t.id < 0 || !s.mem[t.id] || s.mem[t.id]->ro) continue;
            E off = mkAdd(t.off, mkConst(i, 64));
            Obj &o = wr(s, t.id);
            if (o.b.empty()) continue;
            E c0 = td.size() > 1 ? mkAnd(t.cond, on) : on;
            if (isConst(off)) {
                if (off->c.ult(o.b.size())) {
                    uint64_t k = off->c.getZExtValue();
                    writeBytes(o, k, mkIte(c0, bytes[i], readBytes(o, k, 1)));
                }
            } else
                for (uint64_t k : candidates(off, o.b.size() - 1)) {
                    E c = mkAnd(c0, mkEq(off, mkConst(k, 64)));
                    if (isFalse(c)) continue;
                    writeBytes(o, k, mkIte(c, bytes[i], readBytes(o, k, 1)));
                }
        }
    }
    return CallRes::Ok;
}
static CallRes external(const std::string &n, std::vector<E> &a, Frame &f, E &ret, Type *rt) {
    State &s = f.s;
    auto starts = [&](const char *p) { return n.rfind(p, 0) == 0; };
    if (n == "sym_u64") {
        uint64_t id = constArg(a[0], "input id");
        auto &v = inputs[id];
        if (!v) v = mkVar("in" + std::to_string(id), 64);
        ret = v;
        for (auto &fk : forks)
            if (fk.id == id) {
                if (fk.k < fk.n)
                    ret = mkOr(mkAnd(ret, mkConst(~fk.m, 64)), mkConst(fk.k, 64));
                else if (fk.m && !(fk.m & (fk.m - 1)))
                    ret = mkOr(ret, mkConst(fk.m, 64));
            }
        return CallRes::Ok;
    }
    if (n == "sym_id") {
        ret = a[0];
        return CallRes::Ok;
    }
    if (n == "sym_fork") {
        // before the input is read: (input & mask) takes each value below n, then all the others
        uint64_t id = constArg(a[0], "input id"), m = constArg(a[2], "fork mask");
        if (forkPos == forks.size()) forks.push_back({id, constArg(a[1], "fork bound"), 0, m});
        Fork fk = forks[forkPos++];
        auto &v = inputs[id];
        if (!v) v = mkVar("in" + std::to_string(id), 64);
        E x = mkAnd(v, mkConst(m, 64));
        E c = fk.k < fk.n ? mkEq(x, mkConst(fk.k, 64)) : mkUle(mkConst(fk.n, 64), x);
        nCases++;
        return pushGuard(s.guard, c) ? CallRes::Ok : CallRes::Dead;
    }
    if (n == "sym_split") {
        uint64_t id = constArg(a[0], "input id");
        if (!inputs.count(id)) unsup("sym_split of an unknown input");
        splits.push_back({inputs[id], constArg(a[1], "split bound")});
        return CallRes::Ok;
    }
    if (n == "sym_assume") {
        E c = mkNot(mkEq(a[0], mkConst(0, a[0]->w)));
        return pushGuard(s.guard, c) ? CallRes::Ok : CallRes::Dead;
    }
    if (n == "sym_assert") {
        E c = mkNot(mkEq(a[0], mkConst(0, a[0]->w)));
        obligation(s, mkNot(c), "assert", constArg(a[1], "assert id"));
        return CallRes::Ok;
    }
    if (n == "sym_observe") {
        observes.push_back({conjAll(s.guard), (int64_t)constArg(a[0], "observe id"), a[1]});
        return CallRes::Ok;
    }
    if (n == "sym_symbolic") {
        ret = mkConst(1, widthOf(rt));
        return CallRes::Ok;
    }
    if (n == "memcpy" || n == "memmove") {
        ret = a[0];
        return memcpyOp(s, a[0], a[1], a[2]);
    }
    if (n == "memset") {
        ret = a[0];
        E b = mkTrunc(a[1], 8);
        if (isConst(a[2])) {
            uint64_t len = a[2]->c.getZExtValue();
            if (!len) return CallRes::Ok;
            std::vector<Target> td;
            if (!prepare(s, a[0], len, td, true)) return CallRes::Dead;
            if (td.size() == 1 && isConst(td[0].off)) {
                Obj &o = wr(s, td[0].id);
                uint64_t d0 = td[0].off->c.getZExtValue();
                // constants by words, so that joins of two memories stay choices between words
                uint64_t i = 0;
                if (isConst(b))
                    for (; i + 8 <= len; i += 8) writeBytes(o, d0 + i, mkConst(APInt::getSplat(64, b->c)));
                for (; i < len; i++) writeBytes(o, d0 + i, b);
                return CallRes::Ok;
            }
            std::vector<E> p(len, b);
            return store(s, a[0], mkConcat(p)) ? CallRes::Ok : CallRes::Dead;
        }
        uint64_t mx = std::min<uint64_t>(maxOf(a[2]), 600);
        if (!check(s, mkUlt(mkConst(mx, 64), a[2]), "memory-access")) return CallRes::Dead;
        for (uint64_t i = 0; i < mx; i++) {
            E on = mkUlt(mkConst(i, 64), a[2]);
            // conditional store: read-modify-write only where in bounds
            std::vector<Target> t;
            resolve(s, mkAdd(a[0], mkConst(i, 64)), mkTrue(), t);
            for (auto &x : t) {
                if (x.id < 0 || !s.mem[x.id]) {
                    if (!check(s, mkAnd(on, x.cond), "memory-access")) return CallRes::Dead;
                    continue;
                }
                uint64_t sz = s.mem[x.id]->b.size();
                if (!check(s, mkAnd(mkAnd(on, x.cond), mkUle(mkConst(sz, 64), x.off)), "memory-access"))
                    return CallRes::Dead;
                if (!sz) continue;
                for (uint64_t k : candidates(x.off, sz - 1)) {
                    E c = mkAnd(mkAnd(on, x.cond), mkEq(x.off, mkConst(k, 64)));
                    if (isFalse(c)) continue;
                    Obj &o = wr(s, x.id);
                    writeBytes(o, k, mkIte(c, b, readBytes(o, k, 1)));
                }
            }
        }
        return CallRes::Ok;
    }
    if (n == "memcmp" || n == "bcmp") {
        uint64_t len = constArg(a[2], "memcmp length");
        E r = mkConst(0, 32);
        for (int64_t i = (int64_t)len - 1; i >= 0; i--) {
            E x, y;
            if (!load(s, mkAdd(a[0], mkConst(i, 64)), 1, x)) return CallRes::Dead;
            if (!load(s, mkAdd(a[1], mkConst(i, 64)), 1, y)) return CallRes::Dead;
            r = mkIte(mkEq(x, y), r, mkIte(mkUlt(x, y), mkConst(~0ull, 32), mkConst(1, 32)));
        }
        ret = r;
        return CallRes::Ok;
    }
    if (n == "memchr") {
        uint64_t len = constArg(a[2], "memchr length");
        E r = mkConst(0, 64), b = mkTrunc(a[1], 8);
        for (int64_t i = (int64_t)len - 1; i >= 0; i--) {
            E x, p = mkAdd(a[0], mkConst(i, 64));
            if (!load(s, p, 1, x)) return CallRes::Dead;
            r = mkIte(mkEq(x, b), p, r);
        }
        ret = r;
        return CallRes::Ok;
    }
    if (n == "strlen") {
        std::vector<Target> ts;
        resolve(s, a[0], mkTrue(), ts);
        if (ts.size() != 1 || ts[0].id < 0 || !isConst(ts[0].off)) unsup("strlen");
        const Obj &o = *s.mem[ts[0].id];
        uint64_t off = ts[0].off->c.getZExtValue();
        E r = nullptr;
        for (int64_t i = (int64_t)o.b.size() - 1; i >= (int64_t)off; i--) {
            E z = mkEq(readBytes(o, i, 1), mkConst(0, 8));
            E v = mkConst(i - off, 64);
            r = r ? mkIte(z, v, r) : v;
        }
        if (!r) unsup("strlen of empty object");
        ret = r;
        return CallRes::Ok;
    }
    if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t") {
        E sz = a[0];
        uint64_t len;
        if (isConst(sz))
            len = sz->c.getZExtValue();
        else {
            len = maxOf(sz);
            if (len > 4096) {
                // bound the request; larger ones are outside the claim only if feasible
                len = 4096;
                E big = mkUlt(mkConst(len, 64), sz);
                auto g = s.guard;
                g.push_back(big);
                if (feasible(g, 3000) != UNSAT) unsup("symbolic allocation size");
                if (!pushGuard(s.guard, mkNot(big))) return CallRes::Dead;
            }
        }
        uint64_t id = allocObj(s, len, "heap", true);
        ret = mkConst(baseOf(id), 64);
        return CallRes::Ok;
    }
    if (n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "_ZdaPvm" || n == "free" ||
        n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t") {
        std::vector<Target> ts;
        resolve(s, a[0], mkTrue(), ts);
        for (auto &t : ts) {
            if (t.id < 0) continue;
            bool badobj = (size_t)t.id >= s.mem.size() || !s.mem[t.id] || !s.mem[t.id]->heap;
            E bad = badobj ? t.cond : mkAnd(t.cond, mkNot(mkEq(t.off, mkConst(0, 64))));
            if (!check(s, bad, "invalid-free")) return CallRes::Dead;
            // several targets: the freed one is not known here; keep it allocated
            if (!badobj && ts.size() == 1) s.mem[t.id] = nullptr;
        }
        return CallRes::Ok;
    }
    if (n == "ceil" || n == "floor") {
        if (!isConst(a[0])) unsup("symbolic floating point");
        double d = a[0]->c.bitsToDouble();
        ret = mkConst(APInt::doubleToBits(n == "ceil" ? std::ceil(d) : std::floor(d)));
        return CallRes::Ok;
    }
    if (n == "abort" || n == "__cxa_throw_bad_array_new_length" || n == "_ZSt9terminatev" ||
        starts("_ZSt20__throw") || starts("_ZSt19__throw") || starts("_ZSt24__throw") ||
        starts("_ZSt17__throw") || starts("_ZSt21__throw") || starts("_ZSt28__throw") ||
        starts("_ZSt25__throw") || starts("_ZSt26__throw") || starts("_ZSt16__throw") ||
        starts("_ZSt18__throw") || starts("_ZSt21__glibcxx_assert_fail") ||
        n.find("__glibcxx_assert_fail") != std::string::npos ||
        n.find("__throw_") != std::string::npos || n == "__assert_fail" || n == "exit") {
        obligation(s, mkTrue(), "abort:" + n);
        return CallRes::Dead;
    }
    if (n == "__cxa_atexit" || n == "__cxa_guard_release") {
        if (!rt->isVoidTy()) ret = mkConst(0, widthOf(rt));
        return CallRes::Ok;
    }
    return CallRes::NotHandled;
}

static CallRes intrinsic(L::IntrinsicInst *I, std::vector<E> &a, Frame &f, E &ret) {
    State &s = f.s;
    using namespace L::Intrinsic;
    Type *t = I->getType();
    auto lane = [&](const std::function<E(std::vector<E>)> &fn) {
        std::vector<Type *> ots;
        for (unsigned i = 0; i < a.size(); i++) ots.push_back(I->getArgOperand(i)->getType());
        return lanes(t, a, ots, fn);
    };
    switch (I->getIntrinsicID()) {
        case lifetime_start: case lifetime_end: case dbg_value: case dbg_declare: case dbg_label:
        case experimental_noalias_scope_decl: case donothing:
        case invariant_end: case prefetch:
            return CallRes::Ok;
        case invariant_start:
            ret = mkConst(0, 64);
            return CallRes::Ok;
        case assume: {
            // an assumption comes from the front end or the optimiser; it holds by construction
            return pushGuard(s.guard, a[0]) ? CallRes::Ok : CallRes::Dead;
        }
        case expect:
        case ssa_copy:
        case launder_invariant_group:
        case strip_invariant_group:
            ret = a[0];
            return CallRes::Ok;
        case is_constant:
            ret = mkFalse();
            return CallRes::Ok;
        case objectsize:
            ret = mkConst(~0ull, widthOf(t));
            return CallRes::Ok;
        case ubsantrap:
        case trap:
            obligation(s, mkTrue(), "undefined-behaviour");
            return CallRes::Dead;
        case L::Intrinsic::memcpy: case L::Intrinsic::memmove: case memcpy_inline:
            return memcpyOp(s, a[0], a[1], a[2]->w < 64 ? mkZExt(a[2], 64) : a[2]);
        case L::Intrinsic::memset: {
            std::vector<E> b{a[0], mkZExt(a[1], 32), a[2]->w < 64 ? mkZExt(a[2], 64) : a[2]};
            E r;
            return external("memset", b, f, r, t);
        }
        case ctpop:
            ret = lane([](std::vector<E> o) { return popcnt(o[0]); });
            return CallRes::Ok;
        case ctlz:
            ret = lane([](std::vector<E> o) { return ctz(o[0], true); });
            return CallRes::Ok;
        case cttz:
            ret = lane([](std::vector<E> o) { return ctz(o[0], false); });
            return CallRes::Ok;
        case bswap:
            ret = lane([](std::vector<E> o) {
                std::vector<E> p;
                for (unsigned i = 0; i < o[0]->w; i += 8) p.push_back(mkExtract(o[0], i, 8));
                return mkConcat(p);
            });
            return CallRes::Ok;
        case bitreverse:
            ret = lane([](std::vector<E> o) {
                std::vector<E> p;
                for (unsigned i = 0; i < o[0]->w; i++) p.push_back(mkExtract(o[0], i, 1));
                return mkConcat(p);
            });
            return CallRes::Ok;
        case fshl: case fshr: {
            bool left = I->getIntrinsicID() == fshl;
            ret = lane([&](std::vector<E> o) {
                unsigned w = o[0]->w;
                E n = mkURem(o[2], mkConst(w, w));
                E both = mkConcat({o[0], o[1]});
                E nn = mkZExt(n, 2 * w);
                return left ? mkExtract(mkShl(both, nn), w, w) : mkExtract(mkLShr(both, nn), 0, w);
            });
            return CallRes::Ok;
        }
        case umin: ret = lane([](std::vector<E> o) { return mkIte(mkUlt(o[0], o[1]), o[0], o[1]); }); return CallRes::Ok;
        case umax: ret = lane([](std::vector<E> o) { return mkIte(mkUlt(o[0], o[1]), o[1], o[0]); }); return CallRes::Ok;
        case smin: ret = lane([](std::vector<E> o) { return mkIte(mkSlt(o[0], o[1]), o[0], o[1]); }); return CallRes::Ok;
        case smax: ret = lane([](std::vector<E> o) { return mkIte(mkSlt(o[0], o[1]), o[1], o[0]); }); return CallRes::Ok;
        case L::Intrinsic::abs:
            ret = lane([](std::vector<E> o) {
                return mkIte(mkSlt(o[0], mkConst(0, o[0]->w)), mkSub(mkConst(0, o[0]->w), o[0]), o[0]);
            });
            return CallRes::Ok;
        case usub_sat:
            ret = lane([](std::vector<E> o) {
                return mkIte(mkUlt(o[0], o[1]), mkConst(0, o[0]->w), mkSub(o[0], o[1]));
            });
            return CallRes::Ok;
        case uadd_sat:
            ret = lane([](std::vector<E> o) {
                E r = mkAdd(o[0], o[1]);
                return mkIte(mkUlt(r, o[0]), mkConst(APInt::getAllOnes(r->w)), r);
            });
            return CallRes::Ok;
        case uadd_with_overflow: case usub_with_overflow: case umul_with_overflow:
        case sadd_with_overflow: case ssub_with_overflow: case smul_with_overflow: {
            auto id = I->getIntrinsicID();
            unsigned w = a[0]->w;
            bool sg = id == sadd_with_overflow || id == ssub_with_overflow || id == smul_with_overflow;
            bool mul = id == umul_with_overflow || id == smul_with_overflow;
            bool sub = id == usub_with_overflow || id == ssub_with_overflow;
            unsigned ew = mul ? 2 * w : w + 1;
            E x = sg ? mkSExt(a[0], ew) : mkZExt(a[0], ew), y = sg ? mkSExt(a[1], ew) : mkZExt(a[1], ew);
            E r = mul ? mkMul(x, y) : sub ? mkSub(x, y) : mkAdd(x, y);
            E lo = mkTrunc(r, w);
            E ov = mkNot(mkEq(r, sg ? mkSExt(lo, ew) : mkZExt(lo, ew)));
            ret = mkConcat({ov, lo});
            return CallRes::Ok;
        }
        case L::Intrinsic::ceil:
        case L::Intrinsic::floor: {
            E r;
            auto c = external(I->getIntrinsicID() == L::Intrinsic::ceil ? "ceil" : "floor", a, f, r, t);
            ret = r;
            return c;
        }
        case vector_reduce_or: case vector_reduce_and: case vector_reduce_xor: case vector_reduce_add: {
            Type *vt = I->getArgOperand(0)->getType();
            unsigned n = L::cast<L::FixedVectorType>(vt)->getNumElements();
            E r = nullptr;
            for (unsigned i = 0; i < n; i++) {
                unsigned lo, w;
                Type *et;
                E x = elem(a[0], vt, i, lo, w, et);
                auto id = I->getIntrinsicID();
                r = !r ? x : id == vector_reduce_or ? mkOr(r, x) : id == vector_reduce_and ? mkAnd(r, x)
                          : id == vector_reduce_xor ? mkXor(r, x) : mkAdd(r, x);
            }
            ret = r;
            return CallRes::Ok;
        }
        default:
            return CallRes::NotHandled;
    }
}

static Key keyOf(FInfo &fi, const BasicBlock *b, const std::vector<unsigned> &iter) {
    Key k;
    auto &h = fi.headers[b];
    for (size_t i = 0; i < h.size(); i++) {
        k.push_back(fi.rpo[h[i]]);
        k.push_back(iter[i]);
    }
    k.push_back(fi.rpo[b]);
    return k;
}

static bool runFunction(Function *F, std::vector<E> args, State &st, E &ret, int depth) {
    if (depth > 100) unsup("call depth (recursion) in " + F->getName().str());
    FInfo &fi = info(F);
    funcsEncoded.insert(F->getName().str());
    std::map<Key, Frame> work;
    uint64_t objStart = nextObj;
    std::vector<uint64_t> stackObjs;
    {
        Frame f;
        f.s = std::move(st);
        f.env.resize(fi.n);
        unsigned i = 0;
        for (auto &a : F->args()) f.env[fi.num[&a]] = args[i++];
        f.bb = &F->getEntryBlock();
        if (!fi.headers[f.bb].empty()) unsup("loop at entry block");
        work[keyOf(fi, f.bb, f.iter)] = std::move(f);
    }
    (void)objStart;
    bool have = false;
    Frame retF;
    auto go = [&](Frame &&src, BasicBlock *to) {
        BasicBlock *from = src.bb;
        // PHIs
        std::vector<std::pair<unsigned, E>> upd;
        for (auto &phi : to->phis())
            upd.push_back({fi.num[&phi], evalVal(phi.getIncomingValueForBlock(from), src, fi)});
        for (auto &u : upd) src.env[u.first] = u.second;
        // loop iterations
        auto &hf = fi.headers[from];
        auto &ht = fi.headers[to];
        std::vector<unsigned> it;
        for (size_t i = 0; i < ht.size(); i++) {
            bool same = i < hf.size() && hf[i] == ht[i];
            if (same) {
                unsigned v = src.iter[i];
                if (ht[i] == to && i + 1 == ht.size()) {
                    v++;  // back edge
                    if (v > maxIter) maxIter = v;
                    if (v > optUnwind) unsup("unwind limit in " + F->getName().str());
                }
                it.push_back(v);
            } else
                it.push_back(0);
        }
        src.bb = to;
        src.iter = it;
        Key k = keyOf(fi, to, it);
        auto w = work.find(k);
        nStates++;
        if (w == work.end())
            work.emplace(k, std::move(src));
        else
            mergeFrames(w->second, std::move(src), &fi.live[to]);
    };
    while (!work.empty()) {
        if (now() - tStart > optTotal) unsup("time budget during symbolic execution");
        auto node = work.extract(work.begin());
        Frame f = std::move(node.mapped());
        BasicBlock *bb = f.bb;
        bool dead = false;
        for (auto &I : *bb) {
            if (L::isa<L::PHINode>(I)) continue;
            nInstr++;
            curInst = &I;
            auto op = [&](unsigned i) { return evalVal(I.getOperand(i), f, fi); };
            auto set = [&](E e) {
                if (e->w != widthOf(I.getType())) unsup("internal: width mismatch");
                f.env[fi.num[&I]] = e;
            };
            unsigned oc = I.getOpcode();
            if (I.isTerminator()) {
                if (auto *r = L::dyn_cast<L::ReturnInst>(&I)) {
                    f.ret = r->getReturnValue() ? evalVal(r->getReturnValue(), f, fi) : nullptr;
                    f.env.clear();
                    if (!have) {
                        have = true;
                        retF = std::move(f);
                    } else
                        mergeFrames(retF, std::move(f), nullptr);
                } else if (auto *b = L::dyn_cast<L::BranchInst>(&I)) {
                    if (!b->isConditional()) {
                        go(std::move(f), b->getSuccessor(0));
                    } else {
                        E c = evalVal(b->getCondition(), f, fi);
                        BasicBlock *t = b->getSuccessor(0), *e = b->getSuccessor(1);
                        if (t == e || isTrue(c)) {
                            go(std::move(f), t);
                        } else if (isFalse(c)) {
                            go(std::move(f), e);
                        } else {
                            auto guard0 = f.s.guard;
                            Frame g = f;
                            bool okT = pushGuard(f.s.guard, c), okE = pushGuard(g.s.guard, mkNot(c));
                            // a symbolic loop condition: prune infeasible continuations
                            auto &h = fi.headers[bb];
                            if (okT && okE && !h.empty()) {
                                auto inLoop = [&](BasicBlock *x) {
                                    auto &hx = fi.headers[x];
                                    return hx.size() >= h.size() && hx[h.size() - 1] == h.back();
                                };
                                bool it = inLoop(t), ie = inLoop(e);
                                unsigned itn = f.iter.back();
                                bool due = (itn >= 1 && itn <= 4) || (itn & (itn - 1)) == 0 ||
                                           (itn > 4 && itn % 3 == 0 && itn < 16);
                                if (it != ie && itn >= 1 && due) {
                                    // less and less time for conditions that are not decided
                                    static unsigned undecided = 0;
                                    auto no = [&](State &s) {
                                        Verdict v = feasible(s.guard, std::max(100u, 4000u >> std::min(undecided, 5u)));
                                        if (v == UNKNOWN) undecided++;
                                        return v == UNSAT;
                                    };
                                    if (it && no(f.s)) okT = false;
                                    if (ie && no(g.s)) okE = false;
                                }
                            }
                            if (okT && !okE) {
// keep the guard short: the condition is implied
                                f.s.guard = std::move(guard0);
                                go(std::move(f), t);
                            } else if (okE && !okT) {
                                g.s.guard = std::move(guard0);
                                go(std::move(g), e);
                            } else if (okT && okE) {
                                go(std::move(f), t);
                                go(std::move(g), e);
                            }
                        }
                    }
                } else if (auto *sw = L::dyn_cast<L::SwitchInst>(&I)) {
                    E c = evalVal(sw->getCondition(), f, fi);
                    std::vector<std::pair<BasicBlock *, E>> dst;
                    E none = mkTrue();
                    for (auto &cs : sw->cases()) {
                        E q = mkEq(c, mkConst(cs.getCaseValue()->getValue()));
                        none = mkAnd(none, mkNot(q));
                        bool fnd = false;
                        for (auto &d : dst)
                            if (d.first == cs.getCaseSuccessor()) {
                                d.second = mkOr(d.second, q);
                                fnd = true;
                            }
                        if (!fnd) dst.push_back({cs.getCaseSuccessor(), q});
                    }
                    bool fnd = false;
                    for (auto &d : dst)
                        if (d.first == sw->getDefaultDest()) {
                            d.second = mkOr(d.second, none);
                            fnd = true;
                        }
                    if (!fnd) dst.push_back({sw->getDefaultDest(), none});
                    for (auto &d : dst) {
                        Frame g = f;
                        if (isFalse(d.second) || !pushGuard(g.s.guard, d.second)) continue;
                        go(std::move(g), d.first);
                    }
                } else if (L::isa<L::UnreachableInst>(&I)) {
                    obligation(f.s, mkTrue(), "unreachable-reached");
                } else
                    unsup(std::string("terminator ") + I.getOpcodeName());
                dead = true;
                break;
            }
            if (L::isa<L::DbgInfoIntrinsic>(I)) continue;
            if (auto *ci = L::dyn_cast<L::CallBase>(&I)) {
                std::vector<E> a;
                Function *cal = ci->getCalledFunction();
                if (!cal && ci->isIndirectCall()) {
                    E p = evalVal(ci->getCalledOperand(), f, fi);
                    if (isConst(p))
                        for (auto &g : gvObj)
                            if (baseOf(g.second) == p->c.getZExtValue())
                                cal = L::dyn_cast<Function>(const_cast<L::GlobalValue *>(g.first));
                }
                if (!cal)
                    if (auto *ga = L::dyn_cast<L::GlobalAlias>(ci->getCalledOperand()))
                        cal = L::dyn_cast<Function>(ga->getAliaseeObject());
                if (!cal) unsup("indirect call");
                if (cal->isIntrinsic()) {
                    auto id = cal->getIntrinsicID();
                    if (id == L::Intrinsic::lifetime_start || id == L::Intrinsic::lifetime_end ||
                        id == L::Intrinsic::experimental_noalias_scope_decl)
                        continue;
                }
                for (auto &x : ci->args()) {
                    if (x->getType()->isMetadataTy()) {
                        a.push_back(nullptr);
                        continue;
                    }
                    a.push_back(evalVal(x.get(), f, fi));
                }
                E r = nullptr;
                CallRes cr = CallRes::NotHandled;
                std::string nm = cal->getName().str();
                if (auto *ii = L::dyn_cast<L::IntrinsicInst>(&I))
                    cr = intrinsic(ii, a, f, r);
                else if (cal->isDeclaration() || nm.rfind("sym_", 0) == 0)
                    cr = external(nm, a, f, r, I.getType());
                else {
                    // by-value aggregates
                    for (unsigned i = 0; i < ci->arg_size(); i++)
                        if (ci->isByValArgument(i)) {
                            uint64_t sz = DL->getTypeAllocSize(ci->getParamByValType(i));
                            uint64_t id = allocObj(f.s, sz, "byval");
                            stackObjs.push_back(id);
                            E p = mkConst(baseOf(id), 64);
                            if (memcpyOp(f.s, p, a[i], mkConst(sz, 64)) != CallRes::Ok) {
                                dead = true;
                                break;
                            }
                            a[i] = p;
                        }
                    if (dead) break;
                    cr = runFunction(cal, a, f.s, r, depth + 1) ? CallRes::Ok : CallRes::Dead;
                    curInst = &I;
                }
                if (cr == CallRes::NotHandled) unsup("call to " + nm);
                if (cr == CallRes::Dead) {
                    dead = true;
                    break;
                }
                if (!I.getType()->isVoidTy()) {
                    if (!r) unsup("no value from " + nm);
                    set(r);
                }
                continue;
            }
            switch (oc) {
                case Instruction::Alloca: {
                    auto *ai = L::cast<L::AllocaInst>(&I);
                    uint64_t n = constArg(evalVal(ai->getArraySize(), f, fi), "alloca size");
                    uint64_t id = allocObj(f.s, n * DL->getTypeAllocSize(ai->getAllocatedType()),
                                           ai->getName().str());
                    stackObjs.push_back(id);
                    set(mkConst(baseOf(id), 64));
                    break;
                }
                case Instruction::Load: {
                    Type *t = I.getType();
                    E p = op(0);
                    if (t->isStructTy() || t->isArrayTy()) {
                        // element by element
                        std::function<E(Type *, uint64_t)> rec = [&](Type *x, uint64_t off) -> E {
                            if (auto *s2 = L::dyn_cast<L::StructType>(x)) {
                                std::vector<E> ps;
                                auto *sl = DL->getStructLayout(s2);
                                for (int i = (int)s2->getNumElements() - 1; i >= 0; i--) {
                                    E v = rec(s2->getElementType(i), off + sl->getElementOffset(i));
                                    if (!v) return nullptr;
                                    ps.push_back(v);
                                }
                                return mkConcat(ps);
                            }
                            if (auto *a2 = L::dyn_cast<L::ArrayType>(x)) {
                                std::vector<E> ps;
                                uint64_t es = DL->getTypeAllocSize(a2->getElementType());
                                for (int i = (int)a2->getNumElements() - 1; i >= 0; i--) {
                                    E v = rec(a2->getElementType(), off + i * es);
                                    if (!v) return nullptr;
                                    ps.push_back(v);
                                }
                                return mkConcat(ps);
                            }
                            unsigned w = widthOf(x);
                            E v;
                            if (!load(f.s, mkAdd(p, mkConst(off, 64)), (w + 7) / 8, v)) return nullptr;
                            return mkTrunc(v, w);
                        };
                        E v = rec(t, 0);
                        if (!v)
                            dead = true;
                        else
                            set(v);
                        break;
                    }
                    unsigned w = widthOf(t);
                    if (t->isVectorTy() && w % 8) unsup("bit vector load");
                    E v;
                    if (!load(f.s, p, (w + 7) / 8, v))
                        dead = true;
                    else
                        set(mkTrunc(v, w));
                    break;
                }
                case Instruction::Store: {
                    Type *t = I.getOperand(0)->getType();
                    E v = op(0), p = op(1);
                    if (t->isStructTy() || t->isArrayTy()) {
                        std::function<bool(Type *, uint64_t, E)> rec = [&](Type *x, uint64_t off, E val) -> bool {
                            if (x->isStructTy() || x->isArrayTy()) {
                                unsigned n = x->isStructTy() ? x->getStructNumElements()
                                                             : x->getArrayNumElements();
                                for (unsigned i = 0; i < n; i++) {
                                    unsigned lo, w;
                                    Type *et;
                                    E y = elem(val, x, i, lo, w, et);
                                    uint64_t o2 = x->isStructTy()
                                                      ? (uint64_t)DL->getStructLayout(L::cast<L::StructType>(x))
                                                            ->getElementOffset(i)
                                                      : i * (uint64_t)DL->getTypeAllocSize(et);
                                    if (!rec(et, off + o2, y)) return false;
                                }
                                return true;
                            }
                            return store(f.s, mkAdd(p, mkConst(off, 64)), val);
                        };
                        if (!rec(t, 0, v)) dead = true;
                        break;
                    }
                    // memory holds a multiple of the store size
                    uint64_t ss = DL->getTypeStoreSize(t) * 8;
                    if (v->w < ss) v = mkZExt(v, ss);
                    if (!store(f.s, p, v)) dead = true;
                    break;
                }
                case Instruction::GetElementPtr: {
                    auto *g = L::cast<L::GetElementPtrInst>(&I);
                    if (g->getType()->isVectorTy()) unsup("vector gep");
                    E p = op(0);
                    for (auto gti = L::gep_type_begin(g), e = L::gep_type_end(g); gti != e; ++gti) {
                        E idx = evalVal(gti.getOperand(), f, fi);
                        if (auto *s2 = gti.getStructTypeOrNull()) {
                            p = mkAdd(p, mkConst(DL->getStructLayout(s2)->getElementOffset(idx->c.getZExtValue()), 64));
                        } else {
                            uint64_t es = DL->getTypeAllocSize(gti.getIndexedType());
                            E i64 = idx->w < 64 ? mkSExt(idx, 64) : mkTrunc(idx, 64);
                            p = mkAdd(p, mkMul(i64, mkConst(es, 64)));
                        }
                    }
                    set(p);
                    break;
                }
                case Instruction::ICmp: {
                    auto *ic = L::cast<L::ICmpInst>(&I);
                    Type *ot = I.getOperand(0)->getType();
                    set(lanes(I.getType(), {op(0), op(1)}, {ot, ot},
                              [&](std::vector<E> o) { return icmp(ic->getPredicate(), o[0], o[1]); }));
                    break;
                }
                case Instruction::FCmp: {
                    E a = op(0), b = op(1);
                    if (!isConst(a) || !isConst(b) || a->w != 64) unsup("symbolic floating point");
                    double x = a->c.bitsToDouble(), y = b->c.bitsToDouble();
                    bool r;
                    switch (L::cast<L::FCmpInst>(&I)->getPredicate()) {
                        case L::CmpInst::FCMP_OLT: case L::CmpInst::FCMP_ULT: r = x < y; break;
                        case L::CmpInst::FCMP_OGT: case L::CmpInst::FCMP_UGT: r = x > y; break;
                        case L::CmpInst::FCMP_OLE: case L::CmpInst::FCMP_ULE: r = x <= y; break;
                        case L::CmpInst::FCMP_OGE: case L::CmpInst::FCMP_UGE: r = x >= y; break;
                        case L::CmpInst::FCMP_OEQ: case L::CmpInst::FCMP_UEQ: r = x == y; break;
                        case L::CmpInst::FCMP_ONE: case L::CmpInst::FCMP_UNE: r = x != y; break;
                        default: unsup("fcmp");
                    }
                    set(mkConst(r, 1));
                    break;
                }
                case Instruction::Select: {
                    E c = op(0), a = op(1), b = op(2);
                    if (c->w == 1)
                        set(mkIte(c, a, b));
                    else
                        set(lanes(I.getType(), {c, a, b},
                                  {I.getOperand(0)->getType(), I.getType(), I.getType()},
                                  [&](std::vector<E> o) { return mkIte(o[0], o[1], o[2]); }));
                    break;
                }
                case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
                    Type *et = I.getType()->getScalarType();
                    unsigned w = widthOf(et);
                    set(lanes(I.getType(), {op(0)}, {I.getOperand(0)->getType()}, [&](std::vector<E> o) {
                        return oc == Instruction::ZExt ? mkZExt(o[0], w)
                               : oc == Instruction::SExt ? mkSExt(o[0], w) : mkTrunc(o[0], w);
                    }));
                    break;
                }
                case Instruction::PtrToInt: case Instruction::IntToPtr: {
                    E v = op(0);
                    unsigned w = widthOf(I.getType());
                    set(w < v->w ? mkTrunc(v, w) : mkZExt(v, w));
                    break;
                }
                case Instruction::BitCast: case Instruction::Freeze:
                    set(op(0));
                    break;
                case Instruction::UIToFP: case Instruction::SIToFP: {
                    E v = op(0);
                    if (!isConst(v) || widthOf(I.getType()) != 64) unsup("symbolic floating point");
                    double d = oc == Instruction::UIToFP ? (double)v->c.getZExtValue()
                                                         : (double)v->c.getSExtValue();
                    set(mkConst(APInt::doubleToBits(d)));
                    break;
                }
                case Instruction::FPToUI: case Instruction::FPToSI: {
                    E v = op(0);
                    if (!isConst(v) || v->w != 64) unsup("symbolic floating point");
                    double d = v->c.bitsToDouble();
                    set(mkConst(APInt(widthOf(I.getType()), (uint64_t)(int64_t)d)));
                    break;
                }
                case Instruction::FNeg: {
                    E v = op(0);
                    set(mkXor(v, mkConst(APInt::getSignMask(v->w))));
                    break;
                }
                case Instruction::ExtractValue: {
                    auto *ev = L::cast<L::ExtractValueInst>(&I);
                    E v = op(0);
                    Type *t = I.getOperand(0)->getType();
                    for (unsigned i : ev->indices()) {
                        unsigned lo, w;
                        Type *et;
                        v = elem(v, t, i, lo, w, et);
                        t = et;
                    }
                    set(v);
                    break;
                }
                case Instruction::InsertValue: {
                    auto *iv = L::cast<L::InsertValueInst>(&I);
                    E v = op(0), x = op(1);
                    Type *t = I.getOperand(0)->getType();
                    unsigned base = 0;
                    for (unsigned i : iv->indices()) {
                        unsigned lo, w;
                        Type *et;
                        elem(nullptr, t, i, lo, w, et);
                        base += lo;
                        t = et;
                    }
                    set(insertBits(v, x, base));
                    break;
                }
                case Instruction::ExtractElement: {
                    E v = op(0);
                    uint64_t i = constArg(op(1), "vector index");
                    unsigned lo, w;
                    Type *et;
                    set(elem(v, I.getOperand(0)->getType(), i, lo, w, et));
                    break;
                }
                case Instruction::InsertElement: {
                    E v = op(0), x = op(1);
                    uint64_t i = constArg(op(2), "vector index");
                    unsigned lo, w;
                    Type *et;
                    elem(nullptr, I.getType(), i, lo, w, et);
                    set(insertBits(v, x, lo));
                    break;
                }
                case Instruction::ShuffleVector: {
                    auto *sv = L::cast<L::ShuffleVectorInst>(&I);
                    E a = op(0), b = op(1);
                    Type *t = I.getOperand(0)->getType();
                    unsigned n = L::cast<L::FixedVectorType>(t)->getNumElements();
                    auto m = sv->getShuffleMask();
                    std::vector<E> ps;
                    for (int i = (int)m.size() - 1; i >= 0; i--) {
                        unsigned lo, w;
                        Type *et;
                        if (m[i] < 0) {
                            ps.push_back(freshUndef(widthOf(t->getScalarType())));
                        } else if ((unsigned)m[i] < n)
                            ps.push_back(elem(a, t, m[i], lo, w, et));
                        else
                            ps.push_back(elem(b, t, m[i] - n, lo, w, et));
                    }
                    set(mkConcat(ps));
                    break;
                }
                default: {
                    if (I.isBinaryOp()) {
                        Type *t = I.getType();
                        set(lanes(t, {op(0), op(1)}, {t, t}, [&](std::vector<E> o) -> E {
                            if (oc == Instruction::UDiv || oc == Instruction::URem ||
                                oc == Instruction::SDiv || oc == Instruction::SRem) {
                                if (!check(f.s, mkEq(o[1], mkConst(0, o[1]->w)), "division-by-zero")) {
                                    dead = true;
                                    return mkConst(0, o[0]->w);
                                }
                            }
                            return binop(oc, o[0], o[1]);
                        }));
                        break;
                    }
                    unsup(std::string("instruction ") + I.getOpcodeName());
                }
            }
            if (dead) break;
        }
        (void)dead;
    }
    if (!have) return false;
    for (uint64_t id : stackObjs)
        if (id < retF.s.mem.size()) retF.s.mem[id] = nullptr;
    st = std::move(retF.s);
    ret = retF.ret;
    return true;
}

// ------------------------------------------------------------------ driver
static std::string js(const std::string &s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\')
            r += '\\', r += c;
        else if ((unsigned char)c < 32)
            r += ' ';
        else
            r += c;
    }
    return r + "\"";
}
static std::string hex(const APInt &a) {
    L::SmallString<80> s;
    a.toStringUnsigned(s, 16);
    return std::string(s);
}

static std::string hexs(const APInt &a) { return hex(a); }

int main(int argc, char **argv) {
    std::vector<std::string> mods;
    std::string entry, out, evalFile, dump;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--entry") entry = argv[++i];
        else if (a == "--out") out = argv[++i];
        else if (a == "--timeout") optTimeout = atof(argv[++i]);
        else if (a == "--total") optTotal = atof(argv[++i]);
        else if (a == "--unwind") optUnwind = atoi(argv[++i]);
        else if (a == "--z3only") optZ3Only = true;
        else if (a == "--split") optSplit = true;
        else if (a == "--concretize") optConc = true;
        else if (a == "--tables") useSem = true;
        else if (a == "--eval") evalFile = argv[++i];
        else if (a == "--smt2") dump = argv[++i];
        else mods.push_back(a);
    }
    // deep recursion in call chains
    struct rlimit rl;
    getrlimit(RLIMIT_STACK, &rl);
    L::LLVMContext C;
    L::SMDiagnostic err;
    for (auto &m : mods) {
        auto p = L::parseIRFile(m, err, C);
        if (!p) {
            err.print("symx", L::errs());
            return 3;
        }
        if (!M)
            M = std::move(p);
        else if (L::Linker::linkModules(*M, std::move(p)))
            return 3;
    }
    DL = &M->getDataLayout();
    tStart = now();
    std::string status = "ok", why;
    State st;
    E ret = nullptr;
    bool finished = false;
    std::vector<E> ends;  // path conditions of the normal ends
    Function *F = M->getFunction(entry);
    if (!F) {
        std::cerr << "no entry " << entry << "\n";
        return 3;
    }
    try {
        setupGlobals();
        const uint64_t firstObj = nextObj;
        while (true) {
            st = State();
            st.mem = globalsInit;
            nextObj = firstObj;
            forkPos = 0;
            if (runFunction(F, {}, st, ret, 0)) {
                finished = true;
                ends.push_back(conjAll(st.guard));
            }
            // next combination of forks
            while (!forks.empty() && ++forks.back().k > forks.back().n) forks.pop_back();
            if (forks.empty()) break;
        }
    } catch (Unsupported &u) {
        status = "unsupported";
        why = u.what + " at " + locOf(curInst);
    }
    double tExec = now() - tStart;

    auto evalVectors = [&](std::ostream &os) {
        // encoding validation: evaluate the observations for concrete inputs
        std::ifstream in(evalFile);
        std::string line;
        bool first = true;
        while (std::getline(in, line)) {
            std::istringstream ls(line);
            std::vector<APInt> vals;
            for (auto *v : allVars) vals.push_back(APInt(v->w, 0));
            uint64_t id, v;
            std::map<uint64_t, uint64_t> iv;
            while (ls >> id >> std::hex >> v >> std::dec) iv[id] = v;
            for (auto &p : inputs)
                if (iv.count(p.first)) vals[p.second->lo] = APInt(64, iv[p.first]);
            os << (first ? "" : ",") << "\"V";
            first = false;
            bool ended = false;
            for (auto *e : ends) ended |= evalExpr(e, vals) == 1;
            if (!ended) os << " ASSUME";
            for (auto &o : observes)
                if (evalExpr(o.guard, vals) == 1)
                    os << " " << o.id << "=" << hexs(evalExpr(o.val, vals));
            for (auto &o : allObls)
                if (evalExpr(o.cond, vals) == 1)
                    os << " FAIL:" << (o.kind == "assert" ? std::to_string(o.id) : o.kind);
            os << "\"";
        }
    };
    std::vector<Obl> allObls0 = obls;
    allObls = allObls0;

    struct Res {
        const Obl *o;
        Verdict v;
        std::vector<APInt> model;
        SolveStats st;
    };
    std::vector<Res> res;
    uint64_t queries = 0, proved = 0;
    double solverSecs = 0;
    std::map<std::string, uint64_t> by;
    auto ask = [&](E q, std::vector<APInt> &model, SolveStats &ss) {
        double left = optTotal - (now() - tStart);
        if (left < 1) return UNKNOWN;
        queries++;
        Verdict v = optZ3Only ? solveZ3(q, std::min(optTimeout, left), model, ss)
                              : solve(q, std::min(optTimeout, left), model, ss);
        solverSecs += ss.secs;
        if (v != UNKNOWN) by[ss.by]++;
        return v;
    };
    Verdict reach = UNKNOWN;
    std::string reachBy;
    if (status == "ok") {
        if (!dump.empty()) {
            E all = mkFalse();
            for (auto &o : obls) all = mkOr(all, o.cond);
            std::ofstream(dump) << toSmt2(all);
        }
        // reachability witness: some input reaches the end of the harness
        if (finished) {
            std::vector<APInt> m;
            SolveStats ss;
            for (auto *e : ends)
                if (reach != SAT) reach = ask(e, m, ss);
        } else
            reach = UNSAT;
        for (auto &sp : splits) {
            std::vector<Obl> next;
            for (uint64_t k = 0; k < sp.second; k++) {
                E c = mkConst(k, 64);
                Subst sub(sp.first, c);
                for (auto &o : obls) {
                    Obl n = o;
                    n.cond = mkAnd(mkEq(sp.first, c), sub(o.cond));
                    nCases++;
                    if (!isFalse(n.cond)) next.push_back(n);
                }
            }
            for (auto &o : obls) {
                Obl n = o;
                n.cond = mkAnd(mkUle(mkConst(sp.second, 64), sp.first), o.cond);
                if (!isFalse(n.cond)) next.push_back(n);
            }
            obls = next;
        }
        // a few distinct violations per entry are enough
        std::vector<const Obl *> todo;
        for (auto &o : obls) todo.push_back(&o);
        int found = 0;
        bool batch = !optSplit;
        while (!todo.empty()) {
            if (batch) {
                E all = mkFalse();
                for (auto *o : todo) all = mkOr(all, o->cond);
                std::vector<APInt> m;
                SolveStats ss;
                Verdict v = ask(all, m, ss);
                if (v == UNSAT) {
                    proved += todo.size();
                    todo.clear();
                    break;
                }
                if (v == SAT) {
                    std::vector<const Obl *> rest;
                    bool any = false;
                    for (auto *o : todo)
                        if (evalExpr(o->cond, m) == 1) {
                            res.push_back({o, SAT, m, ss});
                            any = true;
                        } else
                            rest.push_back(o);
                    if (!any) {
                        status = "unsupported";
                        why = "model does not satisfy any obligation";
                        break;
                    }
                    // drop the remaining obligations at the same place
                    std::vector<const Obl *> rest2;
                    for (auto *o : rest) {
                        bool dup = false;
                        for (auto &r : res)
                            if (r.o->kind == o->kind && r.o->id == o->id && r.o->loc == o->loc) dup = true;
                        if (!dup) rest2.push_back(o);
                    }
                    todo = rest2;
                    if (++found >= 8) break;
                    continue;
                }
                batch = false;
                if (todo.size() == 1) {
                    res.push_back({todo[0], UNKNOWN, {}, ss});
                    break;
                }
            }
            const Obl *o = todo.front();
            todo.erase(todo.begin());
            std::vector<APInt> m;
            SolveStats ss;
            Verdict v = ask(o->cond, m, ss);
            if (v == UNSAT)
                proved++;
            else
                res.push_back({o, v, m, ss});
        }
    }
    std::ostringstream o;
    o << "{\"entry\":" << js(entry) << ",\"status\":" << js(status) << ",\"why\":" << js(why)
      << ",\"finished\":" << (finished ? "true" : "false") << ",\"reach\":"
      << js(reach == SAT ? "sat" : reach == UNSAT ? "unsat" : "unknown")
      << ",\"obligations\":" << obls.size() << ",\"proved\":" << proved << ",\"folded\":" << nEarly << ",\"queries\":" << queries
      << ",\"feas_queries\":" << feasQueries << ",\"feas_secs\":" << feasSecs
      << ",\"exec_secs\":" << tExec << ",\"solver_secs\":" << solverSecs << ",\"instrs\":" << nInstr
      << ",\"states\":" << nStates << ",\"merges\":" << nMerges << ",\"exprs\":" << numExprs() << ",\"max_iter\":" << maxIter
      << ",\"cases\":" << nCases << ",\"inputs\":" << inputs.size() << ",\"by\":{";
    bool first = true;
    for (auto &p : by) {
        o << (first ? "" : ",") << js(p.first) << ":" << p.second;
        first = false;
    }
    o << "},\"results\":[";
    first = true;
    for (auto &r : res) {
        o << (first ? "" : ",") << "{\"kind\":" << js(r.o->kind) << ",\"id\":" << r.o->id
          << ",\"loc\":" << js(r.o->loc) << ",\"verdict\":" << js(r.v == SAT ? "sat" : r.v == UNSAT ? "unsat" : "unknown")
          << ",\"inputs\":{";
        if (r.v == SAT) {
            bool f2 = true;
            for (auto &p : inputs) {
                APInt v = p.second->lo < r.model.size() ? r.model[p.second->lo] : APInt(64, 0);
                o << (f2 ? "" : ",") << "\"" << p.first << "\":\"" << hex(v) << "\"";
                f2 = false;
            }
        }
        o << "}}";
        first = false;
    }
    o << "],\"functions\":[";
    first = true;
    for (auto &f : funcsEncoded) {
        o << (first ? "" : ",") << js(f);
        first = false;
    }
    o << "],\"notes\":[";
    first = true;
    for (auto &f : notes) {
        o << (first ? "" : ",") << js(f);
        first = false;
    }
    o << "],\"vectors\":[";
    if (!evalFile.empty() && status == "ok") evalVectors(o);
    o << "]}\n";
    if (out.empty())
        std::cout << o.str();
    else
        std::ofstream(out) << o.str();
    fflush(stdout);
    _exit(0);
}
