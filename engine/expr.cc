#include "expr.h"

#include <algorithm>
#include <cassert>
#include <cstdlib>
#include <cstdio>
#include <deque>
#include <unordered_map>

namespace sx {
std::vector<std::string> varNames;
std::vector<E> allVars;
bool useSem = false;

namespace {
struct Hash {
    size_t operator()(const E e) const { return e->h; }
};
struct Same {
    bool operator()(const E a, const E b) const {
        return a->h == b->h && a->op == b->op && a->w == b->w && a->lo == b->lo && a->k == b->k &&
               (a->op != CONST || a->c == b->c);
    }
};
std::unordered_set<E, Hash, Same> table;
std::deque<Expr> arena;

size_t mix(size_t h, size_t v) { return (h ^ v) * 0x9E3779B97F4A7C15ull + (h >> 29); }

KnownBits computeKB(const Expr &e) {
    KnownBits r(e.w);
    auto K = [&](unsigned i) -> const KnownBits & { return e.k[i]->kb; };
    switch (e.op) {
        case CONST:
            return KnownBits::makeConstant(e.c);
        case ADD:
            return KnownBits::computeForAddSub(true, false, K(0), K(1));
        case SUB:
            return KnownBits::computeForAddSub(false, false, K(0), K(1));
        case MUL:
            return KnownBits::mul(K(0), K(1));
        case UDIV:
            if (!K(1).isNonZero()) return r;
            return KnownBits::udiv(K(0), K(1));
        case UREM:
            if (!K(1).isNonZero()) return r;
            return KnownBits::urem(K(0), K(1));
        case AND:
            return K(0) & K(1);
        case OR:
            return K(0) | K(1);
        case XOR:
            return K(0) ^ K(1);
        case NOT:
            r.Zero = K(0).One;
            r.One = K(0).Zero;
            return r;
        case SHL: {
            // an over-shift yields 0 here (SMT semantics): only low zeros are always known
            unsigned tz = K(0).countMinTrailingZeros();
            r.Zero.setLowBits(tz);
            return r;
        }
        case LSHR: {
            unsigned lz = K(0).countMinLeadingZeros();
            r.Zero.setHighBits(lz);
            return r;
        }
        case CONCAT: {
            unsigned pos = e.w;
            for (auto *p : e.k) {
                pos -= p->w;
                r.Zero.insertBits(p->kb.Zero, pos);
                r.One.insertBits(p->kb.One, pos);
            }
            return r;
        }
        case EXTRACT:
            return K(0).extractBits(e.w, e.lo);
        case SEXT:
            return K(0).sext(e.w);
        case ITE:
            r.Zero = K(1).Zero & K(2).Zero;
            r.One = K(1).One & K(2).One;
            return r;
        default:
            return r;
    }
}

// ---- unsigned bounds
void bounds(Expr &e) {
    unsigned w = e.w;
    APInt lo = e.kb.getMinValue(), hi = e.kb.getMaxValue();
    auto meet = [&](const APInt &l, const APInt &h) {
        if (l.ugt(lo)) lo = l;
        if (h.ult(hi)) hi = h;
    };
    auto L = [&](unsigned i) -> const APInt & { return e.k[i]->lo_; };
    auto H = [&](unsigned i) -> const APInt & { return e.k[i]->hi_; };
    bool o = false;
    switch (e.op) {
        case ADD: {
            APInt h = H(0).uadd_ov(H(1), o);
            if (!o) meet(L(0) + L(1), h);
            else {
                (void)L(0).uadd_ov(L(1), o);
                if (o) meet(L(0) + L(1), h);
            }
            break;
        }
        case SUB:
            if (L(0).uge(H(1)) || H(0).ult(L(1))) meet(L(0) - H(1), H(0) - L(1));
            break;
        case MUL: {
            APInt h = H(0).umul_ov(H(1), o);
            if (!o) meet(L(0) * L(1), h);
            break;
        }
        case UDIV:
            if (!L(1).isZero()) meet(L(0).udiv(H(1)), H(0).udiv(L(1)));
            break;
        case UREM:
            if (!L(1).isZero()) meet(APInt(w, 0), H(1) - 1);
            meet(APInt(w, 0), H(0));
            break;
        case AND:
            meet(APInt(w, 0), H(0).ult(H(1)) ? H(0) : H(1));
            break;
        case OR:
            meet(L(0).ugt(L(1)) ? L(0) : L(1), APInt::getAllOnes(w));
            break;
        case CONCAT: {
            APInt l(w, 0), h(w, 0);
            unsigned pos = w;
            for (auto *p : e.k) {
                pos -= p->w;
                l.insertBits(p->lo_, pos);
                h.insertBits(p->hi_, pos);
            }
            meet(l, h);
            break;
        }
        case EXTRACT:
            if (e.lo + w == e.k[0]->w)
                meet(L(0).lshr(e.lo).trunc(w), H(0).lshr(e.lo).trunc(w));
            else if (H(0).lshr(e.lo).getActiveBits() <= w)
                meet(L(0).lshr(e.lo).trunc(w), H(0).lshr(e.lo).trunc(w));
            break;
        case ITE:
            meet(L(1).ult(L(2)) ? L(1) : L(2), H(1).ugt(H(2)) ? H(1) : H(2));
            break;
        default:
            break;
    }
    if (lo.ugt(hi)) {
        // unreachable values only
        lo = e.kb.getMinValue();
        hi = e.kb.getMaxValue();
    }
    e.lo_ = lo;
    e.hi_ = hi;
    unsigned n = (lo ^ hi).countl_zero();
    if (n) {
        APInt top = APInt::getHighBitsSet(w, n);
        e.kb.One |= lo & top;
        e.kb.Zero |= ~lo & top;
    }
}
E strip(E e) {
    while (e->op == CONCAT) {
        unsigned n = e->hi_.getActiveBits();
        if (n == e->w || n == 0) break;
        e = mkExtract(e, 0, n);
    }
    return e;
}
// the terms of a sum that does not wrap, without their leading zeros
bool terms(E e, std::vector<E> &ts) {
    e = strip(e);
    bool o = false;
    if (e->op == ADD && !e->sem) {
        (void)e->k[0]->hi_.uadd_ov(e->k[1]->hi_, o);
        if (!o) return terms(e->k[0], ts) && terms(e->k[1], ts);
    }
    ts.push_back(e);
    return ts.size() < 200;
}
// an expression of another width with the same value, if it fits
E resize(E e, unsigned w) {
    return e->w == w ? e : e->w < w ? mkZExt(e, w) : mkTrunc(e, w);
}
// ---- expressions over few variable bits: compared by their tables
struct SemKey {
    const Sem *s;
    unsigned w;
    bool operator==(const SemKey &o) const {
        return w == o.w && s->n == o.s->n && std::equal(s->bit, s->bit + s->n, o.s->bit) && s->v == o.s->v;
    }
};
struct SemHash {
    size_t operator()(const SemKey &k) const {
        size_t h = mix(k.w, k.s->n);
        for (unsigned i = 0; i < k.s->n; i++) h = mix(h, k.s->bit[i]);
        for (auto x : k.s->v) h = mix(h, x);
        return h;
    }
};
std::unordered_map<SemKey, E, SemHash> semTable;
std::deque<Sem> semArena;

bool semOf(const Expr &e, Sem &r) {
    if (e.w > 64) return false;
    uint64_t all = e.w == 64 ? ~0ull : (1ull << e.w) - 1;
    if (e.op == VAR) {
        if (e.w > Sem::maxSupport) return false;
        r.n = e.w;
        for (unsigned i = 0; i < r.n; i++) r.bit[i] = e.lo * 64 + i;
        for (unsigned i = 0; i < 1u << r.n; i++) r.v.push_back(i);
        return true;
    }
    if (e.op == EXTRACT && e.k[0]->op == VAR && e.k[0]->w <= 64) {
        if (e.w > Sem::maxSupport) return false;
        r.n = e.w;
        for (unsigned i = 0; i < r.n; i++) r.bit[i] = e.k[0]->lo * 64 + e.lo + i;
        for (unsigned i = 0; i < 1u << r.n; i++) r.v.push_back(i);
        return true;
    }
    // the union of the supports
    for (auto *k : e.k) {
        if (k->op == CONST) {
            if (k->w > 64) return false;
            continue;
        }
        if (!k->sem) return false;
        uint32_t m[2 * Sem::maxSupport];
        auto *end = std::set_union(r.bit, r.bit + r.n, k->sem->bit, k->sem->bit + k->sem->n, m);
        if (end - m > (long)Sem::maxSupport) return false;
        r.n = end - m;
        std::copy(m, end, r.bit);
    }
    unsigned N = 1u << r.n, nk = e.k.size();
    std::vector<std::vector<uint64_t>> kv(nk);
    for (unsigned j = 0; j < nk; j++) {
        E k = e.k[j];
        if (k->op == CONST) {
            kv[j].assign(N, k->c.getZExtValue());
            continue;
        }
        unsigned at[Sem::maxSupport];
        for (unsigned i = 0; i < k->sem->n; i++)
            at[i] = std::lower_bound(r.bit, r.bit + r.n, k->sem->bit[i]) - r.bit;
        kv[j].resize(N);
        for (unsigned x = 0; x < N; x++) {
            unsigned y = 0;
            for (unsigned i = 0; i < k->sem->n; i++) y |= (x >> at[i] & 1) << i;
            kv[j][x] = k->sem->v[y];
        }
    }
    r.v.resize(N);
    auto sx = [](uint64_t x, unsigned w) { return w == 64 ? (int64_t)x : (int64_t)(x << (64 - w)) >> (64 - w); };
    unsigned w0 = nk ? e.k[0]->w : e.w;
    for (unsigned x = 0; x < N; x++) {
        uint64_t a = kv[0][x], b = nk > 1 ? kv[1][x] : 0, o = 0;
        switch (e.op) {
            case ADD: o = a + b; break;
            case SUB: o = a - b; break;
            case MUL: o = a * b; break;
            case UDIV: o = b ? a / b : all; break;
            case UREM: o = b ? a % b : a; break;
            case AND: o = a & b; break;
            case OR: o = a | b; break;
            case XOR: o = a ^ b; break;
            case NOT: o = ~a; break;
            case SHL: o = b >= e.w ? 0 : a << b; break;
            case LSHR: o = b >= e.w ? 0 : a >> b; break;
            case ASHR: o = (uint64_t)(sx(a, e.w) >> (b >= e.w ? e.w - 1 : b)); break;
            case CONCAT:
                for (unsigned j = 0; j < nk; j++) o = (e.k[j]->w == 64 ? 0 : o << e.k[j]->w) | kv[j][x];
                break;
            case EXTRACT: o = a >> e.lo; break;
            case SEXT: o = (uint64_t)sx(a, w0); break;
            case ITE: o = a ? b : kv[2][x]; break;
            case EQ: o = a == b; break;
            case ULT: o = a < b; break;
            case SLT: o = sx(a, w0) < sx(b, w0); break;
            default: return false;
        }
        r.v[x] = o & all;
    }
    // drop what it does not depend on
    for (unsigned i = r.n; i-- > 0;) {
        bool dep = false;
        unsigned M = 1u << r.n, bitm = 1u << i;
        for (unsigned x = 0; x < M && !dep; x++)
            if (!(x & bitm) && r.v[x] != r.v[x | bitm]) dep = true;
        if (dep) continue;
        unsigned o = 0;
        for (unsigned x = 0; x < M; x++)
            if (!(x & bitm)) r.v[o++] = r.v[x];
        r.v.resize(o);
        std::copy(r.bit + i + 1, r.bit + r.n, r.bit + i);
        r.n--;
    }
    return true;
}
void addSem(E p) {
    Sem r;
    if (p->op == CONST || !semOf(*p, r)) return;
    if (r.n == 0) {
        p->rep = mkConst(r.v[0], p->w);
        return;
    }
    auto it = semTable.find(SemKey{&r, p->w});
    if (it != semTable.end()) {
        p->rep = it->second;
        return;
    }
    semArena.push_back(std::move(r));
    const Sem *s = &semArena.back();
    p->sem = s;
    {
        auto mm = std::minmax_element(s->v.begin(), s->v.end());
        APInt l(p->w, *mm.first), h(p->w, *mm.second);
        if (l.ugt(p->lo_)) p->lo_ = l;
        if (h.ult(p->hi_)) p->hi_ = h;
    }
    if (p->w > 1 && p->op != CONCAT && p->op != VAR) {
        uint64_t one = ~0ull, any = 0;
        for (auto x : s->v) one &= x, any |= x;
        uint64_t var = any & ~one;
        if (p->w == 64 ? ~var : ~var & ((1ull << p->w) - 1)) {
            std::vector<E> parts;
            for (unsigned hi = p->w; hi > 0;) {
                unsigned lo = hi - 1;
                bool v = var >> lo & 1;
                while (lo > 0 && (bool)(var >> (lo - 1) & 1) == v) lo--;
                parts.push_back(v ? mkExtract(p, lo, hi - lo) : mkConst(APInt(hi - lo, (one >> lo) & (hi - lo == 64 ? ~0ull : (1ull << (hi - lo)) - 1))));
                hi = lo;
            }
            E c = mkConcat(parts);
            if (c != p) {
                p->rep = c;
                if (c->rep) p->rep = c->rep;
            }
        }
    }
    semTable.emplace(SemKey{s, p->w}, p->rep ? p->rep : p);
}

E intern(Expr &&e) {
    size_t h = mix(e.op * 1315423911u + e.w, e.lo);
    for (auto *p : e.k) h = mix(h, p->id + 1);
    if (e.op == CONST) h = mix(h, llvm::hash_value(e.c));
    e.h = h;
    auto it = table.find(&e);
    if (it != table.end()) return (*it)->rep ? (*it)->rep : *it;
    e.kb = computeKB(e);
    if (e.op != CONST && e.op != VAR && e.kb.isConstant()) return mkConst(e.kb.getConstant());
    if (useSem) {
        bounds(e);
        if (e.op != CONST && e.op != VAR && e.lo_ == e.hi_) return mkConst(e.lo_);
    }
    e.id = arena.size();
    arena.push_back(std::move(e));
    E p = &arena.back();
    table.insert(p);
    if (useSem) {
        addSem(p);
        if (p->rep) return p->rep;
    }
    return p;
}
E mk(Op op, unsigned w, std::vector<E> k, unsigned lo = 0) {
    Expr e;
    e.op = op;
    e.w = w;
    e.k = std::move(k);
    e.lo = lo;
    return intern(std::move(e));
}
bool isAllOnes(E e) { return e->op == CONST && e->c.isAllOnes(); }
bool isZero(E e) { return e->op == CONST && e->c.isZero(); }

// boundaries (low bit positions) of the pieces of a concat
void cuts(E e, std::vector<bool> &b) {
    if (e->op == CONCAT) {
        unsigned pos = e->w;
        for (auto *p : e->k) {
            pos -= p->w;
            b[pos] = true;
        }
    }
}
unsigned runs(const APInt &c, std::vector<bool> &b) {
    unsigned n = 1;
    b[0] = true;
    for (unsigned i = 1; i < c.getBitWidth(); i++)
        if (c[i] != c[i - 1]) {
            b[i] = true;
            n++;
        }
    return n;
}
bool hasConstPiece(E e) {
    if (e->op != CONCAT) return false;
    for (auto *p : e->k)
        if (p->op == CONST) return true;
    return false;
}
template <typename F>
E piecewise(unsigned w, const std::vector<bool> &b, F f) {
    std::vector<E> parts;
    unsigned hi = w;
    for (int i = int(w) - 1; i >= 0; i--) {
        if (b[i]) {
            parts.push_back(f((unsigned)i, hi - i));
            hi = i;
        }
    }
    return mkConcat(parts);
}
// collects the conjuncts of a width-1 AND chain, up to a limit
void conj(E e, std::vector<E> &out, unsigned lim) {
    if (out.size() >= lim) return;
    if (e->op == AND) {
        conj(e->k[0], out, lim);
        conj(e->k[1], out, lim);
    } else
        out.push_back(e);
}
}  // namespace

size_t numExprs() { return arena.size(); }

E mkConst(const APInt &v) {
    Expr e;
    e.op = CONST;
    e.w = v.getBitWidth();
    e.c = v;
    return intern(std::move(e));
}
E mkConst(uint64_t v, unsigned w) { return mkConst(APInt(w, v)); }
E mkVar(const std::string &n, unsigned w) {
    Expr e;
    e.op = VAR;
    e.w = w;
    e.lo = allVars.size();
    varNames.push_back(n);
    E p = intern(std::move(e));
    allVars.push_back(p);
    return p;
}

E mkNot(E a) {
    if (isConst(a)) return mkConst(~a->c);
    if (a->op == NOT) return a->k[0];
    if (useSem && a->w > 1) {
        // ~x = -x-1
        if (a->op == SUB && isZero(a->k[0])) return mkAdd(a->k[1], mkConst(APInt::getAllOnes(a->w)));
        auto inverted = [](E e) {
            if (e->op == NOT) return true;
            if (e->op != CONCAT) return false;
            bool any = false;
            for (auto *k : e->k) {
                if (k->op == NOT) any = true;
                else if (k->op != CONST) return false;
            }
            return any;
        };
        if (a->op == ADD && inverted(a->k[0])) return mkSub(mkNot(a->k[0]), a->k[1]);
        if (a->op == ADD && inverted(a->k[1])) return mkSub(mkNot(a->k[1]), a->k[0]);
    }
    if (a->op == CONCAT) {
        std::vector<E> p;
        for (auto *x : a->k) p.push_back(mkNot(x));
        return mkConcat(p);
    }
    return mk(NOT, a->w, {a});
}

static E bitop(Op op, E a, E b) {
    // both have been const folded; tries the piecewise split
    unsigned w = a->w;
    if (w == 1) return nullptr;
    std::vector<bool> bd(w, false);
    bd[0] = true;
    bool ok = false;
    if (isConst(b)) {
        unsigned n = runs(b->c, bd);
        if (n <= 16 || a->op == CONCAT) ok = true;
        if (n == 1) ok = false;  // all ones/zeros handled by the caller
        if (ok) cuts(a, bd);
    } else if (a->op == CONCAT && b->op == CONCAT) {
        ok = true;
        cuts(a, bd);
        cuts(b, bd);
    } else if (hasConstPiece(a)) {
        ok = true;
        cuts(a, bd);
    } else if (hasConstPiece(b)) {
        ok = true;
        cuts(b, bd);
    }
    if (!ok) return nullptr;
    return piecewise(w, bd, [&](unsigned lo, unsigned n) {
        E x = mkExtract(a, lo, n), y = mkExtract(b, lo, n);
        return op == AND ? mkAnd(x, y) : op == OR ? mkOr(x, y) : mkXor(x, y);
    });
}

E mkAnd(E a, E b) {
    assert(a->w == b->w);
    if (isConst(a)) std::swap(a, b);
    if (isConst(a)) return mkConst(a->c & b->c);
    if (isConst(b)) {
        if (b->c.isZero()) return b;
        if (b->c.isAllOnes()) return a;
    }
    if (a == b) return a;
    if ((a->op == NOT && a->k[0] == b) || (b->op == NOT && b->k[0] == a)) return mkConst(0, a->w);
    if (a->w == 1) {
        // absorption against the conjuncts of the other side
        std::vector<E> ca, cb;
        conj(a, ca, 48);
        conj(b, cb, 48);
        E nb = mkNot(b), na = mkNot(a);
        for (auto *x : ca) {
            if (x == b) return a;
            if (x == nb) return mkFalse();
        }
        for (auto *x : cb) {
            if (x == a) return b;
            if (x == na) return mkFalse();
        }
        // a & !(p & q) with p among the conjuncts of a: a & !q
        auto reduce = [](const std::vector<E> &cs, E n) -> E {
            if (n->op != NOT || n->k[0]->op != AND) return n;
            E p = n->k[0]->k[0], q = n->k[0]->k[1];
            E np = mkNot(p), nq = mkNot(q);
            for (auto *x : cs) {
                if (x == p) return mkNot(q);
                if (x == q) return mkNot(p);
                if (x == np || x == nq) return mkTrue();
            }
            return n;
        };
        E b2 = reduce(ca, b);
        if (b2 != b) return mkAnd(a, b2);
        E a2 = reduce(cb, a);
        if (a2 != a) return mkAnd(a2, b);
    } else if (E r = bitop(AND, a, b))
        return r;
    // keep chain order for width 1 (path conditions); canonical order otherwise
    if (a->w > 1 && a->id > b->id) std::swap(a, b);
    return mk(AND, a->w, {a, b});
}
E mkOr(E a, E b) {
    assert(a->w == b->w);
    if (isConst(a)) std::swap(a, b);
    if (isConst(a)) return mkConst(a->c | b->c);
    if (isConst(b)) {
        if (b->c.isZero()) return a;
        if (b->c.isAllOnes()) return b;
    }
    if (a == b) return a;
    if (a->w == 1) return mkNot(mkAnd(mkNot(a), mkNot(b)));
    if ((a->op == NOT && a->k[0] == b) || (b->op == NOT && b->k[0] == a))
        return mkConst(APInt::getAllOnes(a->w));
    if (E r = bitop(OR, a, b)) return r;
    if (a->id > b->id) std::swap(a, b);
    return mk(OR, a->w, {a, b});
}
E mkXor(E a, E b) {
    assert(a->w == b->w);
    if (isConst(a)) std::swap(a, b);
    if (isConst(a)) return mkConst(a->c ^ b->c);
    if (isConst(b)) {
        if (b->c.isZero()) return a;
        if (b->c.isAllOnes()) return mkNot(a);
    }
    if (a == b) return mkConst(0, a->w);
    if (a->op == NOT && b->op == NOT) return mkXor(a->k[0], b->k[0]);
    if (a->op == NOT) return mkNot(mkXor(a->k[0], b));
    if (b->op == NOT) return mkNot(mkXor(a, b->k[0]));
    // (x ^ y) ^ y
    if (a->op == XOR && (a->k[0] == b || a->k[1] == b)) return a->k[0] == b ? a->k[1] : a->k[0];
    if (b->op == XOR && (b->k[0] == a || b->k[1] == a)) return b->k[0] == a ? b->k[1] : b->k[0];
    if (E r = bitop(XOR, a, b)) return r;
    if (a->id > b->id) std::swap(a, b);
    return mk(XOR, a->w, {a, b});
}

E mkAdd(E a, E b) {
    assert(a->w == b->w);
    if (isConst(a)) std::swap(a, b);
    if (isConst(a)) return mkConst(a->c + b->c);
    if (a->w == 1) return mkXor(a, b);
    if (isZero(b)) return a;
    if (useSem && isConst(b) && b->c == 1) {
        // (x - 1) + 1 with one more bit
        E x = strip(a);
        if (x->w < a->w && x->op == ADD && isConst(x->k[1]) && x->k[1]->c.isAllOnes())
            return mkZExt(mkConcat({mkEq(x->k[0], mkConst(APInt(x->w, 0))), x->k[0]}), a->w);
    }
    if (useSem) {
        bool o = false;
        unsigned m = a->hi_.uadd_ov(b->hi_, o).getActiveBits();
        if (!o && m < a->w && m > 0) return mkZExt(mkAdd(mkTrunc(a, m), mkTrunc(b, m)), a->w);
    }
    if (isConst(b)) {
        if (a->op == ADD && isConst(a->k[1])) return mkAdd(a->k[0], mkConst(a->k[1]->c + b->c));
        if (a->op == SUB && isConst(a->k[0]))
            return mkSub(mkConst(a->k[0]->c + b->c), a->k[1]);
        if (a->op == ITE && isConst(a->k[1]) && isConst(a->k[2]))
            return mkIte(a->k[0], mkConst(a->k[1]->c + b->c), mkConst(a->k[2]->c + b->c));
        if ((a->kb.Zero | ~b->c).isAllOnes()) return mkOr(a, b);
        return mk(ADD, a->w, {a, b});
    }
    if (a->op == ADD && isConst(a->k[1])) return mkAdd(mkAdd(a->k[0], b), a->k[1]);
    if (b->op == ADD && isConst(b->k[1])) return mkAdd(mkAdd(a, b->k[0]), b->k[1]);
    if (a->op == SUB && a->k[1] == b) return a->k[0];
    if (b->op == SUB && b->k[1] == a) return b->k[0];
    // disjoint bits: or
    if ((a->kb.Zero | b->kb.Zero).isAllOnes()) return mkOr(a, b);
    if (a->id > b->id) std::swap(a, b);
    return mk(ADD, a->w, {a, b});
}
E mkSub(E a, E b) {
    assert(a->w == b->w);
    if (isConst(a) && isConst(b)) return mkConst(a->c - b->c);
    if (a == b) return mkConst(0, a->w);
    if (a->w == 1) return mkXor(a, b);
    if (isZero(a) && b->op == SUB && isZero(b->k[0])) return b->k[1];
    if (useSem && a->w > 1) {
        std::vector<E> ta, tb;
        if (strip(a)->op == ADD && terms(a, ta) && terms(b, tb)) {
            for (auto *t : tb) {
                auto it = std::find(ta.begin(), ta.end(), t);
                if (it == ta.end()) {
                    ta.clear();
                    break;
                }
                ta.erase(it);
            }
            if (!ta.empty()) {
                E r = mkConst(APInt(a->w, 0));
                for (auto *t : ta) r = mkAdd(r, mkZExt(t, a->w));
                return r;
            }
        }
    }
    if (isConst(b)) return mkAdd(a, mkConst(-b->c));
    if (useSem) {
        unsigned m = a->hi_.getActiveBits(), n = b->hi_.getActiveBits();
        if (a->lo_.uge(b->hi_)) {
            if (m < a->w && m > 0) return mkZExt(mkSub(mkTrunc(a, m), mkTrunc(b, m)), a->w);
        } else {
            m = std::max(m, n) + 1;
            if (m < a->w && !isZero(a)) return mkSExt(mkSub(mkTrunc(a, m), mkTrunc(b, m)), a->w);
        }
    }
    if (a->op == ADD && isConst(a->k[1])) {
        return mkAdd(mkSub(a->k[0], b), a->k[1]);
    }
    if (b->op == ADD && isConst(b->k[1])) return mkAdd(mkSub(a, b->k[0]), mkConst(-b->k[1]->c));
    if (a->op == ADD && a->k[0] == b) return a->k[1];
    if (a->op == ADD && a->k[1] == b) return a->k[0];
    return mk(SUB, a->w, {a, b});
}
// a word that depends on one condition only: c ? t : e
static bool oneChoice(E x, E &c, APInt &t, APInt &e, int depth = 0) {
    if (depth > 3) return false;
    if (x->op == CONST) {
        t = e = x->c;
        return true;
    }
    if (x->w == 1) {
        bool inv = x->op == NOT;
        E y = inv ? x->k[0] : x;
        if (c && c != y) return false;
        c = y;
        t = APInt(1, !inv);
        e = APInt(1, inv);
        return true;
    }
    if (x->op == SEXT) {
        if (!oneChoice(x->k[0], c, t, e, depth + 1)) return false;
        t = t.sext(x->w);
        e = e.sext(x->w);
        return true;
    }
    if (x->op == ITE) {
        if (!isConst(x->k[1]) || !isConst(x->k[2]) || (c && c != x->k[0])) return false;
        c = x->k[0];
        t = x->k[1]->c;
        e = x->k[2]->c;
        return true;
    }
    if (x->op == CONCAT && x->k.size() <= 40) {
        t = e = APInt(x->w, 0);
        unsigned hi = x->w;
        for (auto *k : x->k) {
            APInt kt, ke;
            if (!oneChoice(k, c, kt, ke, depth + 1)) return false;
            hi -= k->w;
            t.insertBits(kt, hi);
            e.insertBits(ke, hi);
        }
        return true;
    }
    return false;
}
E mkMul(E a, E b) {
    assert(a->w == b->w);
    if (isConst(a)) std::swap(a, b);
    if (isConst(a)) return mkConst(a->c * b->c);
    if (a->w == 1) return mkAnd(a, b);
    if (useSem && isConst(b)) {
        bool o = false;
        unsigned m = a->hi_.umul_ov(b->c, o).getActiveBits();
        if (!o && m < a->w && m > 0) return mkZExt(mkMul(mkTrunc(a, m), mkTrunc(b, m)), a->w);
    }
    if (isConst(b)) {
        if (b->c.isZero()) return b;
        if (b->c == 1) return a;
        if (b->c.isPowerOf2()) return mkShl(a, mkConst(APInt(a->w, b->c.logBase2())));
        if (a->op == ADD && isConst(a->k[1]) && a->k[1]->c.getActiveBits() <= 64)
            return mkAdd(mkMul(a->k[0], b), mkConst(a->k[1]->c * b->c));
    }
    if (isConst(b)) {
        if (b->c.isAllOnes()) return mkSub(mkConst(0, a->w), a);
        if (b->c.isMask()) return mkSub(mkShl(a, mkConst(APInt(a->w, b->c.getActiveBits()))), a);
    }
    for (int i = 0; i < 2; i++) {
        E c = nullptr;
        APInt t, e;
        if (!isConst(b) && oneChoice(b, c, t, e) && c) return mkIte(c, mkMul(a, mkConst(t)), mkMul(a, mkConst(e)));
        std::swap(a, b);
    }
    // factor out known trailing zeros
    for (int i = 0; i < 2 && !(useSem && isConst(b)); i++) {
        unsigned z = a->kb.countMinTrailingZeros();
        if (z && z < a->w)
            return mkConcat({mkMul(mkExtract(a, z, a->w - z), mkTrunc(b, a->w - z)), mkConst(0, z)});
        std::swap(a, b);
        if (isConst(a)) {
            std::swap(a, b);
            break;
        }
    }
    if (!isConst(b) && a->id > b->id) std::swap(a, b);
    return mk(MUL, a->w, {a, b});
}
// a = q*c + r with r < c, for a sum whose terms divide
static bool splitDiv(E a0, const APInt &c0, E &q, E &r) {
    if (!useSem || c0.ule(1)) return false;
    E a = strip(a0);
    while (a->op == EXTRACT && a->lo == 0 && a->k[0]->hi_.getActiveBits() <= a->w) a = strip(a->k[0]);
    if (a->op != ADD || a->sem || c0.getActiveBits() > a->w) return false;
    unsigned w = a->w;
    APInt c = c0.zextOrTrunc(w);
    static std::unordered_map<E, std::vector<std::pair<APInt, std::pair<E, E>>>> memo;
    auto back = [&](E qq, E rr) {
        if (qq) {
            q = resize(qq, a0->w);
            r = resize(rr, a0->w);
        }
        return qq != nullptr;
    };
    for (auto &m : memo[a])
        if (m.first == c) return back(m.second.first, m.second.second);
    auto done = [&](E qq, E rr) {
        memo[a].push_back({c, {qq, rr}});
        return back(qq, rr);
    };
    std::vector<E> ts;
    if (!terms(a, ts) || ts.size() < 2) return done(nullptr, nullptr);
    APInt rh(w, 0);
    bool o = false;
    E qs = mkConst(APInt(w, 0)), rs = qs;
    for (auto *t0 : ts) {
        E tq, tr, t = mkZExt(t0, w);
        if (isConst(t0) || t0->sem) {
            tq = mkUDiv(t, mkConst(c));
            tr = mkURem(t, mkConst(c));
        } else if (t0->op == MUL && isConst(t0->k[1]) && t0->k[1]->c.zext(w).urem(c).isZero()) {
            (void)t0->k[0]->hi_.umul_ov(t0->k[1]->c, o);
            if (o) return done(nullptr, nullptr);
            tq = mkMul(mkZExt(t0->k[0], w), mkConst(t0->k[1]->c.zext(w).udiv(c)));
            tr = mkConst(APInt(w, 0));
        } else {
            tq = mkConst(APInt(w, 0));
            tr = t;
        }
        rh = rh.uadd_ov(tr->hi_, o);
        if (o || rh.uge(c)) return done(nullptr, nullptr);
        qs = mkAdd(qs, tq);
        rs = mkAdd(rs, tr);
    }
    return done(qs, rs);
}
E mkUDiv(E a, E b) {
    if (useSem && isConst(b)) {
        E q, r;
        if (splitDiv(a, b->c, q, r)) return q;
        if (a->hi_.ult(b->c)) return mkConst(APInt(a->w, 0));
    }
    if (isConst(b)) {
        if (b->c.isZero()) return mkConst(APInt::getAllOnes(a->w));
        if (isConst(a)) return mkConst(a->c.udiv(b->c));
        if (b->c.isPowerOf2()) return mkLShr(a, mkConst(APInt(a->w, b->c.logBase2())));
    }
    // narrow when both have known leading zeros
    unsigned lz = std::min(a->kb.countMinLeadingZeros(), b->kb.countMinLeadingZeros());
    if (lz && lz < a->w && b->kb.isNonZero())
        return mkZExt(mkUDiv(mkTrunc(a, a->w - lz), mkTrunc(b, a->w - lz)), a->w);
    return mk(UDIV, a->w, {a, b});
}
E mkURem(E a, E b) {
    if (useSem && isConst(b)) {
        E q, r;
        if (splitDiv(a, b->c, q, r)) return r;
        if (a->hi_.ult(b->c)) return a;
    }
    if (isConst(b)) {
        if (b->c.isZero()) return a;
        if (isConst(a)) return mkConst(a->c.urem(b->c));
        if (b->c.isPowerOf2())
            return b->c == 1 ? mkConst(0, a->w)
                             : mkZExt(mkTrunc(a, b->c.logBase2()), a->w);
    }
    unsigned lz = std::min(a->kb.countMinLeadingZeros(), b->kb.countMinLeadingZeros());
    if (lz && lz < a->w && b->kb.isNonZero())
        return mkZExt(mkURem(mkTrunc(a, a->w - lz), mkTrunc(b, a->w - lz)), a->w);
    return mk(UREM, a->w, {a, b});
}
static E neg(E a) { return mkSub(mkConst(0, a->w), a); }
E mkSDiv(E a, E b) {
    if (isConst(a) && isConst(b) && !b->c.isZero() &&
        !(a->c.isMinSignedValue() && b->c.isAllOnes()))
        return mkConst(a->c.sdiv(b->c));
    // SMT-LIB definition through udiv
    E sa = mkExtract(a, a->w - 1, 1), sb = mkExtract(b, b->w - 1, 1);
    E ua = mkIte(sa, neg(a), a), ub = mkIte(sb, neg(b), b);
    E q = mkUDiv(ua, ub);
    return mkIte(mkXor(sa, sb), neg(q), q);
}
E mkSRem(E a, E b) {
    if (isConst(a) && isConst(b) && !b->c.isZero() &&
        !(a->c.isMinSignedValue() && b->c.isAllOnes()))
        return mkConst(a->c.srem(b->c));
    E sa = mkExtract(a, a->w - 1, 1), sb = mkExtract(b, b->w - 1, 1);
    E ua = mkIte(sa, neg(a), a), ub = mkIte(sb, neg(b), b);
    E r = mkURem(ua, ub);
    return mkIte(sa, neg(r), r);
}

E mkShl(E a, E b) {
    if (isConst(b)) {
        if (b->c.uge(a->w)) return mkConst(0, a->w);
        unsigned n = b->c.getZExtValue();
        if (n == 0) return a;
        return mkConcat({mkExtract(a, 0, a->w - n), mkConst(0, n)});
    }
    if (isZero(a)) return a;
    return mk(SHL, a->w, {a, b});
}
E mkLShr(E a, E b) {
    if (isConst(b)) {
        if (b->c.uge(a->w)) return mkConst(0, a->w);
        unsigned n = b->c.getZExtValue();
        if (n == 0) return a;
        return mkConcat({mkConst(0, n), mkExtract(a, n, a->w - n)});
    }
    if (isZero(a)) return a;
    return mk(LSHR, a->w, {a, b});
}
E mkAShr(E a, E b) {
    if (isConst(b)) {
        unsigned n = b->c.uge(a->w) ? a->w - 1 : b->c.getZExtValue();
        if (n == 0) return a;
        return mkSExt(mkExtract(a, n, a->w - n), a->w);
    }
    if (isZero(a)) return a;
    if (a->kb.isNonNegative()) return mkLShr(a, b);
    return mk(ASHR, a->w, {a, b});
}

E mkConcat(const std::vector<E> &parts) {
    std::vector<E> p;
    std::vector<E> todo(parts.rbegin(), parts.rend());
    while (!todo.empty()) {
        E e = todo.back();
        todo.pop_back();
        if (e->op == CONCAT) {
            for (auto it = e->k.rbegin(); it != e->k.rend(); ++it) todo.push_back(*it);
            continue;
        }
        if (!p.empty()) {
            E q = p.back();  // q is the higher piece
            if (isConst(q) && isConst(e)) {
                p.pop_back();
                unsigned run = 0, tw = q->w + e->w;
                while (run < todo.size() && isConst(todo[todo.size() - 1 - run]))
                    tw += todo[todo.size() - 1 - run++]->w;
                APInt c(tw, 0);
                unsigned at = tw - q->w;
                c.insertBits(q->c, at);
                c.insertBits(e->c, at -= e->w);
                for (; run; run--, todo.pop_back())
                    c.insertBits(todo.back()->c, at -= todo.back()->w);
                todo.push_back(mkConst(c));
                continue;
            }
            E bq = q, be = e;
            unsigned lq = 0, le = 0;
            if (q->op == EXTRACT) bq = q->k[0], lq = q->lo;
            if (e->op == EXTRACT) be = e->k[0], le = e->lo;
            if (bq == be && lq == le + e->w) {
                p.pop_back();
                todo.push_back(mkExtract(be, le, q->w + e->w));
                continue;
            }
            // known high bits of a wide number in front of its low ones
            if (useSem && isConst(q) && e->op == EXTRACT && e->k[0]->w > 64 && e->lo == 0) {
                E b = e->k[0];
                unsigned n = b->w - e->w;
                APInt known = (b->kb.Zero | b->kb.One).extractBits(n, e->w);
                if (n <= q->w && known.isAllOnes() && b->kb.One.extractBits(n, e->w) == q->c.trunc(n)) {
                    p.pop_back();
                    todo.push_back(b);
                    if (n < q->w) todo.push_back(mkConst(q->c.extractBits(q->w - n, n)));
                    continue;
                }
            }
            // not(x) pieces that are adjacent extracts of the same base
            if (q->op == NOT && e->op == NOT) {
                E a = q->k[0], b = e->k[0];
                E ba = a, bb = b;
                unsigned la = 0, lb = 0;
                if (a->op == EXTRACT) ba = a->k[0], la = a->lo;
                if (b->op == EXTRACT) bb = b->k[0], lb = b->lo;
                if (ba == bb && la == lb + b->w) {
                    p.pop_back();
                    todo.push_back(mkNot(mkExtract(bb, lb, a->w + b->w)));
                    continue;
                }
            }
        }
        p.push_back(e);
    }
    if (p.size() == 1) return p[0];
    unsigned w = 0;
    for (auto *e : p) w += e->w;
    return mk(CONCAT, w, p);
}
E mkExtract(E a, unsigned lo, unsigned w) {
    assert(w > 0 && lo + w <= a->w);
    if (lo == 0 && w == a->w) return a;
    switch (a->op) {
        case CONST:
            return mkConst(a->c.extractBits(w, lo));
        case EXTRACT:
            return mkExtract(a->k[0], a->lo + lo, w);
        case CONCAT: {
            std::vector<E> p;
            unsigned pos = a->w;
            for (auto *x : a->k) {
                pos -= x->w;
                unsigned l = std::max(lo, pos), h = std::min(lo + w, pos + x->w);
                if (l < h) p.push_back(mkExtract(x, l - pos, h - l));
            }
            return mkConcat(p);
        }
        case NOT:
            return mkNot(mkExtract(a->k[0], lo, w));
        case AND:
            return mkAnd(mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
        case OR:
            return mkOr(mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
        case XOR:
            return mkXor(mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
        case ADD:
            if (useSem && a->w > 64 && w >= 64) break;
            if (lo == 0) return mkAdd(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
            break;
        case SUB:
            if (useSem && a->w > 64 && w >= 64) break;
            if (lo == 0) return mkSub(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
            break;
        case MUL:
            if (useSem && a->w > 64 && w >= 64) break;
            // wide products are kept as a low word and the rest, so that equal parts are shared
            if (a->w > 64 && lo < 64) {
                if (lo + w > 64)
                    return mkConcat({mkExtract(a, 64, lo + w - 64), mkExtract(a, lo, 64 - lo)});
                return mkExtract(mkMul(mkExtract(a->k[0], 0, 64), mkExtract(a->k[1], 0, 64)), lo, w);
            }
            if (lo == 0 && w < a->w)
                return mkMul(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
            break;
        case SEXT: {
            E b = a->k[0];
            if (lo + w <= b->w) return mkExtract(b, lo, w);
            if (lo >= b->w) return mkSExt(mkExtract(b, b->w - 1, 1), w);
            return mkSExt(mkExtract(b, lo, b->w - lo), w);
        }
        case ITE: {
            E x = a->k[1], y = a->k[2];
            auto good = [](E e) {
                return e->op == CONST || e->op == CONCAT || e->op == EXTRACT || e->op == SEXT;
            };
            if (good(x) || good(y))
                return mkIte(a->k[0], mkExtract(x, lo, w), mkExtract(y, lo, w));
            break;
        }
        default:
            break;
    }
    return mk(EXTRACT, w, {a}, lo);
}
E mkZExt(E a, unsigned w) {
    if (a->w == w) return a;
    assert(w > a->w);
    return mkConcat({mkConst(0, w - a->w), a});
}
E mkSExt(E a, unsigned w) {
    if (a->w == w) return a;
    assert(w > a->w);
    if (isConst(a)) return mkConst(a->c.sext(w));
    if (a->kb.isNonNegative()) return mkZExt(a, w);
    if (a->op == SEXT) return mkSExt(a->k[0], w);
    return mk(SEXT, w, {a});
}
E mkTrunc(E a, unsigned w) { return mkExtract(a, 0, w); }

E mkIte(E c, E a, E b) {
    assert(c->w == 1 && a->w == b->w);
    if (isConst(c)) return c->c.isZero() ? b : a;
    if (a == b) return a;
    if (c->op == NOT) return mkIte(c->k[0], b, a);
    if (a->op == ITE && a->k[0] == c) a = a->k[1];
    if (b->op == ITE && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    if (a->w == 1) {
        if (isConst(a)) return isTrue(a) ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (isConst(b)) return isTrue(b) ? mkOr(mkNot(c), a) : mkAnd(c, a);
        if (a == c) return mkOr(c, b);
        if (b == c) return mkAnd(c, a);
    } else {
        bool sa = a->op == CONCAT, sb = b->op == CONCAT;
        if ((sa && (sb || isConst(b))) || (sb && isConst(a))) {
            std::vector<bool> bd(a->w, false);
            bd[0] = true;
            cuts(a, bd);
            cuts(b, bd);
            // distribute only when some piece agrees
            bool any = false;
            unsigned hi = a->w;
            for (int i = int(a->w) - 1; i >= 0 && !any; i--)
                if (bd[i]) {
                    if (mkExtract(a, i, hi - i) == mkExtract(b, i, hi - i)) any = true;
                    hi = i;
                }
            if (any)
                return piecewise(a->w, bd, [&](unsigned lo, unsigned n) {
                    return mkIte(c, mkExtract(a, lo, n), mkExtract(b, lo, n));
                });
        }
        if (isConst(a) && isConst(b)) {
            // pieces that are equal between the constants stay constant
            APInt x = a->c ^ b->c;
            if (x.isAllOnes() && a->w > 1) {
                // +-: replicate
                if (a->c.isAllOnes()) return mkSExt(c, a->w);
                if (a->c.isZero()) return mkSExt(mkNot(c), a->w);
            } else {
                std::vector<bool> bd(a->w, false);
                unsigned n = runs(x, bd);
                if (n > 1 && n <= 16)
                    return piecewise(a->w, bd, [&](unsigned lo, unsigned m) {
                        return mkIte(c, mkExtract(a, lo, m), mkExtract(b, lo, m));
                    });
            }
        }
        if (b->op == ITE && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
        if (a->op == ITE && a->k[2] == b) return mkIte(mkAnd(c, a->k[0]), a->k[1], b);
    }
    return mk(ITE, a->w, {c, a, b});
}

E mkEq(E a, E b) {
    assert(a->w == b->w);
    if (a == b) return mkTrue();
    if (isConst(a)) std::swap(a, b);
    if (isConst(a)) return a->c == b->c ? mkTrue() : mkFalse();
    if (a->w == 1) {
        if (isConst(b)) return isTrue(b) ? a : mkNot(a);
        return mkNot(mkXor(a, b));
    }
    if (((a->kb.Zero & b->kb.One) | (a->kb.One & b->kb.Zero)) != 0) return mkFalse();
    if (useSem && (a->hi_.ult(b->lo_) || b->hi_.ult(a->lo_))) return mkFalse();
    if (a->op == CONCAT || b->op == CONCAT) {
        bool split = isConst(b) || (a->op == CONCAT && b->op == CONCAT) || hasConstPiece(a) ||
                     hasConstPiece(b);
        if (split) {
            std::vector<bool> bd(a->w, false);
            bd[0] = true;
            cuts(a, bd);
            cuts(b, bd);
            E r = mkTrue();
            unsigned hi = a->w;
            for (int i = int(a->w) - 1; i >= 0; i--)
                if (bd[i]) {
                    r = mkAnd(r, mkEq(mkExtract(a, i, hi - i), mkExtract(b, i, hi - i)));
                    hi = i;
                    if (isFalse(r)) return r;
                }
            return r;
        }
    }
    if (isConst(b)) {
        if (a->op == ITE && (isConst(a->k[1]) || isConst(a->k[2])))
            return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
        if (a->op == ADD && isConst(a->k[1])) return mkEq(a->k[0], mkConst(b->c - a->k[1]->c));
        if (a->op == NOT) return mkEq(a->k[0], mkConst(~b->c));
        if (b->c.isZero()) {
            if (a->op == OR) return mkAnd(mkEq(a->k[0], b), mkEq(a->k[1], b));
            if (a->op == XOR) return mkEq(a->k[0], a->k[1]);
            if (a->op == SUB) return mkEq(a->k[0], a->k[1]);
            if (a->op == SEXT) return mkEq(a->k[0], mkConst(0, a->k[0]->w));
        }
        if (a->op == SEXT) {
            unsigned n = a->k[0]->w;
            if (b->c.isSignedIntN(n)) return mkEq(a->k[0], mkConst(b->c.trunc(n)));
            return mkFalse();
        }
    }
    if (a->op == NOT && b->op == NOT) return mkEq(a->k[0], b->k[0]);
    if (!isConst(b) && a->id > b->id) std::swap(a, b);
    return mk(EQ, 1, {a, b});
}
E mkUlt(E a, E b) {
    assert(a->w == b->w);
    if (a->w > 1 && a->w <= 64 && isConst(a) != isConst(b)) {
        E c = nullptr;
        APInt t, e;
        if (oneChoice(isConst(a) ? b : a, c, t, e) && c) {
            bool rt = isConst(a) ? a->c.ult(t) : t.ult(b->c), re = isConst(a) ? a->c.ult(e) : e.ult(b->c);
            return mkIte(c, rt ? mkTrue() : mkFalse(), re ? mkTrue() : mkFalse());
        }
    }
    if (a == b) return mkFalse();
    if (isConst(a) && isConst(b)) return a->c.ult(b->c) ? mkTrue() : mkFalse();
    if (a->w == 1) return mkAnd(mkNot(a), b);
    if (auto r = KnownBits::ult(a->kb, b->kb)) return *r ? mkTrue() : mkFalse();
    if (useSem) {
        if (a->hi_.ult(b->lo_)) return mkTrue();
        if (a->lo_.uge(b->hi_)) return mkFalse();
    }
    if (isConst(b) && b->c == 1) return mkEq(a, mkConst(0, a->w));
    if (isConst(a) && a->c.isZero()) return mkNot(mkEq(b, a));
    if (isConst(a) && (a->c + 1).isAllOnes()) return mkEq(b, mkConst(APInt::getAllOnes(a->w)));
    if (isConst(b) && b->c.isAllOnes()) return mkNot(mkEq(a, b));
    // strip equal known high bits
    {
        APInt same = (a->kb.Zero & b->kb.Zero) | (a->kb.One & b->kb.One);
        unsigned n = same.countl_one();
        if (n && n < a->w) return mkUlt(mkTrunc(a, a->w - n), mkTrunc(b, a->w - n));
    }
    if (a->op == ITE && isConst(b) && (isConst(a->k[1]) || isConst(a->k[2])))
        return mkIte(a->k[0], mkUlt(a->k[1], b), mkUlt(a->k[2], b));
    if (b->op == ITE && isConst(a) && (isConst(b->k[1]) || isConst(b->k[2])))
        return mkIte(b->k[0], mkUlt(a, b->k[1]), mkUlt(a, b->k[2]));
    // x < 2^k
    if (isConst(b) && b->c.isPowerOf2()) {
        unsigned n = b->c.logBase2();
        return mkEq(mkExtract(a, n, a->w - n), mkConst(0, a->w - n));
    }
    // 2^k-1 < x
    if (isConst(a) && a->c.isMask()) {
        unsigned n = a->c.getActiveBits();
        return mkNot(mkEq(mkExtract(b, n, a->w - n), mkConst(0, a->w - n)));
    }
    return mk(ULT, 1, {a, b});
}
E mkSlt(E a, E b) {
    assert(a->w == b->w);
    if (a == b) return mkFalse();
    if (isConst(a) && isConst(b)) return a->c.slt(b->c) ? mkTrue() : mkFalse();
    if (a->w == 1) return mkAnd(a, mkNot(b));
    if (auto r = KnownBits::slt(a->kb, b->kb)) return *r ? mkTrue() : mkFalse();
    if (isZero(b)) return mkExtract(a, a->w - 1, 1);
    if (isConst(a) && a->c.isAllOnes()) return mkNot(mkExtract(b, a->w - 1, 1));
    if (a->kb.isNonNegative() && b->kb.isNonNegative()) return mkUlt(a, b);
    if (a->kb.isNegative() && b->kb.isNegative()) return mkUlt(a, b);
    return mk(SLT, 1, {a, b});
}

Subst::Subst(E var, E val) { m[var] = val; }
E Subst::operator()(E root) {
    std::vector<E> st{root};
    while (!st.empty()) {
        E e = st.back();
        if (m.count(e)) {
            st.pop_back();
            continue;
        }
        bool ready = true;
        for (auto *x : e->k)
            if (!m.count(x)) {
                st.push_back(x);
                ready = false;
            }
        if (!ready) continue;
        st.pop_back();
        bool ch = false;
        std::vector<E> k;
        for (auto *x : e->k) {
            E y = m[x];
            ch |= y != x;
            k.push_back(y);
        }
        E r = e;
        if (ch) switch (e->op) {
                case ADD: r = mkAdd(k[0], k[1]); break;
                case SUB: r = mkSub(k[0], k[1]); break;
                case MUL: r = mkMul(k[0], k[1]); break;
                case UDIV: r = mkUDiv(k[0], k[1]); break;
                case UREM: r = mkURem(k[0], k[1]); break;
                case SDIV: r = mkSDiv(k[0], k[1]); break;
                case SREM: r = mkSRem(k[0], k[1]); break;
                case AND: r = mkAnd(k[0], k[1]); break;
                case OR: r = mkOr(k[0], k[1]); break;
                case XOR: r = mkXor(k[0], k[1]); break;
                case NOT: r = mkNot(k[0]); break;
                case SHL: r = mkShl(k[0], k[1]); break;
                case LSHR: r = mkLShr(k[0], k[1]); break;
                case ASHR: r = mkAShr(k[0], k[1]); break;
                case CONCAT: r = mkConcat(k); break;
                case EXTRACT: r = mkExtract(k[0], e->lo, e->w); break;
                case SEXT: r = mkSExt(k[0], e->w); break;
                case ITE: r = mkIte(k[0], k[1], k[2]); break;
                case EQ: r = mkEq(k[0], k[1]); break;
                case ULT: r = mkUlt(k[0], k[1]); break;
                case SLT: r = mkSlt(k[0], k[1]); break;
                default: break;
            }
        m[e] = r;
    }
    return m[root];
}

APInt evalExpr(E root, const std::vector<APInt> &vv) {
    static std::unordered_map<E, APInt> *cachep = nullptr;
    static const std::vector<APInt> *lastv = nullptr;
    static std::vector<APInt> lastCopy;
    if (!cachep || lastv != &vv || lastCopy != vv) {
        delete cachep;
        cachep = new std::unordered_map<E, APInt>();
        lastv = &vv;
        lastCopy = vv;
    }
    auto &cache = *cachep;
    std::vector<E> st{root};
    while (!st.empty()) {
        E e = st.back();
        if (cache.count(e)) {
            st.pop_back();
            continue;
        }
        bool ready = true;
        for (auto *x : e->k)
            if (!cache.count(x)) {
                st.push_back(x);
                ready = false;
            }
        if (!ready) continue;
        st.pop_back();
        auto K = [&](unsigned i) -> const APInt & { return cache.at(e->k[i]); };
        APInt r(e->w, 0);
        auto sh = [&](const APInt &a) -> unsigned {
            return a.uge(e->w) ? e->w : (unsigned)a.getZExtValue();
        };
        switch (e->op) {
            case CONST: r = e->c; break;
            case VAR: r = e->lo < vv.size() ? vv[e->lo].zextOrTrunc(e->w) : APInt(e->w, 0); break;
            case ADD: r = K(0) + K(1); break;
            case SUB: r = K(0) - K(1); break;
            case MUL: r = K(0) * K(1); break;
            case UDIV: r = K(1).isZero() ? APInt::getAllOnes(e->w) : K(0).udiv(K(1)); break;
            case UREM: r = K(1).isZero() ? K(0) : K(0).urem(K(1)); break;
            case SDIV: case SREM: abort();
            case AND: r = K(0) & K(1); break;
            case OR: r = K(0) | K(1); break;
            case XOR: r = K(0) ^ K(1); break;
            case NOT: r = ~K(0); break;
            case SHL: r = sh(K(1)) >= e->w ? APInt(e->w, 0) : K(0).shl(sh(K(1))); break;
            case LSHR: r = sh(K(1)) >= e->w ? APInt(e->w, 0) : K(0).lshr(sh(K(1))); break;
            case ASHR: r = K(0).ashr(std::min(sh(K(1)), e->w - 1)); break;
            case CONCAT: {
                unsigned pos = e->w;
                for (unsigned i = 0; i < e->k.size(); i++) {
                    pos -= e->k[i]->w;
                    r.insertBits(K(i), pos);
                }
                break;
            }
            case EXTRACT: r = K(0).extractBits(e->w, e->lo); break;
            case SEXT: r = K(0).sext(e->w); break;
            case ITE: r = K(0).isZero() ? K(2) : K(1); break;
            case EQ: r = APInt(1, K(0) == K(1)); break;
            case ULT: r = APInt(1, K(0).ult(K(1))); break;
            case SLT: r = APInt(1, K(0).slt(K(1))); break;
        }
        cache.emplace(e, r);
    }
    return cache.at(root);
}
}  // namespace sx
