// Hash-consed bit-vector expression DAG with eager simplification.
#pragma once
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/Hashing.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/StringRef.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/Support/KnownBits.h>
#include <cstdint>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace sx {
using llvm::APInt;
using llvm::KnownBits;

enum Op : uint8_t {
    CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, NOT, SHL, LSHR, ASHR,
    CONCAT, EXTRACT, SEXT, ITE, EQ, ULT, SLT
};

struct Expr {
    Op op;
    unsigned w;
    unsigned lo = 0;  // EXTRACT: low bit; VAR: index
    uint32_t id = 0;
    size_t h = 0;
    std::vector<Expr *> k;  // CONCAT: high to low
    APInt c;
    KnownBits kb;
    Expr *rep = nullptr;               // an equal expression to use instead
    APInt lo_, hi_;                    // unsigned bounds (with useSem)
    const struct Sem *sem = nullptr;   // values as a function of the variable bits it depends on, if these are few
};
// a function of at most maxSupport variable bits
struct Sem {
    static constexpr unsigned maxSupport = 8;
    unsigned n = 0;
    uint32_t bit[maxSupport];   // variable * 64 + bit, ascending
    std::vector<uint64_t> v;    // 2^n values
};
extern bool useSem;
using E = Expr *;

extern std::vector<std::string> varNames;
extern std::vector<E> allVars;

E mkConst(const APInt &v);
E mkConst(uint64_t v, unsigned w);
E mkVar(const std::string &n, unsigned w);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkMul(E a, E b);
E mkUDiv(E a, E b);
E mkSDiv(E a, E b);
E mkURem(E a, E b);
E mkSRem(E a, E b);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkXor(E a, E b);
E mkNot(E a);
E mkShl(E a, E b);
E mkLShr(E a, E b);
E mkAShr(E a, E b);
E mkConcat(const std::vector<E> &parts);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkTrunc(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkEq(E a, E b);
E mkUlt(E a, E b);
E mkSlt(E a, E b);
inline E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
inline E mkSle(E a, E b) { return mkNot(mkSlt(b, a)); }
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline bool isConst(E e) { return e->op == CONST; }
inline bool isTrue(E e) { return e->op == CONST && e->w == 1 && e->c == 1; }
inline bool isFalse(E e) { return e->op == CONST && e->w == 1 && e->c == 0; }
// rebuilds the expression with a variable replaced
struct Subst {
    std::unordered_map<E, E> m;
    Subst(E var, E val);
    E operator()(E root);
};
APInt evalExpr(E e, const std::vector<APInt> &varVals);
size_t numExprs();
}  // namespace sx
