// Hash-consed bit-vector / IEEE-754 expression DAG with constant folding.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <array>

enum EOp : uint8_t {
  E_CONST, E_SYM,
  E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT,
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FREM, E_FNEG, E_FABS, E_FSQRT, E_FRND /*aux: 0 floor 1 ceil 2 trunc 3 rint 4 round*/,
  E_FEQ, E_FLT, E_FLE, E_FUNO,
  E_F2F, E_SITOFP, E_UITOFP, E_FPTOSI, E_FPTOUI,
  E_MATH, // a mathematical function an oracle refers to (aux: which); only the interval procedure reasons about it
  E_LAST
};

struct Expr {
  uint8_t op; uint8_t w; uint16_t aux; uint32_t id;
  uint64_t c;               // E_CONST value / E_SYM sequence number
  const Expr *k[3];
  std::array<uint64_t,4> sup; // symbol support (mod 256)
  bool fp;                  // contains a floating point operation
  bool math;                // contains E_MATH
};

static inline uint64_t maskw(unsigned w){ return w>=64 ? ~0ull : ((1ull<<w)-1); }
static inline int64_t sx64(uint64_t v, unsigned w){ if(w>=64) return (int64_t)v; uint64_t m=1ull<<(w-1); v&=maskw(w); return (int64_t)((v^m)-m); }

enum MathFn { M_EXP, M_LOG, M_SIN, M_COS, M_SINH, M_COSH, M_ATAN, M_TANH };
double mathFn(unsigned f,double x);

const Expr* mkConst(unsigned w, uint64_t c);
const Expr* mkSym(uint64_t seq, unsigned w);
const Expr* mk(uint8_t op, unsigned w, const Expr*a, const Expr*b=nullptr, const Expr*c=nullptr, unsigned aux=0);
const Expr* mkNot(const Expr* a);   // i1 only
static inline bool isC(const Expr*e){ return e->op==E_CONST; }
size_t exprCount();
// concrete semantics of every operation; ok=false when undefined (div by zero, fp->int out of range)
uint64_t evalOp(uint8_t op, unsigned w, unsigned aux, uint64_t a, unsigned wa, uint64_t b, uint64_t c, bool&ok, unsigned wb=0);
typedef std::vector<uint64_t> Model;
uint64_t evalExpr(const Expr*e, const Model&m);
std::string showExpr(const Expr*e, int depth=6);
