// Compact bytecode for LLVM IR functions, produced lazily from the bitcode module.
#pragma once
#include "expr.hpp"
#include <map>
#include <unordered_map>
#include <string>
#include <vector>

struct Val; typedef std::vector<Val> AggV;
struct Val {
  uint64_t c=0; const Expr* e=nullptr; const AggV* agg=nullptr; uint8_t w=0; uint8_t um=0; // um: undefined-byte mask
  bool sym()const{return e!=nullptr;}
};
static inline Val cv(unsigned w,uint64_t c){ Val v; v.w=w; v.c=c&maskw(w); return v; }

struct TyD { uint8_t kind=0; /*0 void 1 scalar 2 aggregate*/ uint16_t w=0; uint32_t size=0; bool fp=false, ptr=false; std::vector<std::pair<uint32_t,const TyD*>> el; };

enum Op : uint8_t { O_BIN, O_ICMP, O_FCMP, O_CAST, O_GEP, O_ALLOCA, O_LOAD, O_STORE, O_BR, O_CBR, O_SWITCH, O_RET, O_UNREACH, O_SELECT, O_CALL, O_LPAD, O_RESUME, O_EXTV, O_INSV, O_FREEZE, O_RMW, O_CMPXCHG, O_EXTEL, O_INSEL, O_SHUF, O_FNEG, O_UNSUP, O_VAARG };
enum CastK : uint8_t { C_TRUNC, C_ZEXT, C_SEXT, C_FTRUNC, C_FEXT, C_FTOSI, C_FTOUI, C_SITOF, C_UITOF, C_BIT };

struct GepD { int64_t off; std::vector<std::pair<int,int64_t>> terms; bool inb; };
struct PhiMove { int dst, src; };
struct Edge { int target; std::vector<PhiMove> moves; };
struct SwitchD { std::vector<std::pair<uint64_t,int>> cases; int def; unsigned w; };
struct LpadD { bool cleanup; std::vector<std::pair<bool,std::vector<std::string>>> clauses; }; // (isCatch, typeinfo names; "" = catch all)
struct Fn;
struct CallD { Fn* direct=nullptr; int callee=0; std::vector<int> args; std::vector<uint32_t> byval; std::vector<const TyD*> argTy; int normal=-1, unwind=-1; int builtin=0; const TyD* ret=nullptr; std::string name; };
struct Inst { uint8_t op, sub; uint16_t w; int32_t dst,a,b,c; uint32_t x; int32_t line; };
struct Fn {
  std::string name; void* llvm=nullptr; bool isDecl=false, translated=false, nounwind=false; int nargs=0, nregs=0; int builtin=0; uint64_t addr=0; bool varargs=false;
  const TyD* ret=nullptr; std::vector<const TyD*> argTy; bool fromCest=false; std::string srcFile;
  std::vector<Inst> code; std::vector<Val> consts; std::vector<GepD> geps; std::vector<const TyD*> tys; std::vector<Edge> edges; std::vector<SwitchD> sws; std::vector<LpadD> lpads; std::vector<CallD> calls; std::vector<std::vector<unsigned>> idx; std::vector<std::string> unsup; std::vector<std::string> files;
  uint64_t execs=0; int lastErrLine=0;
};
struct GlobalInit { uint32_t off; Val v; unsigned w; };
struct GlobalD { std::string name; uint64_t size=0; bool writable=false, external=false; std::vector<uint8_t> data, def; std::vector<GlobalInit> relocs; uint64_t addr=0; void* llvm=nullptr; };
struct TIBase { std::string name; int64_t off; bool virt; };

struct Module {
  std::vector<GlobalD> globals; std::vector<Fn*> fns; std::unordered_map<std::string,Fn*> fnByName; std::unordered_map<uint64_t,Fn*> fnByAddr; std::unordered_map<std::string,uint64_t> globalAddr; std::unordered_map<uint64_t,std::string> globalByAddr;
  std::map<std::string,std::vector<TIBase>> ti; std::vector<std::pair<int,std::string>> ctors;
};
extern Module M;
bool loadModule(const std::string&path,std::string&err);
void translate(Fn*f);
int builtinId(const std::string&n);      // 0 = none
std::string demangle(const std::string&);
// builtin ids
enum BI { B_NONE=0,
  B_SYM, B_CHOOSE, B_ASSUME, B_ASSERT, B_OBSERVE, B_COVER, B_HEAPLIVE, B_CONCRETIZE, B_ISSYM, B_FAIL, B_EVCOUNT, B_EVGET, B_LABEL, B_ICE, B_ENGINE, B_EVBYTES,B_KNOWN,
  B_NEW, B_NEWARR, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_DEL, B_DELSZ, B_DELARR, B_DELARRSZ,
  B_MEMCPY, B_MEMMOVE, B_WMEMCPY, B_WMEMMOVE, B_MEMSET, B_MEMCMP, B_MEMCHR, B_STRLEN, B_STRCMP, B_STRNCMP, B_STRCPY, B_WMEM,
  B_NOP, B_NOP_RET0, B_NOP_ARG0, B_ASSUME_I, B_EXPECT, B_TRAP, B_ADDO, B_ABS_I, B_MINMAX, B_CTPOP, B_CTLZ, B_CTTZ, B_BSWAP, B_FABS, B_FRND, B_FSQRT, B_FMULADD, B_COPYSIGN, B_ISCONST, B_OBJSIZE, B_EHTYPEID, B_FMINMAX, B_FSHL, B_SATARITH, B_PTRMASK, B_LIBM,
  B_EXALLOC, B_EXFREE, B_THROW, B_RETHROW, B_BEGINCATCH, B_ENDCATCH, B_GETEXPTR, B_GUARDACQ, B_GUARDREL, B_ATEXIT, B_DYNCAST, B_TERMINATE, B_ABORT, B_EXIT, B_ASSERTFAIL, B_STDTHROW, B_CURRENTEXC, B_UNCAUGHT, B_EXCTOR, B_WHAT,
  B_OUT_INT, B_OUT_CSTR, B_OUT_CHAR, B_OUT_DBL, B_OUT_PUT, B_OUT_WRITE, B_OUT_MANIP, B_OUT_FLUSH, B_PRINTF, B_FPRINTF, B_OUT_PTR, B_ENDL, B_PUTS, B_ISALNUM, B_OUT_STRN, B_OUT_STR, B_BADCAST,
};
