#include "ir.hpp"
#include <cstring>
static bool starts(const std::string&s,const char*p){ return s.compare(0,strlen(p),p)==0; }
int builtinId(const std::string&n){
  static const std::unordered_map<std::string,int> t={
   {"sx_sym",B_SYM},{"sx_choose_",B_CHOOSE},{"sx_assume_",B_ASSUME},{"sx_assert_",B_ASSERT},{"sx_fail",B_FAIL},{"sx_observe",B_OBSERVE},{"sx_cover",B_COVER},{"sx_heap_live",B_HEAPLIVE},{"sx_concretize",B_CONCRETIZE},{"sx_engine",B_ENGINE},{"sx_known",B_KNOWN},{"sx_expect",B_EVGET},{"sx_expect_match",B_EVCOUNT},
   {"_Znwm",B_NEW},{"_Znam",B_NEWARR},{"_ZnwmRKSt9nothrow_t",B_NEW},{"_ZnamRKSt9nothrow_t",B_NEWARR},{"_ZnwmSt11align_val_t",B_NEW},{"_ZnamSt11align_val_t",B_NEWARR},{"malloc",B_MALLOC},{"calloc",B_CALLOC},{"realloc",B_REALLOC},{"free",B_FREE},
   {"_ZdlPv",B_DEL},{"_ZdlPvm",B_DELSZ},{"_ZdaPv",B_DELARR},{"_ZdaPvm",B_DELARRSZ},{"_ZdlPvSt11align_val_t",B_DEL},{"_ZdlPvmSt11align_val_t",B_DELSZ},
   {"memcpy",B_MEMCPY},{"wmemcpy",B_WMEMCPY},{"wmemmove",B_WMEMMOVE},{"memmove",B_MEMMOVE},{"memset",B_MEMSET},{"memcmp",B_MEMCMP},{"bcmp",B_MEMCMP},{"memchr",B_MEMCHR},{"strlen",B_STRLEN},{"strcmp",B_STRCMP},{"strncmp",B_STRNCMP},{"strcpy",B_STRCPY},
   {"__cxa_allocate_exception",B_EXALLOC},{"__cxa_free_exception",B_EXFREE},{"__cxa_throw",B_THROW},{"__cxa_rethrow",B_RETHROW},{"__cxa_begin_catch",B_BEGINCATCH},{"__cxa_end_catch",B_ENDCATCH},{"__cxa_get_exception_ptr",B_GETEXPTR},{"__cxa_guard_acquire",B_GUARDACQ},{"__cxa_guard_release",B_GUARDREL},{"__cxa_guard_abort",B_NOP},{"__cxa_atexit",B_ATEXIT},{"__dynamic_cast",B_DYNCAST},{"__cxa_bad_cast",B_BADCAST},{"_ZSt9terminatev",B_TERMINATE},{"__cxa_pure_virtual",B_ABORT},{"abort",B_ABORT},{"exit",B_EXIT},{"_Exit",B_EXIT},{"__assert_fail",B_ASSERTFAIL},{"_ZSt18uncaught_exceptionv",B_UNCAUGHT},{"_ZSt19uncaught_exceptionsv",B_UNCAUGHT},
   {"_ZNSt8ios_base4InitC1Ev",B_NOP},{"_ZNSt8ios_base4InitD1Ev",B_NOP},
   {"printf",B_PRINTF},{"puts",B_PUTS},{"putchar",B_PUTS},{"snprintf",B_FPRINTF},{"fflush",B_NOP_RET0},
   {"_ZNSolsEi",B_OUT_INT},{"_ZNSolsEj",B_OUT_INT},{"_ZNSolsEl",B_OUT_INT},{"_ZNSolsEm",B_OUT_INT},{"_ZNSolsEs",B_OUT_INT},{"_ZNSolsEt",B_OUT_INT},{"_ZNSolsEx",B_OUT_INT},{"_ZNSolsEy",B_OUT_INT},{"_ZNSolsEb",B_OUT_INT},{"_ZNSolsEd",B_OUT_DBL},{"_ZNSolsEf",B_OUT_DBL},
   {"_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c",B_OUT_CHAR},{"_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_h",B_OUT_CHAR},{"_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_a",B_OUT_CHAR},{"_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc",B_OUT_CSTR},{"_ZNSo3putEc",B_OUT_PUT},{"_ZNSo5writeEPKcl",B_OUT_WRITE},{"_ZNSo5flushEv",B_OUT_FLUSH},{"_ZNSolsEPFRSoS_E",B_OUT_MANIP},{"_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_",B_ENDL},{"_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l",B_OUT_STRN},
   {"sin",B_LIBM},{"cos",B_LIBM},{"tan",B_LIBM},{"exp",B_LIBM},{"log",B_LIBM},{"atan",B_LIBM},{"atan2",B_LIBM},{"pow",B_LIBM},{"sinh",B_LIBM},{"cosh",B_LIBM},{"tanh",B_LIBM},
   {"fabs",B_FABS},{"fabsf",B_FABS},{"sqrt",B_FSQRT},{"sqrtf",B_FSQRT},{"floor",B_FRND},{"ceil",B_FRND},{"trunc",B_FRND},{"rint",B_FRND},{"round",B_FRND},{"copysign",B_COPYSIGN},
  };
  auto it=t.find(n); if(it!=t.end()) return it->second;
  if(starts(n,"_ZSt")&&n.find("__throw_")!=std::string::npos) return B_STDTHROW;
  if(starts(n,"_ZNSt")&&(n.find("_error")!=std::string::npos||n.find("out_of_range")!=std::string::npos||n.find("exception")!=std::string::npos||n.find("invalid_argument")!=std::string::npos||n.find("bad_")!=std::string::npos)&&(n.find("C1E")!=std::string::npos||n.find("C2E")!=std::string::npos||n.find("D1E")!=std::string::npos||n.find("D2E")!=std::string::npos)) return B_EXCTOR;
  if(starts(n,"llvm.")){
    auto h=[&](const char*p){ return starts(n,p); };
    if(h("llvm.memcpy")||h("llvm.memcpy.inline")) return B_MEMCPY; if(h("llvm.memmove")) return B_MEMMOVE; if(h("llvm.memset")) return B_MEMSET;
    if(h("llvm.lifetime")||h("llvm.dbg")||h("llvm.experimental.noalias")||h("llvm.donothing")||h("llvm.prefetch")||h("llvm.stackrestore")||h("llvm.sideeffect")||h("llvm.var.annotation")||h("llvm.assume")||h("llvm.invariant.end")) return B_NOP;
    if(h("llvm.stacksave")||h("llvm.invariant.start")) return B_NOP_RET0; if(h("llvm.expect")) return B_EXPECT; if(h("llvm.launder")||h("llvm.strip")||h("llvm.threadlocal")||h("llvm.ssa.copy")||h("llvm.ptr.annotation")) return B_EXPECT;
    if(h("llvm.trap")||h("llvm.debugtrap")||h("llvm.ubsantrap")) return B_TRAP; if(n.find(".with.overflow")!=std::string::npos) return B_ADDO;
    if(h("llvm.abs")) return B_ABS_I; if(h("llvm.smax")||h("llvm.smin")||h("llvm.umax")||h("llvm.umin")) return B_MINMAX; if(h("llvm.ctpop")) return B_CTPOP; if(h("llvm.ctlz")) return B_CTLZ; if(h("llvm.cttz")) return B_CTTZ; if(h("llvm.bswap")) return B_BSWAP;
    if(h("llvm.fabs")) return B_FABS; if(h("llvm.floor")||h("llvm.ceil")||h("llvm.trunc")||h("llvm.rint")||h("llvm.nearbyint")||h("llvm.round")) return B_FRND; if(h("llvm.sqrt")) return B_FSQRT; if(h("llvm.fmuladd")) return B_FMULADD; if(h("llvm.copysign")) return B_COPYSIGN; if(h("llvm.minnum")||h("llvm.maxnum")) return B_FMINMAX;
    if(h("llvm.is.constant")) return B_ISCONST; if(h("llvm.objectsize")) return B_OBJSIZE; if(h("llvm.eh.typeid.for")) return B_EHTYPEID; if(h("llvm.fshl")||h("llvm.fshr")) return B_FSHL;
  }
  return 0;
}
