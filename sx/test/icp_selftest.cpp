// Self-test of the interval procedure: random expressions over random boxes; at random points of the box the concrete value of
// every node must lie in the interval computed for it. Build: clang++-18 -std=c++20 -O2 -w icp_selftest.cpp ../engine/expr.cpp
#include "../engine/icp.cpp"
#include <random>
#include <cstdio>
SolverStats SS;
static std::mt19937_64 g(1);
static uint64_t rn(uint64_t n){ return g()%n; }
static double rdbl(){ switch(rn(8)){ case 0: return 0; case 1: return (double)(int)rn(20)-10; case 2: return unord((int64_t)(g()%(2*(uint64_t)ord(INF)+1))-ord(INF)); case 3: return std::ldexp(1.0,(int)rn(40)-20); default: return ((double)rn(2000001)-1000000)/100000.0; } }
int main(int ac,char**av){
  int rounds=ac>1?atoi(av[1]):20000; long checked=0, bad=0;
  for(int R=0;R<rounds;R++){
    const Expr*x=mkSym(0,64),*y=mkSym(1,64),*n=mkSym(2,32); vector<const Expr*> fl{x,y},in{n},bo;
    for(int i=0;i<3;i++) fl.push_back(mkConst(64,frD(rdbl()))); in.push_back(mkConst(32,rn(9)));
    int len=3+rn(25);
    for(int i=0;i<len;i++){ auto F=[&]{ return fl[rn(fl.size())]; }; auto I=[&]{ return in[rn(in.size())]; };
      switch(rn(20)){ case 0: case 1: fl.push_back(mk(E_FADD,64,F(),F())); break; case 2: case 3: fl.push_back(mk(E_FSUB,64,F(),F())); break; case 4: case 5: case 6: fl.push_back(mk(E_FMUL,64,F(),F())); break; case 7: case 8: fl.push_back(mk(E_FDIV,64,F(),F())); break;
      case 9: fl.push_back(mk(E_FNEG,64,F())); break; case 10: fl.push_back(mk(E_FABS,64,F())); break; case 11: fl.push_back(mk(E_MATH,64,F(),nullptr,nullptr,rn(8))); break; case 12: fl.push_back(mk(E_SITOFP,64,I())); break; case 13: { auto f=F(); in.push_back(mk(E_FPTOSI,32,f)); break; }
      case 14: bo.push_back(mk(rn(2)?E_FLT:E_FLE,1,F(),F())); break; case 15: bo.push_back(mk(E_FEQ,1,F(),F())); break; case 16: if(!bo.empty()) fl.push_back(mk(E_ITE,64,bo[rn(bo.size())],F(),F())); break; case 17: in.push_back(mk(rn(3)==0?E_MUL:rn(2)?E_ADD:E_SUB,32,I(),I())); break; case 18: in.push_back(mk(rn(2)?E_AND:E_LSHR,32,I(),mkConst(32,rn(8)))); break; case 19: bo.push_back(mk(rn(2)?E_SLT:E_ULE,1,I(),I())); if(rn(3)==0) fl.push_back(mk(E_FSQRT,64,F())); if(rn(4)==0) fl.push_back(mk(E_F2F,64,mk(E_F2F,32,F()))); if(rn(5)==0) fl.push_back(mk(E_FRND,64,F(),nullptr,nullptr,rn(5))); break; } }
    bo.push_back(mk(E_FUNO,1,fl.back(),fl[rn(fl.size())])); bo.push_back(mk(E_FLT,1,fl.back(),mkConst(64,frD(1.0)))); bo.push_back(mk(E_EQ,1,in.back(),mkConst(32,3)));
    ICP P; for(auto e:bo) P.roots.push_back(P.add(e)); P.views(); P.v.resize(P.t.size()); P.f.assign(P.t.size(),afNone()); int ax=0; P.aff=R%4!=0;
    for(size_t i=0;i<P.t.size();i++){ N&q=P.t[i]; if(q.op==E_CONST){ IV r=top(q.w); if(q.w==64){ double d=asD(q.e->c); r=d!=d?fpv(INF,-INF,true,64):fpv(d,d,false,64); } r.il=r.ih=q.w==1?(int64_t)q.e->c:sx64(q.e->c,q.w); P.v[i]=r; if(r.lo==r.hi) P.f[i]=afIV(r); } else if(q.op==E_SYM){ bool f=q.w==64; P.vars.push_back({q.e,f,(bool)P.needI[i],(int)i,f?ax++:-1}); } }
    vector<Side> b; for(auto&v:P.vars){ Side s; s.nan=false; if(v.fp){ double c=rdbl(),d=rn(3)==0?rdbl():c+std::ldexp((double)rn(1000),-(int)rn(40)); s.l=std::min(ord(c),ord(d)); s.h=std::max(ord(c),ord(d)); } else { s.l=(int64_t)rn(200)-100; s.h=s.l+rn(rn(2)?4:1000); } b.push_back(s); P.setVar(v,s); }
    P.eval();
    for(int k=0;k<8;k++){ Model m(3,0); for(size_t i=0;i<P.vars.size();i++){ auto&s=b[i]; int64_t o=k==0?s.l:k==1?s.h:s.l+(int64_t)rn((uint64_t)(s.h-s.l)+1); m[P.vars[i].sym->c]=P.vars[i].fp?(o==0&&rn(2)?0x8000000000000000ull:frD(unord(o))):(uint64_t)o&maskw(32); }
      for(size_t i=0;i<P.t.size();i++){ N&q=P.t[i]; uint64_t c=evalExpr(q.e,m); const IV&r=P.v[i]; checked++; bool ok;
        if(P.needF[i]&&(q.w==64||q.w==32)){ double d=q.w==64?asD(c):asF(c); ok=d!=d?r.nan:(d>=r.lo&&d<=r.hi); if(ok&&d==d&&P.f[i].ok){ double R=P.f[i].rad(),s=1e-12*(fabs(P.f[i].c)+R)+1e-280; if(!(d>=P.f[i].c-R-s&&d<=P.f[i].c+R+s)) ok=false; } if(!ok&&bad++<10) printf("FP %s value %.17g not in [%.17g,%.17g] nan %d  af %d %.17g +- %.17g\n",showExpr(q.e,5).c_str(),d,r.lo,r.hi,r.nan,P.f[i].ok,P.f[i].c,P.f[i].rad()); }
        if(P.needI[i]){ int64_t v=q.w==1?(int64_t)c:sx64(c,q.w); ok=v>=r.il&&v<=r.ih; if(!ok&&bad++<10) printf("INT %s value %ld not in [%ld,%ld]\n",showExpr(q.e,5).c_str(),v,r.il,r.ih); } } }
  }
  printf("%ld values checked, %ld outside\n",checked,bad); return bad!=0;
}
