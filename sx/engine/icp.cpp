// Interval constraint procedure for conjunctions with floating point operations (branch and prune over the whole box of
// the symbols). Every operation is evaluated on intervals of doubles whose ends are computed with the same IEEE rounding as
// the operation itself: rounding is monotone, so the result encloses every rounded result. E_MATH (the mathematical
// functions an oracle refers to) is widened by a few units in the last place. A box on which some constraint is false for
// every point is discarded; a box reduced to a point is decided concretely; a satisfying point is checked by evalExpr.
// Besides its interval every floating point value of moderate size carries an affine form c + sum s_i e_i + [-r,r] over the box'
// coordinates e_i in [-1,1] (r also bounds the rounding of the program's operation and of this procedure's own arithmetic), which
// keeps the correlation of values computed from the same symbols.
// The answer is UNSAT only when every box of the search space was discarded.
#include "solver.hpp"
#include <cmath>
#include <limits>
#include <algorithm>
#include <deque>
#include <unordered_map>
using std::vector;
namespace {
const double INF=std::numeric_limits<double>::infinity(), DNAN=std::numeric_limits<double>::quiet_NaN();
struct IV { double lo,hi; bool nan; int64_t il,ih; }; // floating view: [lo,hi] (lo>hi: none) possibly NaN; integer view: signed [il,ih], [0,1] for one bit
double asD(uint64_t v){ double d; memcpy(&d,&v,8); return d; } uint64_t frD(double d){ uint64_t v; memcpy(&v,&d,8); return v; }
double asF(uint64_t v){ uint32_t x=(uint32_t)v; float f; memcpy(&f,&x,4); return f; }
int64_t imin(unsigned w){ return w==1?0:-(int64_t)(1ull<<(w-1)); } int64_t imax(unsigned w){ return w==1?1:(int64_t)(maskw(w)>>1); }
// doubles in order, both zeroes at 0
int64_t ord(double d){ uint64_t b=frD(d); return (int64_t)b>=0?(int64_t)b:-(int64_t)(b&0x7fffffffffffffffull); }
double unord(int64_t o){ return asD(o>=0?(uint64_t)o:((uint64_t)(-o)|0x8000000000000000ull)); }
int64_t ordF(float f){ uint32_t b; memcpy(&b,&f,4); return (int32_t)b>=0?(int32_t)b:-(int64_t)(b&0x7fffffffu); }
float unordF(int64_t o){ uint32_t b=o>=0?(uint32_t)o:((uint32_t)(-o)|0x80000000u); float f; memcpy(&f,&b,4); return f; }
struct N { uint8_t op,w; uint16_t aux; int k[3]; uint8_t wk; const Expr*e; };
inline double rd(double x,unsigned w){ return w==64?x:(double)(float)x; }
inline double R(double x,unsigned w,double dflt){ return std::isnan(x)?dflt:x; }
IV top(unsigned w){ return {-INF,INF,true,imin(w),imax(w)}; }
IV fpv(double lo,double hi,bool nan,unsigned w){ return {lo,hi,nan,imin(w),imax(w)}; }
IV iv(int64_t a,int64_t b){ return {-INF,INF,true,a,b}; }
double down(double x,int n){ return std::isinf(x)?x:unord(std::max(ord(x)-n,-ord(INF))); } double up(double x,int n){ return std::isinf(x)?x:unord(std::min(ord(x)+n,ord(INF))); }
double mf(unsigned f,double x){ return mathFn(f,x); }
IV mathIV(unsigned f,const IV&a,unsigned w){
  if(a.lo>a.hi) return fpv(INF,-INF,true,w);
  const int P=16; double lo=a.lo,hi=a.hi; bool nan=a.nan;
  switch(f){
  case M_EXP: case M_SINH: case M_ATAN: case M_TANH: { double l=down(mf(f,lo),P),h=up(mf(f,hi),P); if(f==M_EXP&&l<0) l=0; return fpv(l,h,nan,w); }
  case M_LOG: { if(hi<0) return fpv(INF,-INF,true,w); if(lo<0){ lo=0; nan=true; } double l=lo==0?-INF:down(mf(f,lo),P); double h=hi==0?-INF:up(mf(f,hi),P); return fpv(l,h,nan,w); }
  case M_COSH: { double m=std::max(mf(f,lo),mf(f,hi)), l=(lo<=0&&hi>=0)?1.0:std::min(mf(f,lo),mf(f,hi)); return fpv(down(l,P),up(m,P),nan,w); }
  case M_SIN: case M_COS: { if(std::isinf(lo)||std::isinf(hi)) return fpv(-1,1,true,w); if(!(hi-lo<6)||fabs(lo)>1e9||fabs(hi)>1e9) return fpv(-1,1,nan,w);
    double a0=mf(f,lo),a1=mf(f,hi),l=down(std::min(a0,a1),P),h=up(std::max(a0,a1),P); const double PI=3.14159265358979323846; double ph=f==M_SIN?PI/2:0;
    long k0=(long)std::floor((lo-ph)/PI)-1,k1=(long)std::ceil((hi-ph)/PI)+1; for(long k=k0;k<=k1;k++){ double c=ph+k*PI, s=1e-9*(1+fabs(c)); if(c>=lo-s&&c<=hi+s){ if(k%2==0) h=1; else l=-1; } }
    return fpv(std::max(l,-1.0),std::min(h,1.0),nan,w); }
  }
  return fpv(-INF,INF,true,w);
}
const int AV=3; const double EPS=2.3e-16;
struct AF { bool ok; double c, s[AV], r; double rad()const{ double x=r; for(double y:s) x+=fabs(y); return x*(1+8*EPS); } };
AF afNone(){ AF a; a.ok=false; return a; }
bool afFin(AF&a){ double m=fabs(a.c)+a.rad(); if(!(m<1e150)) a.ok=false; return a.ok; }
// slack for the rounding of the operation in the program (to w bits) and of the arithmetic here
void afSlack(AF&a,unsigned w){ double m=fabs(a.c)+a.rad(); a.r=a.r*(1+16*EPS)+m*(w==32?1.3e-7:8*EPS)+1e-290; afFin(a); }
AF afIV(const IV&v){ AF a=afNone(); if(v.lo>v.hi||!(fabs(v.lo)<1e150)||!(fabs(v.hi)<1e150)) return a; a.ok=true; a.c=v.lo/2+v.hi/2; for(double&x:a.s) x=0; a.r=std::max(v.hi-a.c,a.c-v.lo)*(1+8*EPS)+(v.lo==v.hi?0:1e-290); if(v.lo==v.hi){ a.c=v.lo; a.r=0; } return a; }
AF afAdd(const AF&a,const AF&b,double sg){ AF r=afNone(); if(!a.ok||!b.ok) return r; r.ok=true; r.c=a.c+sg*b.c; double m=fabs(a.c)+fabs(b.c); for(int i=0;i<AV;i++){ r.s[i]=a.s[i]+sg*b.s[i]; m+=fabs(a.s[i])+fabs(b.s[i]); } r.r=a.r+b.r+m*2*EPS; return r; }
AF afMul(const AF&a,const AF&b){ AF r=afNone(); if(!a.ok||!b.ok) return r; r.ok=true; r.c=a.c*b.c; double m=fabs(a.c*b.c); for(int i=0;i<AV;i++){ r.s[i]=a.c*b.s[i]+b.c*a.s[i]; m+=fabs(a.c*b.s[i])+fabs(b.c*a.s[i]); } r.r=fabs(a.c)*b.r+fabs(b.c)*a.r+a.rad()*b.rad(); r.r=r.r*(1+16*EPS)+m*4*EPS+1e-290; return r; }
// p + q x with remainder d, x the form a
AF afLin(const AF&a,double p,double q,double d){ AF r=a; r.c=p+q*a.c; double m=fabs(p)+fabs(q*a.c); for(int i=0;i<AV;i++){ r.s[i]=q*a.s[i]; m+=fabs(r.s[i]); } r.r=(fabs(q)*a.r+d)*(1+16*EPS)+m*4*EPS+1e-290; return r; }
AF afInv(const AF&a,const IV&v){ AF r=afNone(); if(!a.ok||!(v.lo>1e-140||v.hi<-1e-140)) return r; bool neg=v.hi<0; double x=neg?-v.hi:v.lo,y=neg?-v.lo:v.hi; double e=1/x+1/y,g=2/std::sqrt(x*y); double mid=(e+g)/2,d=(e-g)/2+8*EPS*(e+g); if(d<0) d=8*EPS*e; return afLin(a,neg?-mid:mid,-1/(x*y),d+16*EPS*e); }
AF afMath(unsigned f,const AF&a,const IV&v){ if(!a.ok||!(v.lo<=v.hi)) return afNone(); double c=a.c,y=mathFn(f,c),d,B,t; double big=std::max(fabs(v.lo),fabs(v.hi)); if(c<v.lo||c>v.hi) return afNone();
  switch(f){ case M_EXP: d=y; B=std::exp(v.hi); break; case M_LOG: if(!(v.lo>1e-140)) return afNone(); d=1/c; B=1/(v.lo*v.lo); break; case M_SIN: d=std::cos(c); B=1; break; case M_COS: d=-std::sin(c); B=1; break;
  case M_SINH: d=std::cosh(c); B=std::cosh(big); break; case M_COSH: d=std::sinh(c); B=std::cosh(big); break; case M_ATAN: d=1/(1+c*c); B=0.66; break; case M_TANH: t=std::tanh(c); d=1-t*t; B=0.78; break; default: return afNone(); }
  double R=a.rad(); return afLin(a,y-d*c,d,B*R*R*0.500001+32*EPS*(fabs(y)+fabs(d)*(fabs(c)+R))); }
struct Var { const Expr*sym; bool fp,bits; int node; int ax; };
struct Side { int64_t l,h; bool nan; };   // nan: the box is the value NaN
struct ICP {
  vector<N> t; vector<IV> v; vector<AF> f; bool aff=true; vector<int> roots; vector<Var> vars; std::unordered_map<const Expr*,int> idx; vector<char> needF,needI;
  int add(const Expr*e){
    auto it=idx.find(e); if(it!=idx.end()) return it->second;
    N n; n.op=e->op; n.w=e->w; n.aux=e->aux; n.e=e; n.k[0]=n.k[1]=n.k[2]=-1; n.wk=e->k[0]?e->k[0]->w:0;
    for(int i=0;i<3;i++) if(e->k[i]) n.k[i]=add(e->k[i]);
    int r=t.size(); t.push_back(n); idx[e]=r; return r;
  }
  void views(){ // which view of each node is used
    needF.assign(t.size(),0); needI.assign(t.size(),0); for(int r:roots) needI[r]=1;
    for(int i=(int)t.size()-1;i>=0;i--){ N&n=t[i]; if(n.k[0]<0) continue;
      switch(n.op){
      case E_FADD: case E_FSUB: case E_FMUL: case E_FDIV: case E_FREM: case E_FNEG: case E_FABS: case E_FSQRT: case E_FRND: case E_FEQ: case E_FLT: case E_FLE: case E_FUNO: case E_F2F: case E_FPTOSI: case E_FPTOUI: case E_MATH:
        for(int k:n.k) if(k>=0) needF[k]=1; break;
      case E_ITE: needI[n.k[0]]=1; for(int j=1;j<3;j++){ needF[n.k[j]]|=needF[i]; needI[n.k[j]]|=needI[i]; } break;
      default: for(int k:n.k) if(k>=0) needI[k]=1; } }
  }
  void eval(){
    for(size_t i=0;i<t.size();i++){ N&n=t[i]; unsigned w=n.w; IV&r=v[i];
      if(n.op==E_SYM||n.op==E_CONST) continue;
      const IV&a=v[n.k[0]]; const IV*bp=n.k[1]>=0?&v[n.k[1]]:&a; const IV&b=*bp;
      bool ea=a.lo>a.hi, eb=b.lo>b.hi;
      if(n.op<E_FADD&&n.op!=E_ITE){ // an integer operation on single values
        bool pt=true; for(int k:n.k) if(k>=0&&v[k].il!=v[k].ih) pt=false;
        if(pt){ bool ok; uint64_t x[3]={0,0,0}; for(int j=0;j<3;j++) if(n.k[j]>=0) x[j]=(uint64_t)v[n.k[j]].il&maskw(t[n.k[j]].w); uint64_t y=evalOp(n.op,w,n.aux,x[0],n.wk,x[1],x[2],ok,n.k[1]>=0?t[n.k[1]].w:0); int64_t sv=w==1?(int64_t)(y&1):sx64(y,w); r=iv(sv,sv); f[i].ok=false; continue; } }
      switch(n.op){
      case E_FADD: case E_FSUB: { if(ea||eb){ r=fpv(INF,-INF,true,w); break; }
        double bl=n.op==E_FADD?b.lo:-b.hi,bh=n.op==E_FADD?b.hi:-b.lo; if(n.op==E_FSUB&&n.k[0]==n.k[1]){ bool inf=std::isinf(a.lo)||std::isinf(a.hi); r=fpv(0,0,a.nan||inf,w); break; }
        double lo=rd(a.lo+bl,w),hi=rd(a.hi+bh,w); bool nn=a.nan||b.nan||(a.lo==-INF&&bh==INF)||(a.hi==INF&&bl==-INF);
        r=fpv(R(lo,w,-INF),R(hi,w,INF),nn,w); break; }
      case E_FMUL: { if(ea||eb){ r=fpv(INF,-INF,true,w); break; }
        bool inf=std::isinf(a.lo)||std::isinf(a.hi)||std::isinf(b.lo)||std::isinf(b.hi);
        if(n.k[0]==n.k[1]){ double x=rd(a.lo*a.lo,w),y=rd(a.hi*a.hi,w); bool z=a.lo<=0&&a.hi>=0; r=fpv(z?0:std::min(x,y),std::max(x,y),a.nan,w); break; }
        double p=a.lo*b.lo,q=a.lo*b.hi,s=a.hi*b.lo,u=a.hi*b.hi; if(inf){ if(p!=p)p=0; if(q!=q)q=0; if(s!=s)s=0; if(u!=u)u=0; }
        bool az=a.lo<=0&&a.hi>=0,bz=b.lo<=0&&b.hi>=0; bool nn=a.nan||b.nan||(inf&&(az||bz));
        r=fpv(rd(std::min(std::min(p,q),std::min(s,u)),w),rd(std::max(std::max(p,q),std::max(s,u)),w),nn,w); break; }
      case E_FDIV: { if(ea||eb){ r=fpv(INF,-INF,true,w); break; }
        auto neg=[&](int x,int y){ N&m=t[x]; return (m.op==E_FNEG&&m.k[0]==y)||(m.op==E_FSUB&&m.k[1]==y&&t[m.k[0]].op==E_CONST&&v[m.k[0]].lo==0&&v[m.k[0]].hi==0); };
        bool opp=n.k[0]!=n.k[1]&&(neg(n.k[0],n.k[1])||neg(n.k[1],n.k[0]));
        if(n.k[0]==n.k[1]||opp){ double u=opp?-1:1; r=fpv(u,u,a.nan||(a.lo<=0&&a.hi>=0)||std::isinf(a.lo)||std::isinf(a.hi),w); break; } // 1, or not a number
        if((b.lo<=0&&b.hi>=0)||((std::isinf(a.lo)||std::isinf(a.hi))&&(std::isinf(b.lo)||std::isinf(b.hi)))){ r=fpv(-INF,INF,true,w); break; }
        double p=a.lo/b.lo,q=a.lo/b.hi,s=a.hi/b.lo,u=a.hi/b.hi;
        r=fpv(rd(std::min(std::min(p,q),std::min(s,u)),w),rd(std::max(std::max(p,q),std::max(s,u)),w),a.nan||b.nan,w); break; }
      case E_FNEG: r=fpv(-a.hi,-a.lo,a.nan,w); break;
      case E_FABS: if(ea) r=fpv(INF,-INF,true,w); else if(a.lo>=0) r=fpv(a.lo,a.hi,a.nan,w); else if(a.hi<=0) r=fpv(-a.hi,-a.lo,a.nan,w); else r=fpv(0,std::max(-a.lo,a.hi),a.nan,w); break;
      case E_FSQRT: if(ea||a.hi<0) r=fpv(INF,-INF,true,w); else r=fpv(rd(std::sqrt(std::max(a.lo,0.0)),w),rd(std::sqrt(a.hi),w),a.nan||a.lo<0,w); break;
      case E_FRND: if(ea) r=fpv(INF,-INF,true,w); else { auto f=[&](double d){ return n.aux==0?std::floor(d):n.aux==1?std::ceil(d):n.aux==2?std::trunc(d):n.aux==3?std::nearbyint(d):std::round(d); }; r=fpv(f(a.lo),f(a.hi),a.nan,w); } break;
      case E_F2F: if(ea) r=fpv(INF,-INF,true,w); else r=fpv(rd(a.lo,w),rd(a.hi,w),a.nan,w); break;
      case E_MATH: r=mathIV(n.aux,a,w); break;
      case E_SITOFP: { bool o=n.wk==1; double lo=o?-(double)a.ih:(double)a.il,hi=o?-(double)a.il:(double)a.ih; if(w==32){ lo=(float)(o?-a.ih:a.il); hi=(float)(o?-a.il:a.ih); } r=fpv(lo,hi,false,w); break; }
      case E_UITOFP: if(a.il>=0) r=w==64?fpv((double)a.il,(double)a.ih,false,w):fpv((float)a.il,(float)a.ih,false,w); else r=fpv(0,w==64?(double)maskw(n.wk):(double)(float)maskw(n.wk),false,w); break;
      case E_FPTOSI: { double lim=std::ldexp(1.0,w-1); if(ea||a.nan||!(a.lo>-lim-1||(w==64&&a.lo>=-lim))||!(a.hi<lim)){ r=top(w); if(ea) r=top(w); break; } double l=std::trunc(a.lo),h=std::trunc(a.hi); if(l<-lim){ r=top(w); break; } r=iv((int64_t)l,(int64_t)h); break; }
      case E_FPTOUI: { double lim=std::ldexp(1.0,w-1); if(ea||a.nan||!(a.lo>-1)||!(a.hi<lim)){ r=top(w); break; } r=iv((int64_t)std::trunc(a.lo),(int64_t)std::trunc(a.hi)); break; }
      case E_FEQ: { bool fz=ea||eb||a.hi<b.lo||b.hi<a.lo, tr=!fz&&!a.nan&&!b.nan&&((a.lo==a.hi&&b.lo==b.hi&&a.lo==b.lo)||(n.k[0]==n.k[1])); r=iv(tr,!fz); break; }
      case E_FLT: { bool fz=ea||eb||a.lo>=b.hi||n.k[0]==n.k[1], tr=!fz&&!a.nan&&!b.nan&&a.hi<b.lo; r=iv(tr,!fz); break; }
      case E_FLE: { bool fz=ea||eb||a.lo>b.hi, tr=!fz&&!a.nan&&!b.nan&&(a.hi<=b.lo||n.k[0]==n.k[1]); r=iv(tr,!fz); break; }
      case E_FUNO: { bool tr=ea||eb, fz=!a.nan&&!b.nan; r=iv(tr,!fz); break; }
      case E_ITE: { const IV&c=v[n.k[2]]; if(a.il==1) r=b; else if(a.ih==0) r=c; else { r.nan=b.nan||c.nan; r.lo=std::min(b.lo,c.lo); r.hi=std::max(b.hi,c.hi); r.il=std::min(b.il,c.il); r.ih=std::max(b.ih,c.ih); } break; }
      case E_AND: if(w==1){ r=iv(a.il&b.il,a.ih&b.ih); break; } if(a.il>=0&&b.il>=0) r=iv(0,std::min(a.ih,b.ih)); else if(b.il>=0) r=iv(0,b.ih); else if(a.il>=0) r=iv(0,a.ih); else r=top(w); break;
      case E_OR: if(w==1) r=iv(a.il|b.il,a.ih|b.ih); else r=top(w); break;
      case E_XOR: if(w==1){ if(a.il==a.ih&&b.il==b.ih) r=iv(a.il^b.il,a.il^b.il); else r=iv(0,1); } else r=top(w); break;
      case E_EQ: { bool fz=a.ih<b.il||b.ih<a.il, tr=!fz&&a.il==a.ih&&b.il==b.ih; r=iv(tr,!fz); break; }
      case E_ULT: case E_ULE: { bool sa=a.il>=0,na=a.ih<0,sb=b.il>=0,nb=b.ih<0; if(n.wk==1){ sa=sb=true; na=nb=false; }
        if((sa&&sb)||(na&&nb)){ bool tr=n.op==E_ULT?a.ih<b.il:a.ih<=b.il, fz=n.op==E_ULT?a.il>=b.ih:a.il>b.ih; r=iv(tr,!fz); } else if(sa&&nb) r=iv(1,1); else if(na&&sb) r=iv(0,0); else r=iv(0,1); break; }
      case E_SLT: case E_SLE: { if(n.wk==1){ r=iv(0,1); break; } bool tr=n.op==E_SLT?a.ih<b.il:a.ih<=b.il, fz=n.op==E_SLT?a.il>=b.ih:a.il>b.ih; r=iv(tr,!fz); break; }
      case E_ADD: case E_SUB: { if(w==1){ r=iv(0,1); break; } __int128 l=n.op==E_ADD?(__int128)a.il+b.il:(__int128)a.il-b.ih,h=n.op==E_ADD?(__int128)a.ih+b.ih:(__int128)a.ih-b.il; if(l<imin(w)||h>imax(w)) r=top(w); else r=iv((int64_t)l,(int64_t)h); break; }
      case E_MUL: { if(w==1){ r=iv(0,1); break; } __int128 p=(__int128)a.il*b.il,q=(__int128)a.il*b.ih,s=(__int128)a.ih*b.il,u=(__int128)a.ih*b.ih; __int128 l=std::min(std::min(p,q),std::min(s,u)),h=std::max(std::max(p,q),std::max(s,u)); if(l<imin(w)||h>imax(w)) r=top(w); else r=iv((int64_t)l,(int64_t)h); break; }
      case E_ZEXT: if(n.wk==1||a.il>=0) r=iv(a.il,a.ih); else r=iv(0,(int64_t)maskw(n.wk)); break;
      case E_SEXT: if(n.wk==1) r=iv(-a.ih,-a.il); else r=iv(a.il,a.ih); break;
      case E_EXTRACT: if(n.aux==0&&w>1&&a.il>=imin(w)&&a.ih<=imax(w)) r=iv(a.il,a.ih); else if(n.aux>0&&w>1&&n.wk>1&&a.il>=0&&(a.ih>>n.aux)<=imax(w)) r=iv(a.il>>n.aux,a.ih>>n.aux); else r=top(w); break;
      default: r=top(w);
      }
      if(aff) affine(i); }
  }
  void affine(size_t i){
    N&n=t[i]; IV&r=v[i]; AF&x=f[i]; int k0=n.k[0],k1=n.k[1]; unsigned w=n.w;
    if(w==32&&n.op!=E_FEQ){ x=n.op>=E_FADD?afIV(r):afNone(); return; } // single precision: intervals only (overflow and underflow are near)
    switch(n.op){
    case E_FADD: case E_FSUB: x=afAdd(f[k0],f[k1],n.op==E_FADD?1:-1); if(x.ok) afSlack(x,w); break;
    case E_FMUL: x=afMul(f[k0],f[k1]); if(x.ok) afSlack(x,w); break;
    case E_FDIV: if(r.lo==r.hi) x=afIV(r); else if(f[k0].ok&&f[k1].ok){ AF y=afInv(f[k1],v[k1]); x=y.ok&&afFin(y)?afMul(f[k0],y):y; if(x.ok) afSlack(x,w); } else x=afNone(); break;
    case E_FNEG: x=f[k0]; if(x.ok){ x.c=-x.c; for(double&y:x.s) y=-y; } break;
    case E_FABS: x=f[k0]; if(x.ok){ if(v[k0].hi<=0){ x.c=-x.c; for(double&y:x.s) y=-y; } else if(!(v[k0].lo>=0)) x=afIV(r); } break;
    case E_F2F: x=f[k0]; if(x.ok) afSlack(x,w); break;
    case E_MATH: x=afMath(n.aux,f[k0],v[k0]); if(x.ok) afSlack(x,w); break;
    case E_ITE: if(v[k0].il==1) x=f[k1]; else if(v[k0].ih==0) x=f[n.k[2]]; else x=afIV(r); break;
    case E_SITOFP: case E_UITOFP: case E_FSQRT: case E_FRND: x=afIV(r); break;
    case E_FEQ: case E_FLT: case E_FLE: { x.ok=false; if(r.il==r.ih) return; AF d=afAdd(f[k0],f[k1],-1); if(!d.ok) return; double R=d.rad(),slack=1e-290+16*EPS*(fabs(d.c)+R); double lo=d.c-R-slack,hi=d.c+R+slack; bool nn=v[k0].nan||v[k1].nan;
      if(n.op==E_FEQ){ if(lo>0||hi<0) r=iv(0,0); } else if(lo>0) r=iv(0,0); else if(hi<0&&!nn) r=iv(1,1); return; }
    default: x.ok=false; return;
    }
    if(!x.ok){ x=afIV(r); return; }
    double R=x.rad(), m=fabs(x.c)+R, lo=x.c-R-8*EPS*m-1e-290, hi=x.c+R+8*EPS*m+1e-290;
    if(lo>r.lo) r.lo=lo; if(hi<r.hi) r.hi=hi; 
    double iw=r.hi-r.lo; if(R>iw) x=afIV(r); // the interval says more
  }
  // how uncertain the undecided comparisons of doubles are
  double spread(){ double sum=0; for(int i:cmps){ if(v[i].il==v[i].ih) continue; int a=t[i].k[0],b=t[i].k[1]; double w=0; if(f[a].ok&&f[b].ok){ AF d=afAdd(f[a],f[b],-1); w=d.ok?d.rad():INF; } else w=(v[a].hi-v[a].lo)+(v[b].hi-v[b].lo); if(!(w<1e100)) w=1e100; sum+=w; } return sum; }
  vector<int> cmps, cvts;
  void setVar(const Var&x,const Side&s){
    IV&r=v[x.node]; unsigned w=x.sym->w;
    if(!x.fp){ r=iv(s.l,s.h); return; }
    if(s.nan){ r=fpv(INF,-INF,true,w); f[x.node].ok=false; return; }
    r=w==64?fpv(unord(s.l),unord(s.h),false,w):fpv(unordF(s.l),unordF(s.h),false,w);
    double wd=r.hi-r.lo; AF&a=f[x.node]; a=afIV(r); if(a.ok&&x.ax>=0&&wd>0){ a.s[x.ax]=a.r; a.r=8*EPS*fabs(a.c); }
    if(s.l==s.h&&s.l!=0){ uint64_t b=w==64?frD(unord(s.l)):0; if(w==64) r.il=r.ih=(int64_t)b; }
  }
};
// what a constraint says about one variable alone
void contract(const Expr*e,bool pos,const Expr*x,Side&s,bool&nanOk){
  if(e->op==E_XOR&&e->w==1&&isC(e->k[1])){ contract(e->k[0],pos^(e->k[1]->c&1),x,s,nanOk); return; }
  if(e->op==E_AND&&e->w==1&&pos){ contract(e->k[0],true,x,s,nanOk); contract(e->k[1],true,x,s,nanOk); return; }
  if(e->op==E_OR&&e->w==1&&!pos){ contract(e->k[0],false,x,s,nanOk); contract(e->k[1],false,x,s,nanOk); return; }
  if(e->op==E_FUNO&&!pos&&(e->k[0]==x||e->k[1]==x)){ nanOk=false; return; }
  if(e->op!=E_FLT&&e->op!=E_FLE&&e->op!=E_FEQ) return;
  const Expr*a=e->k[0],*b=e->k[1]; bool l=a==x&&isC(b),r=b==x&&isC(a); 
  if(pos&&(a==x||b==x)) nanOk=false;
  if(!l&&!r) return;
  unsigned w=x->w; uint64_t cb=(l?b:a)->c; double c=w==64?asD(cb):asF(cb); if(c!=c) return; int64_t o=w==64?ord(c):ordF((float)c);
  if(e->op==E_FEQ){ if(pos){ s.l=std::max(s.l,o); s.h=std::min(s.h,o); } return; }
  bool strict=e->op==E_FLT;
  if(!pos){ // not (x<c): x>=c or NaN
    if(l) s.l=std::max(s.l,strict?o:o+1); else s.h=std::min(s.h,strict?o:o-1); return; }
  if(l) s.h=std::min(s.h,strict?o-1:o); else s.l=std::max(s.l,strict?o+1:o);
}
}
double mathFn(unsigned f,double x){ switch(f){ case M_EXP: return std::exp(x); case M_LOG: return std::log(x); case M_SIN: return std::sin(x); case M_COS: return std::cos(x); case M_SINH: return std::sinh(x); case M_COSH: return std::cosh(x); case M_ATAN: return std::atan(x); case M_TANH: return std::tanh(x); } return DNAN; }
static SatRes icpBox(const vector<const Expr*>&cs,Model&m,uint64_t budget){
  ICP P; for(auto e:cs) P.roots.push_back(P.add(e)); if(P.t.size()>20000) return UNKNOWN; P.views(); P.v.resize(P.t.size()); P.f.assign(P.t.size(),afNone()); int ax=0;
  for(size_t i=0;i<P.t.size();i++){ N&n=P.t[i]; if(n.op==E_CONST){ IV r=top(n.w); if(n.w==64||n.w==32){ double d=n.w==64?asD(n.e->c):asF(n.e->c); if(d!=d) r=fpv(INF,-INF,true,n.w); else r=fpv(d,d,false,n.w); } r.il=r.ih=n.w==1?(int64_t)n.e->c:sx64(n.e->c,n.w); P.v[i]=r; if(r.lo==r.hi) P.f[i]=afIV(r); }
    else if(n.op==E_SYM){ bool f=P.needF[i]&&(n.w==64||n.w==32); P.vars.push_back({n.e,f,(bool)P.needI[i],(int)i,f&&ax<AV?ax++:-1}); } }
  size_t V=P.vars.size(); if(V==0||V>6) return UNKNOWN; bool look=getenv("SX_NOLOOK")==nullptr;
  for(size_t i=0;i<P.t.size();i++) { if(P.t[i].op==E_FLT||P.t[i].op==E_FLE||P.t[i].op==E_FEQ) P.cmps.push_back((int)i); if(P.t[i].op==E_FPTOSI) P.cvts.push_back((int)i); }
  typedef vector<Side> Box; vector<Box> st; { Box b; vector<char> nanOk; 
    for(auto&x:P.vars){ unsigned w=x.sym->w; Side s; s.nan=false; bool no=x.fp; if(x.fp){ s.h=w==64?ord(INF):ordF((float)INF); s.l=-s.h; for(auto e:cs) contract(e,true,x.sym,s,no); } else { s.l=imin(w); s.h=imax(w); } b.push_back(s); nanOk.push_back(no); }
    for(unsigned mask=0;mask<(1u<<V);mask++){ Box c=b; bool ok=true; for(size_t i=0;i<V;i++){ if(mask>>i&1){ if(!nanOk[i]) ok=false; c[i].nan=true; c[i].l=c[i].h=0; } else if(c[i].l>c[i].h) ok=false; } if(ok) st.push_back(c); } }
  bool fpOnly=true; for(auto&x:P.vars) if(!x.fp||x.sym->w!=64) fpOnly=false;
  uint64_t n=0; Model mm=m; for(auto&x:P.vars) if(mm.size()<=x.sym->c) mm.resize(x.sym->c+1,0);
  auto tryPoint=[&](const vector<int64_t>&o,const Box&b,unsigned zs){ // zs: which zeroes are negative
    for(size_t i=0;i<V;i++){ auto&x=P.vars[i]; uint64_t bits; if(!x.fp) bits=(uint64_t)o[i]&maskw(x.sym->w); else if(b[i].nan) bits=x.sym->w==64?0x7ff8000000000000ull:0x7fc00000ull; else if(x.sym->w==64) bits=o[i]==0&&(zs>>i&1)?0x8000000000000000ull:frD(unord(o[i])); else { float f=unordF(o[i]); uint32_t u; memcpy(&u,&f,4); if(o[i]==0&&(zs>>i&1)) u=0x80000000u; bits=u; } mm[x.sym->c]=bits; }
    for(auto e:cs) if(!(evalExpr(e,mm)&1)) return false; m=mm; return true; };
  vector<int64_t> mid(V); const Box start=st.empty()?Box(V):st[0]; vector<uint64_t> x0; for(auto&x:P.vars) x0.push_back(mm[x.sym->c]);
  while(!st.empty()){
    if(getenv("SX_ICPDBG")&&n%200000==199999){ fprintf(stderr,"icp box %lu depth %zu:",(unsigned long)n,st.size()); for(size_t i=0;i<V;i++) fprintf(stderr," [%.17g,%.17g]",unord(st.back()[i].l),unord(st.back()[i].h)); fprintf(stderr,"\n"); P.eval(); for(size_t q=0;q<P.roots.size();q++) fprintf(stderr,"   %s %s\n",P.v[P.roots[q]].il!=P.v[P.roots[q]].ih?"UND":"ok",showExpr(cs[q],12).substr(0,500).c_str()); }
    if(++n>budget||((P.t.size()>1000||(n&255)==0)&&solverNow()>*solverStop)){ SS.boxes+=n; return UNKNOWN; }
    if(n==64&&fpOnly){ // not settled by a few splits: look for a model by evaluating points of the initial box and around the given model
      uint64_t rs=0x9e3779b97f4a7c15ull; auto rnd=[&]{ rs^=rs<<13; rs^=rs>>7; rs^=rs<<17; return rs; };
      for(int k=0;k<192;k++){ vector<int64_t> o(V); for(size_t i=0;i<V;i++){ const Side&s=start[i]; double lo=unord(s.l),hi=unord(s.h); if(lo<-1e300) lo=-1e9; if(hi>1e300) hi=1e9; double u=(double)(rnd()>>11)/9007199254740992.0;
          int64_t at=ord(lo+(hi-lo)*u); if(k%3==1){ double g=asD(x0[i]); if(g==g){ double d=(u*2-1)*std::pow(2.0,-(double)(rnd()%20))*(hi-lo); at=ord(g+d); } } else if(k%3==2&&rnd()%2){ double g=asD(x0[i]); if(g==g) at=ord(g); }
          o[i]=std::min(std::max(at,s.l),s.h); }
        if(tryPoint(o,start,0)){ SS.boxes+=n; return SAT; } } }
    Box b=st.back(); st.pop_back();
    for(size_t i=0;i<V;i++) P.setVar(P.vars[i],b[i]);
    P.eval();
    bool dead=false; for(int r:P.roots) if(P.v[r].ih==0){ dead=true; break; }
    if(dead) continue;
    bool point=true; for(size_t i=0;i<V;i++){ if(b[i].l!=b[i].h) point=false; mid[i]=b[i].l+(int64_t)(((uint64_t)b[i].h-(uint64_t)b[i].l)/2); }
    if(point){ bool sat=false; for(unsigned zs=0;zs<(1u<<V)&&!sat;zs++){ bool rel=true; for(size_t i=0;i<V;i++) if((zs>>i&1)&&(mid[i]!=0||!P.vars[i].fp||b[i].nan)) rel=false; if(rel) sat=tryPoint(mid,b,zs); }
      if(sat){ SS.boxes+=n; return SAT; }
      for(size_t i=0;i<V;i++) if(b[i].nan&&P.vars[i].bits){ SS.boxes+=n; return UNKNOWN; } // other NaN payloads
      continue; }
    if(tryPoint(mid,b,0)){ SS.boxes+=n; return SAT; }
    // split the widest: floating point sides by how many doubles they hold (so by magnitude first), compared with integers by bit length
    size_t bi=0; double bw=-1; for(size_t i=0;i<V;i++){ if(b[i].l==b[i].h) continue; double wd=std::log2((double)((uint64_t)b[i].h-(uint64_t)b[i].l)+1); if(wd>bw){ bw=wd; bi=i; } }
    // several floating point symbols: halve the side (at its arithmetic middle) that leaves the undecided comparisons least uncertain
    bool jump=false; // a conversion to an integer that is still undecided is a jump: separate its sides first
    if(V>1) for(int i:P.cvts){ IV&r=P.v[i]; if(r.il>=r.ih||r.ih-r.il>1000000) continue; int a=P.t[i].k[0]; double c=0; int k=a;
      if((P.t[a].op==E_FADD||P.t[a].op==E_FSUB)&&P.t[P.t[a].k[1]].op==E_CONST){ c=P.v[P.t[a].k[1]].lo; if(P.t[a].op==E_FSUB) c=-c; k=P.t[a].k[0]; }
      for(size_t j=0;j<V&&!jump;j++) if(P.vars[j].node==k&&P.vars[j].fp&&!b[j].nan&&P.vars[j].sym->w==64&&b[j].l<b[j].h){ int64_t q=r.il+1+(r.ih-r.il-1)/2; double at=q>=1?(double)q-c:(double)(q-1)-c; int64_t m=q>=1?ord(at)-1:ord(at);
        jump=true; bi=j; if(m>=b[j].l&&m<b[j].h) mid[j]=m; }
      if(jump) break; }
    if(look&&!jump&&V>1){ double best=INF; size_t pick=V; int64_t pm=0; double before=P.spread();
      for(size_t i=0;i<V;i++){ auto&x=P.vars[i]; if(!x.fp||b[i].nan||x.sym->w!=64||b[i].l==b[i].h) continue; double lo=unord(b[i].l),hi=unord(b[i].h); if(std::isinf(lo)||std::isinf(hi)) continue;
        int64_t m=std::min(std::max(ord(lo/2+hi/2),b[i].l),b[i].h-1); double worst=0;
        for(int h=0;h<2;h++){ Side s=b[i]; if(h) s.l=m+1; else s.h=m; for(size_t j=0;j<V;j++) P.setVar(P.vars[j],j==i?s:b[j]); P.eval(); bool dd=false; for(int r:P.roots) if(P.v[r].ih==0) dd=true; double w=dd?0:P.spread(); worst=std::max(worst,w); }
        if(worst<best){ best=worst; pick=i; pm=m; } }
      if(pick<V&&best<before*0.98){ bi=pick; mid[bi]=pm; } }
    Box c=b; b[bi].h=mid[bi]; c[bi].l=mid[bi]+1; if(n&1){ st.push_back(b); st.push_back(c); } else { st.push_back(c); st.push_back(b); }
  }
  SS.boxes+=n; return UNSAT;
}
// Queries in several symbols which meet in one value t (a quotient, say): t is replaced by a fresh symbol ranging over everything t
// can be. That relaxes the query, so UNSAT carries over; a solution for t is tried out on the original symbols.
static void subst(const Expr*e,const Expr*t,const Expr*q,std::unordered_map<const Expr*,const Expr*>&mp){
  if(mp.count(e)) return; if(e==t){ mp[e]=q; return; } const Expr*k[3]={nullptr,nullptr,nullptr}; bool ch=false;
  for(int i=0;i<3;i++) if(e->k[i]){ subst(e->k[i],t,q,mp); k[i]=mp[e->k[i]]; ch|=k[i]!=e->k[i]; }
  mp[e]=ch?mk(e->op,e->w,k[0],k[1],k[2],e->aux):e; }
static void symsOf(const Expr*e,std::unordered_map<const Expr*,vector<const Expr*>>&mp){
  if(mp.count(e)) return; vector<const Expr*> r; if(e->op==E_SYM) r.push_back(e); for(auto k:e->k) if(k){ symsOf(k,mp); for(auto x:mp[k]) if(std::find(r.begin(),r.end(),x)==r.end()) r.push_back(x); } mp[e]=r; }
// everything t can be on the boxes left after some pruning with cs
static bool hullOf(const vector<const Expr*>&cs,const Expr*t,IV&g){
  ICP P; P.aff=false; for(auto e:cs) P.roots.push_back(P.add(e)); int tn=P.add(t); if(P.t.size()>20000) return false; P.views(); P.needF[tn]=1; P.v.resize(P.t.size()); P.f.assign(P.t.size(),afNone());
  for(size_t i=0;i<P.t.size();i++){ N&n=P.t[i]; if(n.op==E_CONST){ IV r=top(n.w); if(n.w==64||n.w==32){ double d=n.w==64?asD(n.e->c):asF(n.e->c); r=d!=d?fpv(INF,-INF,true,n.w):fpv(d,d,false,n.w); } r.il=r.ih=n.w==1?(int64_t)n.e->c:sx64(n.e->c,n.w); P.v[i]=r; }
    else if(n.op==E_SYM){ bool fp=P.needF[i]&&(n.w==64||n.w==32); P.vars.push_back({n.e,fp,(bool)P.needI[i],(int)i,-1}); } }
  size_t V=P.vars.size(); if(V==0||V>3) return false; typedef vector<Side> Box; std::deque<Box> st; Box b;
  for(auto&x:P.vars){ if(!x.fp||x.bits||x.sym->w!=64) return false; Side s; s.nan=false; s.h=ord(INF); s.l=-s.h; bool no=true; for(auto e:cs) contract(e,true,x.sym,s,no); if(no||s.l>s.h) return false; b.push_back(s); }
  st.push_back(b); g=fpv(INF,-INF,false,64); auto join=[&]{ const IV&r=P.v[tn]; g.lo=std::min(g.lo,r.lo); g.hi=std::max(g.hi,r.hi); g.nan|=r.nan; };
  auto load=[&](const Box&c){ for(size_t i=0;i<V;i++) P.setVar(P.vars[i],c[i]); P.eval(); for(int r:P.roots) if(P.v[r].ih==0) return false; return true; };
  for(int n=0;n<1500&&!st.empty();n++){ b=st.front(); st.pop_front(); if(!load(b)) continue; size_t bi=V; double bw=0; for(size_t i=0;i<V;i++){ double w=(double)((uint64_t)b[i].h-(uint64_t)b[i].l); if(w>bw){ bw=w; bi=i; } }
    if(bi==V){ join(); continue; } Box c=b; int64_t m=b[bi].l+(int64_t)(((uint64_t)b[bi].h-(uint64_t)b[bi].l)/2); b[bi].h=m; c[bi].l=m+1; st.push_back(b); st.push_back(c); }
  for(auto&c:st) if(load(c)) join();
  return true; }
SatRes icpSolve(const vector<const Expr*>&cs,Model&m,uint64_t budget){
  std::unordered_map<const Expr*,vector<const Expr*>> sy; for(auto e:cs) symsOf(e,sy);
  vector<const Expr*> all; for(auto e:cs) for(auto x:sy[e]) if(std::find(all.begin(),all.end(),x)==all.end()) all.push_back(x);
  if(all.size()<2) return icpBox(cs,m,budget);
  SatRes r=icpBox(cs,m,std::min<uint64_t>(budget,3000)); if(r!=UNKNOWN||budget<=3000) return r;
  vector<const Expr*> meet; for(auto&p:sy){ const Expr*e=p.first; if(p.second.size()<2) continue; bool low=true; for(auto k:e->k) if(k&&sy[k].size()>1) low=false; if(low) meet.push_back(e); }
  meet.erase(std::remove_if(meet.begin(),meet.end(),[](const Expr*e){ return e->w!=64||e->op<E_FADD||e->op>E_FDIV; }),meet.end());
  std::sort(meet.begin(),meet.end(),[](const Expr*a,const Expr*b){ return a->id<b->id; }); if(meet.size()>4) meet.resize(4);
  for(const Expr*t:meet){
    IV g; if(!hullOf(cs,t,g)) continue;
    const Expr*q=mkSym(m.size()+1,64); vector<const Expr*> c2;
    std::unordered_map<const Expr*,const Expr*> mp;
    for(auto&p:sy){ const Expr*e=p.first; if(e==t||e->op!=E_FDIV||e->w!=64||p.second.size()!=1) continue; const Expr*a=e->k[0],*b=e->k[1]; auto neg=[](const Expr*x,const Expr*y){ return (x->op==E_FNEG&&x->k[0]==y)||(x->op==E_FSUB&&x->k[1]==y&&isC(x->k[0])&&x->k[0]->c==0); };
      bool same=a==b, opp=!same&&(neg(a,b)||neg(b,a)); if(!same&&!opp) continue; const Expr*x=p.second[0]; if(a!=x&&b!=x&&!(same&&neg(a,x))) continue; // x/x and x/-x of a finite number that is not 0
      Side s; s.nan=false; s.h=ord(INF); s.l=-s.h; bool no=true; for(auto c:cs) contract(c,true,x,s,no); if(no||s.l>s.h||s.l==-ord(INF)||s.h==ord(INF)||(s.l<=0&&s.h>=0)) continue; mp[e]=mkConst(64,frD(same?1.0:-1.0)); }
    for(auto e:cs){ subst(e,t,q,mp); const Expr*x=mp[e]; std::unordered_map<const Expr*,vector<const Expr*>> s2; symsOf(x,s2); if(s2[x].size()==1&&s2[x][0]==q) c2.push_back(x); else if(isC(x)&&!x->c) return UNSAT; }
    if(g.lo<=g.hi&&!c2.empty()){ const Expr*in=mk(E_AND,1,mk(E_FLE,1,mkConst(64,frD(g.lo)),q),mk(E_FLE,1,q,mkConst(64,frD(g.hi)))); if(g.nan) in=mk(E_OR,1,in,mk(E_FUNO,1,q,q)); c2.push_back(in);
      Model m2=m; r=icpBox(c2,m2,meet.size()==1?budget:budget/16); if(r==UNSAT) return UNSAT;
      if(r==SAT&&t->op==E_FDIV&&t->k[0]->op==E_SYM&&t->k[1]->op==E_SYM){ double qv=asD(m2[q->c]); for(double b:{1.,-1.,2.,-2.,0.5,-0.5,3.,-3.,1e-3,-1e-3,1e3,-1e3}){ Model m3=m; size_t sz=std::max(t->k[0]->c,t->k[1]->c)+1; if(m3.size()<sz) m3.resize(sz,0); m3[t->k[1]->c]=frD(b); m3[t->k[0]->c]=frD(qv*b); bool good=true; for(auto e:cs) if(!(evalExpr(e,m3)&1)){ good=false; break; } if(good){ m=m3; return SAT; } } } }
  }
  return icpBox(cs,m,budget);
}
