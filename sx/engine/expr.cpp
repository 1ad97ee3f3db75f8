#include "expr.hpp"
#include <cmath>
#include <deque>
#include <unordered_map>
static std::deque<Expr> arena;
static std::vector<const Expr*> table; static size_t used=0;
static uint64_t hmix(uint64_t h,uint64_t v){ h^=v+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; h^=h>>32; return h; }
static uint64_t hashE(const Expr&e){ uint64_t h=e.op; h=hmix(h,e.w); h=hmix(h,e.aux); h=hmix(h,e.c); for(auto k:e.k) h=hmix(h,k?k->id+1:0); return h; }
static bool sameE(const Expr&a,const Expr&b){ return a.op==b.op&&a.w==b.w&&a.aux==b.aux&&a.c==b.c&&a.k[0]==b.k[0]&&a.k[1]==b.k[1]&&a.k[2]==b.k[2]; }
size_t exprCount(){ return arena.size(); }
static const Expr* intern(Expr e){
  if(table.empty()) table.resize(1<<16);
  if(used*2>table.size()){ std::vector<const Expr*> nt(table.size()*2); for(auto p:table) if(p){ size_t i=hashE(*p)&(nt.size()-1); while(nt[i]) i=(i+1)&(nt.size()-1); nt[i]=p; } table.swap(nt); }
  size_t i=hashE(e)&(table.size()-1);
  while(table[i]){ if(sameE(*table[i],e)) return table[i]; i=(i+1)&(table.size()-1); }
  e.id=arena.size(); e.sup={0,0,0,0}; e.fp=(e.op>=E_FADD); e.math=e.op==E_MATH;
  if(e.op==E_SYM) e.sup[(e.c/64)%4]|=1ull<<(e.c%64);
  for(auto k:e.k) if(k){ for(int j=0;j<4;j++) e.sup[j]|=k->sup[j]; e.fp|=k->fp; e.math|=k->math; }
  arena.push_back(e); table[i]=&arena.back(); used++; return table[i];
}
const Expr* mkConst(unsigned w,uint64_t c){ Expr e{}; e.op=E_CONST; e.w=w; e.c=c&maskw(w); return intern(e); }
const Expr* mkSym(uint64_t seq,unsigned w){ Expr e{}; e.op=E_SYM; e.w=w; e.c=seq; return intern(e); }
static double asD(uint64_t v){ double d; memcpy(&d,&v,8); return d; }
static float asF(uint64_t v){ uint32_t x=(uint32_t)v; float f; memcpy(&f,&x,4); return f; }
static uint64_t frD(double d){ uint64_t v; memcpy(&v,&d,8); return v; }
static uint64_t frF(float d){ uint32_t v; memcpy(&v,&d,4); return v; }
uint64_t evalOp(uint8_t op,unsigned w,unsigned aux,uint64_t a,unsigned wa,uint64_t b,uint64_t c,bool&ok,unsigned wb){
  ok=true; uint64_t m=maskw(w);
  switch(op){
  case E_ADD: return (a+b)&m; case E_SUB: return (a-b)&m; case E_MUL: return (a*b)&m;
  case E_UDIV: if(!b){ok=false;return m;} return (a/b)&m;
  case E_UREM: if(!b){ok=false;return a;} return (a%b)&m;
  case E_SDIV: { int64_t x=sx64(a,w),y=sx64(b,w); if(!y){ok=false;return x<0?1:m;} if(y==-1){ if(x==sx64(1ull<<(w-1),w)) ok=false; return (0-(uint64_t)x)&m; } return (uint64_t)(x/y)&m; }
  case E_SREM: { int64_t x=sx64(a,w),y=sx64(b,w); if(!y){ok=false;return a;} if(y==-1){ return 0; } return (uint64_t)(x%y)&m; }
  case E_AND: return a&b; case E_OR: return a|b; case E_XOR: return a^b;
  case E_SHL: return b>=w?0:(a<<b)&m; case E_LSHR: return b>=w?0:(a>>b);
  case E_ASHR: { int64_t x=sx64(a,w); return (uint64_t)(x>>(b>=w?w-1:b))&m; }
  case E_EQ: return a==b; case E_ULT: return a<b; case E_ULE: return a<=b;
  case E_SLT: return sx64(a,wa)<sx64(b,wa); case E_SLE: return sx64(a,wa)<=sx64(b,wa);
  case E_ITE: return a?b:c;
  case E_ZEXT: return a; case E_SEXT: return (uint64_t)sx64(a,wa)&m;
  case E_EXTRACT: return (a>>aux)&m;
  case E_CONCAT: return ((a<<(w-wa))|b)&m;
  case E_FADD: return w==64?frD(asD(a)+asD(b)):frF(asF(a)+asF(b));
  case E_FSUB: return w==64?frD(asD(a)-asD(b)):frF(asF(a)-asF(b));
  case E_FMUL: return w==64?frD(asD(a)*asD(b)):frF(asF(a)*asF(b));
  case E_FDIV: return w==64?frD(asD(a)/asD(b)):frF(asF(a)/asF(b));
  case E_FREM: return w==64?frD(std::fmod(asD(a),asD(b))):frF(std::fmod(asF(a),asF(b)));
  case E_FNEG: return a^(1ull<<(w-1));
  case E_FABS: return a&~(1ull<<(w-1))&m;
  case E_FSQRT: return w==64?frD(std::sqrt(asD(a))):frF(std::sqrt(asF(a)));
  case E_FRND: { double d=w==64?asD(a):asF(a); d=aux==0?std::floor(d):aux==1?std::ceil(d):aux==2?std::trunc(d):aux==3?std::nearbyint(d):std::round(d); return w==64?frD(d):frF((float)d); }
  case E_FEQ: return wa==64?asD(a)==asD(b):asF(a)==asF(b);
  case E_FLT: return wa==64?asD(a)<asD(b):asF(a)<asF(b);
  case E_FLE: return wa==64?asD(a)<=asD(b):asF(a)<=asF(b);
  case E_FUNO: return wa==64?(std::isnan(asD(a))||std::isnan(asD(b))):(std::isnan(asF(a))||std::isnan(asF(b)));
  case E_F2F: if(wa==w) return a; return w==64?frD((double)asF(a)):frF((float)asD(a));
  case E_SITOFP: { int64_t x=sx64(a,wa); return w==64?frD((double)x):frF((float)x); }
  case E_UITOFP: return w==64?frD((double)a):frF((float)a);
  case E_MATH: return frD(mathFn(aux,asD(a)));
  case E_FPTOSI: { double d=wa==64?asD(a):asF(a); d=std::trunc(d); double lim=std::ldexp(1.0,w-1); if(!(d>=-lim&&d<lim)){ok=false;return 0;} return (uint64_t)(int64_t)d&m; }
  case E_FPTOUI: { double d=wa==64?asD(a):asF(a); d=std::trunc(d); double lim=std::ldexp(1.0,w); if(!(d>-1&&d<lim)){ok=false;return 0;} return (uint64_t)d&m; }
  }
  ok=false; return 0;
}
static bool commut(uint8_t op){ return op==E_ADD||op==E_MUL||op==E_AND||op==E_OR||op==E_XOR||op==E_EQ||op==E_FADD||op==E_FMUL||op==E_FEQ||op==E_FUNO; }
const Expr* mkNot(const Expr*a){ return mk(E_XOR,1,a,mkConst(1,1)); }
static bool isNot(const Expr*a){ return a->op==E_XOR&&a->w==1&&isC(a->k[1])&&a->k[1]->c==1; }
const Expr* mk(uint8_t op,unsigned w,const Expr*a,const Expr*b,const Expr*c,unsigned aux){
  bool allc=isC(a)&&(!b||isC(b))&&(!c||isC(c));
  if(allc){ bool ok; uint64_t r=evalOp(op,w,aux,a->c,a->w,b?b->c:0,c?c->c:0,ok,b?b->w:0); if(ok||op==E_UDIV||op==E_SDIV||op==E_UREM||op==E_SREM) return mkConst(w,r); }
  if(b&&commut(op)){ // constants to the right, otherwise order by id
    if(isC(a)||(!isC(b)&&a->id>b->id)) std::swap(a,b); }
  bool bc=b&&isC(b); uint64_t bv=bc?b->c:0; uint64_t m=maskw(w);
  if((op==E_AND||op==E_OR||op==E_XOR)&&w>1&&!bc){
    if(a->op==b->op&&(a->op==E_ZEXT||a->op==E_SEXT)&&a->k[0]->w==b->k[0]->w) return mk(a->op,w,mk(op,a->k[0]->w,a->k[0],b->k[0]));
    if(op==E_AND&&a->op==E_SEXT&&a->k[0]->w==1) return mk(E_ITE,w,a->k[0],b,mkConst(w,0));
    if(op==E_AND&&b->op==E_SEXT&&b->k[0]->w==1) return mk(E_ITE,w,b->k[0],a,mkConst(w,0));
    if(op==E_OR&&a->op==E_ITE&&b->op==E_ITE){
      auto z=[](const Expr*x){ return isC(x)&&x->c==0; };
      const Expr*na=mkNot(a->k[0]);
      if(a->k[0]==b->k[0]){ if(z(a->k[2])&&z(b->k[1])) return mk(E_ITE,w,a->k[0],a->k[1],b->k[2]); if(z(a->k[1])&&z(b->k[2])) return mk(E_ITE,w,a->k[0],b->k[1],a->k[2]); }
      else if(na==b->k[0]){ if(z(a->k[2])&&z(b->k[2])) return mk(E_ITE,w,a->k[0],a->k[1],b->k[1]); }
    }
  }
  switch(op){
  case E_ADD:
    if(bc&&bv==0) return a;
    if(bc&&a->op==E_ADD&&isC(a->k[1])) return mk(E_ADD,w,a->k[0],mkConst(w,a->k[1]->c+bv));
    if(!bc){ // float constants outwards
      if(a->op==E_ADD&&isC(a->k[1])) return mk(E_ADD,w,mk(E_ADD,w,a->k[0],b),a->k[1]);
      if(b->op==E_ADD&&isC(b->k[1])) return mk(E_ADD,w,mk(E_ADD,w,a,b->k[0]),b->k[1]);
      // (x - y) + y
      if(a->op==E_SUB&&a->k[1]==b) return a->k[0];
      if(b->op==E_SUB&&b->k[1]==a) return b->k[0];
    }
    break;
  case E_SUB:
    if(a==b) return mkConst(w,0);
    if(isC(a)&&a->c==0&&b->op==E_ZEXT&&b->k[0]->w==1&&w>1) return mk(E_SEXT,w,b->k[0]);
    if(bc) return mk(E_ADD,w,a,mkConst(w,0-bv));
    if(a->op==E_ADD&&isC(a->k[1])) return mk(E_ADD,w,mk(E_SUB,w,a->k[0],b),a->k[1]);
    if(b->op==E_ADD&&isC(b->k[1])) return mk(E_ADD,w,mk(E_SUB,w,a,b->k[0]),mkConst(w,0-b->k[1]->c));
    if(a->op==E_ADD&&a->k[0]==b) return a->k[1];
    if(a->op==E_ADD&&a->k[1]==b) return a->k[0];
    break;
  case E_MUL:
    if(bc&&bv==0) return b; if(bc&&bv==1) return a;
    if(bc&&a->op==E_MUL&&isC(a->k[1])) return mk(E_MUL,w,a->k[0],mkConst(w,a->k[1]->c*bv));
    if(bc&&a->op==E_ADD&&isC(a->k[1])) return mk(E_ADD,w,mk(E_MUL,w,a->k[0],b),mkConst(w,a->k[1]->c*bv));
    break;
  case E_UDIV: if(bc&&bv==1) return a; break;
  case E_SDIV: if(bc&&bv==1) return a;
    break;
  case E_UREM: if(bc&&bv==1) return mkConst(w,0); break;
  case E_AND:
    if(a==b) return a; if(bc&&bv==0) return b; if(bc&&bv==m) return a;
    if(bc&&a->op==E_AND&&isC(a->k[1])) return mk(E_AND,w,a->k[0],mkConst(w,a->k[1]->c&bv));
    if(bc&&a->op==E_ZEXT&&(bv&maskw(a->k[0]->w))==maskw(a->k[0]->w)) return a;
    if(w==1&&((isNot(a)&&a->k[0]==b)||(isNot(b)&&b->k[0]==a))) return mkConst(1,0);
    break;
  case E_OR:
    if(a==b) return a; if(bc&&bv==0) return a; if(bc&&bv==m) return b;
    if(w==1&&((isNot(a)&&a->k[0]==b)||(isNot(b)&&b->k[0]==a))) return mkConst(1,1);
    break;
  case E_XOR:
    if(a==b) return mkConst(w,0); if(bc&&bv==0) return a;
    if(bc&&bv==m&&w>1&&a->op==E_SEXT&&a->k[0]->w==1) return mk(E_SEXT,w,mkNot(a->k[0]));
    if(bc&&a->op==E_XOR&&isC(a->k[1])) return mk(E_XOR,w,a->k[0],mkConst(w,a->k[1]->c^bv));
    if(w==1&&bc){ // push negation into integer comparisons
      if(a->op==E_ULT) return mk(E_ULE,1,a->k[1],a->k[0]);
      if(a->op==E_ULE) return mk(E_ULT,1,a->k[1],a->k[0]);
      if(a->op==E_SLT) return mk(E_SLE,1,a->k[1],a->k[0]);
      if(a->op==E_SLE) return mk(E_SLT,1,a->k[1],a->k[0]);
    }
    break;
  case E_SHL: case E_LSHR: case E_ASHR:
    if(bc&&bv==0) return a;
    if(bc&&bv>=w&&op!=E_ASHR) return mkConst(w,0);
    if(op==E_LSHR&&bc) return mk(E_ZEXT,w,mk(E_EXTRACT,w-bv,a,nullptr,nullptr,bv));
    if(op==E_SHL&&bc) return mk(E_CONCAT,w,mk(E_EXTRACT,w-bv,a,nullptr,nullptr,0),mkConst(bv,0));
    break;
  case E_EQ:
    if(a==b) return mkConst(1,1);
    if(a->w==1&&bc) return bv?a:mkNot(a);
    if(bc){
      if(a->op==E_ADD&&isC(a->k[1])) return mk(E_EQ,1,a->k[0],mkConst(a->w,bv-a->k[1]->c));
      if(a->op==E_ZEXT){ if(bv>maskw(a->k[0]->w)) return mkConst(1,0); return mk(E_EQ,1,a->k[0],mkConst(a->k[0]->w,bv)); }
      if(a->op==E_SEXT){ unsigned iw=a->k[0]->w; if(((uint64_t)sx64(bv&maskw(iw),iw)&maskw(a->w))!=bv) return mkConst(1,0); return mk(E_EQ,1,a->k[0],mkConst(iw,bv)); }
      if(a->op==E_SUB&&bv==0) return mk(E_EQ,1,a->k[0],a->k[1]);
      if(a->op==E_XOR&&isC(a->k[1])) return mk(E_EQ,1,a->k[0],mkConst(a->w,bv^a->k[1]->c));
      if(a->op==E_ITE&&isC(a->k[1])&&isC(a->k[2])){ bool t=a->k[1]->c==bv,f=a->k[2]->c==bv; if(t&&f) return mkConst(1,1); if(!t&&!f) return mkConst(1,0); return t?a->k[0]:mkNot(a->k[0]); }
      if(a->op==E_CONCAT){ unsigned lw=a->k[1]->w; return mk(E_AND,1,mk(E_EQ,1,a->k[0],mkConst(a->k[0]->w,bv>>lw)),mk(E_EQ,1,a->k[1],mkConst(lw,bv))); }
    } else {
      if(a->op==E_ZEXT&&b->op==E_ZEXT&&a->k[0]->w==b->k[0]->w) return mk(E_EQ,1,a->k[0],b->k[0]);
      if(a->op==E_SEXT&&b->op==E_SEXT&&a->k[0]->w==b->k[0]->w) return mk(E_EQ,1,a->k[0],b->k[0]);
      if(a->op==E_ADD&&isC(a->k[1])){
        if(b->op==E_ADD&&isC(b->k[1])) return mk(E_EQ,1,mk(E_ADD,a->w,a->k[0],mkConst(a->w,a->k[1]->c-b->k[1]->c)),b->k[0]);
        if(a->k[0]==b) return mkConst(1,a->k[1]->c==0);
      }
      if(b->op==E_ADD&&isC(b->k[1])&&b->k[0]==a) return mkConst(1,b->k[1]->c==0);
    }
    break;
  case E_ULT:
    if(a==b) return mkConst(1,0);
    if(bc&&bv==0) return mkConst(1,0); if(bc&&bv==1) return mk(E_EQ,1,a,mkConst(a->w,0));
    if(isC(a)&&a->c==maskw(a->w)) return mkConst(1,0);
    if(a->op==E_ZEXT&&bc){ if(bv>maskw(a->k[0]->w)) return mkConst(1,1); return mk(E_ULT,1,a->k[0],mkConst(a->k[0]->w,bv)); }
    if(isC(a)&&b->op==E_ZEXT){ if(a->c>=maskw(b->k[0]->w)) return mkConst(1,0); return mk(E_ULT,1,mkConst(b->k[0]->w,a->c),b->k[0]); }
    if(b->op==E_ZEXT&&a->op==E_ZEXT&&a->k[0]->w==b->k[0]->w) return mk(E_ULT,1,a->k[0],b->k[0]);
    break;
  case E_ULE:
    if(a==b) return mkConst(1,1);
    if(isC(a)&&a->c==0) return mkConst(1,1); if(bc&&bv==maskw(a->w)) return mkConst(1,1);
    if(bc&&bv==0) return mk(E_EQ,1,a,b);
    if(a->op==E_ZEXT&&bc){ if(bv>=maskw(a->k[0]->w)) return mkConst(1,1); return mk(E_ULE,1,a->k[0],mkConst(a->k[0]->w,bv)); }
    if(isC(a)&&b->op==E_ZEXT){ if(a->c>maskw(b->k[0]->w)) return mkConst(1,0); return mk(E_ULE,1,mkConst(b->k[0]->w,a->c),b->k[0]); }
    if(b->op==E_ZEXT&&a->op==E_ZEXT&&a->k[0]->w==b->k[0]->w) return mk(E_ULE,1,a->k[0],b->k[0]);
    break;
  case E_SLT: case E_SLE:
    if(a==b) return mkConst(1,op==E_SLE);
    if(a->op==E_SEXT&&b->op==E_SEXT&&a->k[0]->w==b->k[0]->w) return mk(op,1,a->k[0],b->k[0]);
    if(a->op==E_ZEXT&&b->op==E_ZEXT&&a->k[0]->w==b->k[0]->w) return mk(op==E_SLT?E_ULT:E_ULE,1,a->k[0],b->k[0]);
    if(a->op==E_ZEXT&&bc){ if(sx64(bv,a->w)<0) return mkConst(1,0); return mk(op==E_SLT?E_ULT:E_ULE,1,a,b); }
    if(isC(a)&&b->op==E_ZEXT){ if(sx64(a->c,a->w)<0) return mkConst(1,1); return mk(op==E_SLT?E_ULT:E_ULE,1,a,b); }
    if(a->op==E_SEXT&&bc){ unsigned iw=a->k[0]->w; int64_t v=sx64(bv,a->w),lo=-(1ll<<(iw-1)),hi=(1ll<<(iw-1))-1; if(v>hi) return mkConst(1,1); if(v<lo) return mkConst(1,0); return mk(op,1,a->k[0],mkConst(iw,v)); }
    if(isC(a)&&b->op==E_SEXT){ unsigned iw=b->k[0]->w; int64_t v=sx64(a->c,b->w),lo=-(1ll<<(iw-1)),hi=(1ll<<(iw-1))-1; if(v>hi) return mkConst(1,0); if(v<lo) return mkConst(1,1); return mk(op,1,mkConst(iw,v),b->k[0]); }
    break;
  case E_ITE:
    if(isC(a)) return a->c?b:c; if(b==c) return b;
    if(isNot(a)) return mk(E_ITE,w,a->k[0],c,b);
    if(w==1){ if(isC(b)&&isC(c)) return b->c?a:mkNot(a);
      if(isC(b)) return b->c?mk(E_OR,1,a,c):mk(E_AND,1,mkNot(a),c);
      if(isC(c)) return c->c?mk(E_OR,1,mkNot(a),b):mk(E_AND,1,a,b); }
    break;
  case E_ZEXT: if(a->w==w) return a; if(a->op==E_ZEXT) return mk(E_ZEXT,w,a->k[0]); break;
  case E_SEXT: if(a->w==w) return a; if(a->op==E_SEXT) return mk(E_SEXT,w,a->k[0]); if(a->op==E_ZEXT) return mk(E_ZEXT,w,a->k[0]); break;
  case E_EXTRACT:
    if(aux==0&&w==a->w) return a;
    if(a->op==E_EXTRACT) return mk(E_EXTRACT,w,a->k[0],nullptr,nullptr,aux+a->aux);
    if(a->op==E_ZEXT||a->op==E_SEXT){ unsigned iw=a->k[0]->w; if(aux+w<=iw) return mk(E_EXTRACT,w,a->k[0],nullptr,nullptr,aux);
      if(a->op==E_ZEXT){ if(aux>=iw) return mkConst(w,0); return mk(E_ZEXT,w,mk(E_EXTRACT,iw-aux,a->k[0],nullptr,nullptr,aux)); }
      if(aux==0) return mk(E_SEXT,w,a->k[0]); }
    if(a->op==E_CONCAT){ unsigned lw=a->k[1]->w; if(aux+w<=lw) return mk(E_EXTRACT,w,a->k[1],nullptr,nullptr,aux); if(aux>=lw) return mk(E_EXTRACT,w,a->k[0],nullptr,nullptr,aux-lw); }
    if(a->op==E_AND||a->op==E_OR||a->op==E_XOR) if(isC(a->k[1])) return mk(a->op,w,mk(E_EXTRACT,w,a->k[0],nullptr,nullptr,aux),mkConst(w,a->k[1]->c>>aux));
    if(a->op==E_ITE&&(isC(a->k[1])||isC(a->k[2]))) return mk(E_ITE,w,a->k[0],mk(E_EXTRACT,w,a->k[1],nullptr,nullptr,aux),mk(E_EXTRACT,w,a->k[2],nullptr,nullptr,aux));
    break;
  case E_CONCAT:
    if(isC(a)&&a->c==0) return mk(E_ZEXT,w,b);
    if(a->op==E_EXTRACT&&b->op==E_EXTRACT&&a->k[0]==b->k[0]&&a->aux==b->aux+b->w) return mk(E_EXTRACT,w,a->k[0],nullptr,nullptr,b->aux);
    if(a->op==E_EXTRACT&&b==a->k[0]&&0) return nullptr;
    // concat(extract(x,hi), x-low-part) where b is itself an extract folded away
    if(a->op==E_EXTRACT&&b->op==E_CONCAT&&b->k[0]->op==E_EXTRACT&&b->k[0]->k[0]==a->k[0]&&a->aux==b->k[0]->aux+b->k[0]->w)
      return mk(E_CONCAT,w,mk(E_CONCAT,a->w+b->k[0]->w,a,b->k[0]),b->k[1]);
    if(a->op==E_CONCAT&&a->k[1]->op==E_EXTRACT&&b->op==E_EXTRACT&&a->k[1]->k[0]==b->k[0]&&a->k[1]->aux==b->aux+b->w)
      return mk(E_CONCAT,w,a->k[0],mk(E_CONCAT,a->k[1]->w+b->w,a->k[1],b));
    if(isC(b)&&a->op==E_CONCAT&&isC(a->k[1])) return mk(E_CONCAT,w,a->k[0],mkConst(a->k[1]->w+b->w,(a->k[1]->c<<b->w)|b->c));
    break;
  case E_FMUL: // exact: multiplication by one, and signs (NaN payloads are not modelled, as in LLVM)
    if(bc&&bv==(w==64?0x3ff0000000000000ull:0x3f800000ull)) return a;
    if(a->op==E_FNEG&&b->op==E_FNEG) return mk(E_FMUL,w,a->k[0],b->k[0]);
    if(a->op==E_FNEG) return mk(E_FNEG,w,mk(E_FMUL,w,a->k[0],b)); if(b->op==E_FNEG) return mk(E_FNEG,w,mk(E_FMUL,w,a,b->k[0]));
    break;
  case E_FDIV:
    if(bc&&bv==(w==64?0x3ff0000000000000ull:0x3f800000ull)) return a;
    if(a->op==E_FNEG&&b->op==E_FNEG) return mk(E_FDIV,w,a->k[0],b->k[0]);
    if(a->op==E_FNEG) return mk(E_FNEG,w,mk(E_FDIV,w,a->k[0],b)); if(b->op==E_FNEG) return mk(E_FNEG,w,mk(E_FDIV,w,a,b->k[0]));
    break;
  case E_FNEG: if(a->op==E_FNEG) return a->k[0]; break;
  case E_FABS: if(a->op==E_FABS) return a; if(a->op==E_FNEG) return mk(E_FABS,w,a->k[0]); break;
  case E_F2F: if(a->w==w) return a; break;
  default: break;
  }
  Expr e{}; e.op=op; e.w=w; e.aux=aux; e.k[0]=a; e.k[1]=b; e.k[2]=c; return intern(e);
}
static std::vector<uint64_t> memoV; static std::vector<uint32_t> memoG; static uint32_t gen=0;
static uint64_t ev(const Expr*e,const Model&m){
  if(e->op==E_CONST) return e->c;
  if(e->op==E_SYM) return (e->c<m.size()?m[e->c]:0)&maskw(e->w);
  if(memoG[e->id]==gen) return memoV[e->id];
  uint64_t r; bool ok;
  if(e->op==E_ITE) r=ev(e->k[0],m)?ev(e->k[1],m):ev(e->k[2],m);
  else { uint64_t a=ev(e->k[0],m),b=e->k[1]?ev(e->k[1],m):0; r=evalOp(e->op,e->w,e->aux,a,e->k[0]->w,b,0,ok); }
  memoG[e->id]=gen; memoV[e->id]=r; return r;
}
uint64_t evalExpr(const Expr*e,const Model&m){
  if(memoG.size()<arena.size()){ memoG.resize(arena.size()*2,0); memoV.resize(arena.size()*2); }
  if(++gen==0){ std::fill(memoG.begin(),memoG.end(),0); gen=1; }
  return ev(e,m);
}
static const char* opn[]={"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","zext","sext","extract","concat","fadd","fsub","fmul","fdiv","frem","fneg","fabs","fsqrt","frnd","feq","flt","fle","funo","f2f","sitofp","uitofp","fptosi","fptoui","math"};
std::string showExpr(const Expr*e,int d){
  if(e->op==E_CONST) return std::to_string(sx64(e->c,e->w));
  if(e->op==E_SYM) return "x"+std::to_string(e->c)+":"+std::to_string(e->w);
  if(d<=0) return "...";
  std::string s="("+std::string(opn[e->op])+(e->op==E_EXTRACT?std::to_string(e->aux):"")+":"+std::to_string(e->w);
  for(auto k:e->k) if(k) s+=" "+showExpr(k,d-1);
  return s+")";
}
