// sx: bounded symbolic executor for LLVM IR produced by clang from C++ sources.
#include "ir.hpp"
#include "solver.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
using namespace std;

// ---------------------------------------------------------------- options / statistics
static string optEntry, optOut, optTmp="/tmp"; static int optWorkers=8; static double optTime=60; static uint64_t optMaxSteps=3000000, optMaxDepth=1500; static bool optOvf=false; static unsigned optSamples=4; static uint64_t optSeed=1; static bool optVerbose=false; static size_t optFrontier=1500; static int optStopAfter=6;
static chrono::steady_clock::time_point T0;
static double now(){ return chrono::duration<double>(chrono::steady_clock::now()-T0).count(); }
struct Stats { uint64_t paths=0, assumed=0, errors=0, inconclusive=0, forks=0, insts=0, assertsFolded=0, assertsSolved=0, assertsUnknown=0, unexplored=0, steps=0, uncertain=0, maxDepth=0, maxHeap=0; };
static Stats ST; static map<string,uint64_t> incReasons, covers; 
static double deadline; static bool outOfTime=false;

// ---------------------------------------------------------------- memory
enum Kind : uint8_t { K_STACK, K_NEW, K_NEWARR, K_MALLOC, K_GLOBAL, K_EXC, K_DEADSTACK, K_DEADHEAP };
struct SB { const Expr*e; uint8_t idx; };
struct Obj { uint32_t ref=1; Kind kind; bool ro=false, anySym=false; uint64_t size=0; uint8_t*d=nullptr; uint8_t*st=nullptr; vector<SB>*sy=nullptr; uint32_t site=0;
  Obj(Kind k,uint64_t n):kind(k),size(n){ d=(uint8_t*)malloc(n*2+1); st=d+n; memset(st,0,n); }
  Obj(const Obj&o):kind(o.kind),ro(o.ro),anySym(o.anySym),size(o.size),site(o.site){ d=(uint8_t*)malloc(size*2+1); st=d+size; memcpy(d,o.d,size*2); sy=o.sy?new vector<SB>(*o.sy):nullptr; }
  ~Obj(){ free(d); delete sy; }
};
static Obj*DEADSTACK,*DEADHEAP;
static inline void rel(Obj*o){ if(o&&--o->ref==0) delete o; }
struct Chunk { uint32_t ref=1; Obj*s[256]; Chunk(){ memset(s,0,sizeof s);} Chunk(const Chunk&c){ for(int i=0;i<256;i++){ s[i]=c.s[i]; if(s[i]) s[i]->ref++; } } ~Chunk(){ for(auto o:s) rel(o);} };
struct Mem {
  vector<Chunk*> ch; uint64_t next=1;
  Mem(){} Mem(const Mem&m):ch(m.ch),next(m.next){ for(auto c:ch) c->ref++; } ~Mem(){ for(auto c:ch) if(--c->ref==0) delete c; }
  Mem&operator=(const Mem&)=delete;
  Obj* get(uint64_t id)const{ size_t k=id>>8; return k<ch.size()?ch[k]->s[id&255]:nullptr; }
  Obj*& slot(uint64_t id){ size_t k=id>>8; while(ch.size()<=k) ch.push_back(new Chunk); if(ch[k]->ref>1){ Chunk*n=new Chunk(*ch[k]); ch[k]->ref--; ch[k]=n; } return ch[k]->s[id&255]; }
  uint64_t add(Obj*o){ uint64_t id=next++; slot(id)=o; return id; }
  Obj* wr(uint64_t id){ Obj*o=get(id); if(o->ref>1||ch[id>>8]->ref>1){ Obj*&s=slot(id); if(s->ref>1){ Obj*n=new Obj(*s); s->ref--; s=n; } return s; } return o; }
};
static inline uint64_t addrOf(uint64_t id){ return (id<<32)|0x10000; }

// ---------------------------------------------------------------- state
struct Frame { Fn*fn; int pc=0; vector<Val> r; vector<uint64_t> allocas; vector<Val> va; };
struct Exc { uint64_t addr; string ti; uint64_t dtor; int handlers=0; bool rethrown=false; uint64_t adjusted; };
struct Sym { const char*name; uint8_t w; };
struct OutTok { char kind; Val v; };
struct State {
  Mem mem; vector<Frame> fr; vector<const Expr*> pc; vector<pair<const Expr*,uint64_t>> known; Model model; vector<Sym> syms; uint64_t steps=0; int64_t heapLive=0; bool uncertain=false; vector<Val> obs; vector<Exc> excs; vector<uint64_t> caught; vector<const char*> labels; vector<OutTok> out[4], exp[4]; uint32_t depthForks=0; bool knownFlag=false; const char*knownId=nullptr;
  vector<pair<uint64_t,uint64_t>> atexits;
};
static deque<State*> work, later; static State* cur;
struct PathEnd {};
struct Viol { string kind,msg,loc,stack,known; vector<Sym> syms; Model m; };
static vector<Viol> viols; static map<string,int> violCount;
struct Sample { vector<Sym> syms; Model m; vector<uint64_t> obs; };
static vector<Sample> samples; static uint64_t rngs; static uint64_t rnd(){ rngs^=rngs<<13; rngs^=rngs>>7; rngs^=rngs<<17; return rngs; }

static string locOf(const Frame&f){ const Inst&i=f.fn->code[f.pc]; int fi=i.line>>20, ln=i.line&0xfffff; string file=fi<(int)f.fn->files.size()?f.fn->files[fi]:f.fn->srcFile; size_t p=file.rfind('/'); return (p==string::npos?file:file.substr(p+1))+":"+to_string(ln); }
static string stackOf(State&s){ string r; int n=0; for(int i=s.fr.size()-1;i>=0&&n<12;i--,n++){ if(n) r+=" < "; string d=demangle(s.fr[i].fn->name); if(d.size()>120) d=d.substr(0,117)+"..."; r+=d+"@"+locOf(s.fr[i]); } return r; }
// innermost location inside the library if there is one
static string libLoc(State&s){ for(int i=s.fr.size()-1;i>=0;i--) if(s.fr[i].fn->fromCest) return locOf(s.fr[i]); return locOf(s.fr.back()); }
static void report(State&s,const string&kind,const string&msg,const Model&m){
  string loc=libLoc(s); string key=kind+"|"+msg+"|"+loc; 
  if(violCount[key]++<3) viols.push_back({kind,msg,loc,stackOf(s),s.knownId?s.knownId:"",s.syms,m});
}
static SatRes feasible(State&s);
[[noreturn]] static void inconcl(State&s,const string&why);
[[noreturn]] static void fail(State&s,const string&kind,const string&msg){ if(s.uncertain){ SatRes r=feasible(s); if(r==UNSAT){ ST.assumed++; throw PathEnd(); } if(r==UNKNOWN) inconcl(s,"feasibility of a failing path not decided"); } report(s,kind,msg,s.model); ST.errors++; throw PathEnd(); }
[[noreturn]] static void inconcl(State&s,const string&why){ ST.inconclusive++; incReasons[why]++; if(optVerbose) cerr<<"INCONCLUSIVE "<<why<<" at "<<stackOf(s)<<"\n"; throw PathEnd(); }

static bool supInter(const Expr*a,const array<uint64_t,4>&b){ for(int i=0;i<4;i++) if(a->sup[i]&b[i]) return true; return false; }
static SatRes query(State&s,const Expr*e,Model&m,bool important=false){
  vector<const Expr*> sl{e}; array<uint64_t,4> sup=e->sup; vector<char> used(s.pc.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<s.pc.size();i++) if(!used[i]&&supInter(s.pc[i],sup)){ used[i]=1; ch=true; sl.push_back(s.pc[i]); for(int j=0;j<4;j++) sup[j]|=s.pc[i]->sup[j]; } }
  return solve(sl,m,important);
}
static SatRes feasible(State&s){ Model m=s.model; if(s.pc.empty()) return SAT; SatRes r=solve(s.pc,m,true); if(r==SAT) s.model=m; return r; }
static const uint64_t* knownVal(State&s,const Expr*e){ auto it=lower_bound(s.known.begin(),s.known.end(),e,[](auto&p,const Expr*x){return p.first->id<x->id;}); if(it!=s.known.end()&&it->first==e) return &it->second; return nullptr; }
static void setKnown(State&s,const Expr*e,uint64_t v){ if(isC(e)) return; auto it=lower_bound(s.known.begin(),s.known.end(),e,[](auto&p,const Expr*x){return p.first->id<x->id;}); if(it!=s.known.end()&&it->first==e){ it->second=v; return; } s.known.insert(it,{e,v}); }
static void addC(State&s,const Expr*e){
  if(isC(e)) return;
  if(e->op==E_AND&&e->w==1){ addC(s,e->k[0]); addC(s,e->k[1]); return; }
  s.pc.push_back(e); setKnown(s,e,1); setKnown(s,mkNot(e),0);
  if(e->op==E_EQ&&isC(e->k[1])) setKnown(s,e->k[0],e->k[1]->c);
  if(e->op==E_ULT) { setKnown(s,mk(E_ULE,1,e->k[0],e->k[1]),1); setKnown(s,mk(E_EQ,1,e->k[0],e->k[1]),0); }
  if(e->op==E_SLT) { setKnown(s,mk(E_SLE,1,e->k[0],e->k[1]),1); setKnown(s,mk(E_EQ,1,e->k[0],e->k[1]),0); }
}
static State* forkState(State&s){ ST.forks++; State*t=new State(s); t->depthForks++; s.depthForks++; return t; }
static bool decide(State&s,const Expr*c){
  if(isC(c)) return c->c; if(auto k=knownVal(s,c)) return *k;
  bool v=evalExpr(c,s.model); const Expr*pos=v?c:mkNot(c),*other=v?mkNot(c):c;
  Model m=s.model; SatRes r=query(s,other,m);
  if(r!=UNSAT){ State*t=forkState(s); addC(*t,other); if(r==SAT) t->model=m; else { t->uncertain=true; } if(t->uncertain) later.push_back(t); else work.push_back(t); }
  addC(s,pos); return v;
}
static uint64_t concretize(State&s,const Val&v,const char*what){
  if(v.um) fail(s,"uninit",string("use of an indeterminate value as ")+what);
  if(!v.e) return v.c; if(auto k=knownVal(s,v.e)) return *k;
  uint64_t x=evalExpr(v.e,s.model); decide(s,mk(E_EQ,1,v.e,mkConst(v.w,x))); return x;
}
static const Expr* ex(const Val&v){ return v.e?v.e:mkConst(v.w,v.c); }
static Val ev(const Expr*e,uint8_t um=0){ Val v; v.w=e->w; v.um=um; if(isC(e)) v.c=e->c; else v.e=e; return v; }

// ---------------------------------------------------------------- loads and stores
struct Ref { uint64_t id; uint64_t off; };
static string objDesc(Obj*o,uint64_t off,uint64_t n){ return "access of "+to_string(n)+" byte(s) at offset "+to_string((int64_t)off)+" of a block of "+to_string(o->size)+" bytes"; }
static Ref resolve(State&s,const Val&p,uint64_t n,bool write){
  if(p.um) fail(s,"uninit","use of an indeterminate pointer");
  uint64_t a;
  if(p.e){
    if(auto k=knownVal(s,p.e)) a=*k; else {
      // does the pointer stay inside the object the current model points to?
      a=evalExpr(p.e,s.model); Obj*o=s.mem.get(a>>32);
      if(o&&o->kind!=K_DEADSTACK&&o->kind!=K_DEADHEAP&&o->size>=n){ uint64_t base=addrOf(a>>32); const Expr*in=mk(E_ULE,1,mk(E_SUB,64,p.e,mkConst(64,base)),mkConst(64,o->size-n)); decide(s,in); }
      a=concretize(s,p,"pointer");
    }
  } else a=p.c;
  uint64_t id=a>>32; Obj*o=s.mem.get(id);
  if(id==0) fail(s,"null-deref",(write?"write through":"read through")+string(" a null (or near-null) pointer"));
  if(!o) fail(s,"bad-pointer","access through a pointer to no object");
  if(o->kind==K_DEADHEAP) fail(s,"use-after-free",string(write?"write to":"read of")+" freed storage");
  if(o->kind==K_DEADSTACK) fail(s,"use-after-return",string(write?"write to":"read of")+" a dead local variable");
  uint64_t off=a-addrOf(id);
  if(off>o->size||n>o->size-off) fail(s,"out-of-bounds",(write?"write: ":"read: ")+objDesc(o,off,n));
  if(write&&o->ro) fail(s,"write-const","write to constant storage");
  return {id,off};
}
static Val loadBytes(Obj*o,uint64_t off,unsigned n,unsigned w){ // scalar
  Val v; v.w=w; uint8_t all=1,um=0; bool sym=false;
  for(unsigned i=0;i<n;i++){ uint8_t x=o->st[off+i]; if(x!=1) all=0; if(x==0) um|=1<<i; if(x==2) sym=true; }
  if(all){ uint64_t c=0; memcpy(&c,o->d+off,n); v.c=c&maskw(w); return v; }
  if(!sym){ uint64_t c=0; for(unsigned i=0;i<n;i++) if(o->st[off+i]) c|=(uint64_t)o->d[off+i]<<(8*i); v.c=c&maskw(w); v.um=um; return v; }
  // whole expression?
  auto&sy=*o->sy; if(!um){ const Expr*e=o->st[off]==2?sy[off].e:nullptr; bool same=e&&sy[off].idx==0&&(unsigned)((e->w+7)/8)==n; for(unsigned i=0;same&&i<n;i++) if(o->st[off+i]!=2||sy[off+i].e!=e||sy[off+i].idx!=i) same=false;
    if(same){ if(e->w==w) return ev(e); if(e->w>w) return ev(mk(E_EXTRACT,w,e)); return ev(mk(E_ZEXT,w,e)); } }
  const Expr*r=nullptr; for(unsigned i=0;i<n;i++){ const Expr*b; if(o->st[off+i]==2){ auto e=sy[off+i].e; unsigned lo=sy[off+i].idx*8u; if(lo+8<=e->w) b=mk(E_EXTRACT,8,e,nullptr,nullptr,lo); else b=mk(E_ZEXT,8,mk(E_EXTRACT,e->w-lo,e,nullptr,nullptr,lo)); } else b=mkConst(8,o->st[off+i]?o->d[off+i]:0); r=r?mk(E_CONCAT,(i+1)*8,b,r):b; }
  if(w<n*8) r=mk(E_EXTRACT,w,r); return ev(r,um);
}
static void storeBytes(Obj*o,uint64_t off,unsigned n,const Val&v){
  if(!v.e){ uint64_t c=v.c; for(unsigned i=0;i<n;i++){ o->d[off+i]=(c>>(8*i))&255; o->st[off+i]=(v.um>>i)&1?0:1; } if(v.um==0xff&&n>=1) for(unsigned i=0;i<n;i++) o->st[off+i]=0; return; }
  if(!o->sy) o->sy=new vector<SB>(o->size); 
  for(unsigned i=0;i<n;i++){ (*o->sy)[off+i]={v.e,(uint8_t)i}; o->st[off+i]=(v.um>>i)&1?0:2; }
}
static Val loadTy(State&s,Obj*o,uint64_t off,const TyD*t){
  if(t->kind==1){ if(t->w>64) inconcl(s,"wide load"); return loadBytes(o,off,t->size,t->w); }
  auto a=new AggV; for(auto&p:t->el) a->push_back(loadTy(s,o,off+p.first,p.second)); Val v; v.agg=a; return v;
}
static void storeTy(State&s,Obj*o,uint64_t off,const TyD*t,const Val&v){
  if(t->kind==1){ if(t->w>64) inconcl(s,"wide store"); storeBytes(o,off,t->size,v); return; }
  for(size_t i=0;i<t->el.size();i++) storeTy(s,o,off+t->el[i].first,t->el[i].second,(*v.agg)[i]);
}
static Val load(State&s,const Val&p,const TyD*t){ Ref r=resolve(s,p,t->size,false); return loadTy(s,s.mem.get(r.id),r.off,t); }
// read through a symbolic in-bounds pointer as one if-then-else term over the feasible elements (no case split)
static bool iteLoad(State&s,const Val&p,const TyD*t,Val&out){
  if(!p.e||p.um||t->kind!=1||t->ptr||t->w>64||knownVal(s,p.e)) return false;
  uint64_t n=t->size, a=evalExpr(p.e,s.model); Obj*o=s.mem.get(a>>32);
  if(!o||o->kind==K_DEADSTACK||o->kind==K_DEADHEAP||o->size<n||o->size>4096) return false;
  uint64_t base=addrOf(a>>32); const Expr*d=mk(E_SUB,64,p.e,mkConst(64,base));
  uint64_t c0=0; const Expr*x=d; if(x->op==E_ADD&&isC(x->k[1])){ c0=x->k[1]->c; x=x->k[0]; }
  uint64_t k=1; while(x->op==E_ZEXT) x=x->k[0]; if(x->op==E_MUL&&isC(x->k[1])) k=x->k[1]->c; else if(x->op==E_CONCAT&&isC(x->k[1])&&x->k[1]->c==0) k=1ull<<x->k[1]->w;
  k&=-k; if(k<n||k>256) return false; uint64_t first=c0%k; if(first>=o->size||(o->size-first)/k>128) return false;
  if(!decide(s,mk(E_ULE,1,d,mkConst(64,o->size-n)))) return false;
  vector<pair<uint64_t,Val>> vs; for(uint64_t off=first;off+n<=o->size;off+=k){ Val v=loadBytes(o,off,n,t->w); if(v.um) return false; vs.push_back({off,v}); }
  if(vs.empty()) return false; const Expr*r=ex(vs.back().second); for(int i=(int)vs.size()-2;i>=0;i--) r=mk(E_ITE,t->w,mk(E_EQ,1,d,mkConst(64,vs[i].first)),ex(vs[i].second),r);
  out=ev(r); return true;
}
static void copyMem(State&s,const Val&dst,const Val&src,uint64_t n){
  if(!n) return; Ref a=resolve(s,src,n,false), b=resolve(s,dst,n,true);
  Obj*d=s.mem.wr(b.id); Obj*o=s.mem.get(a.id);
  bool sym=false; for(uint64_t i=0;i<n&&!sym;i++) sym=o->st[a.off+i]==2;
  if(sym){ vector<SB> tmp(o->sy->begin()+a.off,o->sy->begin()+a.off+n); if(!d->sy) d->sy=new vector<SB>(d->size); copy(tmp.begin(),tmp.end(),d->sy->begin()+b.off); }
  memmove(d->d+b.off,o->d+a.off,n); memmove(d->st+b.off,o->st+a.off,n);
}
static Val loadByteAt(State&s,const Val&p,uint64_t i){ Val q=p; if(q.e) q=ev(mk(E_ADD,64,q.e,mkConst(64,i))); else q.c+=i; Ref r=resolve(s,q,1,false); return loadBytes(s.mem.get(r.id),r.off,1,8); }
static string cstr(State&s,const Val&p){ string r; for(uint64_t i=0;;i++){ Val b=loadByteAt(s,p,i); uint64_t c=concretize(s,b,"string character"); if(!c) return r; r+=(char)c; if(i>100000) inconcl(s,"long string"); } }
static const char* internStr(const string&x){ static set<string> pool; return pool.insert(x).first->c_str(); }
static const char* litStr(State&s,const Val&p){ // string literals: cached by address
  static unordered_map<uint64_t,const char*> cache; if(p.e||p.um) return internStr(cstr(s,p));
  auto it=cache.find(p.c); if(it!=cache.end()) return it->second;
  Obj*o=s.mem.get(p.c>>32); const char*r=internStr(cstr(s,p)); if(o&&o->ro&&o->kind==K_GLOBAL) cache[p.c]=r; return r; }

// ---------------------------------------------------------------- arithmetic on values
static Val binop(uint8_t op,unsigned w,const Val&a,const Val&b){
  uint8_t um=(a.um||b.um)?0xff:0;
  if(!a.e&&!b.e){ bool ok; Val v=cv(w,evalOp(op,w,0,a.c,a.w,b.c,0,ok,b.w)); v.um=um; return v; }
  Val v=ev(mk(op,w,ex(a),ex(b))); v.um=um; return v;
}
static Val fcmp(unsigned pred,const Val&a,const Val&b){
  const Expr*x=ex(a),*y=ex(b); auto un=[&]{return mk(E_FUNO,1,x,y);}; auto o=[&](const Expr*e){return mk(E_OR,1,e,un());};
  const Expr*r;
  switch(pred){ case 0:r=mkConst(1,0);break; case 1:r=mk(E_FEQ,1,x,y);break; case 2:r=mk(E_FLT,1,y,x);break; case 3:r=mk(E_FLE,1,y,x);break; case 4:r=mk(E_FLT,1,x,y);break; case 5:r=mk(E_FLE,1,x,y);break; case 6:r=mk(E_AND,1,mkNot(mk(E_FEQ,1,x,y)),mkNot(un()));break; case 7:r=mkNot(un());break; case 8:r=un();break;
    case 9:r=o(mk(E_FEQ,1,x,y));break; case 10:r=mkNot(mk(E_FLE,1,x,y));break; case 11:r=mkNot(mk(E_FLT,1,x,y));break; case 12:r=mkNot(mk(E_FLE,1,y,x));break; case 13:r=mkNot(mk(E_FLT,1,y,x));break; case 14:r=mkNot(mk(E_FEQ,1,x,y));break; default:r=mkConst(1,1); }
  Val v=ev(r); v.um=(a.um||b.um)?0xff:0; return v;
}
static Val icmp(unsigned pred,const Val&a,const Val&b){
  uint8_t um=(a.um||b.um)?0xff:0; unsigned w=a.w; Val v;
  if(!a.e&&!b.e){ bool r=false; int64_t x=sx64(a.c,w),y=sx64(b.c,w); switch(pred){ case 32:r=a.c==b.c;break; case 33:r=a.c!=b.c;break; case 34:r=a.c>b.c;break; case 35:r=a.c>=b.c;break; case 36:r=a.c<b.c;break; case 37:r=a.c<=b.c;break; case 38:r=x>y;break; case 39:r=x>=y;break; case 40:r=x<y;break; case 41:r=x<=y;break; } v=cv(1,r); v.um=um; return v; }
  const Expr*x=ex(a),*y=ex(b),*r=nullptr; switch(pred){ case 32:r=mk(E_EQ,1,x,y);break; case 33:r=mkNot(mk(E_EQ,1,x,y));break; case 34:r=mk(E_ULT,1,y,x);break; case 35:r=mk(E_ULE,1,y,x);break; case 36:r=mk(E_ULT,1,x,y);break; case 37:r=mk(E_ULE,1,x,y);break; case 38:r=mk(E_SLT,1,y,x);break; case 39:r=mk(E_SLE,1,y,x);break; case 40:r=mk(E_SLT,1,x,y);break; case 41:r=mk(E_SLE,1,x,y);break; }
  v=ev(r); v.um=um; return v;
}
static Val castv(State&s,uint8_t k,unsigned w,const Val&a){
  Val v; v.um=a.um;
  switch(k){
  case C_TRUNC: if(a.e) v=ev(mk(E_EXTRACT,w,a.e)); else v=cv(w,a.c); v.um=a.um&(w>=64?0xff:((1u<<((w+7)/8))-1)); return v;
  case C_ZEXT: if(a.e) v=ev(mk(E_ZEXT,w,a.e)); else v=cv(w,a.c); v.um=a.um; if(v.um==0xff&&w>a.w) v.um=(1u<<((a.w+7)/8))-1; return v;
  case C_SEXT: if(a.e) v=ev(mk(E_SEXT,w,a.e)); else v=cv(w,(uint64_t)sx64(a.c,a.w)); v.um=a.um?0xff:0; return v;
  case C_FTRUNC: case C_FEXT: v=ev(mk(E_F2F,w,ex(a))); break;
  case C_FTOSI: case C_FTOUI: {
    const Expr*x=ex(a); bool sg=k==C_FTOSI;
    if(optOvf||!a.e){ // range check
      double lo=sg?-ldexp(1.0,w-1):0, hi=ldexp(1.0,sg?w-1:w); auto kd=[&](double d){ uint64_t b=0; if(a.w==64) memcpy(&b,&d,8); else { float f=d; memcpy(&b,&f,4);} return mkConst(a.w,b); };
      // lo-1 < x < hi   (for w=64 lo-1 rounds to lo: use >= lo)
      const Expr*lower= (a.w==64&&w<=32)||!sg? mk(E_FLT,1,kd(lo-1),x) : mk(E_FLE,1,kd(lo),x);
      const Expr*in=mk(E_AND,1,lower,mk(E_FLT,1,x,kd(hi)));
      if(optOvf){ if(!decide(s,in)) fail(s,"fp-to-int","conversion of a floating point value out of the integer type's range"); }
      else if(isC(in)&&!in->c){ v=cv(w,1ull<<(w-1)); v.um=a.um?0xff:0; return v; } // x86 result; not judged here
    }
    v=ev(mk(sg?E_FPTOSI:E_FPTOUI,w,x)); break; }
  case C_SITOF: v=ev(mk(E_SITOFP,w,ex(a))); break;
  case C_UITOF: v=ev(mk(E_UITOFP,w,ex(a))); break;
  }
  v.um=a.um?0xff:0; return v;
}
static void checkOvf(State&s,uint8_t op,unsigned w,const Val&a,const Val&b){
  if(w>32||a.um||b.um) { if(!a.e&&!b.e&&w==64&&!a.um&&!b.um){ int64_t r; bool o=op==E_ADD?__builtin_add_overflow((int64_t)a.c,(int64_t)b.c,&r):op==E_SUB?__builtin_sub_overflow((int64_t)a.c,(int64_t)b.c,&r):op==E_MUL?__builtin_mul_overflow((int64_t)a.c,(int64_t)b.c,&r):false; if(o) fail(s,"overflow","signed integer overflow"); } return; }
  if(op!=E_ADD&&op!=E_SUB&&op!=E_MUL) return;
  const Expr*x=mk(E_SEXT,64,ex(a)),*y=mk(E_SEXT,64,ex(b)),*r=mk(op,64,x,y);
  const Expr*ok=mk(E_EQ,1,r,mk(E_SEXT,64,mk(E_EXTRACT,w,r)));
  if(!decide(s,ok)) fail(s,"overflow","signed integer overflow");
}

// ---------------------------------------------------------------- type info
static const map<string,string> stdBases={{"_ZTISt12out_of_range","_ZTISt11logic_error"},{"_ZTISt12length_error","_ZTISt11logic_error"},{"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt12domain_error","_ZTISt11logic_error"},{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt13runtime_error","_ZTISt9exception"},{"_ZTISt11range_error","_ZTISt13runtime_error"},{"_ZTISt14overflow_error","_ZTISt13runtime_error"},{"_ZTISt15underflow_error","_ZTISt13runtime_error"},{"_ZTISt9bad_alloc","_ZTISt9exception"},{"_ZTISt20bad_array_new_length","_ZTISt9bad_alloc"},{"_ZTISt8bad_cast","_ZTISt9exception"},{"_ZTISt17bad_function_call","_ZTISt9exception"},{"_ZTISt10bad_typeid","_ZTISt9exception"},{"_ZTISt12system_error","_ZTISt13runtime_error"},{"_ZTINSt8ios_base7failureB5cxx11E","_ZTISt12system_error"}};
static bool tiUpcast(const string&from,const string&to,int64_t&off){
  if(from==to) return true;
  auto it=M.ti.find(from); if(it!=M.ti.end()) for(auto&b:it->second){ if(b.virt) continue; int64_t o=off+b.off; if(tiUpcast(b.name,to,o)){ off=o; return true; } }
  if(it==M.ti.end()||it->second.empty()){ auto sb=stdBases.find(from); if(sb!=stdBases.end()) return tiUpcast(sb->second,to,off); }
  return false;
}
static map<string,int> tiId; static int tiSel(const string&n){ auto it=tiId.find(n); if(it!=tiId.end()) return it->second; int k=tiId.size()+1; return tiId[n]=k; }

// ---------------------------------------------------------------- control
static const Val& opv(Frame&f,int i){ return i>=0?f.r[i]:f.fn->consts[-i-1]; }
static void takeEdge(Frame&f,int e){ Edge&E=f.fn->edges[e]; size_t n=E.moves.size(); if(n==1) f.r[E.moves[0].dst]=opv(f,E.moves[0].src); else if(n){ Val tmp[64]; vector<Val> big; Val*t=tmp; if(n>64){ big.resize(n); t=big.data(); } for(size_t i=0;i<n;i++) t[i]=opv(f,E.moves[i].src); for(size_t i=0;i<n;i++) f.r[E.moves[i].dst]=t[i]; } f.pc=E.target; }
static void popFrame(State&s){ Frame&f=s.fr.back(); for(auto id:f.allocas){ Obj*&o=s.mem.slot(id); if(o){ rel(o); o=DEADSTACK; DEADSTACK->ref++; } } s.fr.pop_back(); }
static void finishCall(State&s,const Val*rv){ Frame&f=s.fr.back(); const Inst&i=f.fn->code[f.pc]; CallD&c=f.fn->calls[i.x]; if(i.dst>=0&&rv) f.r[i.dst]=*rv; if(c.normal>=0) takeEdge(f,c.normal); else f.pc++; }
static void pushCall(State&s,Fn*fn,const vector<Val>&args){
  if(s.fr.size()>=optMaxDepth) fail(s,"recursion","call depth limit reached (unbounded recursion?)");
  translate(fn); fn->execs++; s.fr.emplace_back(); Frame&f=s.fr.back(); f.fn=fn; f.r.resize(fn->nregs); for(int i=0;i<fn->nargs&&i<(int)args.size();i++) f.r[i]=args[i]; if(fn->varargs) for(size_t i=fn->nargs;i<args.size();i++) f.va.push_back(args[i]);
  if(s.fr.size()>ST.maxDepth) ST.maxDepth=s.fr.size();
}
static Exc* excByAddr(State&s,uint64_t a){ for(int i=s.excs.size()-1;i>=0;i--) if(s.excs[i].addr==a) return &s.excs[i]; return nullptr; }
static bool lpadMatch(const LpadD&l,Exc&x,int&sel,int64_t&off){
  for(auto&c:l.clauses){ if(c.first){ off=0; if(c.second[0].empty()){ sel=tiSel(""); return true; } if(tiUpcast(x.ti,c.second[0],off)){ sel=tiSel(c.second[0]); return true; } }
    else { bool any=false; for(auto&n:c.second){ int64_t o=0; if(tiUpcast(x.ti,n,o)) any=true; } if(!any){ sel=-1; return true; } } }
  return false;
}
static const LpadD& lpadOf(Frame&f,int unwindEdge){ int pc=f.fn->edges[unwindEdge].target; return f.fn->lpads[f.fn->code[pc].x]; }
static void unwind(State&s,uint64_t excAddr){
  Exc*x=excByAddr(s,excAddr); if(!x) fail(s,"bad-throw","unwinding an unknown exception");
  bool found=false; int sel; int64_t off;
  for(int i=s.fr.size()-1;i>=0&&!found;i--){ Frame&f=s.fr[i]; const Inst&in=f.fn->code[f.pc]; if(in.op!=O_CALL) continue; CallD&c=f.fn->calls[in.x]; if(c.unwind<0) continue; if(lpadMatch(lpadOf(f,c.unwind),*x,sel,off)) found=true; }
  if(!found) fail(s,"uncaught-exception","uncaught exception of type "+demangle(x->ti.size()>4?x->ti.substr(4):x->ti));
  while(true){
    Frame&f=s.fr.back(); const Inst&in=f.fn->code[f.pc];
    if(in.op==O_CALL){ CallD&c=f.fn->calls[in.x]; if(c.unwind>=0){ const LpadD&l=lpadOf(f,c.unwind); off=0; sel=0; bool m=lpadMatch(l,*x,sel,off); if(m||l.cleanup){ if(m) x->adjusted=excAddr+off; else sel=0; takeEdge(f,c.unwind); auto a=new AggV; a->push_back(cv(64,excAddr)); a->push_back(cv(32,(uint64_t)(int64_t)sel)); Val v; v.agg=a; const Inst&lp=f.fn->code[f.pc]; f.r[lp.dst]=v; f.pc++; return; } } }
    popFrame(s); if(s.fr.empty()){ inconcl(s,"unwound past entry"); }
  }
}
static uint64_t allocObj(State&s,Kind k,uint64_t n){ if(n>(1u<<28)) inconcl(s,"huge allocation"); Obj*o=new Obj(k,n); uint64_t id=s.mem.add(o); if(s.mem.next>ST.maxHeap) ST.maxHeap=s.mem.next; return addrOf(id); }
static uint64_t newExc(State&s,const string&ti){ uint64_t a=allocObj(s,K_EXC,64); Obj*o=s.mem.wr(a>>32); memset(o->d,0,64); memset(o->st,1,64); s.excs.push_back({a,ti,0,0,false,a}); return a; }
static void freeHeap(State&s,const Val&p,Kind want,int64_t size,const char*fn){
  uint64_t a=concretize(s,p,"deallocated pointer"); if(!a) return; uint64_t id=a>>32; Obj*o=s.mem.get(id);
  if(!o) fail(s,"bad-free",string(fn)+" of a pointer to no object");
  if(o->kind==K_DEADHEAP) fail(s,"double-free",string(fn)+" of storage already freed");
  if(o->kind==K_STACK||o->kind==K_GLOBAL||o->kind==K_DEADSTACK||o->kind==K_EXC) fail(s,"bad-free",string(fn)+" of storage that is not on the heap");
  if(a!=addrOf(id)) fail(s,"bad-free",string(fn)+" of a pointer into the middle of a block");
  if(o->kind!=want) fail(s,"alloc-dealloc-mismatch",string("storage freed with the wrong form of deallocation: ")+fn);
  if(size>=0&&(uint64_t)size!=o->size) fail(s,"size-mismatch","block of "+to_string(o->size)+" bytes freed as "+to_string(size)+" bytes");
  Obj*&sl=s.mem.slot(id); rel(sl); sl=DEADHEAP; DEADHEAP->ref++; s.heapLive--;
}
static void endPath(State&s){
  ST.paths++; ST.steps+=s.steps; if(s.uncertain) ST.uncertain++; for(auto l:s.labels) covers[l]++;
  // reservoir of models for native validation
  if(!s.uncertain&&optSamples){ uint64_t n=ST.paths; if(samples.size()<optSamples||rnd()%n<optSamples){ Sample p; p.syms=s.syms; p.m=s.model; bool ok=true; for(auto&o:s.obs){ if(o.um) ok=false; p.obs.push_back(o.e?evalExpr(o.e,s.model):o.c); } if(ok){ if(samples.size()<optSamples) samples.push_back(p); else samples[rnd()%samples.size()]=p; } } }
  throw PathEnd();
}
static void checkAssert(State&s,const Val&c,const char*msg){
  if(c.um) fail(s,"uninit",string("assertion depends on an indeterminate value: ")+msg);
  if(!c.e){ if(!(c.c&maskw(c.w))) fail(s,"assertion",msg); ST.assertsFolded++; return; }
  const Expr*t=c.w==1?c.e:mkNot(mk(E_EQ,1,c.e,mkConst(c.w,0)));
  if(isC(t)){ if(!t->c) fail(s,"assertion",msg); ST.assertsFolded++; return; }
  if(auto k=knownVal(s,t)){ if(*k){ ST.assertsFolded++; return; } fail(s,"assertion",msg); }
  Model m=s.model; const Expr*n=mkNot(t); SatRes r;
  if(!s.uncertain&&evalExpr(n,m)) r=SAT; else r=query(s,n,m,true);
  if(r==UNSAT){ ST.assertsSolved++; setKnown(s,t,1); return; }
  if(r==UNKNOWN){ ST.assertsUnknown++; incReasons[string("solver gave no answer on: ")+msg]++; return; }
  report(s,"assertion",msg,m); ST.errors++;
  Model m2=s.model; if(!evalExpr(t,m2)){ if(query(s,t,m2)!=SAT) throw PathEnd(); s.model=m2; } addC(s,t);
}
static Val boolv(const Expr*e){ return ev(e); }

static vector<Val> fmtStdio(State&s,const string&f,const vector<Val>&args,size_t ai){
  vector<Val> out; auto put=[&](const string&x){ for(unsigned char c:x) out.push_back(cv(8,c)); };
  for(size_t i=0;i<f.size();i++){ if(f[i]!='%'){ put(string(1,f[i])); continue; } size_t j=i+1; while(j<f.size()&&strchr("-+ #0123456789.lhzjt",f[j])) j++; if(j>=f.size()) inconcl(s,"printf format"); string spec=f.substr(i,j-i+1); char cv_=f[j]; i=j;
    if(cv_=='%'){ put("%"); continue; } if(ai>=args.size()) fail(s,"printf-args","format consumes more arguments than were passed"); Val v=args[ai++]; char buf[512];
    if(v.um) fail(s,"uninit","indeterminate value passed to printf");
    if(spec=="%s"){ for(uint64_t k=0;;k++){ Val b=loadByteAt(s,v,k); if(b.um) fail(s,"uninit","indeterminate character printed"); if(decide(s,mk(E_EQ,1,ex(b),mkConst(8,0)))) break; out.push_back(b); } }
    else if(cv_=='s'){ string x=cstr(s,v); snprintf(buf,sizeof buf,spec.c_str(),x.c_str()); put(buf); }
    else if(spec=="%c"){ out.push_back(v.w>8?castv(s,C_TRUNC,8,v):v); }
    else if(v.e&&(spec=="%d"||spec=="%i"||spec=="%u"||spec=="%ld"||spec=="%lu"||spec=="%zu")){ // decimal digits as terms; sign and number of digits are case splits
      unsigned w=spec.size()>2?64:32; if(v.w>w) v=castv(s,C_TRUNC,w,v); if(v.w<w) inconcl(s,"printf argument width"); const Expr*x=ex(v);
      if(cv_!='u'&&decide(s,mk(E_SLT,1,x,mkConst(w,0)))){ put("-"); x=mk(E_SUB,w,mkConst(w,0),x); }
      unsigned maxd=w==64?20:10,k=1; uint64_t p10=10; vector<uint64_t> pw={1}; while(k<maxd&&!decide(s,mk(E_ULT,1,x,mkConst(w,p10)))){ pw.push_back(p10); p10*=10; k++; }
      for(unsigned d=k;d-->0;){ const Expr*q=mk(E_UREM,w,mk(E_UDIV,w,x,mkConst(w,pw[d])),mkConst(w,10)); out.push_back(ev(mk(E_ADD,8,mk(E_EXTRACT,8,q),mkConst(8,'0')))); } }
    else if(strchr("diuxXoc",cv_)){ uint64_t x=concretize(s,v,"printf argument"); bool l=spec.find('l')!=string::npos||spec.find('z')!=string::npos; if(l) snprintf(buf,sizeof buf,spec.c_str(),(long)x); else snprintf(buf,sizeof buf,spec.c_str(),(int)x); put(buf); }
    else if(strchr("feEgG",cv_)){ uint64_t x=concretize(s,v,"printf argument"); double d; memcpy(&d,&x,8); snprintf(buf,sizeof buf,spec.c_str(),d); put(buf); }
    else inconcl(s,"printf conversion"); }
  return out;
}
static int streamIdx(State&s,const Val&p){ uint64_t a=concretize(s,p,"stream"); auto it=M.globalByAddr.find(a); if(it==M.globalByAddr.end()) return -1; if(it->second=="_ZSt4cout") return 0; if(it->second=="_ZSt4cerr") return 1; if(it->second=="_ZSt4clog") return 2; return -1; }
static void outStr(vector<OutTok>&o,const string&x){ for(unsigned char c:x) o.push_back({'c',cv(8,c)}); }
static Val ptradd(const Val&p,uint64_t i){ Val q=p; if(q.e) q=ev(mk(E_ADD,64,q.e,mkConst(64,i))); else q.c+=i; return q; }

// returns true if the builtin produced a value in rv / completed; false if it pushed a frame or unwound
static bool builtin(State&s,CallD&c,int id,const vector<Val>&a,Val&rv){
  Frame&f=s.fr.back(); unsigned rw=c.ret?c.ret->w:0;
  rv=Val(); rv.w=rw;
  switch(id){
  case B_SYM: { unsigned w=a[1].c; const char*nm=litStr(s,a[0]); uint64_t seq=s.syms.size(); s.syms.push_back({nm,(uint8_t)w}); while(s.model.size()<=seq) s.model.push_back(0); if(s.model[seq]&~maskw(w)) s.model[seq]&=maskw(w); if(seq>=250) inconcl(s,"too many symbols"); const Expr*e=mkSym(seq,w); rv=ev(w<64?mk(E_ZEXT,64,e):e); return true; }
  case B_CHOOSE: { uint64_t n=a[1].c; const char*nm=litStr(s,a[0]); uint64_t seq=s.syms.size(); s.syms.push_back({nm,32}); while(s.model.size()<=seq) s.model.push_back(0); if(n==0) fail(s,"harness","choose(0)"); if(seq>=250) inconcl(s,"too many symbols"); const Expr*e=mkSym(seq,32);
      // complete case split on a fresh variable 0 <= x < n
      for(uint64_t k=1;k<n;k++){ State*t=forkState(s); t->model[seq]=k; addC(*t,mk(E_EQ,1,e,mkConst(32,k))); Val v=cv(64,k); Frame&tf=t->fr.back(); const Inst&in=tf.fn->code[tf.pc]; (void)in; finishCall(*t,&v); work.push_back(t); }
      s.model[seq]=0; addC(s,mk(E_EQ,1,e,mkConst(32,0))); rv=cv(64,0); return true; }
  case B_ASSUME: { Val v=a[0]; if(v.um) fail(s,"uninit","assumption depends on an indeterminate value"); if(!v.e){ if(!v.c){ ST.assumed++; throw PathEnd(); } return true; } const Expr*t=v.w==1?v.e:mkNot(mk(E_EQ,1,v.e,mkConst(v.w,0))); if(isC(t)){ if(!t->c){ ST.assumed++; throw PathEnd(); } return true; }
      if(!evalExpr(t,s.model)){ Model m=s.model; SatRes r=query(s,t,m,true); if(r==UNSAT){ ST.assumed++; throw PathEnd(); } if(r==UNKNOWN) s.uncertain=true; else s.model=m; } addC(s,t); return true; }
  case B_ASSERT: { checkAssert(s,a[0],litStr(s,a[1])); return true; }
  case B_FAIL: fail(s,"assertion",cstr(s,a[0]));
  case B_OBSERVE: s.obs.push_back(a[0]); return true;
  case B_COVER: s.labels.push_back(litStr(s,a[0])); return true;
  case B_LABEL: return true;
  case B_KNOWN: { string k=cstr(s,a[0]); s.knownId=k.empty()?nullptr:internStr(k); return true; }
  case B_HEAPLIVE: rv=cv(64,s.heapLive); return true;
  case B_CONCRETIZE: rv=cv(64,concretize(s,a[0],"concretized value")); return true;
  case B_ISSYM: rv=cv(32,1); return true;
  case B_ENGINE: rv=cv(32,1); return true;
  case B_NEW: case B_NEWARR: case B_MALLOC: { if(a[0].e){ // allocation of a huge symbolic size throws; keep sizes small
        const Expr*small=mk(E_ULE,1,a[0].e,mkConst(64,1<<20)); if(!decide(s,small)){ if(id==B_MALLOC){ rv=cv(64,0); return true; } uint64_t x=newExc(s,"_ZTISt9bad_alloc"); unwind(s,x); return false; } }
      uint64_t n=concretize(s,a[0],"allocation size"); if(n>(1u<<28)){ if(id==B_MALLOC){ rv=cv(64,0); return true; } uint64_t x=newExc(s,"_ZTISt9bad_alloc"); unwind(s,x); return false; }
      s.heapLive++; rv=cv(64,allocObj(s,id==B_NEW?K_NEW:id==B_NEWARR?K_NEWARR:K_MALLOC,n)); return true; }
  case B_CALLOC: { uint64_t n=concretize(s,a[0],"size")*concretize(s,a[1],"size"); s.heapLive++; uint64_t p=allocObj(s,K_MALLOC,n); Obj*o=s.mem.wr(p>>32); memset(o->d,0,n); memset(o->st,1,n); rv=cv(64,p); return true; }
  case B_REALLOC: { uint64_t p=concretize(s,a[0],"pointer"),n=concretize(s,a[1],"size"); if(!p){ s.heapLive++; rv=cv(64,allocObj(s,K_MALLOC,n)); return true; } Obj*o=s.mem.get(p>>32); if(!o||o->kind!=K_MALLOC||p!=addrOf(p>>32)) fail(s,"bad-free","realloc of a pointer that is not a live malloc block"); uint64_t q=allocObj(s,K_MALLOC,n); copyMem(s,cv(64,q),cv(64,p),min(n,o->size)); s.heapLive++; freeHeap(s,cv(64,p),K_MALLOC,-1,"realloc"); rv=cv(64,q); return true; }
  case B_FREE: freeHeap(s,a[0],K_MALLOC,-1,"free"); return true;
  case B_DEL: freeHeap(s,a[0],K_NEW,-1,"operator delete"); return true;
  case B_DELSZ: { uint64_t n=concretize(s,a[1],"size"); freeHeap(s,a[0],K_NEW,n,"operator delete"); return true; }
  case B_DELARR: freeHeap(s,a[0],K_NEWARR,-1,"operator delete[]"); return true;
  case B_DELARRSZ: { uint64_t n=concretize(s,a[1],"size"); freeHeap(s,a[0],K_NEWARR,n,"operator delete[]"); return true; }
  case B_MEMCPY: case B_MEMMOVE: case B_WMEMCPY: case B_WMEMMOVE: { uint64_t n=concretize(s,a[2],"length"); if(id==B_WMEMCPY||id==B_WMEMMOVE){ n*=4; id-=B_WMEMCPY-B_MEMCPY; } if(n){ uint64_t p=concretize(s,a[0],"pointer"),q=concretize(s,a[1],"pointer"); if(id==B_MEMCPY&&p!=q&&p<q+n&&q<p+n) fail(s,"overlap","memcpy on overlapping ranges"); } copyMem(s,a[0],a[1],n); rv=a[0]; return true; }
  case B_MEMSET: { uint64_t n=concretize(s,a[2],"length"); if(n){ Ref r=resolve(s,a[0],n,true); Val b=a[1]; b=castv(s,C_TRUNC,8,b); Obj*o=s.mem.wr(r.id); for(uint64_t i=0;i<n;i++) storeBytes(o,r.off+i,1,b); } rv=a[0]; return true; }
  case B_MEMCMP: case B_WMEM: { uint64_t n=concretize(s,a[2],"length"); if(id==B_WMEM) inconcl(s,"wide memory function"); const Expr*r=mkConst(32,0); if(n){ resolve(s,a[0],n,false); resolve(s,a[1],n,false); } uint8_t um=0;
      for(int64_t i=(int64_t)n-1;i>=0;i--){ Val x=loadByteAt(s,a[0],i),y=loadByteAt(s,a[1],i); if(x.um||y.um) um=0xff; const Expr*p=ex(x),*q=ex(y); r=mk(E_ITE,32,mk(E_EQ,1,p,q),r,mk(E_SUB,32,mk(E_ZEXT,32,p),mk(E_ZEXT,32,q))); } rv=ev(r,um); return true; }
  case B_MEMCHR: { uint64_t n=concretize(s,a[2],"length"); Val ch=castv(s,C_TRUNC,8,a[1]); for(uint64_t i=0;i<n;i++){ Val b=loadByteAt(s,a[0],i); if(b.um) fail(s,"uninit","memchr reads an indeterminate byte"); if(decide(s,mk(E_EQ,1,ex(b),ex(ch)))){ rv=ptradd(a[0],i); return true; } } rv=cv(64,0); return true; }
  case B_STRLEN: { for(uint64_t i=0;;i++){ Val b=loadByteAt(s,a[0],i); if(b.um) fail(s,"uninit","strlen reads an indeterminate byte"); if(decide(s,mk(E_EQ,1,ex(b),mkConst(8,0)))){ rv=cv(64,i); return true; } } }
  case B_STRCMP: case B_STRNCMP: { uint64_t n=id==B_STRNCMP?concretize(s,a[2],"length"):~0ull; for(uint64_t i=0;i<n;i++){ Val x=loadByteAt(s,a[0],i),y=loadByteAt(s,a[1],i); if(x.um||y.um) fail(s,"uninit","strcmp reads an indeterminate byte"); if(!decide(s,mk(E_EQ,1,ex(x),ex(y)))){ rv=ev(mk(E_SUB,32,mk(E_ZEXT,32,ex(x)),mk(E_ZEXT,32,ex(y)))); return true; } if(decide(s,mk(E_EQ,1,ex(x),mkConst(8,0)))) break; } rv=cv(32,0); return true; }
  case B_STRCPY: { uint64_t i=0; for(;;i++){ Val b=loadByteAt(s,a[1],i); if(decide(s,mk(E_EQ,1,ex(b),mkConst(8,0)))) break; } copyMem(s,a[0],a[1],i+1); rv=a[0]; return true; }
  case B_NOP: return true;
  case B_NOP_RET0: rv=cv(rw?rw:32,0); return true;
  case B_NOP_ARG0: rv=a[0]; return true;
  case B_ASSUME_I: return true;
  case B_EXPECT: rv=a[0]; return true;
  case B_TRAP: fail(s,"trap","trap instruction reached (undefined behaviour)");
  case B_ADDO: { // llvm.[us](add|sub|mul).with.overflow
      const string&n=c.name; bool sg=n[5]=='s'; uint8_t op=n.find("add")!=string::npos?E_ADD:n.find("sub")!=string::npos?E_SUB:E_MUL; unsigned w=a[0].w; Val r=binop(op,w,a[0],a[1]); const Expr*o;
      if(!a[0].e&&!a[1].e){ bool ov; if(w==64){ if(sg){ int64_t t; ov=op==E_ADD?__builtin_add_overflow((int64_t)a[0].c,(int64_t)a[1].c,&t):op==E_SUB?__builtin_sub_overflow((int64_t)a[0].c,(int64_t)a[1].c,&t):__builtin_mul_overflow((int64_t)a[0].c,(int64_t)a[1].c,&t);} else { uint64_t t; ov=op==E_ADD?__builtin_add_overflow(a[0].c,a[1].c,&t):op==E_SUB?__builtin_sub_overflow(a[0].c,a[1].c,&t):__builtin_mul_overflow(a[0].c,a[1].c,&t);} } else if(sg){ int64_t x=sx64(a[0].c,w),y=sx64(a[1].c,w),t=op==E_ADD?x+y:op==E_SUB?x-y:x*y; ov=t!=sx64((uint64_t)t&maskw(w),w); } else { uint64_t x=a[0].c,y=a[1].c; ov=op==E_ADD?(x+y)>maskw(w):op==E_SUB?x<y:(x*y)>maskw(w); } o=mkConst(1,ov); }
      else if(w<=32){ auto xt=[&](const Val&v){ return mk(sg?E_SEXT:E_ZEXT,64,ex(v)); }; const Expr*t=mk(op,64,xt(a[0]),xt(a[1])); o=mkNot(mk(E_EQ,1,t,mk(sg?E_SEXT:E_ZEXT,64,mk(E_EXTRACT,w,t)))); }
      else if(!sg&&op==E_ADD) o=mk(E_ULT,1,ex(r),ex(a[0])); else if(!sg&&op==E_SUB) o=mk(E_ULT,1,ex(a[0]),ex(a[1]));
      else if(!sg&&op==E_MUL&&!a[1].e) o=a[1].c?mk(E_ULT,1,mkConst(64,~0ull/a[1].c),ex(a[0])):mkConst(1,0);
      else if(!sg&&op==E_MUL&&!a[0].e) o=a[0].c?mk(E_ULT,1,mkConst(64,~0ull/a[0].c),ex(a[1])):mkConst(1,0);
      else inconcl(s,"64-bit overflow intrinsic");
      auto ag=new AggV; ag->push_back(r); ag->push_back(ev(o)); rv=Val(); rv.agg=ag; return true; }
  case B_ABS_I: { const Expr*x=ex(a[0]); rv=ev(mk(E_ITE,x->w,mk(E_SLT,1,x,mkConst(x->w,0)),mk(E_SUB,x->w,mkConst(x->w,0),x),x),a[0].um); return true; }
  case B_MINMAX: { const string&n=c.name; bool sg=n[5]=='s',mx=n.find("max")!=string::npos; const Expr*x=ex(a[0]),*y=ex(a[1]); const Expr*lt=mk(sg?E_SLT:E_ULT,1,x,y); rv=ev(mk(E_ITE,x->w,lt,mx?y:x,mx?x:y),a[0].um|a[1].um); return true; }
  case B_CTPOP: case B_CTLZ: case B_CTTZ: case B_BSWAP: { uint64_t x=concretize(s,a[0],"bit count argument"); unsigned w=a[0].w; if(id==B_CTPOP) rv=cv(w,__builtin_popcountll(x)); else if(id==B_CTLZ) rv=cv(w,x?__builtin_clzll(x)-(64-w):w); else if(id==B_CTTZ) rv=cv(w,x?__builtin_ctzll(x):w); else rv=cv(w,__builtin_bswap64(x)>>(64-w)); return true; }
  case B_FABS: rv=ev(mk(E_FABS,a[0].w,ex(a[0])),a[0].um); return true;
  case B_FSQRT: rv=ev(mk(E_FSQRT,a[0].w,ex(a[0])),a[0].um); return true;
  case B_FRND: { unsigned k=c.name.find("floor")!=string::npos?0:c.name.find("ceil")!=string::npos?1:c.name.find("trunc")!=string::npos?2:c.name.find("rint")!=string::npos||c.name.find("nearby")!=string::npos?3:4; rv=ev(mk(E_FRND,a[0].w,ex(a[0]),nullptr,nullptr,k),a[0].um); return true; }
  case B_FMULADD: { unsigned w=a[0].w; rv=ev(mk(E_FADD,w,mk(E_FMUL,w,ex(a[0]),ex(a[1])),ex(a[2])),(a[0].um|a[1].um|a[2].um)?0xff:0); return true; }
  case B_COPYSIGN: { unsigned w=a[0].w; rv=ev(mk(E_OR,w,mk(E_AND,w,ex(a[0]),mkConst(w,maskw(w)>>1)),mk(E_AND,w,ex(a[1]),mkConst(w,1ull<<(w-1)))),(a[0].um|a[1].um)?0xff:0); return true; }
  case B_FMINMAX: { bool mx=c.name.find("max")!=string::npos; const Expr*x=ex(a[0]),*y=ex(a[1]); const Expr*lt=mk(E_FLT,1,x,y); rv=ev(mk(E_ITE,x->w,mk(E_FUNO,1,x,x),y,mk(E_ITE,x->w,mk(E_FUNO,1,y,y),x,mk(E_ITE,x->w,lt,mx?y:x,mx?x:y)))); return true; }
  case B_LIBM: { static const map<string,int> fns={{"exp",M_EXP},{"log",M_LOG},{"sin",M_SIN},{"cos",M_COS},{"sinh",M_SINH},{"cosh",M_COSH},{"atan",M_ATAN},{"tanh",M_TANH}}; auto fi=fns.find(c.name);
    if(a.size()==1&&a[0].e&&!a[0].um&&fi!=fns.end()){ rv=ev(mk(E_MATH,64,a[0].e,nullptr,nullptr,fi->second)); return true; }
    if(a[0].e||a[0].um||(a.size()>1&&(a[1].e||a[1].um))) inconcl(s,"C library math function on a symbolic argument"); double x,y=0; memcpy(&x,&a[0].c,8); if(a.size()>1) memcpy(&y,&a[1].c,8); double r; const string&n=c.name; r=n=="sin"?sin(x):n=="cos"?cos(x):n=="tan"?tan(x):n=="exp"?exp(x):n=="log"?log(x):n=="atan"?atan(x):n=="atan2"?atan2(x,y):n=="pow"?pow(x,y):n=="sinh"?sinh(x):n=="cosh"?cosh(x):n=="tanh"?tanh(x):0; uint64_t b; memcpy(&b,&r,8); rv=cv(64,b); return true; }
  case B_ISCONST: rv=cv(1,0); return true;
  case B_OBJSIZE: rv=cv(64,~0ull); return true;
  case B_FSHL: { uint64_t x=concretize(s,a[0],"x"),y=concretize(s,a[1],"x"),k=concretize(s,a[2],"x"); unsigned w=a[0].w; k%=w; bool l=c.name.find("fshl")!=string::npos; if(!k) rv=cv(w,l?x:y); else rv=cv(w,l?(x<<k)|(y>>(w-k)):(x<<(w-k))|(y>>k)); return true; }
  case B_EHTYPEID: { rv=cv(32,tiSel(M.globalByAddr[a[0].c])); return true; }
  case B_EXALLOC: { uint64_t n=concretize(s,a[0],"size"); rv=cv(64,allocObj(s,K_EXC,n)); return true; }
  case B_EXFREE: { uint64_t p=concretize(s,a[0],"p"); Obj*&o=s.mem.slot(p>>32); rel(o); o=DEADHEAP; DEADHEAP->ref++; return true; }
  case B_THROW: { uint64_t p=concretize(s,a[0],"p"); s.excs.push_back({p,M.globalByAddr[a[1].c],a[2].c,0,false,p}); unwind(s,p); return false; }
  case B_RETHROW: { if(s.caught.empty()) fail(s,"terminate","rethrow with no current exception"); uint64_t p=s.caught.back(); Exc*x=excByAddr(s,p); x->rethrown=true; unwind(s,p); return false; }
  case B_BEGINCATCH: { uint64_t p=concretize(s,a[0],"p"); Exc*x=excByAddr(s,p); if(!x) fail(s,"bad-throw","begin_catch"); x->handlers++; x->rethrown=false; s.caught.push_back(p); rv=cv(64,x->adjusted); return true; }
  case B_ENDCATCH: { if(s.caught.empty()) fail(s,"bad-throw","end_catch"); uint64_t p=s.caught.back(); s.caught.pop_back(); Exc*x=excByAddr(s,p); if(--x->handlers==0&&!x->rethrown){ uint64_t d=x->dtor; for(size_t i=0;i<s.excs.size();i++) if(s.excs[i].addr==p){ s.excs.erase(s.excs.begin()+i); break; } if(d){ Fn*df=M.fnByAddr[d]; if(df&&!df->isDecl){ pushCall(s,df,{cv(64,p)}); return false; } } } return true; }
  case B_GETEXPTR: { Exc*x=excByAddr(s,concretize(s,a[0],"p")); rv=cv(64,x?x->adjusted:0); return true; }
  case B_UNCAUGHT: { int n=0; for(auto&x:s.excs) if(x.handlers==0||x.rethrown) n++; rv=cv(rw?rw:32,rw==1?n>0:n); return true; }
  case B_EXCTOR: return true;
  case B_GUARDACQ: { Ref r=resolve(s,a[0],1,true); Obj*o=s.mem.wr(r.id); bool done=o->st[r.off]==1&&o->d[r.off]; rv=cv(32,!done); return true; }
  case B_GUARDREL: { Ref r=resolve(s,a[0],1,true); Obj*o=s.mem.wr(r.id); o->d[r.off]=1; o->st[r.off]=1; return true; }
  case B_ATEXIT: rv=cv(32,0); return true;
  case B_TERMINATE: fail(s,"terminate","std::terminate called");
  case B_ABORT: fail(s,"abort","abort called");
  case B_EXIT: inconcl(s,"exit called");
  case B_ASSERTFAIL: fail(s,"assert","library assert failed: "+cstr(s,a[0]));
  case B_BADCAST: { uint64_t x=newExc(s,"_ZTISt8bad_cast"); unwind(s,x); return false; }
  case B_STDTHROW: { string n=c.name; static const pair<const char*,const char*> tb[]={{"bad_array_new","_ZTISt20bad_array_new_length"},{"bad_alloc","_ZTISt9bad_alloc"},{"out_of_range","_ZTISt12out_of_range"},{"length_error","_ZTISt12length_error"},{"logic_error","_ZTISt11logic_error"},{"invalid_argument","_ZTISt16invalid_argument"},{"bad_function","_ZTISt17bad_function_call"},{"bad_cast","_ZTISt8bad_cast"},{"runtime_error","_ZTISt13runtime_error"},{"overflow_error","_ZTISt14overflow_error"},{"domain_error","_ZTISt12domain_error"},{"ios_failure","_ZTINSt8ios_base7failureB5cxx11E"}}; for(auto&t:tb) if(n.find(t.first)!=string::npos){ uint64_t x=newExc(s,t.second); unwind(s,x); return false; } inconcl(s,"std throw "+n); }
  case B_DYNCAST: { uint64_t p=concretize(s,a[0],"pointer"); if(!p){ rv=cv(64,0); return true; } static const TyD*pt=nullptr; if(!pt){ auto q=new TyD; q->kind=1; q->w=64; q->size=8; q->ptr=true; pt=q; }
      Val vp=load(s,cv(64,p),pt); uint64_t vt=concretize(s,vp,"vtable"); Val ti=load(s,cv(64,vt-8),pt), top=load(s,cv(64,vt-16),pt); string dyn=M.globalByAddr[ti.c]; uint64_t full=p+(int64_t)top.c; int64_t off=0; string dst=M.globalByAddr[a[2].c]; if(tiUpcast(dyn,dst,off)) rv=cv(64,full+off); else rv=cv(64,0); return true; }
  // ---- output
  case B_OUT_INT: case B_OUT_CHAR: case B_OUT_DBL: { int k=streamIdx(s,a[0]); if(k<0) inconcl(s,"output to an unknown std stream"); const string&n=c.name; char t=n.back(); char kind= id==B_OUT_CHAR?'c':id==B_OUT_DBL?'d':(strchr("ilsx",t)?'i':t=='b'?'b':'u'); Val v=a[1]; if(v.um) fail(s,"uninit","indeterminate value written to a stream"); if(kind=='i') v=castv(s,C_SEXT,64,v); else if(kind=='u'||kind=='b') v=castv(s,C_ZEXT,64,v); else if(kind=='d'&&v.w==32) v=castv(s,C_FEXT,64,v); else if(kind=='c') v=castv(s,v.w>8?C_TRUNC:C_ZEXT,8,v); if(kind=='u') kind='i'; if(kind=='b') kind='i'; s.out[k].push_back({kind,v}); rv=a[0]; return true; }
  case B_OUT_PUT: { int k=streamIdx(s,a[0]); if(k<0) inconcl(s,"output to an unknown std stream"); s.out[k].push_back({'c',castv(s,a[1].w>8?C_TRUNC:C_ZEXT,8,a[1])}); rv=a[0]; return true; }
  case B_OUT_CSTR: { int k=streamIdx(s,a[0]); if(k<0) inconcl(s,"output to an unknown std stream"); vector<Val> bs; for(uint64_t i=0;;i++){ Val b=loadByteAt(s,a[1],i); if(b.um) fail(s,"uninit","indeterminate character written to a stream"); if(decide(s,mk(E_EQ,1,ex(b),mkConst(8,0)))) break; bs.push_back(b); } for(auto&b:bs) s.out[k].push_back({'c',b}); rv=a[0]; return true; }
  case B_OUT_WRITE: case B_OUT_STRN: { int k=streamIdx(s,a[0]); if(k<0) inconcl(s,"output to an unknown std stream"); uint64_t n=concretize(s,a[2],"length"); vector<Val> bs; for(uint64_t i=0;i<n;i++){ Val b=loadByteAt(s,a[1],i); if(b.um) fail(s,"uninit","indeterminate character written to a stream"); bs.push_back(b); } for(auto&b:bs) s.out[k].push_back({'c',b}); rv=a[0]; return true; }
  case B_OUT_MANIP: { int k=streamIdx(s,a[0]); if(k<0) inconcl(s,"output to an unknown std stream"); uint64_t p=concretize(s,a[1],"function"); auto it=M.fnByAddr.find(p); if(it==M.fnByAddr.end()) fail(s,"bad-call","manipulator pointer"); if(it->second->name.find("endl")!=string::npos) s.out[k].push_back({'c',cv(8,'\n')}); else if(it->second->name.find("flush")==string::npos) inconcl(s,"stream manipulator"); rv=a[0]; return true; }
  case B_ENDL: { int k=streamIdx(s,a[0]); if(k<0) inconcl(s,"output to an unknown std stream"); s.out[k].push_back({'c',cv(8,'\n')}); rv=a[0]; return true; }
  case B_OUT_FLUSH: rv=a[0]; return true;
  case B_PRINTF: { string fm=cstr(s,a[0]); 
      auto x=fmtStdio(s,fm,a,1); for(auto&b:x) s.out[3].push_back({'c',b}); rv=cv(32,x.size()); return true; }
  case B_PUTS: { if(c.name=="putchar"){ s.out[3].push_back({'c',castv(s,C_TRUNC,8,a[0])}); rv=a[0]; return true; } string x=cstr(s,a[0]); outStr(s.out[3],x+"\n"); rv=cv(32,1); return true; }
  case B_FPRINTF: { // snprintf(buf,n,fmt,...)
      if(c.name!="snprintf") inconcl(s,"fprintf"); uint64_t n=concretize(s,a[1],"size"); auto x=fmtStdio(s,cstr(s,a[2]),a,3); if(n){ uint64_t m=min<uint64_t>(n-1,x.size()); Ref r=resolve(s,a[0],m+1,true); Obj*o=s.mem.wr(r.id); for(uint64_t i=0;i<=m;i++) storeBytes(o,r.off+i,1,i<m?x[i]:cv(8,0)); } rv=cv(32,x.size()); return true; }
  // ---- expected output (harness side): sx_expect(stream, kind, value), sx_expect_match()
  case B_EVGET: { int k=(int)concretize(s,a[0],"stream"); if(k<0||k>3) inconcl(s,"expectation on an unknown stream"); char kind=a[1].c; Val v=a[2]; if(kind=='c') v=castv(s,C_TRUNC,8,v); s.exp[k].push_back({kind,v}); return true; }
  case B_EVCOUNT: { const Expr*r=mkConst(1,1); for(int k=0;k<4;k++){ if(s.out[k].size()!=s.exp[k].size()){ rv=cv(32,0); return true; } for(size_t i=0;i<s.out[k].size();i++){ if(s.out[k][i].kind!=s.exp[k][i].kind){ rv=cv(32,0); return true; } r=mk(E_AND,1,r,mk(E_EQ,1,ex(s.out[k][i].v),ex(s.exp[k][i].v))); } } rv=ev(mk(E_ZEXT,32,r)); return true; }
  }
  inconcl(s,"external function "+demangle(c.name)); (void)f;
}

// enough states, or enough time gone, to hand over to the worker processes
struct Pause {};
static bool enough(){ return optWorkers>1&&((now()>optTime*0.1&&work.size()+later.size()>=16)||(now()>0.7&&work.size()>=96)); }
static void runState(State&s){
  cur=&s; uint64_t tick=0, asked=SS.queries;
  while(true){
    Frame&f=s.fr.back(); const Inst&i=f.fn->code[f.pc]; ST.insts++;
    if(++s.steps>optMaxSteps) fail(s,"nontermination","step limit of "+to_string(optMaxSteps)+" instructions reached (no termination?)");
    if((++tick&0x3fff)==0||SS.queries!=asked){ asked=SS.queries; if(solverBrief&&enough()) throw Pause(); if(now()>deadline){ outOfTime=true; ST.unexplored++; throw PathEnd(); } }
    switch(i.op){
    case O_BIN: { const Val&a=opv(f,i.a),&b=opv(f,i.b);
      if(i.sub>=E_UDIV&&i.sub<=E_SREM){ if(b.um) fail(s,"uninit","division by an indeterminate value"); if(b.e){ if(decide(s,mk(E_EQ,1,b.e,mkConst(b.w,0)))) fail(s,"div-by-zero","division by zero"); } else if(!b.c) fail(s,"div-by-zero","division by zero");
        if((i.sub==E_SDIV||i.sub==E_SREM)&&optOvf){ const Expr*o=mk(E_AND,1,mk(E_EQ,1,ex(a),mkConst(i.w,1ull<<(i.w-1))),mk(E_EQ,1,ex(b),mkConst(i.w,maskw(i.w)))); if(decide(s,o)) fail(s,"overflow","signed division overflow"); } }
      if(optOvf&&i.x==1) checkOvf(s,i.sub,i.w,a,b);
      Val v=binop(i.sub,i.w,a,b); f.r[i.dst]=v; f.pc++; break; }
    case O_ICMP: f.r[i.dst]=icmp(i.sub,opv(f,i.a),opv(f,i.b)); f.pc++; break;
    case O_FCMP: f.r[i.dst]=fcmp(i.sub,opv(f,i.a),opv(f,i.b)); f.pc++; break;
    case O_FNEG: { const Val&a=opv(f,i.a); f.r[i.dst]=ev(mk(E_FNEG,i.w,ex(a)),a.um?0xff:0); f.pc++; break; }
    case O_CAST: { const Val&a=opv(f,i.a); if(i.sub==C_BIT){ const TyD*from=f.fn->tys[i.x],*to=f.fn->tys[i.x+1]; if(from->kind==1&&to->kind==1){ Val v=a; v.w=to->w; f.r[i.dst]=v; } else { Obj tmp(K_STACK,max(from->size,to->size)); storeTy(s,&tmp,0,from,a); f.r[i.dst]=loadTy(s,&tmp,0,to); } f.pc++; break; }
      Val v=castv(s,i.sub,i.w,a); f.r[i.dst]=v; f.pc++; break; }
    case O_GEP: { GepD&g=f.fn->geps[i.x]; Val p=opv(f,i.a); uint8_t um=p.um; const Expr*e=p.e; uint64_t c=p.c+(e?0:0); uint64_t off=g.off; const Expr*se=nullptr;
      for(auto&t:g.terms){ const Val&ix=opv(f,t.first); um|=ix.um; if(!ix.e) off+=(uint64_t)(sx64(ix.c,ix.w)*t.second); else { const Expr*x=mk(E_MUL,64,mk(E_SEXT,64,ix.e),mkConst(64,t.second)); se=se?mk(E_ADD,64,se,x):x; } }
      Val v; v.w=64; v.um=um?0xff:0; if(!e&&!se) v.c=c+off; else { const Expr*b=e?e:mkConst(64,c); if(se) b=mk(E_ADD,64,b,se); b=mk(E_ADD,64,b,mkConst(64,off)); v=ev(b,um?0xff:0); }
      f.r[i.dst]=v; f.pc++; break; }
    case O_ALLOCA: { uint64_t n=i.x*concretize(s,opv(f,i.a),"array size"); uint64_t a=allocObj(s,K_STACK,n); Frame&g=s.fr.back(); g.allocas.push_back(a>>32); g.r[i.dst]=cv(64,a); g.pc++; break; }
    case O_LOAD: { Val v; if(!(opv(f,i.a).e&&iteLoad(s,opv(f,i.a),f.fn->tys[i.x],v))) v=load(s,opv(f,i.a),f.fn->tys[i.x]); f.r[i.dst]=v; f.pc++; break; }
    case O_STORE: { const TyD*t=f.fn->tys[i.x]; Ref r=resolve(s,opv(f,i.b),t->size,true); storeTy(s,s.mem.wr(r.id),r.off,t,opv(f,i.a)); f.pc++; break; }
    case O_BR: takeEdge(f,i.x); break;
    case O_CBR: { const Val&c=opv(f,i.a); if(c.um) fail(s,"uninit","branch depends on an indeterminate value"); bool t=c.e?decide(s,c.e):c.c; takeEdge(f,t?i.x:i.b); break; }
    case O_SWITCH: { const Val&c=opv(f,i.a); if(c.um) fail(s,"uninit","switch on an indeterminate value"); SwitchD&d=f.fn->sws[i.x]; int e=d.def; if(!c.e){ for(auto&k:d.cases) if(k.first==c.c){ e=k.second; break; } } else for(auto&k:d.cases) if(decide(s,mk(E_EQ,1,c.e,mkConst(c.w,k.first)))){ e=k.second; break; } takeEdge(f,e); break; }
    case O_SELECT: { const Val&c=opv(f,i.a); const Val&x=opv(f,i.b),&y=opv(f,i.c); Val v; if(c.um){ v=x; v.um=0xff; } else if(!c.e) v=c.c?x:y; else if(x.agg||y.agg){ bool t=decide(s,c.e); v=t?x:y; } else v=ev(mk(E_ITE,x.w,c.e,ex(x),ex(y)),x.um|y.um); f.r[i.dst]=v; f.pc++; break; }
    case O_RET: { Val v; if(i.sub) v=opv(f,i.a); bool has=i.sub; popFrame(s); if(s.fr.empty()){ return; } finishCall(s,has?&v:nullptr); break; }
    case O_UNREACH: fail(s,"unreachable","control reaches an unreachable point (undefined behaviour)");
    case O_EXTV: { Val v=opv(f,i.a); for(auto k:f.fn->idx[i.x]) v=(*v.agg)[k]; f.r[i.dst]=v; f.pc++; break; }
    case O_INSV: { function<Val(const Val&,size_t)> ins=[&](const Val&v,size_t k)->Val{ auto&ix=f.fn->idx[i.x]; if(k==ix.size()) return opv(f,i.b); auto a=new AggV(*v.agg); (*a)[ix[k]]=ins((*v.agg)[ix[k]],k+1); Val r; r.agg=a; return r; }; f.r[i.dst]=ins(opv(f,i.a),0); f.pc++; break; }
    case O_EXTEL: { uint64_t k=concretize(s,opv(f,i.b),"index"); f.r[i.dst]=(*opv(f,i.a).agg)[k]; f.pc++; break; }
    case O_INSEL: { uint64_t k=concretize(s,opv(f,i.c),"index"); auto a=new AggV(*opv(f,i.a).agg); (*a)[k]=opv(f,i.b); Val r; r.agg=a; f.r[i.dst]=r; f.pc++; break; }
    case O_FREEZE: { Val v=opv(f,i.a); v.um=0; f.r[i.dst]=v; f.pc++; break; }
    case O_RMW: { const TyD*t=f.fn->tys[i.x]; Val old=load(s,opv(f,i.a),t); Val nv=i.sub?binop(i.sub,i.w,old,opv(f,i.b)):opv(f,i.b); Ref r=resolve(s,opv(f,i.a),t->size,true); storeTy(s,s.mem.wr(r.id),r.off,t,nv); f.r[i.dst]=old; f.pc++; break; }
    case O_RESUME: { Val v=opv(f,i.a); uint64_t a=(*v.agg)[0].c; // continue unwinding from the caller
      popFrame(s); if(s.fr.empty()) inconcl(s,"resume past entry"); unwind(s,a); break; }
    case O_LPAD: f.pc++; break;
    case O_UNSUP: inconcl(s,"unsupported IR: "+f.fn->unsup[i.x]);
    case O_CALL: {
      CallD&c=f.fn->calls[i.x]; Fn*t=c.direct; int b=c.builtin; 
      if(!t&&!b){ const Val&cp=opv(f,c.callee); uint64_t a=concretize(s,cp,"function pointer"); auto it=M.fnByAddr.find(a); if(it==M.fnByAddr.end()) fail(s,"bad-call",a?"call through a pointer that is not a function":"call through a null function pointer"); t=it->second; b=t->builtin; }
      vector<Val> args; args.reserve(c.args.size()); for(auto k:c.args) args.push_back(opv(f,k));
      if(b&&!(t&&!t->isDecl)){
        Val rv; CallD tmp; CallD*cd=&c; if(t&&c.name.empty()){ tmp=c; tmp.name=t->name; cd=&tmp; }
        if(builtin(s,*cd,b,args,rv)) finishCall(s,&rv);
        break; }
      if(t->isDecl) inconcl(s,"external function "+demangle(t->name));
      for(size_t k=0;k<args.size();k++) if(c.byval[k]){ uint64_t n=c.byval[k]; uint64_t a=allocObj(s,K_STACK,n); copyMem(s,cv(64,a),args[k],n); args[k]=cv(64,a); s.fr.back().allocas.push_back(a>>32); }
      pushCall(s,t,args); break; }
    default: inconcl(s,"internal: opcode");
    }
  }
}
static void runToEnd(State*s){
  try{ runState(*s); 
    // entry returned
    bool leak=s->heapLive!=0;
    if(leak){ // give the report a frame to hang on
      Frame fr; fr.fn=M.fnByName[optEntry]; fr.pc=0; s->fr.push_back(fr); try{ fail(*s,"leak",to_string(s->heapLive)+" heap block(s) never freed"); }catch(PathEnd&){} s->fr.clear(); }
    else try{ endPath(*s); }catch(PathEnd&){}
  } catch(PathEnd&){} catch(Pause&){ s->steps--; ST.insts--; (s->uncertain?later:work).push_back(s); return; }
  delete s;
}
static string esc(const string&x){ string r; for(char c:x){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if((unsigned char)c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
static string symsJson(const vector<Sym>&sy,const Model&m){ string r="["; for(size_t i=0;i<sy.size();i++){ if(i) r+=","; r+="[\""+esc(sy[i].name)+"\","+to_string(sy[i].w)+",\""+to_string(m[i]&maskw(sy[i].w))+"\"]"; } return r+"]"; }
struct Shared { atomic<uint64_t> next; atomic<int> viols; atomic<double> stopAt; double queryStop; };
static void writeWorker(const string&fn){
  ofstream o(fn); o<<"{\"stats\":{";
  o<<"\"paths\":"<<ST.paths<<",\"assumed\":"<<ST.assumed<<",\"errors\":"<<ST.errors<<",\"inconclusive\":"<<ST.inconclusive<<",\"forks\":"<<ST.forks<<",\"insts\":"<<ST.insts<<",\"asserts_folded\":"<<ST.assertsFolded<<",\"asserts_solved\":"<<ST.assertsSolved<<",\"asserts_unknown\":"<<ST.assertsUnknown<<",\"unexplored\":"<<ST.unexplored<<",\"uncertain\":"<<ST.uncertain;
  o<<",\"queries\":"<<SS.queries<<",\"sat\":"<<SS.sat<<",\"unsat\":"<<SS.unsat<<",\"unknown\":"<<SS.unknown<<",\"cache_hits\":"<<SS.cacheHits<<",\"external_queries\":"<<SS.external<<",\"icp\":"<<SS.icp<<",\"icp_boxes\":"<<SS.boxes<<"},\"solver_time\":"<<SS.time<<",\"max_depth\":"<<ST.maxDepth<<",\n\"reasons\":{";
  bool c=false; for(auto&p:incReasons){ if(c) o<<","; c=true; o<<"\""<<esc(p.first)<<"\":"<<p.second; } o<<"},\n\"covers\":{"; c=false; for(auto&p:covers){ if(c) o<<","; c=true; o<<"\""<<esc(p.first)<<"\":"<<p.second; }
  o<<"},\n\"functions\":{"; c=false; for(auto f:M.fns) if(f->execs&&f->fromCest){ if(c) o<<","; c=true; size_t p=f->srcFile.find("include/"); o<<"\""<<esc(demangle(f->name))<<"\":\""<<esc(p==string::npos?f->srcFile:f->srcFile.substr(p))<<"\""; }
  o<<"},\n\"violations\":["; c=false; for(auto&v:viols){ if(c) o<<",\n"; c=true; o<<"{\"kind\":\""<<esc(v.kind)<<"\",\"msg\":\""<<esc(v.msg)<<"\",\"loc\":\""<<esc(v.loc)<<"\",\"known\":\""<<esc(v.known)<<"\",\"stack\":\""<<esc(v.stack)<<"\",\"inputs\":"<<symsJson(v.syms,v.m)<<"}"; }
  o<<"],\n\"samples\":["; c=false; for(auto&p:samples){ if(c) o<<",\n"; c=true; o<<"{\"inputs\":"<<symsJson(p.syms,p.m)<<",\"obs\":["; bool d=false; for(auto x:p.obs){ if(d) o<<","; d=true; o<<"\""<<x<<"\""; } o<<"]}"; }
  o<<"]}\n";
}
int main(int argc,char**argv){
  string file; for(int i=1;i<argc;i++){ string a=argv[i]; auto nx=[&]{ return string(argv[++i]); }; if(a=="--entry") optEntry=nx(); else if(a=="--out") optOut=nx(); else if(a=="--workers") optWorkers=stoi(nx()); else if(a=="--time") optTime=stod(nx()); else if(a=="--max-steps") optMaxSteps=stoull(nx()); else if(a=="--max-depth") optMaxDepth=stoull(nx()); else if(a=="--ovf") optOvf=true; else if(a=="--samples") optSamples=stoi(nx()); else if(a=="--seed") optSeed=stoull(nx()); else if(a=="-v") optVerbose=true; else if(a=="--frontier") optFrontier=stoull(nx()); else if(a=="--tmp") optTmp=nx(); else if(a=="--ext-timeout") extTimeout=stoi(nx()); else if(a=="--rlimit") inprocRlimit=stoul(nx()); else file=a; }
  T0=chrono::steady_clock::now(); deadline=optTime; static double queryStop; queryStop=solverNow()+optTime+5; solverStop=&queryStop; solverTmpDir=optTmp; rngs=optSeed*0x9e3779b97f4a7c15ull+88172645463325252ull;
  string err; if(!loadModule(file,err)){ cerr<<"cannot load module: "<<err<<"\n"; return 2; }
  if(!M.fnByName.count(optEntry)||M.fnByName[optEntry]->isDecl){ cerr<<"no entry "<<optEntry<<"\n"; return 2; }
  DEADSTACK=new Obj(K_DEADSTACK,0); DEADHEAP=new Obj(K_DEADHEAP,0);
  State*s=new State; for(auto fp:M.fns){ Obj*o=new Obj(K_GLOBAL,0); o->ro=true; s->mem.add(o); (void)fp; }
  for(auto&g:M.globals){ Obj*o=new Obj(K_GLOBAL,g.size); memcpy(o->d,g.data.data(),g.size); memcpy(o->st,g.def.data(),g.size); o->ro=!g.writable; uint64_t id=s->mem.add(o); if(addrOf(id)!=g.addr){ cerr<<"internal: address mismatch\n"; return 2; } }
  stable_sort(M.ctors.begin(),M.ctors.end(),[](auto&a,auto&b){return a.first<b.first;});
  bool initOk=true;
  for(auto&c:M.ctors){ Fn*f=M.fnByName[c.second]; if(!f||f->isDecl) continue; try{ cur=s; pushCall(*s,f,{}); runState(*s); }catch(PathEnd&){ initOk=false; cerr<<"global initialisation failed in "<<c.second<<"\n"; for(auto&r:incReasons) cerr<<r.first<<"\n"; for(auto&v:viols) cerr<<v.kind<<" "<<v.msg<<" "<<v.stack<<"\n"; break; } }
  if(!initOk){ writeWorker(optOut+".w0"); return 3; }
  s->heapLive=0; s->steps=0;
  try{ pushCall(*s,M.fnByName[optEntry],{}); }catch(PathEnd&){ return 2; }
  work.clear(); work.push_back(s);
  solverBrief=true;
  // breadth-first until the frontier is large enough, then split it over worker processes
  auto more=[&]{ if(work.empty()&&!later.empty()){ work.push_back(later.front()); later.pop_front(); } return !work.empty(); };
  while(more()&&work.size()<optFrontier&&now()<deadline&&!enough()){ State*t=work.front(); work.pop_front();
    // run until it ends; forked siblings are appended to the queue
    size_t before=work.size(); (void)before; runToEnd(t); if(violCount.size()&&ST.errors>200) break; }
  if(work.empty()&&later.empty()){ writeWorker(optOut+".w0"); ofstream(optOut)<<"1\n"; return 0; }
  Shared*sh=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); new(sh) Shared; sh->next=0; sh->viols=0; sh->stopAt=deadline; sh->queryStop=queryStop; solverStop=&sh->queryStop;
  vector<State*> fr(work.begin(),work.end()); work.clear(); for(size_t k=fr.size();k>1;k--) swap(fr[k-1],fr[rnd()%k]);
  const size_t certain=fr.size(); fr.insert(fr.end(),later.begin(),later.end()); later.clear(); solverBrief=false; // states not known to be feasible come last
  if(!viols.empty()){ sh->stopAt=min(deadline,now()+optStopAfter); sh->queryStop=min(queryStop,solverNow()+optStopAfter+1); }
  vector<pid_t> kids; cout.flush();
  for(int w=0;w<optWorkers;w++){ pid_t p=fork(); if(p==0){
      static int self; self=w; std::set_terminate([]{ writeWorker(optOut+".w"+to_string(self)); _exit(5); }); // the solver library ends the process when it runs out of memory: keep what was found
      solverResetAfterFork(); rngs^=(w+1)*0x9e3779b97f4a7c15ull; if(w>0){ Stats z; ST=z; incReasons.clear(); covers.clear(); viols.clear(); samples.clear(); SS=SolverStats(); }
      while(true){
        if(work.empty()){ uint64_t k=sh->next++; if(k<fr.size()){ if(k>=certain&&now()<sh->stopAt){ State*t=fr[k]; Model m=t->model; SatRes r=t->pc.empty()?SAT:query(*t,t->pc.back(),m); if(r==UNSAT){ delete t; continue; } if(r==SAT){ t->model=m; t->uncertain=false; for(auto e:t->pc) if(!evalExpr(e,m)) t->uncertain=true; } } work.push_back(fr[k]); } else if(!later.empty()){ work.push_back(later.front()); later.pop_front(); } else break; }
        State*t=work.back(); work.pop_back(); deadline=sh->stopAt; if(now()>deadline){ ST.unexplored++; outOfTime=true; delete t; continue; } size_t nv=viols.size(); runToEnd(t); if(viols.size()>nv){ double ns=now()+optStopAfter; if(ns<sh->stopAt){ sh->stopAt=ns; sh->queryStop=solverNow()+optStopAfter+1; } } }
      writeWorker(optOut+".w"+to_string(w)); _exit(0); } kids.push_back(p); }
  bool bad=false; for(auto p:kids){ int st; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)) bad=true; }
  ofstream(optOut)<<optWorkers<<(bad?" bad":"")<<"\n"; return bad?4:0;
}
