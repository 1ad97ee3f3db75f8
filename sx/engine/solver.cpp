#include "solver.hpp"
#include <z3++.h>
#include <unordered_map>
#include <algorithm>
#include <chrono>
#include <set>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <fcntl.h>
#include <cstdlib>
SolverStats SS; std::string solverTmpDir="/tmp"; int extTimeout=60; unsigned inprocRlimit=4000000;
using std::vector;
namespace {
struct Z {
  z3::context c; z3::solver s; std::vector<Z3_ast> bv, fp; z3::expr rne, rtz; 
  vector<z3::expr> side; // unused side conditions
  Z():s(c,z3::solver::simple()),rne(c),rtz(c){
    rne=z3::expr(c,Z3_mk_fpa_rne(c)); rtz=z3::expr(c,Z3_mk_fpa_rtz(c)); }
  z3::expr ex(Z3_ast a){ return z3::expr(c,a); }
  Z3_sort fs(unsigned w){ return w==64?Z3_mk_fpa_sort_double(c):Z3_mk_fpa_sort_single(c); }
  z3::expr b1(const z3::expr&e){ return z3::ite(e,c.bv_val(1,1),c.bv_val(0,1)); }
  z3::expr keep(vector<Z3_ast>&v,const Expr*e,const z3::expr&r){ Z3_inc_ref(c,r); if(v.size()<=e->id) v.resize(exprCount()+64,nullptr); v[e->id]=r; return r; }
  z3::expr asFP(const Expr*e){
    if(e->id<fp.size()&&fp[e->id]) return ex(fp[e->id]);
    z3::expr r(c); unsigned w=e->w;
    auto F=[&](int i){ return asFP(e->k[i]); };
    switch(e->op){
    case E_FADD: r=ex(Z3_mk_fpa_add(c,rne,F(0),F(1))); break;
    case E_FSUB: r=ex(Z3_mk_fpa_sub(c,rne,F(0),F(1))); break;
    case E_FMUL: r=ex(Z3_mk_fpa_mul(c,rne,F(0),F(1))); break;
    case E_FDIV: r=ex(Z3_mk_fpa_div(c,rne,F(0),F(1))); break;
    case E_FNEG: r=ex(Z3_mk_fpa_neg(c,F(0))); break;
    case E_FABS: r=ex(Z3_mk_fpa_abs(c,F(0))); break;
    case E_FSQRT: r=ex(Z3_mk_fpa_sqrt(c,rne,F(0))); break;
    case E_FRND: { Z3_ast rm= e->aux==0?Z3_mk_fpa_rtn(c):e->aux==1?Z3_mk_fpa_rtp(c):e->aux==2?Z3_mk_fpa_rtz(c):e->aux==3?Z3_mk_fpa_rne(c):Z3_mk_fpa_rna(c); r=ex(Z3_mk_fpa_round_to_integral(c,rm,F(0))); break; }
    case E_F2F: r=ex(Z3_mk_fpa_to_fp_float(c,rne,F(0),fs(w))); break;
    case E_SITOFP: r=ex(Z3_mk_fpa_to_fp_signed(c,rne,asBV(e->k[0]),fs(w))); break;
    case E_UITOFP: r=ex(Z3_mk_fpa_to_fp_unsigned(c,rne,asBV(e->k[0]),fs(w))); break;
    case E_ITE: r=z3::ite(asBV(e->k[0])==c.bv_val(1,1),asFP(e->k[1]),asFP(e->k[2])); break;
    default: r=ex(Z3_mk_fpa_to_fp_bv(c,asBV(e),fs(w))); break;
    }
    return keep(fp,e,r);
  }
  z3::expr asBV(const Expr*e){
    if(e->id<bv.size()&&bv[e->id]) return ex(bv[e->id]);
    z3::expr r(c); unsigned w=e->w;
    auto K=[&](int i){ return asBV(e->k[i]); };
    switch(e->op){
    case E_CONST: r=c.bv_val((uint64_t)e->c,w); break;
    case E_SYM: r=c.bv_const(("x"+std::to_string(e->c)+"_"+std::to_string(w)).c_str(),w); break;
    case E_ADD: r=K(0)+K(1); break; case E_SUB: r=K(0)-K(1); break; case E_MUL: r=K(0)*K(1); break;
    case E_UDIV: r=z3::udiv(K(0),K(1)); break; case E_SDIV: r=K(0)/K(1); break;
    case E_UREM: r=z3::urem(K(0),K(1)); break; case E_SREM: r=z3::srem(K(0),K(1)); break;
    case E_AND: r=K(0)&K(1); break; case E_OR: r=K(0)|K(1); break; case E_XOR: r=K(0)^K(1); break;
    case E_SHL: r=z3::shl(K(0),K(1)); break; case E_LSHR: r=z3::lshr(K(0),K(1)); break; case E_ASHR: r=z3::ashr(K(0),K(1)); break;
    case E_EQ: r=b1(K(0)==K(1)); break; case E_ULT: r=b1(z3::ult(K(0),K(1))); break; case E_ULE: r=b1(z3::ule(K(0),K(1))); break;
    case E_SLT: r=b1(K(0)<K(1)); break; case E_SLE: r=b1(K(0)<=K(1)); break;
    case E_ITE: r=z3::ite(K(0)==c.bv_val(1,1),K(1),K(2)); break;
    case E_ZEXT: r=z3::zext(K(0),w-e->k[0]->w); break; case E_SEXT: r=z3::sext(K(0),w-e->k[0]->w); break;
    case E_EXTRACT: r=K(0).extract(e->aux+w-1,e->aux); break;
    case E_CONCAT: r=z3::concat(K(0),K(1)); break;
    case E_FEQ: r=b1(ex(Z3_mk_fpa_eq(c,asFP(e->k[0]),asFP(e->k[1])))); break;
    case E_FLT: r=b1(ex(Z3_mk_fpa_lt(c,asFP(e->k[0]),asFP(e->k[1])))); break;
    case E_FLE: r=b1(ex(Z3_mk_fpa_leq(c,asFP(e->k[0]),asFP(e->k[1])))); break;
    case E_FUNO: r=b1(ex(Z3_mk_fpa_is_nan(c,asFP(e->k[0])))||ex(Z3_mk_fpa_is_nan(c,asFP(e->k[1])))); break;
    case E_FPTOSI: r=ex(Z3_mk_fpa_to_sbv(c,rtz,asFP(e->k[0]),w)); break;
    case E_FPTOUI: r=ex(Z3_mk_fpa_to_ubv(c,rtz,asFP(e->k[0]),w)); break;
    case E_FNEG: r=K(0)^c.bv_val((uint64_t)1<<(w-1),w); break;
    case E_FABS: r=K(0)&c.bv_val(maskw(w)>>1,w); break;
    default: r=ex(Z3_mk_fpa_to_ieee_bv(c,asFP(e))); break;
    }
    return keep(bv,e,r);
  }
};
Z*z=nullptr;
// Queries made only of comparisons between symbols and constants (and selections between them) are decided over the integers
// (an exact translation: every symbol is bounded by its width), where the solver does not have to reason bit by bit.
struct ZI {
  z3::context c; z3::solver s; vector<Z3_ast> t[2]; std::vector<char> cls[2]; // cls: 0 unknown 1 in the fragment 2 not
  ZI():s(c,z3::solver::simple()){}
  bool in(const Expr*e,int sg){ auto&v=cls[sg]; if(v.size()<=e->id) v.resize(exprCount()+64,0); if(v[e->id]) return v[e->id]==1; bool r=in1(e,sg); cls[sg][e->id]=r?1:2; return r; }
  bool in1(const Expr*e,int sg){
    if(e->fp) return false;
    switch(e->op){
    case E_CONST: return true; case E_SYM: return e->w>1; 
    case E_SEXT: return sg&&e->k[0]->w>1&&in(e->k[0],sg);
    case E_ZEXT: return !sg&&e->k[0]->w>1&&in(e->k[0],sg);
    case E_AND: case E_OR: case E_XOR: return e->w==1&&in(e->k[0],sg)&&in(e->k[1],sg);
    case E_EQ: return in(e->k[0],sg)&&in(e->k[1],sg);
    case E_ULT: case E_ULE: return !sg&&in(e->k[0],sg)&&in(e->k[1],sg);
    case E_SLT: case E_SLE: return sg&&in(e->k[0],sg)&&in(e->k[1],sg);
    case E_ITE: return in(e->k[0],sg)&&in(e->k[1],sg)&&in(e->k[2],sg);
    } return false; }
  z3::expr tr(const Expr*e,int sg){
    auto&v=t[sg]; if(e->id<v.size()&&v[e->id]) return z3::expr(c,v[e->id]);
    z3::expr r(c); auto K=[&](int i){ return tr(e->k[i],sg); };
    switch(e->op){
    case E_CONST: r= e->w==1?c.bool_val(e->c!=0): sg?c.int_val((int64_t)sx64(e->c,e->w)):c.int_val((uint64_t)e->c); break;
    case E_SYM: r=c.int_const(((sg?"s":"u")+std::to_string(e->c)+"_"+std::to_string(e->w)).c_str()); break;
    case E_SEXT: case E_ZEXT: r=K(0); break;
    case E_AND: r=K(0)&&K(1); break; case E_OR: r=K(0)||K(1); break; case E_XOR: r=K(0)!=K(1); break;
    case E_EQ: r=K(0)==K(1); break;
    case E_ULT: case E_SLT: r=K(0)<K(1); break; case E_ULE: case E_SLE: r=K(0)<=K(1); break;
    case E_ITE: r=z3::ite(K(0),K(1),K(2)); break;
    }
    if(v.size()<=e->id) v.resize(exprCount()+64,nullptr); Z3_inc_ref(c,r); v[e->id]=r; return r; }
};
ZI*zi=nullptr;
struct CacheEnt { SatRes r; vector<std::pair<uint32_t,uint64_t>> vals; };
struct VH { size_t operator()(const vector<uint32_t>&v)const{ size_t h=v.size(); for(auto x:v) h=(h^x)*0x100000001b3ull+0x9e3779b9; return h; } };
std::unordered_map<vector<uint32_t>,CacheEnt,VH> cache;
void collect(const Expr*e,std::set<const Expr*>&seen,vector<const Expr*>&syms,vector<const Expr*>*order=nullptr){
  if(!seen.insert(e).second) return;
  for(auto k:e->k) if(k) collect(k,seen,syms,order);
  if(e->op==E_SYM) syms.push_back(e);
  if(order) order->push_back(e);
}
// SMT-LIB 2 text of a query (standard QF_BVFP only), for the external portfolio
std::string smtlib(const vector<const Expr*>&cs, vector<const Expr*>&syms){
  std::set<const Expr*> seen; vector<const Expr*> order; syms.clear();
  for(auto e:cs) collect(e,seen,syms,&order);
  std::ostringstream o; o<<"(set-logic QF_BVFP)\n(set-option :produce-models true)\n";
  auto B=[&](const Expr*e){ return "b"+std::to_string(e->id); }; auto F=[&](const Expr*e){ return "f"+std::to_string(e->id); };
  auto fsort=[](unsigned w){ return w==64?std::string("11 53"):std::string("8 24"); };
  for(auto e:order){
    unsigned w=e->w; std::string bw="(_ BitVec "+std::to_string(w)+")";
    auto a=e->k[0],b=e->k[1],c=e->k[2];
    std::string body; bool fpres=false;
    auto bin=[&](const char*op){ body=std::string("(")+op+" "+B(a)+" "+B(b)+")"; };
    auto cmp=[&](const char*op,bool f){ body=std::string("(ite (")+op+" "+(f?F(a):B(a))+" "+(f?F(b):B(b))+") #b1 #b0)"; };
    auto fb=[&](const char*op){ body=std::string("(")+op+" RNE "+F(a)+" "+F(b)+")"; fpres=true; };
    switch(e->op){
    case E_CONST: { body="#b"; for(int i=w-1;i>=0;i--) body+=((e->c>>i)&1)?'1':'0'; break; }
    case E_SYM: o<<"(declare-const "<<B(e)<<" "<<bw<<")\n"; break;
    case E_ADD: bin("bvadd"); break; case E_SUB: bin("bvsub"); break; case E_MUL: bin("bvmul"); break;
    case E_UDIV: bin("bvudiv"); break; case E_SDIV: bin("bvsdiv"); break; case E_UREM: bin("bvurem"); break; case E_SREM: bin("bvsrem"); break;
    case E_AND: bin("bvand"); break; case E_OR: bin("bvor"); break; case E_XOR: bin("bvxor"); break;
    case E_SHL: bin("bvshl"); break; case E_LSHR: bin("bvlshr"); break; case E_ASHR: bin("bvashr"); break;
    case E_EQ: cmp("=",false); break; case E_ULT: cmp("bvult",false); break; case E_ULE: cmp("bvule",false); break;
    case E_SLT: cmp("bvslt",false); break; case E_SLE: cmp("bvsle",false); break;
    case E_ITE: body="(ite (= "+B(a)+" #b1) "+B(b)+" "+B(c)+")"; break;
    case E_ZEXT: body="((_ zero_extend "+std::to_string(w-a->w)+") "+B(a)+")"; break;
    case E_SEXT: body="((_ sign_extend "+std::to_string(w-a->w)+") "+B(a)+")"; break;
    case E_EXTRACT: body="((_ extract "+std::to_string(e->aux+w-1)+" "+std::to_string(e->aux)+") "+B(a)+")"; break;
    case E_CONCAT: body="(concat "+B(a)+" "+B(b)+")"; break;
    case E_FADD: fb("fp.add"); break; case E_FSUB: fb("fp.sub"); break; case E_FMUL: fb("fp.mul"); break; case E_FDIV: fb("fp.div"); break;
    case E_FNEG: body="(bvxor "+B(a)+" #b1"+std::string(w-1,'0')+")"; break;
    case E_FABS: body="(bvand "+B(a)+" #b0"+std::string(w-1,'1')+")"; break;
    case E_FSQRT: body="(fp.sqrt RNE "+F(a)+")"; fpres=true; break;
    case E_FRND: { const char*rm[]={"RTN","RTP","RTZ","RNE","RNA"}; body=std::string("(fp.roundToIntegral ")+rm[e->aux]+" "+F(a)+")"; fpres=true; break; }
    case E_FEQ: cmp("fp.eq",true); break; case E_FLT: cmp("fp.lt",true); break; case E_FLE: cmp("fp.leq",true); break;
    case E_FUNO: body="(ite (or (fp.isNaN "+F(a)+") (fp.isNaN "+F(b)+")) #b1 #b0)"; break;
    case E_F2F: body="((_ to_fp "+fsort(w)+") RNE "+F(a)+")"; fpres=true; break;
    case E_SITOFP: body="((_ to_fp "+fsort(w)+") RNE "+B(a)+")"; fpres=true; break;
    case E_UITOFP: body="((_ to_fp_unsigned "+fsort(w)+") RNE "+B(a)+")"; fpres=true; break;
    case E_FPTOSI: body="((_ fp.to_sbv "+std::to_string(w)+") RTZ "+F(a)+")"; break;
    case E_FPTOUI: body="((_ fp.to_ubv "+std::to_string(w)+") RTZ "+F(a)+")"; break;
    default: return "";
    }
    if(fpres){
      o<<"(define-fun "<<F(e)<<" () (_ FloatingPoint "<<fsort(w)<<") "<<body<<")\n";
      o<<"(declare-const "<<B(e)<<" "<<bw<<")\n(assert (= ((_ to_fp "<<fsort(w)<<") "<<B(e)<<") "<<F(e)<<"))\n";
    } else {
      if(e->op!=E_SYM) o<<"(define-fun "<<B(e)<<" () "<<bw<<" "<<body<<")\n";
      if((w==64||w==32)&&e->fp|| w==64||w==32) o<<"(define-fun "<<F(e)<<" () (_ FloatingPoint "<<fsort(w)<<") ((_ to_fp "<<fsort(w)<<") "<<B(e)<<"))\n";
    }
  }
  for(auto e:cs) o<<"(assert (= "<<B(e)<<" #b1))\n";
  o<<"(check-sat)\n";
  if(!syms.empty()){ o<<"(get-value ("; for(auto s:syms) o<<B(s)<<" "; o<<"))\n"; }
  return o.str();
}
SatRes parseOut(const std::string&out,const vector<const Expr*>&syms,Model&m){
  if(out.find("(error")!=std::string::npos && out.compare(0,5,"unsat")!=0) return UNKNOWN;
  if(out.compare(0,5,"unsat")==0) return UNSAT;
  if(out.compare(0,3,"sat")!=0) return UNKNOWN;
  for(auto s:syms){
    std::string key="(b"+std::to_string(s->id)+" "; size_t p=out.find(key); if(p==std::string::npos) return UNKNOWN; p+=key.size();
    uint64_t v=0; if(out.compare(p,2,"#b")==0){ for(p+=2;out[p]=='0'||out[p]=='1';p++) v=v*2+(out[p]-'0'); }
    else if(out.compare(p,2,"#x")==0){ for(p+=2;isxdigit(out[p]);p++) v=v*16+(isdigit(out[p])?out[p]-'0':(tolower(out[p])-'a'+10)); }
    else return UNKNOWN;
    if(m.size()<=s->c) m.resize(s->c+1,0); m[s->c]=v;
  }
  return SAT;
}
SatRes external(const vector<const Expr*>&cs,Model&m){
  vector<const Expr*> syms; std::string txt=smtlib(cs,syms); if(txt.empty()) return UNKNOWN;
  SS.external++;
  static int ctr=0; std::string base=solverTmpDir+"/q"+std::to_string(getpid())+"_"+std::to_string(ctr++);
  { std::ofstream f(base+".smt2"); f<<txt; }
  const char* cmds[][5]={{"cvc5","--quiet","--fp-exp",nullptr},{"z3-new","-smt2",nullptr},{"z3","-smt2",nullptr}};
  const int N=3; pid_t pids[N]; 
  for(int i=0;i<N;i++){ pids[i]=fork(); if(pids[i]==0){ setpgid(0,0); int fd=open((base+".o"+std::to_string(i)).c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600); dup2(fd,1); dup2(fd,2); int dn=open("/dev/null",O_RDONLY); dup2(dn,0);
      alarm((unsigned)std::max(1.0,std::min<double>(extTimeout,*solverStop-solverNow()))); struct rlimit lim{3ull<<30,3ull<<30}; setrlimit(RLIMIT_AS,&lim); vector<char*> av; for(int j=0;cmds[i][j];j++) av.push_back((char*)cmds[i][j]); std::string fn=base+".smt2"; av.push_back((char*)fn.c_str()); av.push_back(nullptr); execvp(av[0],av.data()); _exit(127);} }
  SatRes res=UNKNOWN; int left=N; auto t0=std::chrono::steady_clock::now(); bool done[N]={};
  while(left>0&&res==UNKNOWN){
    for(int i=0;i<N;i++) if(!done[i]){ int st; if(waitpid(pids[i],&st,WNOHANG)==pids[i]){ done[i]=true; left--; std::ifstream f(base+".o"+std::to_string(i)); std::stringstream b; b<<f.rdbuf(); Model mm=m; SatRes r=parseOut(b.str(),syms,mm); if(r!=UNKNOWN){ if(r==SAT){ bool good=true; for(auto e:cs) if(!evalExpr(e,mm)) good=false; if(!good) continue; m=mm; } res=r; break; } } }
    if(res==UNKNOWN&&left>0){ usleep(5000); if(std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>extTimeout+2||solverNow()>*solverStop) break; }
  }
  for(int i=0;i<N;i++) if(!done[i]){ kill(-pids[i],SIGKILL); kill(pids[i],SIGKILL); int st; waitpid(pids[i],&st,0); }
  unlink((base+".smt2").c_str()); for(int i=0;i<N;i++) unlink((base+".o"+std::to_string(i)).c_str());
  return res;
}
}
bool solverBrief=false; static double noStop=1e300; const volatile double*solverStop=&noStop; double solverNow(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
void solverResetAfterFork(){ z=nullptr; zi=nullptr; }
SatRes solve(const vector<const Expr*>&cs0,Model&m,bool important){
  vector<const Expr*> cs; bool fp=false,math=false;
  for(auto e:cs0){ if(isC(e)){ if(!e->c) return UNSAT; continue; } cs.push_back(e); fp|=e->fp; math|=e->math; }
  if(cs.empty()) return SAT;
  std::sort(cs.begin(),cs.end(),[](const Expr*a,const Expr*b){return a->id<b->id;}); cs.erase(std::unique(cs.begin(),cs.end()),cs.end());
  vector<uint32_t> key; for(auto e:cs) key.push_back(e->id);
  auto it=cache.find(key);
  if(it!=cache.end()&&(it->second.r!=UNKNOWN||!important)){ SS.cacheHits++; if(it->second.r==SAT) for(auto&p:it->second.vals){ if(m.size()<=p.first) m.resize(p.first+1,0); m[p.first]=p.second; } return it->second.r; }
  auto t0=std::chrono::steady_clock::now(); SS.queries++;
  if(!z){ z3::set_param("memory_max_size",3000); z=new Z; }
  SatRes r=UNKNOWN; CacheEnt ce; 
  std::set<const Expr*> seen; vector<const Expr*> syms; for(auto e:cs) collect(e,seen,syms);
  static int strikes=0; const bool weak=fp&&!important&&(solverBrief||strikes>=3); // branches met while states are still handed out, or after some were undecided, get little effort: the paths known to be feasible come first
  size_t fpOps=0; if(fp) for(auto e:seen) if(e->op>=E_FADD&&e->op<=E_FPTOUI) fpOps+=e->op==E_FDIV||e->op==E_FREM?8:e->op==E_FMUL?2:1; 
  auto icp=[&](uint64_t budget){ if(solverNow()>*solverStop) return; SS.icp++; Model mm=m; r=icpSolve(cs,mm,budget); if(r==SAT) m=mm; };
  if(fp) icp(weak?(solverBrief?30000:3000):math?4000000:30000);
  // the solvers translate floating point to bits: not within reach beyond some tens of operations, in memory either
  if(r==UNKNOWN && !weak && !math && fpOps<=60 && solverNow()<*solverStop) try{
    auto grab=[&](z3::solver&s){
      z3::params p(z->c); p.set("rlimit",(unsigned)inprocRlimit); s.set(p);
      s.push(); for(auto e:cs) s.add(z->asBV(e)==z->c.bv_val(1,1));
      z3::check_result cr=s.check();
      if(cr==z3::sat){ z3::model mo=s.get_model(); Model mm=m;
        for(auto sy:syms){ z3::expr v=mo.eval(z->asBV(sy),true); uint64_t val=0; if(!v.is_numeral_u64(val)) val=0; if(mm.size()<=sy->c) mm.resize(sy->c+1,0); mm[sy->c]=val; }
        bool good=true; for(auto e:cs) if(!evalExpr(e,mm)) good=false;
        if(good){ m=mm; r=SAT; } else r=UNKNOWN; }
      else if(cr==z3::unsat) r=UNSAT; else r=UNKNOWN;
      s.pop();
    };
    if(!fp) for(int sg=1;sg>=0&&r==UNKNOWN;sg--){
      if(!zi) zi=new ZI; bool ok=true; for(auto e:cs) if(!zi->in(e,sg)){ ok=false; break; } if(!ok) continue;
      z3::params p(zi->c); p.set("rlimit",(unsigned)inprocRlimit); zi->s.set(p); zi->s.push();
      for(auto sy:syms) if(sy->w>1){ z3::expr v=zi->tr(sy,sg); if(sg){ zi->s.add(v>=zi->c.int_val((int64_t)-(int64_t)(1ull<<(sy->w-1)))); zi->s.add(v<=zi->c.int_val((int64_t)(maskw(sy->w)>>1))); } else { zi->s.add(v>=0); zi->s.add(v<=zi->c.int_val((uint64_t)maskw(sy->w))); } }
      for(auto e:cs) zi->s.add(zi->tr(e,sg));
      z3::check_result cr=zi->s.check();
      if(cr==z3::sat){ z3::model mo=zi->s.get_model(); Model mm=m;
        for(auto sy:syms){ z3::expr v=mo.eval(zi->tr(sy,sg),true); uint64_t val=0; int64_t iv=0; if(sg){ if(v.is_numeral_i64(iv)) val=(uint64_t)iv&maskw(sy->w); } else if(!v.is_numeral_u64(val)) val=0; if(mm.size()<=sy->c) mm.resize(sy->c+1,0); mm[sy->c]=val; }
        bool good=true; for(auto e:cs) if(!evalExpr(e,mm)) good=false;
        if(good){ m=mm; r=SAT; } }
      else if(cr==z3::unsat) r=UNSAT;
      zi->s.pop(); SS.order++;
    }
    if(r==UNKNOWN&&!fp) grab(z->s);
    if(r==UNKNOWN){ z3::solver s(z->c, fp?"QF_FPBV":"QF_BV"); grab(s); }
  }catch(z3::exception&e){ r=UNKNOWN; z=new Z; }
  if(r==UNKNOWN && !weak && fp && !math) icp(400000);
  if(r==UNKNOWN && !weak && !math && (important||fp) && fpOps<=200 && solverNow()<*solverStop){ r=external(cs,m); }
  if(r==UNKNOWN && !weak && fp && !math) icp(4000000);
  if(r==UNKNOWN && fp && !important && !solverBrief) strikes++;
  SS.time+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
  if(r==SAT) SS.sat++; else if(r==UNSAT) SS.unsat++; else SS.unknown++;
  ce.r=r; if(r==SAT) for(auto s:syms) ce.vals.push_back({(uint32_t)s->c,m[s->c]});
  if(r!=UNKNOWN||!weak) cache[key]=ce; return r;
}
