#include "solver.h"
#include <z3.h>
#include <unistd.h>
#include <chrono>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
SolverStats SS;
static Z3_context ctx; static Z3_solver slv; static std::vector<Z3_ast> keep; static Z3_sort bv[129];
static unsigned g_to;
struct CacheEnt { Res r; std::vector<std::pair<int,u8>> vals; };
static std::unordered_map<std::string,CacheEnt> cache;
static void errh(Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error %s\n",Z3_get_error_msg(c,e)); _exit(70); }
void solverInit(unsigned to){
  g_to=to;
  Z3_config cfg=Z3_mk_config(); char b[32]; snprintf(b,sizeof b,"%u",to); Z3_set_param_value(cfg,"timeout",b); Z3_set_param_value(cfg,"model","true");
  ctx=Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx,errh);
  slv=Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,"QF_BV")); Z3_solver_inc_ref(ctx,slv);
}
static Z3_sort bvs(int w){ if(!bv[w]) bv[w]=Z3_mk_bv_sort(ctx,w); return bv[w]; }
static Z3_ast num(int w,u128 v){ 
  if(w<=64) return Z3_mk_unsigned_int64(ctx,(u64)v,bvs(w));
  Z3_ast hi=Z3_mk_unsigned_int64(ctx,(u64)(v>>64),bvs(w-64)), lo=Z3_mk_unsigned_int64(ctx,(u64)v,bvs(64)); return Z3_mk_concat(ctx,hi,lo); }
static Z3_ast tr(E e);
static Z3_ast b2bv(Z3_ast b){ return Z3_mk_ite(ctx,b,num(1,1),num(1,0)); }
static Z3_ast symv(int v){ char n[16]; snprintf(n,sizeof n,"v%d",v); return Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,n),bvs(8)); }
static Z3_ast inset(int v,const Bits&b){
  // disjunction of ranges (of the set or its complement, whichever is smaller)
  auto ranges=[&](const Bits&x){ std::vector<std::pair<int,int>> r; for(int i=0;i<256;){ if(!x.has(i)){i++;continue;} int j=i; while(j<255&&x.has(j+1)) j++; r.push_back({i,j}); i=j+1; } return r; };
  auto r=ranges(b); auto rn=ranges(~b); bool neg=rn.size()<r.size(); auto&q=neg?rn:r;
  std::vector<Z3_ast> d; Z3_ast s=symv(v);
  for(auto&p:q){ if(p.first==p.second) d.push_back(Z3_mk_eq(ctx,s,num(8,p.first)));
    else { Z3_ast c[2]={Z3_mk_bvuge(ctx,s,num(8,p.first)),Z3_mk_bvule(ctx,s,num(8,p.second))}; d.push_back(Z3_mk_and(ctx,2,c)); } }
  Z3_ast o=d.size()==1?d[0]:Z3_mk_or(ctx,d.size(),d.data());
  return neg?Z3_mk_not(ctx,o):o;
}
static Z3_ast tabtree(const u64*t,int w,Z3_ast s,int lo,int n){
  bool same=true; for(int i=1;i<n;i++) if(t[lo+i]!=t[lo]){ same=false; break; }
  if(same) return num(w,t[lo]);
  int h=n/2; int bit=__builtin_ctz(h);
  Z3_ast c=Z3_mk_eq(ctx,Z3_mk_extract(ctx,bit,bit,s),num(1,1));
  return Z3_mk_ite(ctx,c,tabtree(t,w,s,lo+h,h),tabtree(t,w,s,lo,h));
}
// boolean translation for width-1 expressions
static Z3_ast trb(E e){
  if(e->w!=1) abort();
  if(e->z) return (Z3_ast)e->z;
  Z3_ast r;
  switch(e->op){
    case CONST: r=e->c?Z3_mk_true(ctx):Z3_mk_false(ctx); break;
    case INSET: r=inset(e->var,e->bits); break;
    case AND: { Z3_ast c[2]={trb(e->k[0]),trb(e->k[1])}; r=Z3_mk_and(ctx,2,c); break; }
    case OR: { Z3_ast c[2]={trb(e->k[0]),trb(e->k[1])}; r=Z3_mk_or(ctx,2,c); break; }
    case XOR: if(isC(e->k[1])) r=Z3_mk_not(ctx,trb(e->k[0])); else r=Z3_mk_xor(ctx,trb(e->k[0]),trb(e->k[1])); break;
    case ITE: r=Z3_mk_ite(ctx,trb(e->k[0]),trb(e->k[1]),trb(e->k[2])); break;
    case EQ: r=Z3_mk_eq(ctx,tr(e->k[0]),tr(e->k[1])); break;
    case ULT: r=Z3_mk_bvult(ctx,tr(e->k[0]),tr(e->k[1])); break;
    case ULE: r=Z3_mk_bvule(ctx,tr(e->k[0]),tr(e->k[1])); break;
    case SLT: r=Z3_mk_bvslt(ctx,tr(e->k[0]),tr(e->k[1])); break;
    case SLE: r=Z3_mk_bvsle(ctx,tr(e->k[0]),tr(e->k[1])); break;
    case EXTRACT: r=Z3_mk_eq(ctx,Z3_mk_extract(ctx,(int)e->c,(int)e->c,tr(e->k[0])),num(1,1)); break;
    case ADD: case SUB: r=Z3_mk_xor(ctx,trb(e->k[0]),trb(e->k[1])); break;
    case MUL: { Z3_ast c[2]={trb(e->k[0]),trb(e->k[1])}; r=Z3_mk_and(ctx,2,c); break; }
    default: fprintf(stderr,"trb: op %d\n",e->op); abort();
  }
  Z3_inc_ref(ctx,r); e->z=r; return r;
}
static Z3_ast tr(E e){
  if(e->w==1) return b2bv(trb(e));
  if(e->z) return (Z3_ast)e->z;
  Z3_ast r;
#define K(i) tr(e->k[i])
  switch(e->op){
    case CONST: r=num(e->w,e->c); break;
    case SYM: r=symv(e->var); break;
    case TAB: r=tabtree(e->tab,e->w,symv(e->var),0,256); break;
    case ADD: r=Z3_mk_bvadd(ctx,K(0),K(1)); break; case SUB: r=Z3_mk_bvsub(ctx,K(0),K(1)); break;
    case MUL: r=Z3_mk_bvmul(ctx,K(0),K(1)); break; case UDIV: r=Z3_mk_bvudiv(ctx,K(0),K(1)); break;
    case SDIV: r=Z3_mk_bvsdiv(ctx,K(0),K(1)); break; case UREM: r=Z3_mk_bvurem(ctx,K(0),K(1)); break;
    case SREM: r=Z3_mk_bvsrem(ctx,K(0),K(1)); break; case AND: r=Z3_mk_bvand(ctx,K(0),K(1)); break;
    case OR: r=Z3_mk_bvor(ctx,K(0),K(1)); break; case XOR: r=Z3_mk_bvxor(ctx,K(0),K(1)); break;
    case SHL: r=Z3_mk_bvshl(ctx,K(0),K(1)); break; case LSHR: r=Z3_mk_bvlshr(ctx,K(0),K(1)); break;
    case ASHR: r=Z3_mk_bvashr(ctx,K(0),K(1)); break; case CONCAT: r=Z3_mk_concat(ctx,K(0),K(1)); break;
    case EXTRACT: r=Z3_mk_extract(ctx,(int)e->c+e->w-1,(int)e->c,K(0)); break;
    case ZEXT: r=Z3_mk_zero_ext(ctx,e->w-e->k[0]->w,K(0)); break;
    case SEXT: r=Z3_mk_sign_ext(ctx,e->w-e->k[0]->w,K(0)); break;
    case ITE: r=Z3_mk_ite(ctx,trb(e->k[0]),K(1),K(2)); break;
    default: fprintf(stderr,"tr: op %d\n",e->op); abort();
  }
  Z3_inc_ref(ctx,r); e->z=r; return r;
}
void pcAddVar(PC&pc){ pc.dom.push_back(fullBits()); pc.model.push_back(0x61); }
void pcAdd(PC&pc,E c){
  if(isC(c)) return;
  if(c->op==AND){ pcAdd(pc,c->k[0]); pcAdd(pc,c->k[1]); return; }
  if(c->op==XOR&&isC(c->k[1])&&c->k[0]->op==OR){ pcAdd(pc,mkNot(c->k[0]->k[0])); pcAdd(pc,mkNot(c->k[0]->k[1])); return; }
  if(c->op==INSET){ pc.dom[c->var]=pc.dom[c->var]&c->bits; return; }
  for(E x:pc.multi) if(x==c) return;
  pc.multi.push_back(c);
}
bool pcModelOk(const PC&pc){
  for(size_t i=0;i<pc.dom.size();i++) if(!pc.dom[i].has(pc.model[i])) return false;
  newEpoch(); for(E x:pc.multi) if(!evalExpr(x,pc.model.data())) return false; return true;
}
static Res z3query(PC&pc,E c,std::vector<u8>&mo){
  // slice
  Sup s=c->sup; std::vector<char> in(pc.multi.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<pc.multi.size();i++) if(!in[i]&&pc.multi[i]->sup.inter(s)){ in[i]=1; s|=pc.multi[i]->sup; ch=true; } }
  std::vector<u32> key; std::vector<E> cs; cs.push_back(c);
  for(size_t i=0;i<pc.multi.size();i++) if(in[i]) cs.push_back(pc.multi[i]);
  for(size_t v=0;v<pc.dom.size();v++) if(s.has(v)&&!pc.dom[v].full()) cs.push_back(mkInset(v,pc.dom[v]));
  for(E e:cs) key.push_back(e->id); std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end());
  std::string ks((char*)key.data(),key.size()*4);
  auto it=cache.find(ks);
  if(it!=cache.end()){ SS.cache_hits++; if(it->second.r==SAT){ mo=pc.model; for(auto&p:it->second.vals) if(p.first<(int)mo.size()) mo[p.first]=p.second; } return it->second.r; }
  auto t0=std::chrono::steady_clock::now();
  SS.z3_queries++;
  Z3_solver_push(ctx,slv);
  for(E e:cs) Z3_solver_assert(ctx,slv,trb(e));
  Z3_lbool r=Z3_solver_check(ctx,slv);
  CacheEnt ce; 
  if(r==Z3_L_TRUE){
    SS.z3_sat++; ce.r=SAT;
    Z3_model m=Z3_solver_get_model(ctx,slv); Z3_model_inc_ref(ctx,m);
    mo=pc.model;
    for(size_t v=0;v<pc.dom.size();v++) if(s.has(v)){ Z3_ast out; 
      if(Z3_model_eval(ctx,m,symv(v),true,&out)){ u64 x=0; Z3_get_numeral_uint64(ctx,out,&x); mo[v]=(u8)x; ce.vals.push_back({(int)v,(u8)x}); } }
    Z3_model_dec_ref(ctx,m);
  } else if(r==Z3_L_FALSE){ SS.z3_unsat++; ce.r=UNSAT; } else { SS.z3_unknown++; ce.r=UNKNOWN; }
  Z3_solver_pop(ctx,slv,1);
  double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); SS.z3_time+=dt;
  if(dt>0.05&&getenv("VP_SLOWQ")) fprintf(stderr,"slow query %.2fs: %s\n",dt,exprStr(c,5).c_str());
  if(ce.r==SAT){ // sanity: the model must satisfy the query
    newEpoch(); for(E e:cs) if(!evalExpr(e,mo.data())){ fprintf(stderr,"ENGINE BUG: z3 model does not satisfy %s\n",exprStr(e).c_str()); _exit(71); }
  }
  if(cache.size()>400000) cache.clear();
  cache[ks]=ce; return ce.r;
}
// Single-byte queries: every distinct (domain, set) pair is put to z3 once; the verdict is cached.
struct BK{ Bits a,b; bool operator==(const BK&o) const { return a==o.a&&b==o.b; } };
struct BKH{ size_t operator()(const BK&k) const { u64 h=0; for(int i=0;i<4;i++){ h=(h^k.a.b[i])*0x9E3779B97F4A7C15ull; h^=h>>29; h=(h^k.b.b[i])*0xff51afd7ed558ccdULL; h^=h>>31; } return h; } };
static std::unordered_map<BK,bool,BKH> bcache;
bool domSat(const Bits&dom,const Bits&set){
  SS.dom_queries++;
  BK k{dom,set}; auto it=bcache.find(k); if(it!=bcache.end()) return it->second;
  auto t0=std::chrono::steady_clock::now(); SS.z3_queries++;
  Z3_solver_push(ctx,slv);
  auto as=[&](const Bits&b){ if(b.full()) return; Z3_solver_assert(ctx,slv,b.empty()?Z3_mk_false(ctx):inset(0,b)); };
  as(dom); as(set);
  Z3_lbool r=Z3_solver_check(ctx,slv); Z3_solver_pop(ctx,slv,1);
  SS.z3_time+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
  bool mine=!(dom&set).empty();
  if(r==Z3_L_TRUE) SS.z3_sat++; else if(r==Z3_L_FALSE) SS.z3_unsat++;
  if((r==Z3_L_TRUE)!=mine){ fprintf(stderr,"ENGINE BUG: byte-domain verdict differs from z3\n"); _exit(73); }
  bcache[k]=mine; return mine;
}
Res pcCheck(PC&pc,E c,std::vector<u8>&mo,bool force){
  if(isC(c)){ mo=pc.model; return c->c?SAT:UNSAT; }
  newEpoch();
  if(!force&&evalExpr(c,pc.model.data())){ SS.model_hits++; mo=pc.model; return SAT; }
  if(c->op==INSET&&!force){
    Bits t=pc.dom[c->var]&c->bits; if(!domSat(pc.dom[c->var],c->bits)) return UNSAT;
    std::vector<E> inv; for(E x:pc.multi) if(x->sup.has(c->var)) inv.push_back(x);
    if(inv.empty()){ mo=pc.model; mo[c->var]=t.first(); return SAT; }
    mo=pc.model; int tries=0; size_t cost=0; for(E x:inv) cost+=x->size;
    if(cost<20000) for(int v=0;v<256&&tries<24;v++) if(t.has(v)){ tries++; mo[c->var]=v; newEpoch(); bool ok=true; for(E x:inv) if(!evalExpr(x,mo.data())){ ok=false; break; } if(ok){ SS.repair_hits++; return SAT; } }
  }
  return z3query(pc,c,mo);
}
bool pcValues(PC&pc,E e,std::vector<std::pair<u64,std::vector<u8>>>&out,size_t limit){
  out.clear();
  if(isC(e)){ out.push_back({(u64)e->c,pc.model}); return true; }
  if(e->var>=0&&e->w<=64){
    const u64*t=unaryTab(e); std::unordered_map<u64,Bits> g; std::vector<u64> order;
    for(int i=0;i<256;i++) if(pc.dom[e->var].has(i)){ auto it=g.find(t[i]); if(it==g.end()){ order.push_back(t[i]); Bits b={{0,0,0,0}}; b.set(i); g[t[i]]=b; } else it->second.set(i); }
    for(u64 v:order){ std::vector<u8> mo; Res r=pcCheck(pc,mkInset(e->var,g[v]),mo); if(r==UNKNOWN) return false; if(r==SAT){ out.push_back({v,mo}); if(out.size()>limit) return false; } }
    return true;
  }
  E excl=mkConst(1,1);
  while(true){
    std::vector<u8> mo; Res r=pcCheck(pc,excl,mo); if(r==UNKNOWN) return false; if(r==UNSAT) return true;
    newEpoch(); u64 v=(u64)evalExpr(e,mo.data()); out.push_back({v,mo}); if(out.size()>limit) return false;
    excl=mkBin(AND,excl,mkNot(mkEq(e,mkConst(e->w,v))));
  }
}
