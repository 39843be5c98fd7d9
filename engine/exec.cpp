// Symbolic executor: forks paths on symbolic branches, decides feasibility and assertions with the solver.
#include "ir.h"
#include "solver.h"
#include <deque>
#include <set>
#include <map>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
static Module M; static u64 g_nextId=1;
static const u64 OFFM=(1ull<<IDSHIFT)-1;
// ---------------------------------------------------------------- memory
struct Obj { u32 rc=1; u32 flags=0; u64 size=0; std::vector<u8> d; std::vector<E> s; bool anysym=false; };
enum { OF_CONST=1, OF_HEAP=2, OF_STACK=4, OF_GLOBAL=8 };
static const int CH=128;
struct Chunk { u32 rc=1; Obj*o[CH]; Chunk(){ memset(o,0,sizeof o); } };
static void objDrop(Obj*o){ if(o&&--o->rc==0) delete o; }
struct Mem {
  std::vector<Chunk*> top;
  Mem(){} 
  Mem(const Mem&m):top(m.top){ for(auto c:top) if(c) c->rc++; }
  Mem&operator=(const Mem&)=delete;
  ~Mem(){ for(auto c:top) dropc(c); }
  static void dropc(Chunk*c){ if(c&&--c->rc==0){ for(auto o:c->o) objDrop(o); delete c; } }
  Obj* get(u64 id) const { u64 t=id/CH; if(t>=top.size()||!top[t]) return nullptr; return top[t]->o[id%CH]; }
  Chunk* wchunk(u64 id){ u64 t=id/CH; if(t>=top.size()) top.resize(t+1,nullptr); Chunk*&c=top[t]; if(!c){ c=new Chunk; return c; }
    if(c->rc>1){ Chunk*n=new Chunk; for(int i=0;i<CH;i++){ n->o[i]=c->o[i]; if(n->o[i]) n->o[i]->rc++; } c->rc--; c=n; } return c; }
  Obj* getw(u64 id){ Chunk*c=wchunk(id); Obj*&o=c->o[id%CH]; if(o&&o->rc>1){ Obj*n=new Obj(*o); n->rc=1; o->rc--; o=n; } return o; }
  void put(u64 id,Obj*o){ Chunk*c=wchunk(id); objDrop(c->o[id%CH]); c->o[id%CH]=o; }
};
struct Frame { u32 rc=1; Func*f; i32 blk=0,ip=0; i32 retDst=-1; u8 retN=0; const Ins*call=nullptr; std::vector<Val> regs; std::vector<u64> allocas; };
struct FrameP { Frame*p; FrameP(Frame*f=nullptr):p(f){} FrameP(const FrameP&o):p(o.p){ if(p) p->rc++; } FrameP(FrameP&&o) noexcept:p(o.p){ o.p=nullptr; }
  FrameP&operator=(FrameP o){ std::swap(p,o.p); return *this; } ~FrameP(){ if(p&&--p->rc==0) delete p; }
  Frame* operator->() const { return p; } };
struct State { Mem mem; std::vector<FrameP> fr; PC pc; u64 steps=0; u64 nextId; std::vector<u64> freeIds; std::vector<Val> obs; std::vector<u32> reach; u32 id=0; u32 nchecks=0; std::vector<u32> origin;
  State():nextId(0){} State(const State&)=default; };
// ---------------------------------------------------------------- globals of a job
static std::deque<State*> work; static bool g_stopOnFork=false; static std::vector<State*>* g_forked=nullptr;
static u64 n_paths=0,n_forks=0,n_steps=0,n_incomplete=0; static std::map<std::string,u64> incompl; static std::map<std::string,u64> ends; static std::map<std::string,u64> checks, reachc;
static std::vector<std::string> strtab; static std::map<std::string,u32> stridx;
static u32 strId(const std::string&s){ auto it=stridx.find(s); if(it!=stridx.end()) return it->second; u32 i=strtab.size(); strtab.push_back(s); stridx[s]=i; return i; }
static std::set<std::string> g_only,g_not; // VP_ONLY, VP_NOT: the only assertions that count (others belong to another property)
static FILE*out=nullptr,*pathf=nullptr; static std::map<std::string,int> vcount; static u64 g_maxsteps=60000000; static double g_deadline=1e18; static bool g_quiet=false; static u64 g_pathlog=100000; static u64 g_nontrivial=0;
static bool g_stop=false; static u64 g_memlimit_kb=0;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static inline i32 FB_sl(i32 o,int i){ return o>=0?o+i:o-i; }
struct PathEnd { std::string kind; std::string msg; };
struct Suspend{};
static std::string jesc(const std::string&s){ std::string r; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
static std::string hex(const std::vector<u8>&m){ std::string r; char b[3]; for(u8 x:m){ snprintf(b,3,"%02x",x); r+=b; } return r; }
static std::string lineOf(const Frame*f){ const Block&B=f->f->blocks[f->blk]; int ip=f->ip; if(ip>=(int)B.ins.size()) ip=B.ins.size()-1; auto&l=M.lines[B.ins[ip].line]; return l.first+":"+std::to_string(l.second); }
static std::string stackStr(State&s){ std::string r; for(int i=(int)s.fr.size()-1;i>=0;i--){ if(r.size()) r+=" < "; r+=lineOf(s.fr[i].p); if(r.size()>1500) break; } return r; }
static void violation(State&s,const std::string&label,const std::vector<u8>&model,const std::string&extra){
  if(g_quiet) return;
  int&c=vcount[label]; if(c++>=5) return;
  fprintf(out,"{\"type\":\"violation\",\"label\":\"%s\",\"model\":\"%s\",\"where\":\"%s\"}\n",jesc(label).c_str(),hex(model).c_str(),jesc(extra).c_str()); fflush(out);
}
static inline E toE(const Val&v,int w){ return v.e?v.e:mkConst(w,v.c); }
static inline Val fromE(E e){ if(e->op==CONST&&e->w<=64) return Val{nullptr,(u64)e->c}; return Val{e,0}; }
static inline u64 mk64(int w){ return w>=64?~0ull:((1ull<<w)-1); }
// ---------------------------------------------------------------- interpreter
struct Interp {
  State&s; Frame*F; Val*R; const Val*K;
  Interp(State&st):s(st){ sync(); }
  void sync(){ FrameP&p=s.fr.back(); if(p.p->rc>1){ Frame*n=new Frame(*p.p); n->rc=1; p=FrameP(n); } F=p.p; R=F->regs.data(); K=F->f->consts.data(); }
  inline const Val& V(i32 o) const { return o>=0?R[o]:K[-1-o]; }
  [[noreturn]] void end(const char*k,const std::string&m){ throw PathEnd{k,m}; }
  State* clone(){ State*n=new State(s); n_forks++; return n; }
  void push(State*n){ if(g_stopOnFork) g_forked->push_back(n); else work.push_back(n); }
  // decide a boolean; forks when both are possible.  Returns the side this state takes.
  // onOther(State*) is applied to the clone that takes the other side (it must move it forward).
  template<class FN> bool branch(E c,FN onOther){
    if(isC(c)) return c->c;
    if(c->op==INSET){ if(!domSat(s.pc.dom[c->var],c->bits)) return false; if(!domSat(s.pc.dom[c->var],~c->bits)) return true; }
    newEpoch(); bool side=evalExpr(c,s.pc.model.data())!=0; E nc=mkNot(c); E other=side?nc:c; E mine=side?c:nc;
    std::vector<u8> mo; Res r=pcCheck(s.pc,other,mo);
    if(r==SAT){ State*n=clone(); n->pc.model=mo; pcAdd(n->pc,other); pcAdd(s.pc,mine); onOther(n,!side); push(n); if(g_stopOnFork){ forkedSelf=true; } }
    else if(r==UNKNOWN){ incompl["solver unknown"]++; n_incomplete++; pcAdd(s.pc,mine); }
    return side;
  }
  bool forkedSelf=false;
  // make operand o concrete, forking over every feasible value; instruction is re-executed
  u64 concrete(i32 o,int w){
    const Val&v=V(o); if(!v.e) return v.c;
    if(v.e->op==CONST) return (u64)v.e->c;
    std::vector<std::pair<u64,std::vector<u8>>> vals; E e=v.e;
    if(!pcValues(s.pc,e,vals,5000)){ end("incomplete","too many values for "+exprStr(e,3)); }
    if(vals.empty()) end("incomplete","no values");
    for(size_t i=1;i<vals.size();i++){ State*n=clone(); n->pc.model=vals[i].second; pcAdd(n->pc,mkEq(e,mkConst(e->w,vals[i].first))); Frame*nf=wframe(n); nf->regs[o]=Val{nullptr,vals[i].first}; push(n); }
    s.pc.model=vals[0].second; if(vals.size()>1) pcAdd(s.pc,mkEq(e,mkConst(e->w,vals[0].first)));
    R[o]=Val{nullptr,vals[0].first};
    if(vals.size()>1&&g_stopOnFork) throw Suspend{};
    return vals[0].first;
  }
  static Frame* wframe(State*n){ FrameP&p=n->fr.back(); if(p.p->rc>1){ Frame*x=new Frame(*p.p); x->rc=1; p=FrameP(x); } return p.p; }
  static void gotoEdge(Frame*f,const Edge&e){
    Val*R=f->regs.data(); const Val*K=f->f->consts.data(); size_t n=e.copies.size();
    if(n==1){ i32 sr=e.copies[0].src; R[e.copies[0].dst]=sr>=0?R[sr]:K[-1-sr]; }
    else if(n){ Val tmp[64]; std::vector<Val> big; Val*t=tmp; if(n>64){ big.resize(n); t=big.data(); }
      for(size_t i=0;i<n;i++){ i32 sr=e.copies[i].src; t[i]=sr>=0?R[sr]:K[-1-sr]; } for(size_t i=0;i<n;i++) R[e.copies[i].dst]=t[i]; }
    f->blk=e.block; f->ip=0; f->f->blocks[e.block].hit=true;
  }
  Obj* obj(u64 a,u64 n,u64&off){ Obj*o=s.mem.get(a>>IDSHIFT); off=a&OFFM; if(!o||off+n>o->size){ char b[96]; snprintf(b,96,"invalid access addr=%llx size=%llu objsize=%lld",(unsigned long long)a,(unsigned long long)n,o?(long long)o->size:-1ll); end("memerr",b); } return o; }
  Obj* objw(u64 a,u64 n,u64&off){ Obj*o=obj(a,n,off); if(o->flags&OF_CONST) end("memerr","write to constant"); return s.mem.getw(a>>IDSHIFT); }
  Val rd(Obj*o,u64 off,int w){
    int nb=(w+7)/8;
    bool sym=false; if(o->anysym) for(int i=0;i<nb;i++) if(o->s[off+i]){ sym=true; break; }
    if(!sym){ if(nb<=8){ u64 v=0; memcpy(&v,&o->d[off],nb); return Val{nullptr,v&mk64(w)}; } u128 v=0; memcpy(&v,&o->d[off],nb>16?16:nb); return fromE(mkConst(w,v)); }
    E e=nullptr; for(int i=0;i<nb;i++){ E b=o->s[off+i]; if(!b) b=mkConst(8,o->d[off+i]); else if(b->op==SYM){ const Bits&d=s.pc.dom[b->var]; if(d.count()==1) b=mkConst(8,d.first()); } e=e?mkConcat(b,e):b; }
    if(w!=nb*8) e=mkExtract(e,0,w); return fromE(e);
  }
  void wr(Obj*o,u64 off,int w,const Val&v){
    int nb=(w+7)/8;
    if(!v.e){ u64 x=v.c&mk64(w); memcpy(&o->d[off],&x,nb); if(o->anysym) for(int i=0;i<nb;i++) o->s[off+i]=nullptr; return; }
    E e=v.e; if(e->w!=w){ if(e->w>w) e=mkExtract(e,0,w); else e=mkZext(e,w); } if(w!=nb*8) e=mkZext(e,nb*8);
    for(int i=0;i<nb;i++){ E b=mkExtract(e,8*i,8); if(isC(b)){ o->d[off+i]=(u8)b->c; if(o->anysym) o->s[off+i]=nullptr; } else { if(!o->anysym){ o->anysym=true; o->s.assign(o->size,nullptr); } o->s[off+i]=b; } }
  }
  E rdb(Obj*o,u64 i){ if(o->anysym&&o->s[i]){ E b=o->s[i]; if(b->op==SYM){ const Bits&d=s.pc.dom[b->var]; if(d.count()==1) return mkConst(8,d.first()); } return b; } return mkConst(8,o->d[i]); }
  u64 alloc(u64 size,u32 flags){
    if(size>(1u<<28)) end("incomplete","huge allocation "+std::to_string(size));
    u64 id; if((flags&OF_STACK)&&!s.freeIds.empty()){ id=s.freeIds.back(); s.freeIds.pop_back(); } else { id=s.nextId; s.nextId+=1+(size>>IDSHIFT); }
    Obj*o=new Obj; o->size=size; o->flags=flags; o->d.assign(size,0); s.mem.put(id,o); return id<<IDSHIFT;
  }
  void dealloc(u64 a){ if(!a) return; u64 id=a>>IDSHIFT; Obj*o=s.mem.get(id); if(!o||!(o->flags&OF_HEAP)||(a&OFFM)) end("memerr","invalid free"); s.mem.put(id,nullptr); }
  void copyMem(u64 dst,u64 src,u64 n){
    if(!n) return; u64 so,dof; Obj*os=obj(src,n,so); 
    bool sym=false; if(os->anysym) for(u64 i=0;i<n;i++) if(os->s[so+i]){ sym=true; break; }
    std::vector<u8> tb(os->d.begin()+so,os->d.begin()+so+n); std::vector<E> ts; if(sym) ts.assign(os->s.begin()+so,os->s.begin()+so+n);
    Obj*od=objw(dst,n,dof); memcpy(&od->d[dof],tb.data(),n);
    if(sym){ if(!od->anysym){ od->anysym=true; od->s.assign(od->size,nullptr); } std::copy(ts.begin(),ts.end(),od->s.begin()+dof); }
    else if(od->anysym) std::fill(od->s.begin()+dof,od->s.begin()+dof+n,nullptr);
  }
  // ------------------------------------------------ arithmetic on Vals
  static Val bin(Op op,int w,const Val&a,const Val&b){
    if(!a.e&&!b.e&&w<=64){
      u64 m=mk64(w),x=a.c,y=b.c;
      switch(op){ case ADD: return {nullptr,(x+y)&m}; case SUB: return {nullptr,(x-y)&m}; case MUL: return {nullptr,(x*y)&m}; case AND: return {nullptr,x&y}; case OR: return {nullptr,x|y}; case XOR: return {nullptr,x^y};
        case SHL: return {nullptr,y>=(u64)w?0:(x<<y)&m}; case LSHR: return {nullptr,y>=(u64)w?0:x>>y}; default: return {nullptr,(u64)foldBin(op,w,x,y)}; }
    }
    return fromE(mkBin(op,toE(a,w),toE(b,w)));
  }
  static Val icmp(int p,int w,const Val&a,const Val&b){
    if(!a.e&&!b.e){ u64 x=a.c,y=b.c; i64 sxx=(i64)(x<<(64-w))>>(64-w),sy=(i64)(y<<(64-w))>>(64-w); bool r;
      switch(p){ case P_EQ:r=x==y;break; case P_NE:r=x!=y;break; case P_UGT:r=x>y;break; case P_UGE:r=x>=y;break; case P_ULT:r=x<y;break; case P_ULE:r=x<=y;break; case P_SGT:r=sxx>sy;break; case P_SGE:r=sxx>=sy;break; case P_SLT:r=sxx<sy;break; default:r=sxx<=sy; }
      return {nullptr,r}; }
    E x=toE(a,w),y=toE(b,w); E r;
    switch(p){ case P_EQ:r=mkEq(x,y);break; case P_NE:r=mkNot(mkEq(x,y));break; case P_UGT:r=mkBin(ULT,y,x);break; case P_UGE:r=mkBin(ULE,y,x);break; case P_ULT:r=mkBin(ULT,x,y);break; case P_ULE:r=mkBin(ULE,x,y);break;
      case P_SGT:r=mkBin(SLT,y,x);break; case P_SGE:r=mkBin(SLE,y,x);break; case P_SLT:r=mkBin(SLT,x,y);break; default:r=mkBin(SLE,x,y); }
    return fromE(r);
  }
  static Val cast(int k,int w2,int w,const Val&a){
    if(!a.e&&w<=64&&w2<=64){ switch(k){ case C_TRUNC: return {nullptr,a.c&mk64(w)}; case C_ZEXT: return a; default: { i64 x=(i64)(a.c<<(64-w2))>>(64-w2); return {nullptr,(u64)x&mk64(w)}; } } }
    E e=toE(a,w2); return fromE(k==C_TRUNC?mkExtract(e,0,w):k==C_ZEXT?mkZext(e,w):mkSext(e,w));
  }
  // address = sum of terms: make the unary term with the fewest values concrete (forking), keep the rest symbolic
  bool splitAddr(i32 o){
    E e=V(o).e; std::vector<E> terms,st{e}; while(!st.empty()){ E x=st.back(); st.pop_back(); if(x->op==ADD){ st.push_back(x->k[0]); st.push_back(x->k[1]); } else if(x->op==CONCAT&&isC(x->k[1])&&x->k[0]->op==ADD){ st.push_back(mkConcat(x->k[0]->k[0],x->k[1])); st.push_back(mkConcat(x->k[0]->k[1],mkConst(x->k[1]->w,0))); }
      else if(x->op==ZEXT&&x->k[0]->op==ADD&&knownZeroHigh(x->k[0]->k[0])>0&&knownZeroHigh(x->k[0]->k[1])>0){ st.push_back(mkZext(x->k[0]->k[0],x->w)); st.push_back(mkZext(x->k[0]->k[1],x->w)); }
      else if(x->op==ZEXT&&x->k[0]->op==CONCAT&&isC(x->k[0]->k[1])&&x->k[0]->k[0]->op==ADD&&knownZeroHigh(x->k[0]->k[0]->k[0])>0&&knownZeroHigh(x->k[0]->k[0]->k[1])>0){ E c=x->k[0]; st.push_back(mkZext(mkConcat(c->k[0]->k[0],c->k[1]),x->w)); st.push_back(mkZext(mkConcat(c->k[0]->k[1],mkConst(c->k[1]->w,0)),x->w)); }
      else terms.push_back(x); }
    if(terms.size()<2) return false;
    int best=-1; size_t bn=1000; for(size_t i=0;i<terms.size();i++) if(terms[i]->var>=0){ const u64*t=unaryTab(terms[i]); std::set<u64> d; for(int v=0;v<256;v++) if(s.pc.dom[terms[i]->var].has(v)) d.insert(t[v]); if(d.size()<bn){ bn=d.size(); best=i; } }
    if(best<0||bn>64) return false;
    E rest=mkConst(64,0); for(size_t i=0;i<terms.size();i++) if((int)i!=best) rest=mkBin(ADD,rest,terms[i]);
    std::vector<std::pair<u64,std::vector<u8>>> vals; if(!pcValues(s.pc,terms[best],vals,300)||vals.empty()) return false;
    E t=terms[best];
    for(size_t i=1;i<vals.size();i++){ State*n=clone(); n->pc.model=vals[i].second; pcAdd(n->pc,mkEq(t,mkConst(64,vals[i].first))); wframe(n)->regs[o]=fromE(mkBin(ADD,rest,mkConst(64,vals[i].first))); push(n); }
    s.pc.model=vals[0].second; if(vals.size()>1) pcAdd(s.pc,mkEq(t,mkConst(64,vals[0].first))); R[o]=fromE(mkBin(ADD,rest,mkConst(64,vals[0].first)));
    if(vals.size()>1&&g_stopOnFork) throw Suspend{};
    return true;
  }
  // symbolic address load
  bool symLoad(const Ins&I){
    const Val&p=V(I.a); E e=p.e;
    if(e->var<0||I.leaves.size()>16) return false;
    const u64*t=unaryTab(e); const Bits dom=s.pc.dom[e->var];
    // every address must lie inside one object, contents concrete or the loaded bytes buildable
    std::vector<std::vector<u64>> tabs(I.leaves.size(),std::vector<u64>(256,0)); bool conc=true; u32 last=0;
    for(auto&l:I.leaves) if(l.w>64) return false;
    for(int v=0;v<256&&conc;v++) if(dom.has(v)){ u64 a=t[v]; for(size_t k=0;k<I.leaves.size();k++){ int nb=(I.leaves[k].w+7)/8; u64 ad=a+I.leaves[k].off; Obj*o=s.mem.get(ad>>IDSHIFT); u64 off=ad&OFFM; if(!o||off+nb>o->size){ conc=false; break; } Val x=rd(o,off,I.leaves[k].w); if(x.e){ conc=false; break; } tabs[k][v]=x.c; } last=v; }
    if(!conc) return false;
    for(size_t k=0;k<I.leaves.size();k++){ for(int v=0;v<256;v++) if(!dom.has(v)) tabs[k][v]=tabs[k][last]; R[I.dst+k]=fromE(mkTab(e->var,I.leaves[k].w,tabs[k].data())); }
    return true;
  }
  void setRet(const Ins&I,Val v){ if(I.dst>=0) R[I.dst]=v; }
  void retv(const Ins&I,u64 c){ if(I.dst>=0) R[I.dst]=Val{nullptr,c}; }
  void intrinsic(const Ins&I);
  bool external(Func*f,const Ins&I); // returns true when handled
  void enter(Func*f,const Ins&I);
  void run();
  std::string cstr(u64 p,u64 n){ std::string r; u64 off; if(!n) return r; Obj*o=obj(p,n,off); r.assign((char*)&o->d[off],n); return r; }
};
static inline bool starts(const std::string&s,const char*p){ return s.compare(0,strlen(p),p)==0; }
void Interp::intrinsic(const Ins&I){
  const std::string&n=*I.msg; const char*p=n.c_str()+5; int na=I.args.size();
  auto A=[&](int i)->const Val&{ return V(I.args[i]); };
  int w=na?I.aw[0]:0;
  if(starts(p,"memcpy")||starts(p,"memmove")){ u64 len=concrete(I.args[2],64); if(!len) return; u64 d=concrete(I.args[0],64),sr=concrete(I.args[1],64); copyMem(d,sr,len); return; }
  if(starts(p,"memset")){ u64 len=concrete(I.args[2],64); if(!len) return; u64 d=concrete(I.args[0],64); u64 off; Obj*o=objw(d,len,off); const Val&v=A(1); if(!v.e){ memset(&o->d[off],(int)v.c,len); if(o->anysym) std::fill(o->s.begin()+off,o->s.begin()+off+len,nullptr); } else for(u64 i=0;i<len;i++) wr(o,off+i,8,v); return; }
  int lanes=I.dst>=0?I.n:1;
  // dst slots: set in builder via n
  auto lane2=[&](auto fn){ int L=na/2; for(int i=0;i<L;i++) R[I.dst+i]=fn(A(i),A(L+i)); };
  (void)lanes;
  if(strstr(p,".with.overflow")){
    const Val&a=A(0),&b=A(1); E x=toE(a,w),y=toE(b,w); E r,ov; bool sg=p[0]=='s'; 
    bool add=starts(p+1,"add"),sub=starts(p+1,"sub");
    if(!a.e&&!b.e){ u128 X=a.c,Y=b.c; i128 SX=sx(X,w),SY=sx(Y,w); bool o; u128 rv; if(add){ rv=X+Y; o=sg?((SX+SY)!=sx((X+Y)&maskw(w),w)):(rv>>w)!=0; } else if(sub){ rv=X-Y; o=sg?((SX-SY)!=sx((X-Y)&maskw(w),w)):X<Y; } else { rv=X*Y; o=sg?((SX*SY)!=sx((u128)(SX*SY)&maskw(w),w)):(rv>>w)!=0; }
      R[I.dst]=Val{nullptr,(u64)(rv&maskw(w))}; R[I.dst+1]=Val{nullptr,o}; return; }
    if(add){ r=mkBin(ADD,x,y); if(sg){ E s2=mkBin(ADD,mkSext(x,w+1),mkSext(y,w+1)); ov=mkNot(mkEq(mkExtract(s2,w,1),mkExtract(s2,w-1,1))); } else ov=mkBin(ULT,r,isC(y)?y:x); }
    else if(sub){ r=mkBin(SUB,x,y); if(sg){ E s2=mkBin(SUB,mkSext(x,w+1),mkSext(y,w+1)); ov=mkNot(mkEq(mkExtract(s2,w,1),mkExtract(s2,w-1,1))); } else ov=mkBin(ULT,x,y); }
    else { r=mkBin(MUL,x,y); if(!sg&&(isC(x)||isC(y))){ if(isC(x)) std::swap(x,y); ov=y->c?mkBin(ULT,mkConst(w,maskw(w)/y->c),x):mkConst(1,0); }
      else if(w<=64){ E f=mkBin(MUL,sg?mkSext(x,2*w):mkZext(x,2*w),sg?mkSext(y,2*w):mkZext(y,2*w)); ov=sg?mkNot(mkEq(f,mkSext(mkExtract(f,0,w),2*w))):mkNot(mkEq(mkExtract(f,w,w),mkConst(w,0))); } else end("incomplete","wide mul"); }
    R[I.dst]=fromE(r); R[I.dst+1]=fromE(ov); return;
  }
  if(starts(p,"umax")||starts(p,"umin")||starts(p,"smax")||starts(p,"smin")){ bool sg=p[0]=='s',mx=p[2]=='a'; lane2([&](const Val&a,const Val&b){ Val c=icmp(sg?(mx?P_SGT:P_SLT):(mx?P_UGT:P_ULT),w,a,b); if(!c.e) return c.c?a:b; return fromE(mkIte(c.e,toE(a,w),toE(b,w))); }); return; }
  if(starts(p,"usub.sat")){ lane2([&](const Val&a,const Val&b){ Val c=icmp(P_ULT,w,a,b); Val d=bin(SUB,w,a,b); if(!c.e) return c.c?Val{nullptr,0}:d; return fromE(mkIte(c.e,mkConst(w,0),toE(d,w))); }); return; }
  if(starts(p,"uadd.sat")){ lane2([&](const Val&a,const Val&b){ Val d=bin(ADD,w,a,b); Val c=icmp(P_ULT,w,d,a); if(!c.e) return c.c?Val{nullptr,mk64(w)}:d; return fromE(mkIte(c.e,mkConst(w,maskw(w)),toE(d,w))); }); return; }
  if(starts(p,"ucmp")||starts(p,"scmp")){ bool sg=p[0]=='s'; int rw=I.w?I.w:8; Val l=icmp(sg?P_SLT:P_ULT,w,A(0),A(1)),e=icmp(P_EQ,w,A(0),A(1)); R[I.dst]=fromE(mkIte(toE(l,1),mkConst(rw,maskw(rw)),mkIte(toE(e,1),mkConst(rw,0),mkConst(rw,1)))); return; }
  if(starts(p,"abs")){ int L=na-1; for(int i=0;i<L;i++){ Val c=icmp(P_SLT,w,A(i),Val{nullptr,0}); Val ng=bin(SUB,w,Val{nullptr,0},A(i)); R[I.dst+i]=!c.e?(c.c?ng:A(i)):fromE(mkIte(c.e,toE(ng,w),toE(A(i),w))); } return; }
  if(starts(p,"bswap")){ for(int i=0;i<na;i++){ E x=toE(A(i),w),r=nullptr; for(int b=w-8;b>=0;b-=8){ E y=mkExtract(x,b,8); r=r?mkConcat(y,r):y; } R[I.dst+i]=fromE(r); } return; }
  if(starts(p,"bitreverse")){ for(int i=0;i<na;i++){ E x=toE(A(i),w),r=nullptr; for(int b=w-1;b>=0;b--){ E y=mkExtract(x,b,1); r=r?mkConcat(y,r):y; } R[I.dst+i]=fromE(r); } return; }
  if(starts(p,"ctpop")){ for(int i=0;i<na;i++){ const Val&a=A(i); if(!a.e){ R[I.dst+i]=Val{nullptr,(u64)__builtin_popcountll(a.c)}; continue; } E r=mkConst(w,0); for(int b=0;b<w;b++) r=mkBin(ADD,r,mkZext(mkExtract(a.e,b,1),w)); R[I.dst+i]=fromE(r); } return; }
  if(starts(p,"ctlz")||starts(p,"cttz")){ bool lz=p[2]=='l'; int L=na-1; for(int i=0;i<L;i++){ const Val&a=A(i); if(!a.e){ u64 r; if(!a.c) r=w; else r=lz?__builtin_clzll(a.c)-(64-w):__builtin_ctzll(a.c); R[I.dst+i]=Val{nullptr,r}; continue; }
      E r=mkConst(w,w); if(lz){ for(int b=0;b<w;b++) r=mkIte(mkExtract(a.e,b,1),mkConst(w,w-1-b),r); } else { for(int b=w-1;b>=0;b--) r=mkIte(mkExtract(a.e,b,1),mkConst(w,b),r); } R[I.dst+i]=fromE(r); } return; }
  if(starts(p,"fshl")||starts(p,"fshr")){ bool l=p[3]=='l'; int L=na/3; for(int i=0;i<L;i++){ Val sh=bin(UREM,w,A(2*L+i),Val{nullptr,(u64)w}); E x=toE(A(i),w),y=toE(A(L+i),w); E c=mkConcat(x,y); E sz=mkZext(toE(sh,w),2*w); if(2*w>128) end("incomplete","fsh wide"); E r=l?mkExtract(mkBin(SHL,c,sz),w,w):mkExtract(mkBin(LSHR,c,sz),0,w); R[I.dst+i]=fromE(r); } return; }
  if(starts(p,"load.relative")){ u64 b=concrete(I.args[0],64),o=concrete(I.args[1],64); auto it=M.relptr.find(b+o); if(it==M.relptr.end()) end("incomplete","load.relative"); R[I.dst]=Val{nullptr,it->second}; return; }
  if(starts(p,"vector.reduce.")){ const char*q=p+14; Op o=starts(q,"add")?ADD:starts(q,"or")?OR:starts(q,"and")?AND:starts(q,"xor")?XOR:starts(q,"mul")?MUL:CONST; 
    if(o!=CONST){ Val r=A(0); for(int i=1;i<na;i++) r=bin(o,w,r,A(i)); R[I.dst]=r; return; }
    bool sg=q[0]=='s',mx=q[2]=='a'; Val r=A(0); for(int i=1;i<na;i++){ Val c=icmp(sg?(mx?P_SGT:P_SLT):(mx?P_UGT:P_ULT),w,r,A(i)); r=!c.e?(c.c?r:A(i)):fromE(mkIte(c.e,toE(r,w),toE(A(i),w))); } R[I.dst]=r; return; }
  if(starts(p,"x86.sse2.psad.bw")){ int L=na/2; for(int g=0;g<L/8;g++){ Val r{nullptr,0}; for(int i=0;i<8;i++){ Val a=A(g*8+i),b=A(L+g*8+i); Val c=icmp(P_ULT,8,a,b); E d=mkIte(toE(c,1),mkBin(SUB,toE(b,8),toE(a,8)),mkBin(SUB,toE(a,8),toE(b,8))); r=bin(ADD,64,r,fromE(mkZext(d,64))); } R[I.dst+g]=r; } return; }
  if(starts(p,"x86.sse2.pmadd.wd")){ int L=na/2; for(int g=0;g<L/2;g++){ Val r{nullptr,0}; for(int i=0;i<2;i++){ E a=mkSext(toE(A(g*2+i),16),32),b=mkSext(toE(A(L+g*2+i),16),32); r=bin(ADD,32,r,fromE(mkBin(MUL,a,b))); } R[I.dst+g]=r; } return; }
  if(starts(p,"threadlocal.address")){ R[I.dst]=A(0); return; }
  if(starts(p,"expect")){ R[I.dst]=A(0); return; }
  if(starts(p,"is.constant")){ R[I.dst]=Val{nullptr,0}; return; }
  if(starts(p,"x86.xgetbv")){ R[I.dst]=Val{nullptr,0}; return; }
  if(starts(p,"trap")) end("panic","llvm.trap");
  end("incomplete","intrinsic "+n);
}
enum Ext { X_NONE=0, X_UNK, X_SYM, X_ASSUME, X_CHECK, X_OBS, X_REACH, X_CONCR, X_EQ, X_MALLOC, X_CALLOC, X_REALLOC, X_FREE, X_RALLOC, X_RALLOCZ, X_RREALLOC, X_RDEALLOC, X_PMEMALIGN, X_MEMCMP, X_BCMP, X_STRLEN, X_CLOCK, X_GETENV, X_PANIC, X_ABORT, X_ERRNO, X_ZERO, X_SYSCALL, X_MEMCPY, X_MEMSET, X_ISSYM, X_DUMP };
static int extKind(const Func*f){
  const std::string&n=f->name;
  static const std::map<std::string,int> m={{"vp_sym",X_SYM},{"vp_assume",X_ASSUME},{"vp_check",X_CHECK},{"vp_obs",X_OBS},{"vp_reach",X_REACH},{"vp_concr",X_CONCR},{"vp_eq",X_EQ},{"vp_dump",X_DUMP},
   {"malloc",X_MALLOC},{"calloc",X_CALLOC},{"realloc",X_REALLOC},{"free",X_FREE},{"__rust_alloc",X_RALLOC},{"__rust_alloc_zeroed",X_RALLOCZ},{"__rust_realloc",X_RREALLOC},{"__rust_dealloc",X_RDEALLOC},
   {"__rdl_alloc",X_RALLOC},{"__rdl_alloc_zeroed",X_RALLOCZ},{"__rdl_realloc",X_RREALLOC},{"__rdl_dealloc",X_RDEALLOC},{"posix_memalign",X_PMEMALIGN},{"memcmp",X_MEMCMP},{"bcmp",X_BCMP},{"strlen",X_STRLEN},{"memcpy",X_MEMCPY},{"memmove",X_MEMCPY},{"memset",X_MEMSET},
   {"clock_gettime",X_CLOCK},{"getenv",X_GETENV},{"abort",X_ABORT},{"__errno_location",X_ERRNO},{"syscall",X_SYSCALL},{"getrandom",X_SYSCALL},
   {"pthread_key_create",X_ZERO},{"pthread_setspecific",X_ZERO},{"__cxa_thread_atexit_impl",X_ZERO},{"sched_yield",X_ZERO},{"rust_begin_unwind",X_PANIC},{"rust_panic",X_PANIC}};
  auto it=m.find(n); if(it!=m.end()) return it->second;
  if(n.find("core9panicking9panic_fmt")!=std::string::npos||n.find("9panicking19panic_cannot_unwind")!=std::string::npos||n.find("begin_panic_handler")!=std::string::npos||n.find("rust_panic_with_hook")!=std::string::npos||n.find("handle_alloc_error")!=std::string::npos||n.find("core9panicking14panic_nounwind")!=std::string::npos||n.find("__rust_start_panic")!=std::string::npos||n.find("rust_end_short_backtrace")!=std::string::npos||n.find("core9panicking")!=std::string::npos) return X_PANIC;
  return f->decl?X_UNK:X_NONE;
}
bool Interp::external(Func*f,const Ins&I){
  if(!f->ext){ f->ext=1+extKind(f); }
  int k=f->ext-1; if(k==X_NONE) return false;
  auto A=[&](int i)->const Val&{ return V(I.args[i]); };
  auto C=[&](int i){ return concrete(I.args[i],I.aw[i]); };
  switch(k){
    case X_SYM: { u64 p=C(0),n=C(1); if(!n) break; u64 off; Obj*o=objw(p,n,off); for(u64 i=0;i<n;i++){ int v=s.pc.dom.size(); if(v>=MAXVARS) end("incomplete","too many symbolic bytes"); pcAddVar(s.pc); wr(o,off+i,8,Val{mkSym(v),0}); } break; }
    case X_ASSUME: { const Val&c=A(0); if(!c.e){ if(!c.c) end("assume",""); break; } E b=mkNot(mkEq(c.e,mkConst(c.e->w,0))); if(isC(b)){ if(!b->c) end("assume",""); break; }
      std::vector<u8> mo; Res r=pcCheck(s.pc,b,mo); if(r==UNSAT) end("assume",""); if(r==UNKNOWN) end("incomplete","solver unknown in assume"); s.pc.model=mo; pcAdd(s.pc,b); break; }
    case X_CHECK: { u64 lp=C(1),ln=C(2); const Val&c=A(0); std::string label=cstr(lp,ln); if((!g_only.empty()&&!g_only.count(label))||g_not.count(label)) break; s.nchecks++; if(!g_quiet) checks[label]++;
      E b=c.e?mkNot(mkEq(c.e,mkConst(c.e->w,0))):mkConst(1,c.c!=0);
      if(isC(b)){ if(!b->c){ violation(s,label,s.pc.model,stackStr(s)); end("violation",label); } break; }
      SS.check_queries++; std::vector<u8> mo; Res r=pcCheck(s.pc,mkNot(b),mo,true);
      if(r==UNKNOWN) end("incomplete","solver unknown in check "+label);
      if(r==SAT){ violation(s,label,mo,stackStr(s)); Res r2=pcCheck(s.pc,b,mo); if(r2!=SAT) end("violation",label); s.pc.model=mo; pcAdd(s.pc,b); }
      break; }
    case X_OBS: { Val v=A(0); s.obs.push_back(v); break; }
    case X_REACH: { u64 lp=C(0),ln=C(1); s.reach.push_back(strId(cstr(lp,ln))); break; }
    case X_CONCR: { u64 v=C(0); retv(I,v); break; }
    case X_DUMP: { const Val&v=A(0); fprintf(stderr,"DUMP %s\n",v.e?exprStr(v.e).c_str():std::to_string(v.c).c_str()); break; }
    case X_EQ: { u64 p=C(0),q=C(1),n=C(2); if(!n){ retv(I,1); break; } u64 o1,o2; Obj*a=obj(p,n,o1),*b=obj(q,n,o2); E r=mkConst(1,1); for(u64 i=0;i<n;i++) r=mkBin(AND,r,mkEq(rdb(a,o1+i),rdb(b,o2+i))); setRet(I,fromE(mkZext(r,32))); break; }
    case X_MALLOC: retv(I,alloc(C(0),OF_HEAP)); break;
    case X_CALLOC: retv(I,alloc(C(0)*C(1),OF_HEAP)); break;
    case X_RALLOC: case X_RALLOCZ: retv(I,alloc(C(0),OF_HEAP)); break;
    case X_REALLOC: { u64 p=C(0),n=C(1); u64 q=alloc(n,OF_HEAP); if(p){ Obj*o=s.mem.get(p>>IDSHIFT); if(!o) end("memerr","realloc"); u64 m=std::min<u64>(n,o->size); copyMem(q,p,m); dealloc(p); } retv(I,q); break; }
    case X_RREALLOC: { u64 p=C(0),n=C(3); u64 q=alloc(n,OF_HEAP); Obj*o=s.mem.get(p>>IDSHIFT); if(!o) end("memerr","realloc"); u64 m=std::min<u64>(n,o->size); copyMem(q,p,m); dealloc(p); retv(I,q); break; }
    case X_FREE: dealloc(C(0)); break;
    case X_RDEALLOC: dealloc(C(0)); break;
    case X_PMEMALIGN: { u64 pp=C(0),n=C(2); u64 q=alloc(n,OF_HEAP); u64 off; Obj*o=objw(pp,8,off); wr(o,off,64,Val{nullptr,q}); retv(I,0); break; }
    case X_MEMCPY: { u64 n=C(2),d=C(0),q=C(1); copyMem(d,q,n); retv(I,d); break; }
    case X_MEMSET: { u64 n=C(2),d=C(0); Val v=A(1); if(n){ u64 off; Obj*o=objw(d,n,off); Val b=cast(C_TRUNC,32,8,v); for(u64 i=0;i<n;i++) wr(o,off+i,8,b); } retv(I,d); break; }
    case X_MEMCMP: case X_BCMP: { u64 n=C(2); if(!n){ retv(I,0); break; } u64 p=C(0),q=C(1),o1,o2; Obj*a=obj(p,n,o1),*b=obj(q,n,o2);
      if(k==X_BCMP){ E r=mkConst(1,1); for(u64 i=0;i<n;i++){ r=mkBin(AND,r,mkEq(rdb(a,o1+i),rdb(b,o2+i))); if(isC(r)&&!r->c) break; } setRet(I,fromE(mkZext(mkNot(r),32))); break; }
      E r=mkConst(32,0); 
      u64 stop=n; for(u64 i=0;i<n;i++){ E x=rdb(a,o1+i),y=rdb(b,o2+i); if(isC(x)&&isC(y)&&x!=y){ stop=i+1; break; } }
      for(i64 i=stop-1;i>=0;i--){ E x=rdb(a,o1+i),y=rdb(b,o2+i); r=mkIte(mkEq(x,y),r,mkIte(mkBin(ULT,x,y),mkConst(32,0xffffffffu),mkConst(32,1))); }
      setRet(I,fromE(r)); break; }
    case X_STRLEN: { u64 p=C(0); u64 off; Obj*o=obj(p,1,off); u64 i=0; for(;;i++){ if(off+i>=o->size) end("memerr","strlen"); E b=rdb(o,off+i); if(isC(b)){ if(!b->c) break; continue; }
        // fork on a symbolic byte: the instruction is re-executed in both
        E z=mkEq(b,mkConst(8,0)); std::vector<u8> mo; bool t=branch(z,[](State*,bool){}); if(forkedSelf){ forkedSelf=false; throw Suspend{}; } if(t) break; }
      retv(I,i); break; }
    case X_CLOCK: { u64 p=C(1); u64 off; Obj*o=objw(p,16,off); wr(o,off,64,Val{nullptr,1600000000}); wr(o,off+8,64,Val{nullptr,0}); retv(I,0); break; }
    case X_GETENV: retv(I,0); break;
    case X_ZERO: retv(I,0); break;
    case X_ERRNO: { static u64 ea=0; (void)ea; u64 a=alloc(8,OF_HEAP); retv(I,a); break; }
    case X_SYSCALL: { if(f->name=="syscall"){ u64 nr=C(0); if(nr==318){ retv(I,C(2)); break; } if(nr==202){ retv(I,0); break; } end("incomplete","syscall "+std::to_string(nr)); } retv(I,C(1)); break; }
    case X_PANIC: end("panic",f->name);
    case X_ABORT: end("panic","abort");
    default: end("incomplete","external "+f->name);
  }
  return true;
}
void Interp::enter(Func*f,const Ins&I){
  if(s.fr.size()>4000) end("memerr","stack overflow (call depth 4000)");
  Frame*n=new Frame; n->f=f; n->regs.resize(f->nregs); f->calls++;
  if((int)I.args.size()<f->nargs) end("incomplete","arg count "+f->name);
  for(int i=0;i<f->nargs;i++) n->regs[i]=V(I.args[i]);
  n->retDst=I.dst; n->retN=I.n; n->call=&I; 
  // caller resumes after the call (or at the invoke's normal edge)
  s.fr.push_back(FrameP(n)); f->blocks[0].hit=true; sync();
}
void Interp::run(){
  for(;;){
    const Ins&I=F->f->blocks[F->blk].ins[F->ip];
    if((++s.steps&0xfff)==0){ n_steps+=0x1000; if(s.steps>g_maxsteps) end("limit","step limit"); if((s.steps&0xffff)==0&&now()>g_deadline){ g_stop=true; end("incomplete","time limit"); } }
    switch(I.op){
      case I_BIN: 
        if(I.sub>=UDIV&&I.sub<=SREM) for(int i=0;i<I.n;i++){ const Val&d=V(FB_sl(I.b,i)); if(!d.e&&d.c==0&&I.w<=64) end("memerr","division by zero"); }
        if(I.n==1){ R[I.dst]=bin((Op)I.sub,I.w,V(I.a),V(I.b)); } else for(int i=0;i<I.n;i++) R[I.dst+i]=bin((Op)I.sub,I.w,V(FB_sl(I.a,i)),V(FB_sl(I.b,i)));
        F->ip++; break;
      case I_ICMP: if(I.n==1) R[I.dst]=icmp(I.sub,I.w,V(I.a),V(I.b)); else for(int i=0;i<I.n;i++) R[I.dst+i]=icmp(I.sub,I.w,V(FB_sl(I.a,i)),V(FB_sl(I.b,i))); F->ip++; break;
      case I_SELECT: { 
        for(int i=0;i<I.n;i++){ const Val&c=V(I.sub?FB_sl(I.a,i):I.a); const Val&x=V(FB_sl(I.b,i)),&y=V(FB_sl(I.c,i)); 
          if(!c.e) R[I.dst+i]=c.c?x:y; else R[I.dst+i]=fromE(mkIte(c.e,toE(x,I.aw[i]),toE(y,I.aw[i]))); }
        F->ip++; break; }
      case I_CAST: if(I.n==1) R[I.dst]=cast(I.sub,I.w2,I.w,V(I.a)); else for(int i=0;i<I.n;i++) R[I.dst+i]=cast(I.sub,I.w2,I.w,V(FB_sl(I.a,i))); F->ip++; break;
      case I_COPY: for(int i=0;i<I.n;i++) R[I.dst+i]=V(FB_sl(I.a,i)); F->ip++; break;
      case I_BITCAST: { int sl=I.sub; // concat source lanes, then split
        if(sl*I.w2>128){ // piecewise
          if(I.w2%I.w==0){ int k=I.w2/I.w; for(int i=0;i<I.n;i++) R[I.dst+i]=fromE(mkExtract(toE(V(FB_sl(I.a,i/k)),I.w2),(i%k)*I.w,I.w)); }
          else if(I.w%I.w2==0){ int k=I.w/I.w2; for(int i=0;i<I.n;i++){ E e=nullptr; for(int j=0;j<k;j++){ E y=toE(V(FB_sl(I.a,i*k+j)),I.w2); e=e?mkConcat(y,e):y; } R[I.dst+i]=fromE(e); } }
          else end("incomplete","bitcast"); }
        else { bool conc=true; for(int i=0;i<sl;i++) if(V(FB_sl(I.a,i)).e) conc=false;
          if(conc){ u128 x=0; for(int i=sl-1;i>=0;i--) x=(x<<I.w2)|(V(FB_sl(I.a,i)).c&mk64(I.w2)); for(int i=0;i<I.n;i++) R[I.dst+i]=fromE(mkConst(I.w,x>>(i*I.w))); }
          else { E e=nullptr; for(int i=0;i<sl;i++){ E y=toE(V(FB_sl(I.a,i)),I.w2); e=e?mkConcat(y,e):y; } for(int i=0;i<I.n;i++) R[I.dst+i]=fromE(mkExtract(e,i*I.w,I.w)); } }
        F->ip++; break; }
      case I_GEP: { Val r=V(I.a); if(!r.e) r.c+=I.imm; else if(I.imm) r=bin(ADD,64,r,Val{nullptr,(u64)I.imm});
        for(auto&g:I.gep){ Val x=V(g.opnd); if(g.w<64) x=cast(C_SEXT,g.w,64,x); else if(g.w>64) x=cast(C_TRUNC,g.w,64,x); if(g.scale!=1) x=bin(MUL,64,x,Val{nullptr,(u64)g.scale}); r=bin(ADD,64,r,x); }
        R[I.dst]=r; F->ip++; break; }
      case I_LOAD: { const Val&p=V(I.a); if(p.e){ if(symLoad(I)){ F->ip++; break; } if(p.e->var==-2&&splitAddr(I.a)) break; concrete(I.a,64); }
        u64 a=V(I.a).c; if(I.leaves.size()==1){ u64 off; int w=I.leaves[0].w; Obj*o=obj(a,(w+7)/8,off); R[I.dst]=rd(o,off,w); }
        else for(size_t k=0;k<I.leaves.size();k++){ u64 off; Obj*o=obj(a+I.leaves[k].off,(I.leaves[k].w+7)/8,off); R[I.dst+k]=rd(o,off,I.leaves[k].w); }
        F->ip++; break; }
      case I_STORE: { u64 a=concrete(I.a,64); for(size_t k=0;k<I.leaves.size();k++){ u64 off; int w=I.leaves[k].w; Obj*o=objw(a+I.leaves[k].off,(w+7)/8,off); wr(o,off,w,V(FB_sl(I.b,k))); } F->ip++; break; }
      case I_ALLOCA: { u64 a=alloc(I.imm,OF_STACK); F->allocas.push_back(a>>IDSHIFT); R[I.dst]=Val{nullptr,a}; F->ip++; break; }
      case I_CALL: {
        if(I.callk==9){ for(int i=0;i<I.n;i++) R[I.dst+i]=Val{nullptr,0}; F->ip++; break; }
        Func*f=I.callee; if(!f){ u64 a=concrete(I.a,64); auto it=M.byaddr.find(a); if(it==M.byaddr.end()) end("memerr","indirect call to non-function"); f=it->second; }
        if(external(f,I)){ if(!I.edges.empty()) gotoEdge(F,I.edges[0]); else F->ip++; break; }
        enter(f,I); break; }
      case I_INTR: intrinsic(I); F->ip++; break;
      case I_BR: gotoEdge(F,I.edges[0]); break;
      case I_CBR: { const Val&c=V(I.a); if(!c.e){ gotoEdge(F,I.edges[c.c?0:1]); break; }
        bool t=branch(c.e,[&](State*n,bool side){ gotoEdge(wframe(n),I.edges[side?0:1]); });
        sync(); gotoEdge(F,I.edges[t?0:1]); if(forkedSelf){ forkedSelf=false; throw Suspend{}; } break; }
      case I_SWITCH: { const Val&v=V(I.a); if(!v.e){ int e=0; for(auto&c:I.cases) if(c.val==v.c){ e=c.edge; break; } gotoEdge(F,I.edges[e]); break; }
        // group by edge, fork per feasible edge
        std::vector<E> conds(I.edges.size(),nullptr); E any=mkConst(1,0);
        for(auto&c:I.cases){ E q=mkEq(v.e,mkConst(I.w,c.val)); if(c.edge){ conds[c.edge]=conds[c.edge]?mkBin(OR,conds[c.edge],q):q; any=mkBin(OR,any,q); } }
        conds[0]=mkNot(any); 
        std::vector<std::pair<int,std::vector<u8>>> feas; 
        for(size_t e=0;e<conds.size();e++) if(conds[e]){ std::vector<u8> mo; Res r=pcCheck(s.pc,conds[e],mo); if(r==SAT) feas.push_back({(int)e,mo}); else if(r==UNKNOWN){ incompl["solver unknown"]++; n_incomplete++; } }
        if(feas.empty()) end("incomplete","switch");
        for(size_t i=1;i<feas.size();i++){ State*n=clone(); n->pc.model=feas[i].second; pcAdd(n->pc,conds[feas[i].first]); gotoEdge(wframe(n),I.edges[feas[i].first]); push(n); }
        s.pc.model=feas[0].second; pcAdd(s.pc,conds[feas[0].first]); sync(); gotoEdge(F,I.edges[feas[0].first]);
        if(feas.size()>1&&g_stopOnFork) throw Suspend{};
        break; }
      case I_RET: {
        if(s.fr.size()==1) end("ok","");
        Val tmp[16]; std::vector<Val> big; Val*t=tmp; if(I.n>16){ big.resize(I.n); t=big.data(); } for(int i=0;i<I.n;i++) t[i]=V(FB_sl(I.a,i));
        for(u64 id:F->allocas){ s.mem.put(id,nullptr); s.freeIds.push_back(id); }
        i32 rd=F->retDst; int rn=F->retN; const Ins*ci=F->call; s.fr.pop_back(); sync();
        if(rd>=0) for(int i=0;i<rn&&i<I.n;i++) R[rd+i]=t[i];
        if(!ci->edges.empty()) gotoEdge(F,ci->edges[0]); else F->ip++;
        break; }
      case I_UNREACH: end("memerr","unreachable executed");
      case I_INSV: for(int i=0;i<I.n;i++) R[I.dst+i]=(i>=I.imm&&i<I.imm+I.c)?V(FB_sl(I.b,i-I.imm)):V(FB_sl(I.a,i)); F->ip++; break;
      case I_SHUF: { Val t[64]; if(I.n>64) end("incomplete","shuffle"); for(int i=0;i<I.n;i++) t[i]=V(I.args[i]); for(int i=0;i<I.n;i++) R[I.dst+i]=t[i]; F->ip++; break; }
      case I_RMW: { u64 a=concrete(I.a,64); u64 off; int nb=(I.w+7)/8; Obj*o=objw(a,nb,off); Val old=rd(o,off,I.w); const Val v=V(I.b); Val nv; 
        switch(I.sub){ case 0: nv=v; break; case 1: nv=bin(ADD,I.w,old,v); break; case 2: nv=bin(SUB,I.w,old,v); break; case 3: nv=bin(AND,I.w,old,v); break; case 4: nv=bin(XOR,I.w,bin(AND,I.w,old,v),Val{nullptr,mk64(I.w)}); break; case 5: nv=bin(OR,I.w,old,v); break; case 6: nv=bin(XOR,I.w,old,v); break;
          default: end("incomplete","atomicrmw"); }
        wr(o,off,I.w,nv); R[I.dst]=old; F->ip++; break; }
      case I_CMPX: { u64 a=concrete(I.a,64); u64 off; int nb=(I.w+7)/8; Obj*o=objw(a,nb,off); Val old=rd(o,off,I.w); Val eq=icmp(P_EQ,I.w,old,V(I.b)); if(eq.e) end("incomplete","symbolic cmpxchg"); if(eq.c) wr(o,off,I.w,V(I.c)); R[I.dst]=old; R[I.dst+1]=eq; F->ip++; break; }
      case I_FENCE: if(!I.edges.empty()) gotoEdge(F,I.edges[0]); else F->ip++; break;
      case I_BAD: end("incomplete",*I.msg);
      default: end("incomplete","op");
    }
  }
}
static void finishPath(State&s,const PathEnd&e){
  if(g_quiet) return;
  ends[e.kind]++;
  if(e.kind=="assume") return;
  n_paths++;
  std::string end=e.kind;
  if(e.kind=="incomplete"){ incompl[e.msg]++; n_incomplete++; if(getenv("VP_DEBUG")) fprintf(stderr,"incomplete: %s @ %s\n",e.msg.c_str(),stackStr(s).c_str()); return; }
  if(e.kind=="panic"||e.kind=="memerr"||e.kind=="limit"){
    std::string where=stackStr(s); std::string top; size_t p=where.find("/repo/src/"); if(p!=std::string::npos){ size_t q=where.find(" <",p); top=where.substr(p,q==std::string::npos?q:q-p); } else top=where.substr(0,where.find(" <"));
    violation(s,e.kind+" at "+top,s.pc.model,e.msg+" @ "+where);
  }
  if(!pcModelOk(s.pc)){ fprintf(stderr,"ENGINE BUG: model invalid at path end\n"); _exit(72); }
  std::set<u32> rs(s.reach.begin(),s.reach.end()); for(u32 r:rs) reachc[strtab[r]]++;
  if(pathf&&g_pathlog>0){ g_pathlog--; newEpoch(); fprintf(pathf,"%s %s ",s.pc.model.empty()?"-":hex(s.pc.model).c_str(),end.c_str()); for(auto&o:s.obs) fprintf(pathf,"%llx,",(unsigned long long)(o.e?(u64)evalExpr(o.e,s.pc.model.data()):o.c)); fprintf(pathf,"\n"); }
}
static void runState(State*s){
  try{ Interp in(*s); in.run(); }
  catch(PathEnd&e){ n_steps+=s->steps&0xfff; finishPath(*s,e); delete s; return; }
  catch(Suspend&){ g_forked->push_back(s); return; }
}
static int job(const std::string&h,int shard,int nsh,const std::string&outp,double tlimit,u64 frontier){
  out=fopen((outp+".json").c_str(),"w"); pathf=fopen((outp+".paths").c_str(),"w");
  double t0=now(); g_deadline=t0+tlimit; solverInit(60000);
  auto it=M.byname.find(h); if(it==M.byname.end()||it->second->decl){ fprintf(out,"{\"type\":\"error\",\"msg\":\"no harness %s\"}\n",h.c_str()); fclose(out); return 3; }
  State*s=new State; s->nextId=g_nextId;
  for(Global*g:M.globals){ Obj*o=new Obj; o->size=g->size; o->d=g->init; o->flags=OF_GLOBAL|(g->isconst?OF_CONST:0); s->mem.put(g->addr>>IDSHIFT,o); }
  Frame*f=new Frame; f->f=it->second; f->regs.resize(f->f->nregs); f->f->blocks[0].hit=true; s->fr.push_back(FrameP(f));
  std::vector<State*> fk; g_forked=&fk;
  if(nsh>1){
    g_stopOnFork=true; g_quiet=shard!=0; std::deque<State*> q; q.push_back(s); u64 lim=frontier;
    while(!q.empty()&&q.size()<lim&&!g_stop){ State*x=q.front(); q.pop_front(); fk.clear(); runState(x); for(auto y:fk) q.push_back(y); }
    g_stopOnFork=false; g_quiet=false; std::vector<State*> all(q.begin(),q.end());
    for(size_t i=0;i<all.size();i++) if((int)(i%nsh)==shard) work.push_back(all[i]); else delete all[i];
  } else work.push_back(s);
  while(!work.empty()&&!g_stop){ State*x=work.back(); work.pop_back(); runState(x);
    if(now()>g_deadline) g_stop=true; }
  bool complete=work.empty()&&!g_stop&&n_incomplete==0;
  for(auto&p:checks) fprintf(out,"{\"type\":\"check\",\"label\":\"%s\",\"n\":%llu}\n",jesc(p.first).c_str(),(unsigned long long)p.second);
  for(auto&p:reachc) fprintf(out,"{\"type\":\"reach\",\"label\":\"%s\",\"n\":%llu}\n",jesc(p.first).c_str(),(unsigned long long)p.second);
  for(auto&p:incompl) fprintf(out,"{\"type\":\"incomplete\",\"msg\":\"%s\",\"n\":%llu}\n",jesc(p.first).c_str(),(unsigned long long)p.second);
  for(auto&p:ends) fprintf(out,"{\"type\":\"end\",\"kind\":\"%s\",\"n\":%llu}\n",jesc(p.first).c_str(),(unsigned long long)p.second);
  { std::set<int> ls; for(Func*fn:M.funcs) for(auto&b:fn->blocks) if(b.hit) for(auto&i:b.ins) if(i.line&&M.lines[i.line].first.find("/repo/src/")!=std::string::npos) ls.insert(i.line);
    std::map<std::string,std::vector<int>> byf; for(int l:ls) byf[M.lines[l].first].push_back(M.lines[l].second);
    for(auto&p:byf){ fprintf(out,"{\"type\":\"lines\",\"file\":\"%s\",\"lines\":[",jesc(p.first).c_str()); std::sort(p.second.begin(),p.second.end()); for(size_t i=0;i<p.second.size();i++) fprintf(out,"%s%d",i?",":"",p.second[i]); fprintf(out,"]}\n"); } 
    u64 nf=0; for(Func*fn:M.funcs) if(!fn->blocks.empty()&&fn->blocks[0].hit) nf++;
    struct rusage ru; getrusage(RUSAGE_SELF,&ru);
    fprintf(out,"{\"type\":\"summary\",\"harness\":\"%s\",\"shard\":%d,\"nshards\":%d,\"complete\":%s,\"paths\":%llu,\"forks\":%llu,\"steps\":%llu,\"ir_functions\":%llu,\"exprs\":%llu,\"z3_queries\":%llu,\"z3_sat\":%llu,\"z3_unsat\":%llu,\"z3_unknown\":%llu,\"z3_time\":%.3f,\"check_queries\":%llu,\"dom_queries\":%llu,\"model_hits\":%llu,\"repair_hits\":%llu,\"cache_hits\":%llu,\"pending\":%llu,\"wall\":%.2f,\"maxrss_kb\":%ld}\n",h.c_str(),shard,nsh,complete?"true":"false",(unsigned long long)n_paths,(unsigned long long)n_forks,(unsigned long long)n_steps,(unsigned long long)nf,(unsigned long long)numExprs(),
     (unsigned long long)SS.z3_queries,(unsigned long long)SS.z3_sat,(unsigned long long)SS.z3_unsat,(unsigned long long)SS.z3_unknown,SS.z3_time,(unsigned long long)SS.check_queries,(unsigned long long)SS.dom_queries,(unsigned long long)SS.model_hits,(unsigned long long)SS.repair_hits,(unsigned long long)SS.cache_hits,(unsigned long long)work.size(),now()-t0,ru.ru_maxrss); }
  fclose(out); fclose(pathf); return 0;
}
int main(int argc,char**argv){
  // engine BITCODE OUTDIR JOBS TLIMIT harness[:shards[:frontier]] ...
  if(argc<6){ fprintf(stderr,"usage: engine bitcode outdir parallel tlimit harness[:shards]...\n"); return 2; }
  setvbuf(stdout,nullptr,_IOLBF,0);
  double t0=now(); std::string err; if(!loadModule(argv[1],M,g_nextId,err)){ fprintf(stderr,"load: %s\n",err.c_str()); return 2; }
  fprintf(stderr,"loaded %zu functions, %llu instructions in %.2fs\n",M.funcs.size(),(unsigned long long)M.nins,now()-t0);
  std::string od=argv[2]; int par=atoi(argv[3]); double tl=atof(argv[4]);
  auto labels=[](const char*o,std::set<std::string>&S){ std::string t; if(o) for(;;o++){ if(*o=='|'||!*o){ S.insert(t); t.clear(); if(!*o) break; } else t+=*o; } };
  labels(getenv("VP_ONLY"),g_only); labels(getenv("VP_NOT"),g_not);
  if(getenv("VP_MAXSTEPS")) g_maxsteps=strtoull(getenv("VP_MAXSTEPS"),0,10);
  struct J{ std::string h; int sh,n; u64 fr; }; std::vector<J> jobs;
  for(int i=5;i<argc;i++){ std::string a=argv[i]; int n=1; u64 fr=0; size_t p=a.find(':'); if(p!=std::string::npos){ n=atoi(a.c_str()+p+1); size_t q=a.find(':',p+1); if(q!=std::string::npos) fr=atoi(a.c_str()+q+1); a=a.substr(0,p); } if(!fr) fr=n*24; for(int k=0;k<n;k++) jobs.push_back({a,k,n,fr}); }
  size_t nx=0; int running=0; double tend=now()+tl; int rc=0;
  while(nx<jobs.size()||running){
    while(running<par&&nx<jobs.size()){ J j=jobs[nx++]; double left=tend-now(); size_t rem=jobs.size()-nx+1; double cap=3*left*par/rem; if(cap<60) cap=60; if(left>cap) left=cap; if(left<1) left=1;
      pid_t p=fork(); if(!p){ int r=job(j.h,j.sh,j.n,od+"/"+j.h+"."+std::to_string(j.sh),left,j.fr); fflush(nullptr); _exit(r); } running++; }
    int st; pid_t p=wait(&st); if(p>0){ running--; if(!WIFEXITED(st)||WEXITSTATUS(st)){ fprintf(stderr,"job failed status %x\n",st); rc=4; } }
  }
  return rc;
}
