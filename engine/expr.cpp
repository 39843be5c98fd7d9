#include "expr.h"
#include <cstdlib>
#include <cstdio>
static std::vector<E*> slabs; 
static std::unordered_multimap<u32,Expr*> *tblp;
static std::vector<Expr*> buckets; // open addressing
static size_t nexpr=0; static size_t cap=0;
static u64 epoch=1;
void newEpoch(){ epoch++; }
size_t numExprs(){ return nexpr; }
static inline u32 mix(u64 h){ h^=h>>33; h*=0xff51afd7ed558ccdULL; h^=h>>33; h*=0xc4ceb9fe1a85ec53ULL; h^=h>>33; return (u32)h; }
static Expr* slab=nullptr; static int slabLeft=0;
static Expr* newExpr(){ if(!slabLeft){ slab=(Expr*)calloc(4096,sizeof(Expr)); slabLeft=4096; } slabLeft--; return slab++; }
static bool same(const Expr*a,const Expr*b){
  return a->op==b->op&&a->w==b->w&&a->c==b->c&&a->k[0]==b->k[0]&&a->k[1]==b->k[1]&&a->k[2]==b->k[2]&&
   (a->op!=INSET|| (a->bits==b->bits)) && (a->op!=TAB || !memcmp(a->tab,b->tab,256*8)) && (a->op<SYM||a->op>TAB||a->var==b->var);
}
static void grow(){
  size_t nc=cap?cap*2:1<<16; std::vector<Expr*> nb(nc,nullptr);
  for(auto e:buckets) if(e){ size_t i=e->hash&(nc-1); while(nb[i]) i=(i+1)&(nc-1); nb[i]=e; }
  buckets.swap(nb); cap=nc;
}
static E intern(Expr& t){
  u64 h=t.op*1000003u+t.w; h=h*0x9E3779B97F4A7C15ull+(u64)t.c; h=h*0x9E3779B97F4A7C15ull+(u64)(t.c>>64);
  for(int i=0;i<3;i++) h=(h^(t.k[i]?t.k[i]->id+1:0))*0x9E3779B97F4A7C15ull+(h>>29);
  if(t.op==INSET) for(int i=0;i<4;i++) h=(h^t.bits.b[i])*0x9E3779B97F4A7C15ull+(h>>31);
  if(t.op==TAB) for(int i=0;i<256;i++) h=(h^t.tab[i])*0x9E3779B97F4A7C15ull+(h>>31);
  if(t.op>=SYM&&t.op<=TAB) h=h*31+t.var;
  t.hash=mix(h);
  if((nexpr+1)*2>cap) grow();
  size_t i=t.hash&(cap-1);
  while(buckets[i]){ if(buckets[i]->hash==t.hash&&same(buckets[i],&t)) return buckets[i]; i=(i+1)&(cap-1); }
  Expr*n=newExpr(); *n=t; n->id=(u32)nexpr++; n->z=nullptr; n->ev_epoch=0;
  if(t.op==TAB){ n->tab=(u64*)malloc(256*8); memcpy(n->tab,t.tab,256*8); } else n->tab=nullptr;
  if(t.op!=SYM&&t.op!=INSET&&t.op!=TAB){
    Sup s={{0,0,0}}; u32 sz=1; for(int j=0;j<3;j++) if(t.k[j]){ s|=t.k[j]->sup; sz+=t.k[j]->size; if(sz>1000000) sz=1000000; }
    n->sup=s; n->size=sz; int c=s.count(); n->var=c==0?-1:c==1?s.first():-2;
  } else { n->sup=Sup{{0,0,0}}; n->sup.add(t.var); n->size=1; n->var=t.var; }
  buckets[i]=n; return n;
}
static E raw(Op op,int w,E a,E b=nullptr,E c=nullptr,u128 cv=0){ Expr t; memset((void*)&t,0,sizeof t); t.op=op; t.w=w; t.c=cv; t.k[0]=a; t.k[1]=b; t.k[2]=c; return intern(t); }
static E smallc[129][17];
E mkConst(int w,u128 v){ v&=maskw(w); if(v<17&&smallc[w][(int)v]) return smallc[w][(int)v];
  E r=raw(CONST,w,nullptr,nullptr,nullptr,v); if(v<17) smallc[w][(int)v]=r; return r; }
E mkSym(int var){ Expr t; memset((void*)&t,0,sizeof t); t.op=SYM; t.w=8; t.var=var; return intern(t); }
E mkInset(int var,const Bits&b){ if(b.empty()) return mkConst(1,0); if(b.full()) return mkConst(1,1);
  Expr t; memset((void*)&t,0,sizeof t); t.op=INSET; t.w=1; t.var=var; t.bits=b; return intern(t); }
E mkTab(int var,int w,const u64*tab){ bool allc=true,ident=(w==8); for(int i=0;i<256;i++){ if(tab[i]!=tab[0]) allc=false; if(tab[i]!=(u64)i) ident=false; }
  if(allc) return mkConst(w,tab[0]); if(ident) return mkSym(var);
  if(w==1){ Bits b={{0,0,0,0}}; for(int i=0;i<256;i++) if(tab[i]&1) b.set(i); return mkInset(var,b); }
  Expr t; memset((void*)&t,0,sizeof t); t.op=TAB; t.w=w; t.var=var; t.tab=(u64*)tab; return intern(t); }
u128 foldBin(Op op,int w,u128 a,u128 b){
  u128 m=maskw(w); a&=m;b&=m;
  switch(op){
    case ADD: return (a+b)&m; case SUB: return (a-b)&m; case MUL: return (a*b)&m;
    case UDIV: return b? a/b : m; case UREM: return b? a%b : a;
    case SDIV: { i128 x=sx(a,w),y=sx(b,w); if(!y) return x<0?1:m; return (u128)(x/y)&m; }
    case SREM: { i128 x=sx(a,w),y=sx(b,w); if(!y) return a; return (u128)(x%y)&m; }
    case AND: return a&b; case OR: return a|b; case XOR: return a^b;
    case SHL: return b>=(u128)w?0:(a<<(int)b)&m; case LSHR: return b>=(u128)w?0:a>>(int)b;
    case ASHR: { i128 x=sx(a,w); int s=b>=(u128)w?w-1:(int)b; return (u128)(x>>s)&m; }
    case EQ: return a==b; case ULT: return a<b; case ULE: return a<=b;
    case SLT: return sx(a,w)<sx(b,w); case SLE: return sx(a,w)<=sx(b,w);
    default: fprintf(stderr,"foldBin %d\n",op); abort();
  }
}
const u64* unaryTab(E e){
  if(e->tab) return e->tab;
  u64*t=(u64*)malloc(256*8);
  switch(e->op){
    case CONST: for(int i=0;i<256;i++) t[i]=(u64)e->c; break;
    case SYM: for(int i=0;i<256;i++) t[i]=i; break;
    case INSET: for(int i=0;i<256;i++) t[i]=e->bits.has(i); break;
    case CONCAT: { auto a=unaryTab(e->k[0]),b=unaryTab(e->k[1]); int s=e->k[1]->w; for(int i=0;i<256;i++) t[i]=(a[i]<<s)|b[i]; break; }
    case EXTRACT: { u64 m=(u64)maskw(e->w); int lo=(int)e->c; if(e->k[0]->w>64){
        // children wider than 64 bits: evaluate pointwise
        std::vector<u8> mod(MAXVARS,0); for(int i=0;i<256;i++){ mod[e->var]=i; newEpoch(); t[i]=(u64)evalExpr(e,mod.data()); } newEpoch(); break; }
      auto a=unaryTab(e->k[0]); for(int i=0;i<256;i++) t[i]=(a[i]>>lo)&m; break; }
    case ZEXT: { auto a=unaryTab(e->k[0]); memcpy(t,a,256*8); break; }
    case SEXT: { auto a=unaryTab(e->k[0]); for(int i=0;i<256;i++) t[i]=(u64)((u128)sx(a[i],e->k[0]->w)&maskw(e->w)); break; }
    case ITE: { auto c=unaryTab(e->k[0]),a=unaryTab(e->k[1]),b=unaryTab(e->k[2]); for(int i=0;i<256;i++) t[i]=c[i]?a[i]:b[i]; break; }
    default: {
      int kw=e->k[0]->w;
      if(kw>64){ std::vector<u8> mod(MAXVARS,0); for(int i=0;i<256;i++){ mod[e->var]=i; newEpoch(); t[i]=(u64)evalExpr(e,mod.data()); } newEpoch(); break; }
      auto a=unaryTab(e->k[0]),b=unaryTab(e->k[1]); for(int i=0;i<256;i++) t[i]=(u64)foldBin(e->op,kw,a[i],b[i]); }
  }
  e->tab=t; return t;
}
// canonicalise: unary booleans become INSET
static E fin(E e){
  if(e->w==1&&e->var>=0&&e->op!=INSET&&e->op!=CONST){
    const u64*t=unaryTab(e); Bits b={{0,0,0,0}}; for(int i=0;i<256;i++) if(t[i]&1) b.set(i);
    return mkInset(e->var,b);
  }
  return e;
}
u128 evalExpr(E e,const u8*m){
  if(e->op==CONST) return e->c;
  if(e->op==SYM) return m[e->var];
  if(e->op==INSET) return e->bits.has(m[e->var]);
  if(e->op==TAB) return e->tab[m[e->var]];
  if(e->ev_epoch==epoch) return e->ev;
  u128 r;
  if(e->tab&&e->var>=0) r=e->tab[m[e->var]];
  else switch(e->op){
    case CONCAT: r=(evalExpr(e->k[0],m)<<e->k[1]->w)|evalExpr(e->k[1],m); break;
    case EXTRACT: r=(evalExpr(e->k[0],m)>>(int)e->c)&maskw(e->w); break;
    case ZEXT: r=evalExpr(e->k[0],m); break;
    case SEXT: r=(u128)sx(evalExpr(e->k[0],m),e->k[0]->w)&maskw(e->w); break;
    case ITE: r=evalExpr(e->k[0],m)?evalExpr(e->k[1],m):evalExpr(e->k[2],m); break;
    default: r=foldBin(e->op,e->k[0]->w,evalExpr(e->k[0],m),evalExpr(e->k[1],m));
  }
  e->ev=r; e->ev_epoch=epoch; return r;
}
E mkNot(E a){ if(a->op==CONST) return mkConst(1,!a->c); if(a->op==INSET) return mkInset(a->var,~a->bits);
  if(a->op==XOR&&isC(a->k[1])&&a->k[1]->c==1) return a->k[0];
  return raw(XOR,1,a,mkConst(1,1)); }
E mkExtract(E a,int lo,int w){
  if(lo==0&&w==a->w) return a;
  if(a->op==CONST) return mkConst(w,a->c>>lo);
  switch(a->op){
    case EXTRACT: return mkExtract(a->k[0],lo+(int)a->c,w);
    case CONCAT: { int lw=a->k[1]->w; if(lo>=lw) return mkExtract(a->k[0],lo-lw,w); if(lo+w<=lw) return mkExtract(a->k[1],lo,w);
      return mkConcat(mkExtract(a->k[0],0,lo+w-lw),mkExtract(a->k[1],lo,lw-lo)); }
    case ZEXT: { int iw=a->k[0]->w; if(lo>=iw) return mkConst(w,0); if(lo+w<=iw) return mkExtract(a->k[0],lo,w);
      return mkZext(mkExtract(a->k[0],lo,iw-lo),w); }
    case SEXT: { int iw=a->k[0]->w; if(lo+w<=iw) return mkExtract(a->k[0],lo,w); break; }
    case AND: case OR: case XOR: return mkBin(a->op,mkExtract(a->k[0],lo,w),mkExtract(a->k[1],lo,w));
    case ADD: case SUB: case MUL: if(lo==0) return mkBin(a->op,mkExtract(a->k[0],0,w),mkExtract(a->k[1],0,w)); break;
    case ITE: if((isC(a->k[1])||isC(a->k[2]))||a->k[1]->op==CONCAT||a->k[1]->op==ZEXT) return mkIte(a->k[0],mkExtract(a->k[1],lo,w),mkExtract(a->k[2],lo,w)); break;
    case LSHR: if(isC(a->k[1])&&a->k[1]->c<a->w){ int s=(int)a->k[1]->c; if(lo+s+w<=a->w) return mkExtract(a->k[0],lo+s,w); } break;
    case SHL: if(isC(a->k[1])&&a->k[1]->c<a->w){ int s=(int)a->k[1]->c; if(lo>=s) return mkExtract(a->k[0],lo-s,w); if(lo+w<=s) return mkConst(w,0); } break;
    default: break;
  }
  return fin(raw(EXTRACT,w,a,nullptr,nullptr,lo));
}
E mkConcat(E hi,E lo){
  int w=hi->w+lo->w;
  if(isC(hi)&&isC(lo)) return mkConst(w,(hi->c<<lo->w)|lo->c);
  if(isC(hi)&&hi->c==0) return mkZext(lo,w);
  if(hi->op==EXTRACT&&lo->op==EXTRACT&&hi->k[0]==lo->k[0]&&hi->c==lo->c+lo->w) return mkExtract(hi->k[0],(int)lo->c,w);
  if(lo->op==EXTRACT&&lo->c==0&&hi->op==EXTRACT&&0) {}
  // extract of low part that simplified to its base: concat(extract(x,k,..), x') handled only for identical base widths
  if(hi->op==EXTRACT&&hi->k[0]->op==CONCAT&&0) {}
  if(lo->op==CONCAT){ // right-nested: concat(hi, concat(a,b)) try to fuse hi with a
    E f=nullptr; E a=lo->k[0];
    if(hi->op==EXTRACT&&a->op==EXTRACT&&hi->k[0]==a->k[0]&&hi->c==a->c+a->w) f=mkExtract(hi->k[0],(int)a->c,hi->w+a->w);
    if(f) return mkConcat(f,lo->k[1]);
  }
  return raw(CONCAT,w,hi,lo);
}
E mkZext(E a,int w){ if(w==a->w) return a; if(isC(a)) return mkConst(w,a->c); if(a->op==ZEXT) return mkZext(a->k[0],w); return raw(ZEXT,w,a); }
E mkSext(E a,int w){ if(w==a->w) return a; if(isC(a)) return mkConst(w,(u128)sx(a->c,a->w)); if(a->op==ZEXT) return mkZext(a->k[0],w); if(a->op==SEXT) return mkSext(a->k[0],w); return raw(SEXT,w,a); }
E mkIte(E c,E a,E b){
  if(isC(c)) return c->c?a:b; if(a==b) return a;
  if(a->w==1){
    if(isC(a)&&isC(b)) return a->c?c:mkNot(c);
    if(isC(a)) return a->c?mkBin(OR,c,b):mkBin(AND,mkNot(c),b);
    if(isC(b)) return b->c?mkBin(OR,mkNot(c),a):mkBin(AND,c,a);
  }
  if(c->op==XOR&&isC(c->k[1])) return mkIte(c->k[0],b,a);
  if(a->op==ITE&&a->k[0]==c) a=a->k[1];
  if(b->op==ITE&&b->k[0]==c) b=b->k[2];
  if(a==b) return a;
  return fin(raw(ITE,a->w,c,a,b));
}
int knownZeroHigh(E e){ // number of known-zero high bits
  if(isC(e)){ int n=0; for(int i=e->w-1;i>=0;i--){ if(e->c>>i&1) break; n++; } return n; }
  if(e->op==ZEXT) return e->w-e->k[0]->w+knownZeroHigh(e->k[0]);
  if(e->op==CONCAT){ int h=knownZeroHigh(e->k[0]); return h; }
  if(e->op==AND){ int x=knownZeroHigh(e->k[0]),y=knownZeroHigh(e->k[1]); return x>y?x:y; }
  if(e->op==OR||e->op==XOR){ int x=knownZeroHigh(e->k[0]),y=knownZeroHigh(e->k[1]); return x<y?x:y; }
  if(e->op==LSHR&&isC(e->k[1])) { u128 s=e->k[1]->c; return s>=e->w?e->w:(int)s; }
  if(e->op==ITE){ int x=knownZeroHigh(e->k[1]),y=knownZeroHigh(e->k[2]); return x<y?x:y; }
  if(e->op==SHL&&isC(e->k[1])){ int x=knownZeroHigh(e->k[0])-(int)(e->k[1]->c>127?127:e->k[1]->c); return x>0?x:0; }
  return 0;
}
E mkEq(E a,E b){
  if(a==b) return mkConst(1,1);
  if(isC(a)&&isC(b)) return mkConst(1,a->c==b->c);
  if(isC(a)) std::swap(a,b);
  if(a->w==1){ if(isC(b)) return b->c?a:mkNot(a); return mkNot(mkBin(XOR,a,b)); }
  if(isC(b)){
    u128 c=b->c;
    switch(a->op){
      case CONCAT: { E lo=a->k[1],hi=a->k[0]; return mkBin(AND,mkEq(hi,mkConst(hi->w,c>>lo->w)),mkEq(lo,mkConst(lo->w,c))); }
      case ZEXT: { int iw=a->k[0]->w; if(c>>iw) return mkConst(1,0); return mkEq(a->k[0],mkConst(iw,c)); }
      case SEXT: { int iw=a->k[0]->w; if(((u128)sx(c&maskw(iw),iw)&maskw(a->w))!=c) return mkConst(1,0); return mkEq(a->k[0],mkConst(iw,c)); }
      case XOR: if(isC(a->k[1])) return mkEq(a->k[0],mkConst(a->w,c^a->k[1]->c)); if(c==0) return mkEq(a->k[0],a->k[1]); break;
      case OR: if(c==0) return mkBin(AND,mkEq(a->k[0],b),mkEq(a->k[1],b)); break;
      case ADD: if(isC(a->k[1])) return mkEq(a->k[0],mkConst(a->w,c-a->k[1]->c)); break;
      case SUB: if(c==0) return mkEq(a->k[0],a->k[1]); break;
      case ITE: { E x=a->k[1],y=a->k[2]; if(isC(x)||isC(y)) return mkIte(a->k[0],mkEq(x,b),mkEq(y,b)); break; }
      default: break;
    }
  } else {
    if(a->op==ZEXT&&b->op==ZEXT&&a->k[0]->w==b->k[0]->w) return mkEq(a->k[0],b->k[0]);
    if(a->op==CONCAT&&b->op==CONCAT&&a->k[0]->w==b->k[0]->w) return mkBin(AND,mkEq(a->k[0],b->k[0]),mkEq(a->k[1],b->k[1]));
    if(a->op==CONCAT&&a->w<=64){ E lo=a->k[1],hi=a->k[0]; if(b->op==SYM||b->op==CONCAT||b->op==ZEXT||b->op==EXTRACT)
       return mkBin(AND,mkEq(hi,mkExtract(b,lo->w,hi->w)),mkEq(lo,mkExtract(b,0,lo->w))); }
    else if(b->op==CONCAT&&b->w<=64) return mkEq(b,a);
  }
  if(!isC(b)&&a->id>b->id) std::swap(a,b);
  return fin(raw(EQ,1,a,b));
}
E mkBin(Op op,E a,E b){
  int w=a->w;
  if(isC(a)&&isC(b)) return mkConst((op>=EQ&&op<=SLE)?1:w,foldBin(op,w,a->c,b->c));
  if(op==EQ) return mkEq(a,b);
  bool comm=op==ADD||op==MUL||op==AND||op==OR||op==XOR;
  if(comm&&isC(a)) std::swap(a,b);
  u128 m=maskw(w);
  if(w==1&&(op==AND||op==OR||op==XOR)){
    if(a->op==INSET&&b->op==INSET&&a->var==b->var){
      Bits r; if(op==AND) r=a->bits&b->bits; else if(op==OR) r=a->bits|b->bits; else { r=a->bits; for(int i=0;i<4;i++) r.b[i]^=b->bits.b[i]; }
      return mkInset(a->var,r);
    }
  }
  switch(op){
    case ADD: if(isC(b)){ if(b->c==0) return a; if(a->op==ADD&&isC(a->k[1])) return mkBin(ADD,a->k[0],mkConst(w,a->k[1]->c+b->c)); 
               if(a->op==ITE&&isC(a->k[1])&&isC(a->k[2])) return mkIte(a->k[0],mkBin(ADD,a->k[1],b),mkBin(ADD,a->k[2],b)); }
      if(!isC(b)&&a->op==ADD&&isC(a->k[1])) return mkBin(ADD,mkBin(ADD,a->k[0],b),a->k[1]);
      if(b->op==ADD&&isC(b->k[1])) return mkBin(ADD,mkBin(ADD,a,b->k[0]),b->k[1]);
      break;
    case SUB: if(a==b) return mkConst(w,0); if(isC(b)) return mkBin(ADD,a,mkConst(w,(u128)0-b->c)); 
      if(a->op==ADD&&isC(a->k[1])&&a->k[0]==b) return a->k[1];
      break;
    case MUL: if(isC(b)){ if(b->c==0) return b; if(b->c==1) return a; if(!(b->c&(b->c-1))){ int s=0; while(!((b->c>>s)&1)) s++; return mkBin(SHL,a,mkConst(w,s)); } } break;
    case UDIV: if(isC(b)){ if(b->c==1) return a; if(b->c&&!(b->c&(b->c-1))){ int s=0; while(!((b->c>>s)&1)) s++; return mkBin(LSHR,a,mkConst(w,s)); } } break;
    case UREM: if(isC(b)&&b->c&&!(b->c&(b->c-1))) return mkBin(AND,a,mkConst(w,b->c-1)); break;
    case AND: if(a==b) return a; if(isC(b)){ if(b->c==0) return b; if(b->c==m) return a;
        if(a->op==AND&&isC(a->k[1])) return mkBin(AND,a->k[0],mkConst(w,a->k[1]->c&b->c));
        // mask of low bits
        u128 c=b->c; if(!(c&(c+1))&&w>1){ int n=0; while((c>>n)&1) n++; return mkZext(mkExtract(a,0,n),w); }
        if(a->op==ZEXT){ int iw=a->k[0]->w; return mkZext(mkBin(AND,a->k[0],mkConst(iw,c)),w); }
        if(a->op==CONCAT){ int lw=a->k[1]->w; return mkConcat(mkBin(AND,a->k[0],mkConst(a->k[0]->w,c>>lw)),mkBin(AND,a->k[1],mkConst(lw,c))); }
        if(a->op==ITE&&(isC(a->k[1])||isC(a->k[2]))) return mkIte(a->k[0],mkBin(AND,a->k[1],b),mkBin(AND,a->k[2],b));
      } 
      if(w==1&&(mkNot(a)==b)) return mkConst(1,0);
      break;
    case OR: if(a==b) return a; if(isC(b)){ if(b->c==0) return a; if(b->c==m) return b; 
        if(a->op==CONCAT){ int lw=a->k[1]->w; return mkConcat(mkBin(OR,a->k[0],mkConst(a->k[0]->w,b->c>>lw)),mkBin(OR,a->k[1],mkConst(lw,b->c))); }
      } else {
        // or of disjoint zext/shl parts -> concat
        auto tryor=[&](E x,E y)->E{ // x = shl(zext(p), s), y has high zeros >= w-s
          if(x->op==CONCAT&&isC(x->k[1])&&x->k[1]->c==0){ int s=x->k[1]->w; if(knownZeroHigh(y)>=w-s) return mkConcat(x->k[0],mkExtract(y,0,s)); }
          if(x->op==ZEXT&&x->k[0]->op==CONCAT&&isC(x->k[0]->k[1])&&x->k[0]->k[1]->c==0){ E q=x->k[0]; int s=q->k[1]->w; if(knownZeroHigh(y)>=w-s) return mkZext(mkConcat(q->k[0],mkExtract(y,0,s)),w); }
          return nullptr; };
        E r=tryor(a,b); if(r) return r; r=tryor(b,a); if(r) return r;
      }
      if(w==1&&(mkNot(a)==b)) return mkConst(1,1);
      break;
    case XOR: if(a==b) return mkConst(w,0); if(isC(b)){ if(b->c==0) return a; if(w==1) return mkNot(a);
        if(a->op==XOR&&isC(a->k[1])) return mkBin(XOR,a->k[0],mkConst(w,a->k[1]->c^b->c));
        if(a->op==CONCAT){ int lw=a->k[1]->w; return mkConcat(mkBin(XOR,a->k[0],mkConst(a->k[0]->w,b->c>>lw)),mkBin(XOR,a->k[1],mkConst(lw,b->c))); }
      } else if(w==1){ if(a->op==XOR&&isC(a->k[1])) return mkNot(mkBin(XOR,a->k[0],b)); if(b->op==XOR&&isC(b->k[1])) return mkNot(mkBin(XOR,a,b->k[0])); }
      break;
    case SHL: if(isC(b)){ if(b->c==0) return a; if(b->c>=(u128)w) return mkConst(w,0); int s=(int)b->c;
        return mkConcat(mkExtract(a,0,w-s),mkConst(s,0)); } break;
    case LSHR: if(isC(b)){ if(b->c==0) return a; if(b->c>=(u128)w) return mkConst(w,0); int s=(int)b->c; return mkZext(mkExtract(a,s,w-s),w); } break;
    case ASHR: if(isC(b)){ if(b->c==0) return a; if(knownZeroHigh(a)>0) return mkBin(LSHR,a,b); if(b->c>=(u128)w) b=mkConst(w,w-1); int s=(int)b->c; return mkSext(mkExtract(a,s,w-s),w); } break;
    case ULT: if(a==b) return mkConst(1,0); if(isC(b)&&b->c==0) return mkConst(1,0); if(isC(a)&&a->c==m) return mkConst(1,0);
      if(isC(b)&&b->c==1) return mkEq(a,mkConst(w,0));
      if(isC(b)){ int z=knownZeroHigh(a); if(z>0&&(b->c>>(w-z))) return mkConst(1,1); }
      if(isC(a)){ int z=knownZeroHigh(b); if(z>0&&(a->c>>(w-z))) return mkConst(1,0); }
      if(a->op==ZEXT&&b->op==ZEXT&&a->k[0]->w==b->k[0]->w) return mkBin(op,a->k[0],b->k[0]);
      if(a->op==ZEXT&&isC(b)) return mkBin(op,a->k[0],mkConst(a->k[0]->w,b->c));
      if(b->op==ZEXT&&isC(a)) return mkBin(op,mkConst(b->k[0]->w,a->c),b->k[0]);
      break;
    case ULE: return mkNot(mkBin(ULT,b,a));
    case SLE: return mkNot(mkBin(SLT,b,a));
    case SLT: if(a==b) return mkConst(1,0); if(w>1&&knownZeroHigh(a)>0&&knownZeroHigh(b)>0) return mkBin(ULT,a,b);
      if(isC(b)&&b->c==0) return mkExtract(a,w-1,1);
      break;
    default: break;
  }
  if((op==ULT||op==SLT)){
    if(a->op==ITE&&isC(b)&&(isC(a->k[1])||isC(a->k[2]))) return mkIte(a->k[0],mkBin(op,a->k[1],b),mkBin(op,a->k[2],b));
    if(b->op==ITE&&isC(a)&&(isC(b->k[1])||isC(b->k[2]))) return mkIte(b->k[0],mkBin(op,a,b->k[1]),mkBin(op,a,b->k[2]));
  }
  if(comm&&!isC(b)&&a->id>b->id) std::swap(a,b);
  return fin(raw(op,(op>=EQ&&op<=SLE)?1:w,a,b));
}
static const char*opn[]={"const","sym","inset","tab","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","zext","sext","ite"};
std::string exprStr(E e,int d){
  char b[96];
  if(e->op==CONST){ snprintf(b,sizeof b,"%llu:%d",(unsigned long long)e->c,e->w); return b; }
  if(e->op==SYM){ snprintf(b,sizeof b,"v%d",e->var); return b; }
  if(e->op==INSET){ snprintf(b,sizeof b,"(v%d in #%d)",e->var,e->bits.count()); return b; }
  if(e->op==TAB){ snprintf(b,sizeof b,"tab(v%d):%d",e->var,e->w); return b; }
  if(d==0) return "..";
  std::string s="("; s+=opn[e->op]; if(e->op==EXTRACT){ snprintf(b,sizeof b,"[%d+%d]",(int)e->c,e->w); s+=b; }
  for(int i=0;i<3;i++) if(e->k[i]) s+=" "+exprStr(e->k[i],d-1);
  return s+")";
}
