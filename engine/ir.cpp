#include "ir.h"
#include <llvm-c/Core.h>
#include <llvm-c/BitReader.h>
#include <llvm-c/Target.h>
#include <cstdio>
#include <cstdlib>
#include <map>
typedef LLVMValueRef V; typedef LLVMTypeRef T;
static LLVMTargetDataRef TD; static Module*MM;
static std::unordered_map<V,u64> gaddr; static std::unordered_map<V,Func*> fmap;
static std::map<std::pair<std::string,int>,int> lineIdx;
struct Slot { u32 off; u8 w; };
// flatten type to scalar leaves
static bool flat(T t,u32 off,std::vector<Slot>&out){
  switch(LLVMGetTypeKind(t)){
    case LLVMIntegerTypeKind: { unsigned w=LLVMGetIntTypeWidth(t); if(w>128) return false; out.push_back({off,(u8)w}); return true; }
    case LLVMPointerTypeKind: out.push_back({off,64}); return true;
    case LLVMFloatTypeKind: out.push_back({off,32}); return true;
    case LLVMDoubleTypeKind: out.push_back({off,64}); return true;
    case LLVMStructTypeKind: { unsigned n=LLVMCountStructElementTypes(t); for(unsigned i=0;i<n;i++) if(!flat(LLVMStructGetTypeAtIndex(t,i),off+LLVMOffsetOfElement(TD,t,i),out)) return false; return true; }
    case LLVMArrayTypeKind: { T e=LLVMGetElementType(t); u64 n=LLVMGetArrayLength2(t); u64 s=LLVMABISizeOfType(TD,e); if(n>4096) return false; for(u64 i=0;i<n;i++) if(!flat(e,off+i*s,out)) return false; return true; }
    case LLVMVectorTypeKind: { T e=LLVMGetElementType(t); unsigned n=LLVMGetVectorSize(t); u64 bits=LLVMSizeOfTypeInBits(TD,e); 
      for(unsigned i=0;i<n;i++){ if(bits%8) { if(!flat(e,off+i,out)) return false; /* i1 vectors: never in memory */ } else if(!flat(e,off+i*(bits/8),out)) return false; } return true; }
    case LLVMVoidTypeKind: return true;
    default: return false;
  }
}
static int nslots(T t){ std::vector<Slot> s; if(!flat(t,0,s)) return -1; return s.size(); }
static u128 bigint(V v){ 
  unsigned w=LLVMGetIntTypeWidth(LLVMTypeOf(v));
  if(w<=64) return LLVMConstIntGetZExtValue(v);
  char*s=LLVMPrintValueToString(v); const char*p=s; while(*p&&*p!=' ') p++; while(*p==' ') p++; bool neg=*p=='-'; if(neg) p++; u128 x=0; while(*p>='0'&&*p<='9') x=x*10+(*p++-'0'); LLVMDisposeMessage(s);
  return neg?(u128)0-x:x;
}
struct BadConst{ std::string m; };
static u64 constAddr(V v);
struct CV { u128 v; u8 w; };
static CV constScalar(V v);
static void constFlat(V v,std::vector<CV>&out){
  T t=LLVMTypeOf(v);
  switch(LLVMGetTypeKind(t)){
    case LLVMIntegerTypeKind: case LLVMPointerTypeKind: case LLVMFloatTypeKind: case LLVMDoubleTypeKind: out.push_back(constScalar(v)); return;
    default: break;
  }
  if(LLVMIsUndef(v)||LLVMIsPoison(v)||LLVMIsNull(v)){ std::vector<Slot> s; if(!flat(t,0,s)) throw BadConst{"type"}; for(auto&x:s) out.push_back({0,x.w}); return; }
  switch(LLVMGetTypeKind(t)){
    case LLVMStructTypeKind: { unsigned n=LLVMCountStructElementTypes(t); for(unsigned i=0;i<n;i++) constFlat(LLVMGetAggregateElement(v,i),out); return; }
    case LLVMArrayTypeKind: { unsigned n=LLVMGetArrayLength2(t); for(unsigned i=0;i<n;i++) constFlat(LLVMGetAggregateElement(v,i),out); return; }
    case LLVMVectorTypeKind: { unsigned n=LLVMGetVectorSize(t); for(unsigned i=0;i<n;i++){ V e=LLVMGetAggregateElement(v,i); if(!e) throw BadConst{"vec elem"}; constFlat(e,out);} return; }
    default: throw BadConst{"const kind"};
  }
}
static CV constScalar(V v){
  T t=LLVMTypeOf(v); std::vector<Slot> s; if(!flat(t,0,s)||s.size()!=1) throw BadConst{"scalar type"}; u8 w=s[0].w;
  if(LLVMIsUndef(v)||LLVMIsPoison(v)||LLVMIsNull(v)) return {0,w};
  if(LLVMIsAConstantInt(v)) return {bigint(v)&maskw(w),w};
  if(LLVMIsAConstantFP(v)){ LLVMBool li; double d=LLVMConstRealGetDouble(v,&li); if(w==64){ u64 x; memcpy(&x,&d,8); return {x,64}; } float f=d; u32 x; memcpy(&x,&f,4); return {x,32}; }
  if(LLVMIsAGlobalValue(v)) return {constAddr(v),64};
  if(LLVMIsAConstantExpr(v)){
    switch(LLVMGetConstOpcode(v)){
      case LLVMGetElementPtr: {
        CV b=constScalar(LLVMGetOperand(v,0)); u64 a=(u64)b.v; T et=LLVMGetGEPSourceElementType(v); int n=LLVMGetNumOperands(v);
        for(int i=1;i<n;i++){ V ix=LLVMGetOperand(v,i); if(i==1){ a+=(u64)((i64)LLVMConstIntGetSExtValue(ix)*(i64)LLVMABISizeOfType(TD,et)); continue; }
          if(LLVMGetTypeKind(et)==LLVMStructTypeKind){ unsigned k=LLVMConstIntGetZExtValue(ix); a+=LLVMOffsetOfElement(TD,et,k); et=LLVMStructGetTypeAtIndex(et,k); }
          else { et=LLVMGetElementType(et); a+=(u64)((i64)LLVMConstIntGetSExtValue(ix)*(i64)LLVMABISizeOfType(TD,et)); } }
        return {a,64}; }
      case LLVMPtrToInt: case LLVMIntToPtr: case LLVMTrunc: case LLVMBitCast: { CV c=constScalar(LLVMGetOperand(v,0)); return {c.v&maskw(w),w}; }
      case LLVMAdd: { CV a=constScalar(LLVMGetOperand(v,0)),b=constScalar(LLVMGetOperand(v,1)); return {(a.v+b.v)&maskw(w),w}; }
      case LLVMSub: { CV a=constScalar(LLVMGetOperand(v,0)),b=constScalar(LLVMGetOperand(v,1)); return {(a.v-b.v)&maskw(w),w}; }
      case LLVMXor: { CV a=constScalar(LLVMGetOperand(v,0)),b=constScalar(LLVMGetOperand(v,1)); return {(a.v^b.v)&maskw(w),w}; }
      default: break;
    }
  }
  char*m=LLVMPrintValueToString(v); std::string ms=m; LLVMDisposeMessage(m); throw BadConst{"const "+ms.substr(0,80)};
}
static u64 constAddr(V v){
  if(LLVMIsAFunction(v)) return fmap[v]->addr;
  if(LLVMIsAGlobalAlias(v)) return (u64)constScalar(LLVMAliasGetAliasee(v)).v;
  if(LLVMGetLinkage(v)==LLVMExternalWeakLinkage) return 0;
  auto it=gaddr.find(v); if(it==gaddr.end()) throw BadConst{"global"}; return it->second;
}
static void initBytes(V v,u64 base,u8*buf,u64 off){
  T t=LLVMTypeOf(v);
  if(LLVMIsUndef(v)||LLVMIsPoison(v)||LLVMIsNull(v)) return;
  switch(LLVMGetTypeKind(t)){
    case LLVMStructTypeKind: { unsigned n=LLVMCountStructElementTypes(t); for(unsigned i=0;i<n;i++) initBytes(LLVMGetAggregateElement(v,i),base,buf,off+LLVMOffsetOfElement(TD,t,i)); return; }
    case LLVMArrayTypeKind: { if(LLVMIsConstantString(v)||(LLVMGetTypeKind(LLVMGetElementType(t))==LLVMIntegerTypeKind&&LLVMGetIntTypeWidth(LLVMGetElementType(t))==8&&LLVMIsAConstantDataSequential(v))){ size_t l; const char*s=LLVMGetAsString(v,&l); memcpy(buf+off,s,l); return; }
      u64 n=LLVMGetArrayLength2(t); u64 es=LLVMABISizeOfType(TD,LLVMGetElementType(t)); for(u64 i=0;i<n;i++) initBytes(LLVMGetAggregateElement(v,i),base,buf,off+i*es); return; }
    case LLVMVectorTypeKind: { unsigned n=LLVMGetVectorSize(t); u64 es=LLVMABISizeOfType(TD,LLVMGetElementType(t)); for(unsigned i=0;i<n;i++) initBytes(LLVMGetAggregateElement(v,i),base,buf,off+i*es); return; }
    default: {
      // relative pointers: trunc(sub(ptrtoint X, ptrtoint Y)) to i32
      if(LLVMIsAConstantExpr(v)&&LLVMGetConstOpcode(v)==LLVMTrunc){ V s=LLVMGetOperand(v,0); if(LLVMIsAConstantExpr(s)&&LLVMGetConstOpcode(s)==LLVMSub) MM->relptr[base+off]=(u64)constScalar(LLVMGetOperand(s,0)).v; }
      CV c=constScalar(v); int nb=(c.w+7)/8; for(int i=0;i<nb;i++) buf[off+i]=(u8)(c.v>>(8*i)); return; }
  }
}
static std::string vstr(V v){ char*m=LLVMPrintValueToString(v); std::string s=m; LLVMDisposeMessage(m); if(s.size()>160) s.resize(160); return s; }
struct FB { // function builder
  Func*F; std::unordered_map<V,i32> reg; std::unordered_map<V,i32> cpool; std::unordered_map<LLVMBasicBlockRef,i32> bb;
  i32 opnd(V v){
    auto it=reg.find(v); if(it!=reg.end()) return it->second;
    if(!LLVMIsConstant(v)) throw BadConst{"operand "+vstr(v)};
    auto ic=cpool.find(v); if(ic!=cpool.end()) return ic->second;
    std::vector<CV> cv; constFlat(v,cv); i32 base=F->consts.size();
    for(auto&x:cv){ Val y; if(x.w<=64){ y.e=nullptr; y.c=(u64)x.v; } else { y.e=mkConst(x.w,x.v); y.c=0; } F->consts.push_back(y); }
    i32 r=-1-base; cpool[v]=r; return r;
  }
  // slot i of operand o
  static i32 sl(i32 o,int i){ return o>=0?o+i:o-i; }
};
static void bad(Ins&I,const std::string&m){ I.op=I_BAD; I.msg=new std::string(m); }
static u8 scalarW(T t){ if(LLVMGetTypeKind(t)==LLVMVectorTypeKind) t=LLVMGetElementType(t); std::vector<Slot> s; flat(t,0,s); return s.empty()?0:s[0].w; }
static int lanes(T t){ return LLVMGetTypeKind(t)==LLVMVectorTypeKind?LLVMGetVectorSize(t):1; }
static bool isfp(T t){ if(LLVMGetTypeKind(t)==LLVMVectorTypeKind) t=LLVMGetElementType(t); auto k=LLVMGetTypeKind(t); return k==LLVMFloatTypeKind||k==LLVMDoubleTypeKind||k==LLVMHalfTypeKind; }
static Edge mkEdge(FB&fb,LLVMBasicBlockRef from,LLVMBasicBlockRef to){
  Edge e; e.block=fb.bb[to];
  for(V p=LLVMGetFirstInstruction(to);p&&LLVMGetInstructionOpcode(p)==LLVMPHI;p=LLVMGetNextInstruction(p)){
    unsigned n=LLVMCountIncoming(p); for(unsigned i=0;i<n;i++) if(LLVMGetIncomingBlock(p,i)==from){ i32 s=fb.opnd(LLVMGetIncomingValue(p,i)); int k=nslots(LLVMTypeOf(p)); for(int j=0;j<k;j++) e.copies.push_back({fb.reg[p]+j,FB::sl(s,j)}); break; }
  }
  return e;
}
static void buildIns(FB&fb,V in,Ins&I,LLVMBasicBlockRef bbr){
  LLVMOpcode oc=LLVMGetInstructionOpcode(in); T ty=LLVMTypeOf(in);
  auto rit=fb.reg.find(in); I.dst=rit==fb.reg.end()?-1:rit->second;
  auto OP=[&](int i){ return fb.opnd(LLVMGetOperand(in,i)); };
  auto OT=[&](int i){ return LLVMTypeOf(LLVMGetOperand(in,i)); };
  auto bin=[&](Op o){ if(isfp(ty)){ bad(I,"fp"); return; } I.op=I_BIN; I.sub=o; I.w=scalarW(ty); I.n=lanes(ty); I.a=OP(0); I.b=OP(1); };
  switch(oc){
    case LLVMAdd: bin(ADD); break; case LLVMSub: bin(SUB); break; case LLVMMul: bin(MUL); break; case LLVMUDiv: bin(UDIV); break; case LLVMSDiv: bin(SDIV); break;
    case LLVMURem: bin(UREM); break; case LLVMSRem: bin(SREM); break; case LLVMAnd: bin(AND); break; case LLVMOr: bin(OR); break; case LLVMXor: bin(XOR); break;
    case LLVMShl: bin(SHL); break; case LLVMLShr: bin(LSHR); break; case LLVMAShr: bin(ASHR); break;
    case LLVMICmp: { I.op=I_ICMP; switch(LLVMGetICmpPredicate(in)){ case LLVMIntEQ:I.sub=P_EQ;break; case LLVMIntNE:I.sub=P_NE;break; case LLVMIntUGT:I.sub=P_UGT;break; case LLVMIntUGE:I.sub=P_UGE;break; case LLVMIntULT:I.sub=P_ULT;break; case LLVMIntULE:I.sub=P_ULE;break; case LLVMIntSGT:I.sub=P_SGT;break; case LLVMIntSGE:I.sub=P_SGE;break; case LLVMIntSLT:I.sub=P_SLT;break; default:I.sub=P_SLE; }
      I.w=scalarW(OT(0)); I.n=lanes(OT(0)); I.a=OP(0); I.b=OP(1); break; }
    case LLVMSelect: { I.op=I_SELECT; I.n=nslots(ty); I.sub=lanes(OT(0))>1; I.w=scalarW(ty); I.a=OP(0); I.b=OP(1); I.c=OP(2); 
      std::vector<Slot> s; flat(ty,0,s); for(auto&x:s) I.aw.push_back(x.w); break; }
    case LLVMTrunc: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMZExt: case LLVMSExt: { I.op=I_CAST; I.w2=scalarW(OT(0)); I.w=scalarW(ty); I.n=lanes(ty); I.a=OP(0);
      I.sub= I.w<I.w2?C_TRUNC: oc==LLVMSExt?C_SEXT:C_ZEXT; if(I.w==I.w2){ I.op=I_COPY; I.n=nslots(ty);} break; }
    case LLVMFreeze: I.op=I_COPY; I.n=nslots(ty); I.a=OP(0); break;
    case LLVMBitCast: { int sl=lanes(OT(0)),dl=lanes(ty); I.a=OP(0); if(sl==dl){ I.op=I_COPY; I.n=sl; } else { I.op=I_BITCAST; I.n=dl; I.sub=sl; I.w2=scalarW(OT(0)); I.w=scalarW(ty); } break; }
    case LLVMGetElementPtr: {
      if(lanes(ty)>1){ bad(I,"vector gep"); break; }
      I.op=I_GEP; I.a=OP(0); T et=LLVMGetGEPSourceElementType(in); int n=LLVMGetNumOperands(in); I.imm=0;
      for(int i=1;i<n;i++){ V ix=LLVMGetOperand(in,i); i64 scale;
        if(i==1) scale=LLVMABISizeOfType(TD,et);
        else if(LLVMGetTypeKind(et)==LLVMStructTypeKind){ unsigned k=LLVMConstIntGetZExtValue(ix); I.imm+=LLVMOffsetOfElement(TD,et,k); et=LLVMStructGetTypeAtIndex(et,k); continue; }
        else { et=LLVMGetElementType(et); scale=LLVMABISizeOfType(TD,et); }
        if(LLVMIsAConstantInt(ix)) I.imm+=(i64)LLVMConstIntGetSExtValue(ix)*scale;
        else I.gep.push_back({fb.opnd(ix),scalarW(LLVMTypeOf(ix)),scale}); }
      break; }
    case LLVMLoad: { std::vector<Slot> s; if(!flat(ty,0,s)){ bad(I,"load type"); break; } I.op=I_LOAD; I.a=OP(0); for(auto&x:s) I.leaves.push_back({x.off,x.w}); break; }
    case LLVMStore: { std::vector<Slot> s; if(!flat(OT(0),0,s)){ bad(I,"store type"); break; } I.op=I_STORE; I.b=OP(0); I.a=OP(1); for(auto&x:s) I.leaves.push_back({x.off,x.w}); break; }
    case LLVMAlloca: { V n=LLVMGetOperand(in,0); if(!LLVMIsAConstantInt(n)){ bad(I,"dyn alloca"); break; } I.op=I_ALLOCA; I.imm=LLVMABISizeOfType(TD,LLVMGetAllocatedType(in))*LLVMConstIntGetZExtValue(n); break; }
    case LLVMCall: case LLVMInvoke: {
      V cv=LLVMGetCalledValue(in); I.op=I_CALL; I.n=nslots(ty)<0?0:nslots(ty);
      { std::vector<Slot> s; flat(ty,0,s); I.w=s.empty()?0:s[0].w; I.w2=s.size(); }
      int na=LLVMGetNumArgOperands(in);
      if(oc==LLVMInvoke) I.edges.push_back(mkEdge(fb,bbr,LLVMGetNormalDest(in)));
      if(LLVMIsAInlineAsm(cv)){ size_t l; const char*s=LLVMGetInlineAsmAsmString(cv,&l); std::string as(s,l); if(as.empty()){ I.op=I_FENCE; } else if(as.find("cpuid")!=std::string::npos){ I.callee=nullptr; I.callk=9; } else { bad(I,"asm "+as); } break; }
      if(LLVMIsAFunction(cv)){
        Func*f=fmap[cv]; const std::string&nm=f->name;
        if(nm.compare(0,5,"llvm.")==0){
          if(nm.compare(0,13,"llvm.lifetime")==0||nm.compare(0,17,"llvm.experimental")==0||nm.compare(0,11,"llvm.assume")==0||nm.compare(0,8,"llvm.dbg")==0||nm.compare(0,14,"llvm.invariant")==0||nm=="llvm.x86.sse2.pause"||nm.compare(0,13,"llvm.prefetch")==0){ I.op=I_FENCE; break; }
          I.op=I_INTR; I.msg=&f->name;
          for(int i=0;i<na;i++){ if(LLVMGetTypeKind(OT(i))==LLVMMetadataTypeKind) continue; i32 o=OP(i); int k=nslots(OT(i)); std::vector<Slot> s; flat(OT(i),0,s); for(int j=0;j<k;j++){ I.args.push_back(FB::sl(o,j)); I.aw.push_back(s[j].w);} }
          break;
        }
        I.callee=f;
      } else if(LLVMIsAGlobalAlias(cv)){ V al=LLVMAliasGetAliasee(cv); if(LLVMIsAFunction(al)) I.callee=fmap[al]; else { bad(I,"alias call"); break; } }
      else I.a=fb.opnd(cv);
      for(int i=0;i<na;i++){ std::vector<Slot> s; if(!flat(OT(i),0,s)){ bad(I,"arg type"); break; } i32 o=OP(i); for(size_t j=0;j<s.size();j++){ I.args.push_back(FB::sl(o,j)); I.aw.push_back(s[j].w);} }
      break; }
    case LLVMBr: if(LLVMIsConditional(in)){ I.op=I_CBR; I.a=fb.opnd(LLVMGetCondition(in)); I.edges.push_back(mkEdge(fb,bbr,LLVMGetSuccessor(in,0))); I.edges.push_back(mkEdge(fb,bbr,LLVMGetSuccessor(in,1))); }
      else { I.op=I_BR; I.edges.push_back(mkEdge(fb,bbr,LLVMGetSuccessor(in,0))); } break;
    case LLVMSwitch: { I.op=I_SWITCH; I.a=OP(0); I.w=scalarW(OT(0)); I.edges.push_back(mkEdge(fb,bbr,LLVMGetSwitchDefaultDest(in)));
      int n=LLVMGetNumOperands(in); std::map<LLVMBasicBlockRef,int> em; em[LLVMGetSwitchDefaultDest(in)]=0;
      for(int i=2;i+1<n;i+=2){ V cvv=LLVMGetOperand(in,i); LLVMBasicBlockRef d=LLVMValueAsBasicBlock(LLVMGetOperand(in,i+1)); auto it=em.find(d); int ei; if(it==em.end()){ ei=I.edges.size(); I.edges.push_back(mkEdge(fb,bbr,d)); em[d]=ei; } else ei=it->second; I.cases.push_back({(u64)bigint(cvv),ei}); }
      break; }
    case LLVMRet: I.op=I_RET; if(LLVMGetNumOperands(in)){ I.a=OP(0); I.n=nslots(OT(0)); } else I.n=0; break;
    case LLVMUnreachable: I.op=I_UNREACH; break;
    case LLVMExtractValue: { I.op=I_COPY; T t=OT(0); int off=0; unsigned n=LLVMGetNumIndices(in); const unsigned*ix=LLVMGetIndices(in);
      for(unsigned i=0;i<n;i++){ if(LLVMGetTypeKind(t)==LLVMStructTypeKind){ for(unsigned k=0;k<ix[i];k++) off+=nslots(LLVMStructGetTypeAtIndex(t,k)); t=LLVMStructGetTypeAtIndex(t,ix[i]); } else { T e=LLVMGetElementType(t); off+=nslots(e)*ix[i]; t=e; } }
      I.a=FB::sl(OP(0),off); I.n=nslots(ty); break; }
    case LLVMInsertValue: { I.op=I_INSV; T t=OT(0); int off=0; unsigned n=LLVMGetNumIndices(in); const unsigned*ix=LLVMGetIndices(in);
      for(unsigned i=0;i<n;i++){ if(LLVMGetTypeKind(t)==LLVMStructTypeKind){ for(unsigned k=0;k<ix[i];k++) off+=nslots(LLVMStructGetTypeAtIndex(t,k)); t=LLVMStructGetTypeAtIndex(t,ix[i]); } else { T e=LLVMGetElementType(t); off+=nslots(e)*ix[i]; t=e; } }
      I.a=OP(0); I.b=OP(1); I.n=nslots(ty); I.imm=off; I.c=nslots(OT(1)); break; }
    case LLVMExtractElement: { V ix=LLVMGetOperand(in,1); if(!LLVMIsAConstantInt(ix)){ bad(I,"dyn extractelement"); break; } I.op=I_COPY; I.n=1; I.a=FB::sl(OP(0),LLVMConstIntGetZExtValue(ix)); break; }
    case LLVMInsertElement: { V ix=LLVMGetOperand(in,2); if(!LLVMIsAConstantInt(ix)){ bad(I,"dyn insertelement"); break; } I.op=I_INSV; I.a=OP(0); I.b=OP(1); I.n=nslots(ty); I.imm=LLVMConstIntGetZExtValue(ix); I.c=1; break; }
    case LLVMShuffleVector: { I.op=I_SHUF; I.n=LLVMGetNumMaskElements(in); int sl=lanes(OT(0)); i32 a=OP(0),b=OP(1); for(int i=0;i<I.n;i++){ int m=LLVMGetMaskValue(in,i); if(m<0) I.args.push_back(FB::sl(a,0)); else I.args.push_back(m<sl?FB::sl(a,m):FB::sl(b,m-sl)); } break; }
    case LLVMAtomicRMW: { I.op=I_RMW; I.a=OP(0); I.b=OP(1); I.w=scalarW(ty); I.sub=LLVMGetAtomicRMWBinOp(in); break; }
    case LLVMAtomicCmpXchg: { I.op=I_CMPX; I.a=OP(0); I.b=OP(1); I.c=OP(2); I.w=scalarW(OT(1)); break; }
    case LLVMFence: I.op=I_FENCE; break;
    case LLVMLandingPad: case LLVMResume: case LLVMCleanupPad: bad(I,"unwind"); break;
    default: bad(I,"opcode "+vstr(in));
  }
}
static int getLine(V in){
  unsigned l=LLVMGetDebugLocLine(in); if(!l) return 0; unsigned n=0; const char*f=LLVMGetDebugLocFilename(in,&n); if(!f||!n) return 0; std::string fn(f,n);
  if(fn[0]!='/'){ unsigned dn=0; const char*d=LLVMGetDebugLocDirectory(in,&dn); if(d&&dn) fn=std::string(d,dn)+"/"+fn; }
  auto k=std::make_pair(fn,(int)l); auto it=lineIdx.find(k); if(it!=lineIdx.end()) return it->second;
  int i=MM->lines.size(); MM->lines.push_back(k); lineIdx[k]=i; return i;
}
bool loadModule(const char*path,Module&M,u64&nextId,std::string&err){
  MM=&M; M.lines.push_back({"?",0});
  LLVMMemoryBufferRef mb; char*e=nullptr; if(LLVMCreateMemoryBufferWithContentsOfFile(path,&mb,&e)){ err=e; return false; }
  LLVMModuleRef m; LLVMContextRef cx=LLVMContextCreate(); if(LLVMParseBitcodeInContext2(cx,mb,&m)){ err="bitcode parse"; return false; }
  TD=LLVMGetModuleDataLayout(m);
  auto newAddr=[&](u64 size){ u64 a=nextId<<IDSHIFT; nextId+=1+(size>>IDSHIFT); return a; };
  for(V f=LLVMGetFirstFunction(m);f;f=LLVMGetNextFunction(f)){ Func*F=new Func; size_t l; const char*n=LLVMGetValueName2(f,&l); F->name.assign(n,l); F->decl=LLVMIsDeclaration(f); F->addr=newAddr(1); fmap[f]=F; M.funcs.push_back(F); M.byname[F->name]=F; M.byaddr[F->addr]=F; }
  for(V a=LLVMGetFirstGlobalAlias(m);a;a=LLVMGetNextGlobalAlias(a)){ V t=LLVMAliasGetAliasee(a); size_t l; const char*n=LLVMGetValueName2(a,&l); if(LLVMIsAFunction(t)) M.byname[std::string(n,l)]=fmap[t]; }
  for(V g=LLVMGetFirstGlobal(m);g;g=LLVMGetNextGlobal(g)){ Global*G=new Global; size_t l; const char*n=LLVMGetValueName2(g,&l); G->name.assign(n,l); T vt=LLVMGlobalGetValueType(g); G->size=LLVMGetTypeKind(vt)==LLVMStructTypeKind&&LLVMIsOpaqueStruct(vt)?8:LLVMABISizeOfType(TD,vt); G->addr=newAddr(G->size); G->isconst=LLVMIsGlobalConstant(g); gaddr[g]=G->addr; M.globals.push_back(G); }
  size_t gi=0;
  for(V g=LLVMGetFirstGlobal(m);g;g=LLVMGetNextGlobal(g)){ Global*G=M.globals[gi++]; G->init.assign(G->size,0); V in=LLVMGetInitializer(g); if(in){ try{ initBytes(in,G->addr,G->init.data(),0); }catch(BadConst&b){ err="global "+G->name+": "+b.m; return false; } } }
  for(V f=LLVMGetFirstFunction(m);f;f=LLVMGetNextFunction(f)){ Func*F=fmap[f]; if(F->decl) continue;
    FB fb; fb.F=F; i32 r=0; 
    for(unsigned i=0;i<LLVMCountParams(f);i++){ V p=LLVMGetParam(f,i); fb.reg[p]=r; std::vector<Slot> s; flat(LLVMTypeOf(p),0,s); for(auto&x:s) F->argw.push_back(x.w); r+=s.size(); } F->nargs=r;
    { T ft=LLVMGlobalGetValueType(f); int k=nslots(LLVMGetReturnType(ft)); F->retn=k<0?0:k; }
    int nb=0; for(LLVMBasicBlockRef b=LLVMGetFirstBasicBlock(f);b;b=LLVMGetNextBasicBlock(b)) fb.bb[b]=nb++;
    for(LLVMBasicBlockRef b=LLVMGetFirstBasicBlock(f);b;b=LLVMGetNextBasicBlock(b)) for(V in=LLVMGetFirstInstruction(b);in;in=LLVMGetNextInstruction(in)){ T t=LLVMTypeOf(in); if(LLVMGetTypeKind(t)==LLVMVoidTypeKind) continue; int k=nslots(t); if(k<0) k=1; fb.reg[in]=r; r+=k; }
    F->nregs=r; F->blocks.resize(nb); int bi=0;
    for(LLVMBasicBlockRef b=LLVMGetFirstBasicBlock(f);b;b=LLVMGetNextBasicBlock(b)){ Block&B=F->blocks[bi++];
      for(V in=LLVMGetFirstInstruction(b);in;in=LLVMGetNextInstruction(in)){ if(LLVMGetInstructionOpcode(in)==LLVMPHI) continue; B.ins.emplace_back(); Ins&I=B.ins.back(); I.line=getLine(in); try{ buildIns(fb,in,I,b); }catch(BadConst&x){ bad(I,x.m); } M.nins++; } }
  }
  return true;
}
