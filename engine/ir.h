// Compact IR produced from the LLVM bitcode of the harness + /repo + std.
#pragma once
#include "expr.h"
enum IOp : u8 { I_BIN, I_ICMP, I_SELECT, I_CAST, I_COPY, I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_CALL, I_BR, I_CBR, I_SWITCH, I_RET,
  I_UNREACH, I_EXTV, I_INSV, I_EXTE, I_INSE, I_SHUF, I_RMW, I_CMPX, I_FENCE, I_INTR, I_BITCAST, I_BAD };
enum CastK : u8 { C_TRUNC, C_ZEXT, C_SEXT };
enum Pred : u8 { P_EQ,P_NE,P_UGT,P_UGE,P_ULT,P_ULE,P_SGT,P_SGE,P_SLT,P_SLE };
struct Leaf { u32 off; u8 w; };          // scalar part of a memory access: byte offset, bit width
struct GepIdx { i32 opnd; u8 w; i64 scale; };
struct Func; struct Global;
struct PhiCopy { i32 dst; i32 src; };
struct Edge { i32 block; std::vector<PhiCopy> copies; };
struct Case { u64 val; i32 edge; };
struct Ins {
  IOp op; u8 sub=0; u8 w=0; u8 w2=0; u16 n=1; // n: number of lanes/slots
  i32 dst=-1; i32 a=0,b=0,c=0;
  i64 imm=0;
  i32 line=0;                 // index in line table
  std::vector<i32> args;      // call args (first slots flattened), shuffle masks...
  std::vector<Leaf> leaves;
  std::vector<GepIdx> gep;
  std::vector<Edge> edges;
  std::vector<Case> cases;
  Func* callee=nullptr;
  std::string* msg=nullptr;
  std::vector<u8> aw;         // widths of call args
  u8 callk=0;
};
struct Block { std::vector<Ins> ins; bool hit=false; };
struct Val { E e; u64 c; };
struct Func { std::string name; bool decl=true; u64 addr=0; std::vector<Block> blocks; i32 nregs=0; i32 nargs=0; std::vector<Val> consts; int ext=0; u64 calls=0;
  std::vector<u8> argw; bool isnoreturn=false; u8 retn=0; };
struct Global { std::string name; u64 addr=0; u64 size=0; bool isconst=false; std::vector<u8> init; };
struct Module { std::vector<Func*> funcs; std::unordered_map<std::string,Func*> byname; std::vector<Global*> globals;
  std::unordered_map<u64,Func*> byaddr; std::vector<std::pair<std::string,int>> lines; std::unordered_map<u64,u64> relptr; u64 nins=0; };
static const int IDSHIFT=24;
bool loadModule(const char*path,Module&M,u64&nextId,std::string&err);
