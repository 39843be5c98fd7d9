// Hash-consed bit-vector expressions over symbolic input bytes.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <unordered_map>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32; typedef uint8_t u8; typedef uint16_t u16;
typedef unsigned __int128 u128; typedef __int128 i128;

enum Op : u8 { CONST, SYM, INSET, TAB, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, CONCAT, EXTRACT, ZEXT, SEXT, ITE };

static const int MAXVARS = 192;
struct Sup { u64 m[3]; 
  bool has(int v) const { return m[v>>6]>>(v&63)&1; }
  void add(int v){ m[v>>6] |= 1ull<<(v&63); }
  bool inter(const Sup&o) const { return (m[0]&o.m[0])|(m[1]&o.m[1])|(m[2]&o.m[2]); }
  void operator|=(const Sup&o){ m[0]|=o.m[0]; m[1]|=o.m[1]; m[2]|=o.m[2]; }
  bool operator==(const Sup&o) const { return m[0]==o.m[0]&&m[1]==o.m[1]&&m[2]==o.m[2]; }
  int count() const { return __builtin_popcountll(m[0])+__builtin_popcountll(m[1])+__builtin_popcountll(m[2]); }
  int first() const { for(int i=0;i<3;i++) if(m[i]) return i*64+__builtin_ctzll(m[i]); return -1; }
};
struct Bits { u64 b[4];
  bool has(int v) const { return b[v>>6]>>(v&63)&1; }
  void set(int v){ b[v>>6] |= 1ull<<(v&63); }
  bool empty() const { return !(b[0]|b[1]|b[2]|b[3]); }
  bool full() const { return !~(b[0]&b[1]&b[2]&b[3]); }
  int count() const { return __builtin_popcountll(b[0])+__builtin_popcountll(b[1])+__builtin_popcountll(b[2])+__builtin_popcountll(b[3]); }
  int first() const { for(int i=0;i<4;i++) if(b[i]) return i*64+__builtin_ctzll(b[i]); return -1; }
  Bits operator&(const Bits&o) const { return {{b[0]&o.b[0],b[1]&o.b[1],b[2]&o.b[2],b[3]&o.b[3]}}; }
  Bits operator|(const Bits&o) const { return {{b[0]|o.b[0],b[1]|o.b[1],b[2]|o.b[2],b[3]|o.b[3]}}; }
  Bits operator~() const { return {{~b[0],~b[1],~b[2],~b[3]}}; }
  bool operator==(const Bits&o) const { return !memcmp(b,o.b,32); }
};
static inline Bits fullBits(){ return {{~0ull,~0ull,~0ull,~0ull}}; }

struct Expr {
  Op op; u8 w; i32 var; // var: single var id if unary, -1 const, -2 multi
  u32 id; u32 hash;
  u128 c;            // CONST value / EXTRACT low bit / SYM var id
  const Expr* k[3];
  Sup sup;
  Bits bits;         // INSET
  mutable u64* tab;  // unary value table (256)
  mutable void* z;   // z3 ast
  mutable u64 ev_epoch; mutable u128 ev;
  u32 size;          // rough tree size (saturating)
};
typedef const Expr* E;

static inline u128 maskw(int w){ return w>=128? ~(u128)0 : (((u128)1<<w)-1); }
static inline i128 sx(u128 v,int w){ if(w>=128) return (i128)v; u128 s=(u128)1<<(w-1); v&=maskw(w); return (i128)((v^s)-s); }

E mkConst(int w,u128 v);
E mkSym(int var);
E mkInset(int var,const Bits&b);
E mkTab(int var,int w,const u64*tab);
E mkBin(Op op,E a,E b);
E mkEq(E a,E b);
E mkNot(E a); // width 1
E mkIte(E c,E a,E b);
E mkConcat(E hi,E lo);
E mkExtract(E a,int lo,int w);
E mkZext(E a,int w);
E mkSext(E a,int w);
const u64* unaryTab(E e); // requires unary & w<=64
u128 evalExpr(E e,const u8*model); // call newEpoch when the model changes
void newEpoch();
u128 foldBin(Op op,int w,u128 a,u128 b);
size_t numExprs();
int knownZeroHigh(E e);
std::string exprStr(E e,int depth=6);
static inline bool isC(E e){ return e->op==CONST; }
