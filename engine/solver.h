// Path conditions and SMT queries (z3).
#pragma once
#include "expr.h"
#include <memory>
struct PC {                 // path condition
  std::vector<Bits> dom;    // per symbolic byte: exact set allowed by its unary constraints
  std::vector<E> multi;     // constraints over two or more bytes
  std::vector<u8> model;    // a satisfying assignment, always kept valid
};
struct SolverStats { u64 z3_queries=0, z3_sat=0, z3_unsat=0, z3_unknown=0, dom_queries=0, model_hits=0, repair_hits=0, cache_hits=0, check_queries=0; double z3_time=0; };
extern SolverStats SS;
void solverInit(unsigned timeout_ms);
void pcAddVar(PC&pc);
// add constraint that is already known to hold in pc.model
void pcAdd(PC&pc,E c);
enum Res { UNSAT=0, SAT=1, UNKNOWN=2 };
// Is pc & c satisfiable?  On SAT fills model_out with a full model.
Res pcCheck(PC&pc,E c,std::vector<u8>&model_out,bool force_z3=false);
// all feasible values of e (up to limit); returns false when more than limit or unknown
bool pcValues(PC&pc,E e,std::vector<std::pair<u64,std::vector<u8>>>&out,size_t limit);
bool domSat(const Bits&dom,const Bits&set); // exact byte-domain verdict, confirmed by z3
bool pcModelOk(const PC&pc);
