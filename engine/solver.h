// Path condition + decision procedures (finite-domain propagation, model reuse, Z3 QF_BV).
#pragma once
#include "expr.h"
struct Shared;  // shared counters
enum Tri { T_FALSE = 0, T_TRUE = 1, T_BOTH = 2, T_UNKNOWN = 3 };
void solverInit(unsigned rlimit, const char* dumpdir);
void pcAssume(E c);                       // add to path condition; current model must satisfy c
Tri decide(E c, std::vector<uint8_t>* otherModel);  // which truth values are feasible? otherModel = model of the side the current model does not take
bool checkSat(E c, std::vector<uint8_t>* m);        // pc && c satisfiable? fatal(unknown) -> throws
int z3Sat(E c, std::vector<uint8_t>* m);  // always goes to z3: 1 sat 0 unsat -1 unknown
void setModel(const std::vector<uint8_t>& m);
bool pcHolds();                           // every path constraint true under current model (engine self-check)
size_t pcSize();
void enableSmtDump(const char* prefix);
void markLinked(E e);                     // variables of e may no longer be changed independently of the rest of the model
