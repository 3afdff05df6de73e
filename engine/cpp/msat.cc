// Thin C interface to the installed MiniSat library (incremental, assumptions).
#define __STDC_LIMIT_MACROS
#define __STDC_FORMAT_MACROS
#include <minisat/core/Solver.h>
using namespace Minisat;
extern "C" {
void* ms_new() { Solver* s = new Solver(); s->verbosity = 0; return s; }
void ms_free(void* p) { delete (Solver*)p; }
int ms_new_var(void* p) { return ((Solver*)p)->newVar(); }
// lits: 2*var+sign
int ms_add_clause(void* p, const int* l, int n) {
  vec<Lit> c; for (int i = 0; i < n; i++) c.push(toLit(l[i]));
  return ((Solver*)p)->addClause_(c);
}
// returns 1 sat, 0 unsat, 2 unknown
int ms_solve(void* p, const int* l, int n, long long conf) {
  Solver* s = (Solver*)p; vec<Lit> a; for (int i = 0; i < n; i++) a.push(toLit(l[i]));
  if (conf >= 0) s->setConfBudget(conf); else s->budgetOff();
  lbool r = s->solveLimited(a);
  if (r == l_True) return 1; if (r == l_False) return 0; return 2;
}
int ms_model(void* p, int v) { Solver* s = (Solver*)p; if (v >= s->model.size()) return 0; return s->model[v] == l_True ? 1 : 0; }
void ms_set_decision(void* p, int v, int b) { ((Solver*)p)->setDecisionVar(v, b != 0); }
int ms_okay(void* p) { return ((Solver*)p)->okay(); }
long long ms_conflicts(void* p) { return ((Solver*)p)->conflicts; }
}
