/* Number of nonzeros of the working problem at an observation point (-1 if the
   library's internal structures are not those this file was written for). */
struct Problem;
#ifdef WITHOUT_INTERNALS
long vp_nnz(const struct Problem *p) { (void) p; return -1; }
#else
#include "Constraints.h"
#include "Matrix.h"
#include "Problem.h"
long vp_nnz(const struct Problem *p) { return (long) p->constraints->A->nnz; }
#endif
