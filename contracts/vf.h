/* vf.h - glue shared by every contract file.
 *
 * One text serves two purposes:
 *   VF_CBMC    the verifier reads it: inputs are unconstrained (nondet), the
 *              contracts are real __CPROVER_ clauses.
 *   VF_REPLAY  mingw-gcc compiles it and it runs under wine: inputs come from
 *              the verifier's counterexample (vf_data.h), the same
 *              postcondition functions are evaluated on what the real code did.
 */
#ifndef VF_H
#define VF_H

#ifdef VF_CBMC
# define REQUIRES(...)  __CPROVER_requires(__VA_ARGS__)
# define ENSURES(...)   __CPROVER_ensures(__VA_ARGS__)
# define ASSIGNS(...)   __CPROVER_assigns(__VA_ARGS__)
# define FREES(...)     __CPROVER_frees(__VA_ARGS__)
# define OBJ(p)         __CPROVER_object_whole(p)
# define CONTRACT       1
/* named obligation */
# define VF_CHECK(c, name)   __CPROVER_assert((c), "VF:" name)
/* must be reachable: the verifier has to refute this (vacuity guard) */
# define VF_REACH(name)      __CPROVER_assert(0, "VF_REACH:" name)
# define VF_ASSUME(c)        __CPROVER_assume(c)
/* evaluate a postcondition in the harness too (needed for the replay only) */
static const int vf_never = 0;
# define VF_POST(c, name)    do { if ( vf_never ) (void)(c); } while (0)
# define VF_IN(x)            do { __typeof__(x) vf_tmp; x = vf_tmp; } while (0)
# define VF_IN_ARR(a, n)     do { __CPROVER_havoc_object(a); } while (0)
# define VF_MAIN(h)
#else
# include <stdio.h>
# include <stdlib.h>
# include <string.h>
# define REQUIRES(...)
# define ENSURES(...)
# define ASSIGNS(...)
# define FREES(...)
extern int vf_failed;
void vf_load(const char *name, void *p, unsigned size);
# define VF_CHECK(c, name)   do { if (!(c)) { printf("REPLAY-FAIL %s\n", name); fflush(stdout); vf_failed = 1; } } while (0)
# define VF_POST(c, name)    VF_CHECK(c, name)
# define VF_REACH(name)      do { printf("reached %s\n", name); fflush(stdout); } while (0)
# define VF_ASSUME(c)        do { if (!(c)) { printf("REPLAY-ASSUME-FALSE %s\n", #c); fflush(stdout); exit(77); } } while (0)
# define VF_IN(x)            vf_load(#x, &(x), sizeof(x))
# define VF_IN_ARR(a, n)     vf_load(#a, (a), sizeof(a))
# define VF_MAIN(h)
#endif

#endif
