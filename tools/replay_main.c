/* linked into every replay: feeds the counterexample to the harness */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
struct vf_ent { const char *name; unsigned off; unsigned len; const unsigned char *bytes; };
#include "vf_data.h"
int vf_failed;
void VF_HARNESS(void);
void vf_load(const char *name, void *p, unsigned size)
{
    const struct vf_ent *e;
    memset(p, 0, size);
    for (e = vf_ents; e->name; e++)
        if (strcmp(e->name, name) == 0 && e->off + e->len <= size)
            memcpy((char *)p + e->off, e->bytes, e->len);
}
void vf_undef_reached(void)
{
    printf("REPLAY-UNMODELLED\n"); fflush(stdout); exit(78);
}
int main(void)
{
    VF_HARNESS();
    printf(vf_failed ? "REPLAY-RESULT violated\n" : "REPLAY-RESULT held\n");
    fflush(stdout);
    exit(vf_failed ? 1 : 0);
}
