"""mpirun, guarded."""
from vlib import *
ENV = {'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1', 'OMPI_MCA_mpi_yield_when_idle': '1', 'OMPI_MCA_hwloc_base_binding_policy': 'none',
       'OMPI_MCA_btl_vader_single_copy_mechanism': 'none', 'OMPI_MCA_btl': 'self,vader', 'OMPI_MCA_orte_tmpdir_base': ''}
def mpirun(ctx, P, cmd, timeout):
    tmp = ctx.fresh('ompi'); os.makedirs(tmp)
    env = dict(ENV, OMPI_MCA_orte_tmpdir_base=tmp, TMPDIR=tmp)
    r = run(['mpirun', '--allow-run-as-root', '--oversubscribe', '-n', str(P)] + cmd, timeout=timeout, env=env)
    shutil.rmtree(tmp, ignore_errors=True)
    return r
HELLO = '''#include <mpi.h>
#include <cstdio>
int main(int c, char **v) { MPI_Init(&c, &v); int r, s, x = 1, y = 0; MPI_Comm_rank(MPI_COMM_WORLD, &r); MPI_Allreduce(&x, &y, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
 MPI_Comm_size(MPI_COMM_WORLD, &s); if (r == 0) std::printf("%d\\n", y == s ? s : -1); MPI_Finalize(); return 0; }'''
def available(ctx):
    """can this sandbox run MPI programs at all?"""
    f = ctx.path('hello.cpp'); open(f, 'w').write(HELLO)
    rc, o, e = run(['g++', f, '-o', f + '.exe'] + MPI_INC + LIBS_MPI)
    if rc: return False
    rc, o, e = mpirun(ctx, 3, [f + '.exe'], 60)
    ok = rc == 0 and o.strip() == '3'
    if not ok: log('mpirun does not work here:', rc, e[-300:])
    return ok
