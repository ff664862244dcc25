/* Interposer on the MPI profiling interface: records what every rank sends,
   receives and when it finishes, delays calls at random (some ranks more than
   others), and turns sends into synchronous ones when asked, so that nothing
   relies on buffering. MPIMON_DIR, MPIMON_SEED, MPIMON_DELAY (us),
   MPIMON_SLOW (rank or -1), MPIMON_SYNC. */
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>

static FILE* out;
static int me = -1, slow = -1, sync_mode, nproc;
static unsigned long state;
static long delay;

static void nap(void)
{
    if (delay <= 0) return;
    state = state * 6364136223846793005UL + 1442695040888963407UL;
    long d = (long)((state >> 33) % (unsigned long)delay);
    if (slow == me) d += 5 * delay;
    usleep(d);
}

static void rec(const char* op, int peer, int tag, long n)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    if (out) { fprintf(out, "%s %d %d %ld %ld.%06ld\n", op, peer, tag, n, (long)t.tv_sec, t.tv_nsec / 1000); fflush(out); }
}

static void start(void)
{
    char name[4096];
    PMPI_Comm_rank(MPI_COMM_WORLD, &me);
    PMPI_Comm_size(MPI_COMM_WORLD, &nproc);
    const char* d = getenv("MPIMON_DIR");
    snprintf(name, sizeof name, "%s/rank.%d", d ? d : ".", me);
    out = fopen(name, "w");
    delay = getenv("MPIMON_DELAY") ? atol(getenv("MPIMON_DELAY")) : 0;
    slow = getenv("MPIMON_SLOW") ? atoi(getenv("MPIMON_SLOW")) : -1;
    sync_mode = getenv("MPIMON_SYNC") ? atoi(getenv("MPIMON_SYNC")) : 0;
    state = (getenv("MPIMON_SEED") ? strtoul(getenv("MPIMON_SEED"), 0, 10) : 1) * 7919 + me * 104729 + 1;
    rec("init", nproc, 0, 0);
    nap();
}

int MPI_Init(int* c, char*** v) { int r = PMPI_Init(c, v); start(); return r; }
int MPI_Init_thread(int* c, char*** v, int q, int* p) { int r = PMPI_Init_thread(c, v, q, p); start(); return r; }

int MPI_Send(const void* b, int n, MPI_Datatype t, int to, int tag, MPI_Comm c)
{
    nap();
    rec("send", to, tag, n);
    return sync_mode ? PMPI_Ssend(b, n, t, to, tag, c) : PMPI_Send(b, n, t, to, tag, c);
}

int MPI_Recv(void* b, int n, MPI_Datatype t, int from, int tag, MPI_Comm c, MPI_Status* s)
{
    MPI_Status own;
    nap();
    int r = PMPI_Recv(b, n, t, from, tag, c, &own);
    int got = -1;
    PMPI_Get_count(&own, t, &got);
    rec("recv", own.MPI_SOURCE, own.MPI_TAG, got);
    if (s != MPI_STATUS_IGNORE) *s = own;
    return r;
}

int MPI_Probe(int from, int tag, MPI_Comm c, MPI_Status* s) { nap(); return PMPI_Probe(from, tag, c, s); }
int MPI_Barrier(MPI_Comm c) { nap(); rec("barrier", 0, 0, 0); int r = PMPI_Barrier(c); nap(); return r; }
int MPI_Gather(const void* a, int n, MPI_Datatype t, void* b, int m, MPI_Datatype u, int root, MPI_Comm c) { nap(); rec("gather", root, 0, n); return PMPI_Gather(a, n, t, b, m, u, root, c); }
int MPI_Gatherv(const void* a, int n, MPI_Datatype t, void* b, const int* m, const int* d, MPI_Datatype u, int root, MPI_Comm c) { nap(); rec("gatherv", root, 0, n); return PMPI_Gatherv(a, n, t, b, m, d, u, root, c); }
int MPI_Reduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { nap(); rec("reduce", root, 0, n); return PMPI_Reduce(a, b, n, t, o, root, c); }

int MPI_Finalize(void)
{
    nap();
    int flag = 0;
    MPI_Status s;
    /* whatever was sent must have been received by now: let it arrive */
    for (int i = 0; i < 3 && !flag; i++) { PMPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &flag, &s); if (!flag) usleep(2000); }
    if (flag) rec("left", s.MPI_SOURCE, s.MPI_TAG, 0);
    int r = PMPI_Finalize();
    rec("done", 0, 0, 0);
    if (out) fclose(out);
    out = 0;
    return r;
}
