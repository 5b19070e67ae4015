/* finj MODE N ARG DIR -- CMD...: runs CMD and interferes with one of the file-system calls that it makes
 * below DIR between access("//FINJ/start") and access("//FINJ/stop"). The calls are numbered from 1.
 *   count  0 -   interferes with nothing
 *   kill   N -   kills the process just before call N
 *   torn   N P   call N, if it writes, writes only P percent of its bytes; then the process is killed
 *   after  N -   kills the process just after call N
 *   err    N E   call N fails with errno E
 *   full   N E   call N, and every later call that would use disk space, fails with errno E
 *   short  N E   call N, if it writes, writes only half of its bytes, and later writes fail with errno E
 * Appends a line per numbered call to the file named by FINJ_LOG, and "hit" if it interfered. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

static const char *dir;
static size_t dirlen;
static int active, count;
static FILE *lg;

static int rdstr(pid_t p, unsigned long a, char *b, size_t n) {
    size_t i = 0;
    while (i + 1 < n) {
        size_t k = 256 - (a + i) % 256;
        if (k > n - 1 - i) k = n - 1 - i;
        struct iovec l = {b + i, k}, r = {(void *)(a + i), k};
        ssize_t g = process_vm_readv(p, &l, 1, &r, 1, 0);
        if (g <= 0) {
            /* fall back to PEEKDATA */
            errno = 0;
            long w = ptrace(PTRACE_PEEKDATA, p, (void *)(a + i), 0);
            if (errno) return -1;
            g = sizeof w < k ? sizeof w : k;
            memcpy(b + i, &w, g);
        }
        char *z = memchr(b + i, 0, g);
        if (z) return 0;
        i += g;
    }
    b[n - 1] = 0;
    return 0;
}
static int below(const char *s) { return strncmp(s, dir, dirlen) == 0 && (s[dirlen] == '/' || s[dirlen] == 0); }
static int pathbelow(pid_t p, unsigned long a) { char b[PATH_MAX]; return rdstr(p, a, b, sizeof b) == 0 && below(b); }
static int fdbelow(pid_t p, long fd) {
    char q[64], b[PATH_MAX];
    snprintf(q, sizeof q, "/proc/%d/fd/%ld", p, fd);
    ssize_t n = readlink(q, b, sizeof b - 1);
    if (n < 0) return 0;
    b[n] = 0;
    return below(b);
}
/* what a call is: 0 not ours, 1 reads, 2 uses space (creates, writes), 3 changes (rename, unlink, ..) */
static int kind(pid_t p, struct user_regs_struct *r, int *writes) {
    *writes = 0;
    switch (r->orig_rax) {
    case SYS_open: return pathbelow(p, r->rdi) ? ((r->rsi & (O_CREAT | O_TRUNC)) ? 2 : 1) : 0;
    case SYS_creat: return pathbelow(p, r->rdi) ? 2 : 0;
    case SYS_openat: return pathbelow(p, r->rsi) ? ((r->rdx & (O_CREAT | O_TRUNC)) ? 2 : 1) : 0;
    case SYS_write: case SYS_pwrite64: *writes = 1; return fdbelow(p, r->rdi) ? 2 : 0;
    case SYS_writev: case SYS_pwritev: return fdbelow(p, r->rdi) ? 2 : 0;
    case SYS_copy_file_range: return fdbelow(p, r->rdx) ? 2 : 0;
    case SYS_sendfile: return fdbelow(p, r->rdi) ? 2 : 0;
    case SYS_fallocate: return fdbelow(p, r->rdi) ? 2 : 0;
    case SYS_ftruncate: case SYS_fchmod: case SYS_fsync: case SYS_fdatasync: return fdbelow(p, r->rdi) ? 3 : 0;
    case SYS_truncate: case SYS_chmod: case SYS_unlink: case SYS_rmdir: return pathbelow(p, r->rdi) ? 3 : 0;
    case SYS_mkdir: return pathbelow(p, r->rdi) ? 2 : 0;
    case SYS_mkdirat: return pathbelow(p, r->rsi) ? 2 : 0;
    case SYS_unlinkat: case SYS_fchmodat: return pathbelow(p, r->rsi) ? 3 : 0;
    case SYS_rename: case SYS_link: case SYS_symlink: return pathbelow(p, r->rsi) ? 2 : 0;
    case SYS_renameat: case SYS_renameat2: case SYS_linkat: return pathbelow(p, r->r10) ? 2 : 0;
    case SYS_symlinkat: return pathbelow(p, r->rdx) ? 2 : 0;
    case SYS_read: case SYS_pread64: case SYS_getdents64: case SYS_fstat: case SYS_lseek: case SYS_close:
        return fdbelow(p, r->rdi) ? 1 : 0;
    case SYS_stat: case SYS_lstat: case SYS_access: return pathbelow(p, r->rdi) ? 1 : 0;
    case SYS_newfstatat: case SYS_statx: case SYS_faccessat: case SYS_faccessat2: return pathbelow(p, r->rsi) ? 1 : 0;
    }
    return 0;
}
struct th { pid_t pid; int in, fail, killafter; };
static struct th ths[4096];
static int nth;
static struct th *get(pid_t p) {
    for (int i = 0; i < nth; i++) if (ths[i].pid == p) return &ths[i];
    if (nth == 4096) exit(90);
    ths[nth].pid = p; ths[nth].in = ths[nth].fail = ths[nth].killafter = 0;
    return &ths[nth++];
}
int main(int c, char **v) {
    if (c < 7 || strcmp(v[5], "--")) { fprintf(stderr, "usage\n"); return 90; }
    const char *mode = v[1]; int N = atoi(v[2]), A = atoi(v[3]);
    dir = v[4]; dirlen = strlen(dir);
    const char *ln = getenv("FINJ_LOG");
    lg = ln ? fopen(ln, "we") : fopen("/dev/null", "we");
    if (!lg) return 90;
    pid_t child = fork();
    if (child == 0) {
        ptrace(PTRACE_TRACEME, 0, 0, 0);
        raise(SIGSTOP);
        execvp(v[6], v + 6);
        _exit(91);
    }
    int st;
    if (waitpid(child, &st, 0) != child || !WIFSTOPPED(st)) return 90;
    if (ptrace(PTRACE_SETOPTIONS, child, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK |
               PTRACE_O_TRACEVFORK | PTRACE_O_EXITKILL | PTRACE_O_TRACEEXEC)) return 90;
    ptrace(PTRACE_SYSCALL, child, 0, 0);
    int sticky = 0, rc = 92, dead = 0;
    for (;;) {
        pid_t p = waitpid(-1, &st, __WALL);
        if (p < 0) break;
        if (WIFEXITED(st) || WIFSIGNALED(st)) {
            if (p == child) rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
            continue;
        }
        if (!WIFSTOPPED(st)) continue;
        int sig = WSTOPSIG(st), deliver = 0;
        if (sig == (SIGTRAP | 0x80)) {
            struct user_regs_struct r;
            struct th *t = get(p);
            if (ptrace(PTRACE_GETREGS, p, 0, &r)) { ptrace(PTRACE_SYSCALL, p, 0, 0); continue; }
            if (!t->in && (long)r.rax == -ENOSYS) { /* entry */
                t->in = 1; t->fail = 0;
                int w = 0;
                if (r.orig_rax == SYS_access || r.orig_rax == SYS_faccessat || r.orig_rax == SYS_faccessat2) {
                    char b[64];
                    unsigned long a = r.orig_rax == SYS_access ? r.rdi : r.rsi;
                    if (rdstr(p, a, b, sizeof b) == 0) {
                        if (!strcmp(b, "//FINJ/start")) active = 1;
                        if (!strcmp(b, "//FINJ/stop")) active = 0;
                    }
                }
                int k = active && !dead ? kind(p, &r, &w) : 0;
                if (k) {
                    count++;
                    fprintf(lg, "%d %lld %d %d\n", count, (long long)r.orig_rax, k, w);
                    fflush(lg);
                    int hit = count == N;
                    if (hit && !strcmp(mode, "kill")) { fprintf(lg, "hit\n"); fflush(lg); dead = 1; kill(child, SIGKILL); }
                    else if (hit && !strcmp(mode, "after")) { t->killafter = 1; }
                    else if (hit && !strcmp(mode, "torn") && w && r.rdx > 0) {
                        r.rdx = r.rdx * A / 100; t->killafter = 1;
                        ptrace(PTRACE_SETREGS, p, 0, &r);
                    } else if (hit && !strcmp(mode, "err")) { t->fail = A; }
                    else if (!strcmp(mode, "full") && (hit || sticky) && (hit || k == 2)) { t->fail = A; sticky = 1; }
                    else if (!strcmp(mode, "short") && hit && w && r.rdx > 1) {
                        r.rdx /= 2; sticky = 1; fprintf(lg, "hit\n");
                        ptrace(PTRACE_SETREGS, p, 0, &r);
                    } else if (!strcmp(mode, "short") && sticky && k == 2) t->fail = A;
                    if (t->fail) {
                        fprintf(lg, "hit\n"); fflush(lg);
                        r.orig_rax = -1;
                        ptrace(PTRACE_SETREGS, p, 0, &r);
                    }
                }
            } else { /* exit */
                t->in = 0;
                if (t->fail) { r.rax = -(long)t->fail; t->fail = 0; ptrace(PTRACE_SETREGS, p, 0, &r); }
                if (t->killafter) { fprintf(lg, "hit\n"); fflush(lg); dead = 1; kill(child, SIGKILL); }
            }
        } else if (sig == SIGTRAP || sig == SIGSTOP) {
            /* events; new threads start with SIGSTOP */
        } else deliver = sig;
        ptrace(PTRACE_SYSCALL, p, 0, deliver);
    }
    fclose(lg);
    return rc;
}
