/* Runs a program and records every operation on files below a directory, with
   the contents of all the files there after each operation that can change
   them. Optionally makes one of the operations fail, or kills the program
   right before it.
   usage: faults DIR LOG N ACTION -- program arguments...
     N       number of the operation (from 1) to act on, 0 for none
     ACTION  kill | short | an error number
   Log lines: op <n> <name> <path> <arg> <result> <acted>
              snap <n> <file>:<size>:<hash> ... */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

static const char *dir;
static size_t dirlen;
static FILE *lg;
static pid_t root;
static long count, at;
static int act_kill, act_short, act_err;

struct thr { pid_t tid; int in, hit; long no; const char *name; char path[PATH_MAX]; long arg; int mutates; long nr; };
static struct thr th[4096];
static int nth;

static struct thr *get(pid_t t) {
	for (int i = 0; i < nth; i++)
		if (th[i].tid == t) return &th[i];
	if (nth == 4096) { fprintf(stderr, "faults: too many threads\n"); exit(99); }
	memset(&th[nth], 0, sizeof th[nth]);
	th[nth].tid = t;
	return &th[nth++];
}

static void str(pid_t t, unsigned long a, char *out) {
	struct iovec l = { out, PATH_MAX - 1 }, r = { (void *)a, 0 };
	size_t n = 0;
	while (n < PATH_MAX - 1) {     /* page by page: the string may end right before an unmapped page */
		size_t step = 4096 - ((a + n) & 4095);
		if (step > PATH_MAX - 1 - n) step = PATH_MAX - 1 - n;
		l.iov_base = out + n; l.iov_len = step;
		r.iov_base = (void *)(a + n); r.iov_len = step;
		ssize_t g = process_vm_readv(t, &l, 1, &r, 1, 0);
		if (g <= 0) break;
		if (memchr(out + n, 0, g)) return;
		n += g;
	}
	out[n] = 0;
}

static int inside(const char *p) { return !strncmp(p, dir, dirlen) && p[dirlen] == '/'; }

static void atpath(pid_t t, int dfd, unsigned long a, char *out) {
	char s[PATH_MAX], b[PATH_MAX], link[64];
	str(t, a, s);
	if (s[0] == '/') { strcpy(out, s); return; }
	if (dfd == AT_FDCWD) snprintf(link, sizeof link, "/proc/%d/cwd", t);
	else snprintf(link, sizeof link, "/proc/%d/fd/%d", t, dfd);
	ssize_t n = readlink(link, b, sizeof b - 1);
	b[n > 0 ? n : 0] = 0;
	snprintf(out, PATH_MAX, "%.2000s/%.2000s", b, s);
}

static void fdpath(pid_t t, int fd, char *out) {
	char link[64];
	snprintf(link, sizeof link, "/proc/%d/fd/%d", t, fd);
	ssize_t n = readlink(link, out, PATH_MAX - 1);
	out[n > 0 ? n : 0] = 0;
}

static void snap(long no) {
	DIR *d = opendir(dir);
	struct dirent *e;
	fprintf(lg, "snap %ld", no);
	while ((e = readdir(d))) {
		char p[PATH_MAX];
		struct stat st;
		if (e->d_name[0] == '.') continue;
		snprintf(p, sizeof p, "%.2000s/%.255s", dir, e->d_name);
		if (lstat(p, &st) || !S_ISREG(st.st_mode)) continue;
		uint64_t h = 14695981039346656037ULL;
		FILE *f = fopen(p, "rb");
		if (!f) continue;
		static unsigned char buf[65536];
		size_t n;
		while ((n = fread(buf, 1, sizeof buf, f)) > 0)
			for (size_t i = 0; i < n; i++) h = (h ^ buf[i]) * 1099511628211ULL;
		fclose(f);
		fprintf(lg, " %s:%lld:%016llx", e->d_name, (long long)st.st_size, (unsigned long long)h);
	}
	fprintf(lg, "\n");
	closedir(d);
}

static int enter(struct thr *q, struct user_regs_struct *r) {
	pid_t t = q->tid;
	q->name = NULL; q->mutates = 0; q->arg = 0; q->path[0] = 0; q->nr = r->orig_rax;
	switch (r->orig_rax) {
	case SYS_open: q->name = "open"; atpath(t, AT_FDCWD, r->rdi, q->path); q->arg = r->rsi; break;
	case SYS_creat: q->name = "open"; atpath(t, AT_FDCWD, r->rdi, q->path); q->arg = O_CREAT | O_TRUNC | O_WRONLY; break;
	case SYS_openat: q->name = "open"; atpath(t, (int)r->rdi, r->rsi, q->path); q->arg = r->rdx; break;
	case SYS_read: case SYS_pread64: case SYS_readv: case SYS_preadv:
		q->name = "read"; fdpath(t, (int)r->rdi, q->path); q->arg = r->rdx; break;
	case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev:
		q->name = "write"; fdpath(t, (int)r->rdi, q->path); q->arg = r->rdx; q->mutates = 1; break;
	case SYS_lseek: q->name = "seek"; fdpath(t, (int)r->rdi, q->path); q->arg = r->rsi; break;
	case SYS_close: q->name = "close"; fdpath(t, (int)r->rdi, q->path); break;
	case SYS_fsync: case SYS_fdatasync: q->name = "sync"; fdpath(t, (int)r->rdi, q->path); break;
	case SYS_ftruncate: q->name = "truncate"; fdpath(t, (int)r->rdi, q->path); q->arg = r->rsi; q->mutates = 1; break;
	case SYS_truncate: q->name = "truncate"; atpath(t, AT_FDCWD, r->rdi, q->path); q->arg = r->rsi; q->mutates = 1; break;
	case SYS_fallocate: q->name = "write"; fdpath(t, (int)r->rdi, q->path); q->mutates = 1; break;
	case SYS_copy_file_range: q->name = "write"; fdpath(t, (int)r->rdx, q->path); q->arg = r->r8; q->mutates = 1; break;
	case SYS_sendfile: q->name = "write"; fdpath(t, (int)r->rdi, q->path); q->arg = r->r10; q->mutates = 1; break;
	case SYS_splice: q->name = "write"; fdpath(t, (int)r->rdx, q->path); q->arg = r->r8; q->mutates = 1; break;
	case SYS_unlink: q->name = "unlink"; atpath(t, AT_FDCWD, r->rdi, q->path); q->mutates = 1; break;
	case SYS_unlinkat: q->name = "unlink"; atpath(t, (int)r->rdi, r->rsi, q->path); q->mutates = 1; break;
	case SYS_rename: q->name = "rename"; atpath(t, AT_FDCWD, r->rsi, q->path); q->mutates = 1; break;
	case SYS_renameat: case SYS_renameat2: q->name = "rename"; atpath(t, (int)r->rdx, r->r10, q->path); q->mutates = 1; break;
	case SYS_link: q->name = "link"; atpath(t, AT_FDCWD, r->rsi, q->path); q->mutates = 1; break;
	case SYS_linkat: q->name = "link"; atpath(t, (int)r->rdx, r->r10, q->path); q->mutates = 1; break;
	default: return 0;
	}
	if (!inside(q->path)) { q->name = NULL; return 0; }
	if (!strcmp(q->name, "open") && (q->arg & (O_TRUNC | O_CREAT))) q->mutates = 1;
	q->no = ++count;
	return 1;
}

int main(int argc, char **argv) {
	if (argc < 7) return 98;
	char rp[PATH_MAX];
	if (!realpath(argv[1], rp)) return 98;
	dir = rp; dirlen = strlen(rp);
	lg = fopen(argv[2], "w");
	at = atol(argv[3]);
	act_kill = !strcmp(argv[4], "kill");
	act_short = !strcmp(argv[4], "short");
	act_err = atoi(argv[4]);
	root = fork();
	if (!root) {
		ptrace(PTRACE_TRACEME, 0, 0, 0);
		raise(SIGSTOP);
		execv(argv[6], argv + 6);
		_exit(97);
	}
	int st;
	waitpid(root, &st, 0);
	ptrace(PTRACE_SETOPTIONS, root, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_EXITKILL);
	ptrace(PTRACE_SYSCALL, root, 0, 0);
	int rc = 96;
	for (;;) {
		pid_t t = waitpid(-1, &st, __WALL);
		if (t < 0) break;
		if (WIFEXITED(st) || WIFSIGNALED(st)) {
			if (t == root) rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
			for (int i = 0; i < nth; i++)
				if (th[i].tid == t) { th[i] = th[--nth]; break; }
			continue;
		}
		int sig = WSTOPSIG(st);
		if (sig == (SIGTRAP | 0x80)) {
			struct thr *q = get(t);
			struct user_regs_struct r;
			if (ptrace(PTRACE_GETREGS, t, 0, &r)) continue;
			if (!q->in) {
				q->in = 1; q->hit = 0;
				if (enter(q, &r) && q->no == at) {
					q->hit = 1;
					if (act_kill) {
						fprintf(lg, "op %ld %s %s %ld 0 kill\n", q->no, q->name, q->path + dirlen + 1, q->arg);
						kill(root, SIGKILL);
						ptrace(PTRACE_SYSCALL, t, 0, 0);
						continue;
					}
					if (act_short && (r.orig_rax == SYS_write || r.orig_rax == SYS_pwrite64 || r.orig_rax == SYS_read || r.orig_rax == SYS_pread64) && r.rdx > 1) {
						r.rdx /= 2;
						ptrace(PTRACE_SETREGS, t, 0, &r);
					} else if (act_err) {
						r.orig_rax = -1;
						ptrace(PTRACE_SETREGS, t, 0, &r);
					}
				}
			} else {
				q->in = 0;
				if (q->name) {
					long res = r.rax;
					if (q->hit && act_err) {
						/* a close that fails closes all the same */
						r.rax = res = -act_err;
						ptrace(PTRACE_SETREGS, t, 0, &r);
					}
					fprintf(lg, "op %ld %s %s %ld %ld %s\n", q->no, q->name, q->path + dirlen + 1, q->arg, res, q->hit ? "hit" : "-");
					if (q->mutates && (res >= 0 || q->hit)) snap(q->no);
				}
			}
			ptrace(PTRACE_SYSCALL, t, 0, 0);
		} else if (sig == SIGTRAP || sig == SIGSTOP) {
			get(t);
			ptrace(PTRACE_SYSCALL, t, 0, 0);
		} else {
			ptrace(PTRACE_SYSCALL, t, 0, sig);
		}
	}
	fprintf(lg, "exit %d\n", rc);
	snap(0);
	fclose(lg);
	return 0;
}
