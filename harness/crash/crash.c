/* crash [-o LOG] [-n N] [-m MODE] [-p PREFIX] [-x EXCEPT] -- PROG ARGS...
 *
 * Runs PROG and counts the system calls by which its own threads (not the programs it starts)
 * change the file system below PREFIX (the file EXCEPT apart): creating, writing, renaming, removing, linking, resizing
 * and changing attributes.  At the N-th of them it does what MODE says:
 *   kill    ends PROG with SIGKILL before the call takes place
 *   torn    lets a write write only half of its data, then ends PROG
 *   after   ends PROG when the call has taken place
 *   enospc  lets this call and all later creating or writing calls below PREFIX fail with ENOSPC
 *   fail1   lets this one call fail with EIO
 * LOG receives one line per counted call: number, name, path, and a last line "total N".
 * Programs started by PROG are followed only so that they run undisturbed.
 * Exit status: PROG's; 137 when it was ended.
 */
#define _GNU_SOURCE
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

static const struct { long nr; const char *name; int kind; } calls[] = {
	/* kind: 1 path in arg0, 2 dirfd arg0 path arg1, 3 fd in arg0, 4 rename (old path shown), 5 openat, 6 copy_file_range */
	{SYS_write, "write", 3}, {SYS_pwrite64, "pwrite", 3}, {SYS_writev, "writev", 3}, {SYS_ftruncate, "ftruncate", 3},
	{SYS_fchmod, "fchmod", 3}, {SYS_rename, "rename", 4}, {SYS_renameat, "rename", 2}, {SYS_renameat2, "rename", 2},
	{SYS_unlink, "unlink", 1}, {SYS_unlinkat, "unlink", 2}, {SYS_rmdir, "rmdir", 1}, {SYS_mkdir, "mkdir", 1},
	{SYS_mkdirat, "mkdir", 2}, {SYS_link, "link", 1}, {SYS_linkat, "link", 2}, {SYS_chmod, "chmod", 1},
	{SYS_fchmodat, "chmod", 2}, {SYS_truncate, "truncate", 1}, {SYS_utimensat, "utimes", 2}, {SYS_openat, "open", 5},
	{SYS_symlinkat, "symlink", 1}, {SYS_symlink, "symlink", 1}, {SYS_copy_file_range, "copy_file_range", 6}, {SYS_sendfile, "sendfile", 3}, {SYS_splice, "splice", 6},
};
#define NCALLS (sizeof calls / sizeof *calls)

static pid_t leader;
static FILE *logf_;
static long want = 0, count = 0;
static const char *mode = "kill", *prefix = "/", *except = "//";
static int done = 0, broken = 0;

static pid_t tgid_of(pid_t t)
{
	char p[64], l[256];
	snprintf(p, sizeof p, "/proc/%d/status", t);
	FILE *f = fopen(p, "r");
	pid_t r = -1;
	if (!f) return -1;
	while (fgets(l, sizeof l, f))
		if (sscanf(l, "Tgid: %d", &r) == 1) break;
	fclose(f);
	return r;
}

static void fdpath(pid_t t, long fd, char *out)
{
	char p[64];
	if (fd == AT_FDCWD) snprintf(p, sizeof p, "/proc/%d/cwd", t);
	else snprintf(p, sizeof p, "/proc/%d/fd/%ld", t, fd);
	ssize_t n = readlink(p, out, PATH_MAX - 1);
	out[n < 0 ? 0 : n] = 0;
}

static void str(pid_t t, unsigned long a, char *out)
{
	size_t got = 0;
	out[0] = 0;
	while (got < PATH_MAX - 1) {
		size_t n = 256;
		if ((a + got) % 4096 + n > 4096) n = 4096 - (a + got) % 4096;
		struct iovec l = {out + got, n}, r = {(void *)(a + got), n};
		ssize_t k = process_vm_readv(t, &l, 1, &r, 1, 0);
		if (k <= 0) { /* fall back to peeking */
			errno = 0;
			long w = ptrace(PTRACE_PEEKDATA, t, (a + got), 0);
			if (errno) break;
			memcpy(out + got, &w, sizeof w);
			k = sizeof w;
		}
		for (ssize_t i = 0; i < k; i++)
			if (!out[got + i]) return;
		got += k;
		if (got + 300 > PATH_MAX) break;
	}
	out[got] = 0;
}

static void at(pid_t t, long fd, unsigned long a, char *out)
{
	char p[PATH_MAX], d[PATH_MAX];
	str(t, a, p);
	if (p[0] == '/') { strcpy(out, p); return; }
	fdpath(t, fd, d);
	snprintf(out, 2 * PATH_MAX, "%s/%s", d, p);
}

int main(int argc, char **argv)
{
	int o;
	while ((o = getopt(argc, argv, "+o:n:m:p:x:")) != -1)
		switch (o) {
		case 'o': logf_ = fopen(optarg, "we"); break;
		case 'n': want = atol(optarg); break;
		case 'm': mode = optarg; break;
		case 'p': prefix = optarg; break;
		case 'x': except = optarg; break;
		default: return 99;
		}
	if (optind >= argc) return 99;
	leader = fork();
	if (leader < 0) return 99;
	if (leader == 0) {
		struct sock_filter f[NCALLS * 2 + 8];
		int n = 0;
		f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
		for (unsigned i = 0; i < NCALLS; i++) {
			f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, calls[i].nr, 0, 1);
			f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
		}
		f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
		struct sock_fprog pr = {n, f};
		if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(98);
		raise(SIGSTOP);
		if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr)) _exit(98);
		execvp(argv[optind], argv + optind);
		_exit(127);
	}
	int st, code = 99;
	if (waitpid(leader, &st, __WALL) != leader || !WIFSTOPPED(st)) return 99;
	if (ptrace(PTRACE_SETOPTIONS, leader, 0, PTRACE_O_TRACESECCOMP | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK |
		PTRACE_O_TRACEEXEC | PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL)) return 99;
	ptrace(PTRACE_CONT, leader, 0, 0);
	pid_t killer = 0; /* thread whose counted call is to finish before the end */
	int execd = 0, left = 1;
	while (left) {
		pid_t t = waitpid(-1, &st, __WALL);
		if (t < 0) {
			if (errno == EINTR) continue;
			break;
		}
		if (WIFEXITED(st) || WIFSIGNALED(st)) {
			if (t == leader) code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
			continue;
		}
		if (!WIFSTOPPED(st)) continue;
		int sig = WSTOPSIG(st), ev = st >> 16;
		if (ev == PTRACE_EVENT_EXEC && t == leader) execd = 1;
		if (ev == PTRACE_EVENT_SECCOMP && execd && !done && tgid_of(t) == leader) {
			struct user_regs_struct r;
			if (ptrace(PTRACE_GETREGS, t, 0, &r)) { ptrace(PTRACE_CONT, t, 0, 0); continue; }
			static char p[2 * PATH_MAX];
			const char *name = "?";
			int kind = 0;
			p[0] = 0;
			for (unsigned i = 0; i < NCALLS; i++)
				if (calls[i].nr == (long)r.orig_rax) { name = calls[i].name; kind = calls[i].kind; }
			switch (kind) {
			case 1: case 4: at(t, AT_FDCWD, r.rdi, p); break;
			case 2: at(t, (int)r.rdi, r.rsi, p); break;
			case 3: fdpath(t, (int)r.rdi, p); break;
			case 6: fdpath(t, (int)r.rdx, p); break;
			case 5:
				if (r.rdx & (O_CREAT | O_TRUNC)) at(t, (int)r.rdi, r.rsi, p);
				break;
			}
			if (!strncmp(p, prefix, strlen(prefix)) && strcmp(p, except)) {
				count++;
				if (logf_) fprintf(logf_, "%ld %s %s\n", count, name, p);
				if (broken && (kind == 5 || !strcmp(name, "write") || !strcmp(name, "mkdir") || !strcmp(name, "copy_file_range"))) {
					r.orig_rax = -1; r.rax = -ENOSPC;
					ptrace(PTRACE_SETREGS, t, 0, &r);
				} else if (count == want) {
					if (!strcmp(mode, "kill")) {
						done = 1;
						kill(leader, SIGKILL);
						continue;
					} else if (!strcmp(mode, "torn") || !strcmp(mode, "after")) {
						if (!strcmp(mode, "torn") && (!strcmp(name, "write") || !strcmp(name, "pwrite")) && r.rdx > 1) {
							r.rdx /= 2;
							ptrace(PTRACE_SETREGS, t, 0, &r);
						}
						killer = t;
						ptrace(PTRACE_SYSCALL, t, 0, 0);
						continue;
					} else if (!strcmp(mode, "fail1")) {
						r.orig_rax = -1; r.rax = -EIO;
						ptrace(PTRACE_SETREGS, t, 0, &r);
					} else if (!strcmp(mode, "enospc")) {
						broken = 1;
						if (kind == 5 || !strcmp(name, "write") || !strcmp(name, "mkdir") || !strcmp(name, "copy_file_range")) {
							r.orig_rax = -1; r.rax = -ENOSPC;
							ptrace(PTRACE_SETREGS, t, 0, &r);
						}
					}
				}
			}
			ptrace(PTRACE_CONT, t, 0, 0);
			continue;
		}
		if (sig == (SIGTRAP | 0x80)) {
			if (t == killer) {
				done = 1;
				killer = 0;
				kill(leader, SIGKILL);
				continue;
			}
			ptrace(PTRACE_CONT, t, 0, 0);
			continue;
		}
		if (ev) { ptrace(PTRACE_CONT, t, 0, 0); continue; }
		if (sig == SIGSTOP) sig = 0; /* a new thread or child */
		ptrace(PTRACE_CONT, t, 0, sig);
	}
	if (logf_) { fprintf(logf_, "total %ld\n", count); fclose(logf_); }
	return code;
}
