/* fstrace LOG ROOT K ACTION -- command...
 *
 * Runs the command and numbers, over all its threads and children, the system calls that alter files under ROOT
 * (creation, truncation, writing, renaming, removal, mode change). One JSON line per call is written in LOG.
 * ACTION on the call number K: none | kill (the process is killed before the call) | short (a write is done only by
 * half, the process is killed after it) | E<number> (the call is not done and fails with this errno) |
 * half<number> (a write is done by half, the following writes of the same file fail with this errno).
 * Exit status: the one of the command, 137 when it was killed, 99 when the tracer failed. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

static FILE *logf_;
static const char *root;
static size_t rootlen;
static pid_t mainpid;
static int target, count;
static const char *action;

#define MAXT 4096
static struct { pid_t tid; int inject; int op; char path[PATH_MAX], path2[PATH_MAX]; const char *name; long len; } tasks[MAXT];
static int ntasks;
static char halfpath[PATH_MAX];

static int task(pid_t tid) {
	for (int i = 0; i < ntasks; i++) if (tasks[i].tid == tid) return i;
	if (ntasks == MAXT) { fprintf(stderr, "too many tasks\n"); exit(99); }
	memset(&tasks[ntasks], 0, sizeof tasks[0]);
	tasks[ntasks].tid = tid;
	return ntasks++;
}

static void getstr(pid_t tid, unsigned long addr, char *out) {
	size_t n = 0;
	out[0] = 0;
	while (n < PATH_MAX - 1) {
		char buf[256];
		size_t want = 256 - (addr & 255);
		struct iovec l = { buf, want }, r = { (void *)addr, want };
		ssize_t got = process_vm_readv(tid, &l, 1, &r, 1, 0);
		if (got <= 0) {
			errno = 0;
			long w = ptrace(PTRACE_PEEKDATA, tid, addr, 0);
			if (errno) break;
			memcpy(buf, &w, sizeof w);
			got = sizeof w;
		}
		for (ssize_t i = 0; i < got && n < PATH_MAX - 1; i++) {
			out[n++] = buf[i];
			if (!buf[i]) return;
		}
		addr += got;
	}
	out[n] = 0;
}

static void normalize(char *p) {
	char out[PATH_MAX] = "";
	char *save, *tok;
	char tmp[PATH_MAX];
	strcpy(tmp, p);
	for (tok = strtok_r(tmp, "/", &save); tok; tok = strtok_r(NULL, "/", &save)) {
		if (!strcmp(tok, ".")) continue;
		if (!strcmp(tok, "..")) { char *s = strrchr(out, '/'); if (s) *s = 0; continue; }
		strcat(out, "/");
		strcat(out, tok);
	}
	strcpy(p, out[0] ? out : "/");
}

static void resolve(pid_t tid, int dirfd, unsigned long addr, char *out) {
	char p[PATH_MAX], link[64];
	getstr(tid, addr, p);
	if (p[0] == '/') { strcpy(out, p); normalize(out); return; }
	if (dirfd == AT_FDCWD) snprintf(link, sizeof link, "/proc/%d/cwd", tid);
	else snprintf(link, sizeof link, "/proc/%d/fd/%d", tid, dirfd);
	char base[PATH_MAX];
	ssize_t n = readlink(link, base, sizeof base - 1);
	if (n < 0) n = 0;
	base[n] = 0;
	if (strlen(base) + strlen(p) + 2 > PATH_MAX) { out[0] = 0; return; }
	strcpy(out, base);
	strcat(out, "/");
	strcat(out, p);
	normalize(out);
}

static void fdpath(pid_t tid, int fd, char *out) {
	char link[64];
	snprintf(link, sizeof link, "/proc/%d/fd/%d", tid, fd);
	ssize_t n = readlink(link, out, PATH_MAX - 1);
	out[n < 0 ? 0 : n] = 0;
}

static int inside(const char *p) { return !strncmp(p, root, rootlen) && (p[rootlen] == '/' || p[rootlen] == 0); }

/* fills the task with the operation; returns whether it alters a file under root */
static int classify(pid_t tid, int t, long nr, unsigned long *a) {
	char *p = tasks[t].path, *q = tasks[t].path2;
	p[0] = q[0] = 0;
	tasks[t].len = 0;
	int flags;
	switch (nr) {
	case SYS_open: flags = a[1]; resolve(tid, AT_FDCWD, a[0], p); goto open_;
	case SYS_creat: flags = O_CREAT | O_WRONLY | O_TRUNC; resolve(tid, AT_FDCWD, a[0], p); goto open_;
	case SYS_openat: flags = a[2]; resolve(tid, a[0], a[1], p); goto open_;
	case SYS_openat2: flags = O_CREAT; resolve(tid, a[0], a[1], p); goto open_;
	open_:
		tasks[t].name = "open";
		if (!(flags & (O_CREAT | O_TRUNC)) && (flags & O_ACCMODE) == O_RDONLY) return 0;
		break;
	case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: case SYS_pwritev2:
		tasks[t].name = "write"; fdpath(tid, a[0], p); tasks[t].len = nr == SYS_write || nr == SYS_pwrite64 ? a[2] : 0; break;
	case SYS_copy_file_range: tasks[t].name = "write"; fdpath(tid, a[2], p); break;
	case SYS_sendfile: tasks[t].name = "write"; fdpath(tid, a[0], p); break;
	case SYS_ftruncate: tasks[t].name = "truncate"; fdpath(tid, a[0], p); break;
	case SYS_fallocate: tasks[t].name = "truncate"; fdpath(tid, a[0], p); break;
	case SYS_fchmod: tasks[t].name = "chmod"; fdpath(tid, a[0], p); break;
	case SYS_fchown: tasks[t].name = "chown"; fdpath(tid, a[0], p); break;
	case SYS_truncate: tasks[t].name = "truncate"; resolve(tid, AT_FDCWD, a[0], p); break;
	case SYS_chmod: tasks[t].name = "chmod"; resolve(tid, AT_FDCWD, a[0], p); break;
	case SYS_fchmodat: case SYS_fchmodat2: tasks[t].name = "chmod"; resolve(tid, a[0], a[1], p); break;
	case SYS_chown: case SYS_lchown: tasks[t].name = "chown"; resolve(tid, AT_FDCWD, a[0], p); break;
	case SYS_fchownat: tasks[t].name = "chown"; resolve(tid, a[0], a[1], p); break;
	case SYS_unlink: tasks[t].name = "unlink"; resolve(tid, AT_FDCWD, a[0], p); break;
	case SYS_unlinkat: tasks[t].name = "unlink"; resolve(tid, a[0], a[1], p); break;
	case SYS_rmdir: tasks[t].name = "rmdir"; resolve(tid, AT_FDCWD, a[0], p); break;
	case SYS_mkdir: tasks[t].name = "mkdir"; resolve(tid, AT_FDCWD, a[0], p); break;
	case SYS_mkdirat: tasks[t].name = "mkdir"; resolve(tid, a[0], a[1], p); break;
	case SYS_rename: tasks[t].name = "rename"; resolve(tid, AT_FDCWD, a[0], p); resolve(tid, AT_FDCWD, a[1], q); break;
	case SYS_renameat: case SYS_renameat2: tasks[t].name = "rename"; resolve(tid, a[0], a[1], p); resolve(tid, a[2], a[3], q); break;
	case SYS_link: tasks[t].name = "link"; resolve(tid, AT_FDCWD, a[0], p); resolve(tid, AT_FDCWD, a[1], q); break;
	case SYS_linkat: tasks[t].name = "link"; resolve(tid, a[0], a[1], p); resolve(tid, a[2], a[3], q); break;
	case SYS_symlink: tasks[t].name = "symlink"; resolve(tid, AT_FDCWD, a[1], p); break;
	case SYS_symlinkat: tasks[t].name = "symlink"; resolve(tid, a[1], a[2], p); break;
	default: return 0;
	}
	return inside(p) || (q[0] && inside(q));
}

static void jstr(const char *s) {
	fputc('"', logf_);
	for (; *s; s++) {
		unsigned char c = *s;
		if (c == '"' || c == '\\') fprintf(logf_, "\\%c", c);
		else if (c < 32) fprintf(logf_, "\\u%04x", c);
		else fputc(c, logf_);
	}
	fputc('"', logf_);
}

static void record(int t, long ret, const char *note) {
	fprintf(logf_, "{\"n\":%d,\"op\":\"%s\",\"path\":", tasks[t].op, tasks[t].name);
	jstr(tasks[t].path);
	if (tasks[t].path2[0]) { fprintf(logf_, ",\"path2\":"); jstr(tasks[t].path2); }
	fprintf(logf_, ",\"ret\":%ld,\"note\":\"%s\"}\n", ret, note);
	fflush(logf_);
}

int main(int argc, char **argv) {
	if (argc < 7) { fprintf(stderr, "usage\n"); return 99; }
	logf_ = fopen(argv[1], "w");
	root = argv[2];
	rootlen = strlen(root);
	target = atoi(argv[3]);
	action = argv[4];
	if (!logf_) return 99;
	mainpid = fork();
	if (mainpid == 0) {
		if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(99);
		raise(SIGSTOP);
		execv(argv[6], argv + 6);
		_exit(98);
	}
	int st;
	if (waitpid(mainpid, &st, 0) != mainpid || !WIFSTOPPED(st)) return 99;
	if (ptrace(PTRACE_SETOPTIONS, mainpid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACEEXEC | PTRACE_O_EXITKILL)) {
		perror("ptrace");
		return 99;
	}
	ptrace(PTRACE_SYSCALL, mainpid, 0, 0);
	int code = 99, killed = 0;
	for (;;) {
		pid_t tid = waitpid(-1, &st, __WALL);
		if (tid < 0) break;
		if (WIFEXITED(st) || WIFSIGNALED(st)) {
			if (tid == mainpid) code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
			continue;
		}
		int sig = WSTOPSIG(st), deliver = 0;
		int t = task(tid);
		if (sig == (SIGTRAP | 0x80)) {
			struct __ptrace_syscall_info info;
			if (ptrace(PTRACE_GET_SYSCALL_INFO, tid, sizeof info, &info) < 0) continue;
			if (info.op == PTRACE_SYSCALL_INFO_ENTRY) {
				unsigned long a[6];
				for (int i = 0; i < 6; i++) a[i] = info.entry.args[i];
				tasks[t].op = 0;
				tasks[t].inject = 0;
				if (classify(tid, t, info.entry.nr, a)) {
					tasks[t].op = ++count;
					int err = 0, isdata = !strcmp(tasks[t].name, "write");
					if (halfpath[0] && isdata && !strcmp(halfpath, tasks[t].path)) err = atoi(action + 4);
					if (count == target) {
						if (!strcmp(action, "kill")) {
							record(t, 0, "killed before");
							kill(mainpid, SIGKILL);
							killed = 1;
							continue;
						}
						if (action[0] == 'E') err = atoi(action + 1);
						if ((!strncmp(action, "half", 4) || !strcmp(action, "short")) && isdata && tasks[t].len > 1) {
							struct user_regs_struct r;
							ptrace(PTRACE_GETREGS, tid, 0, &r);
							r.rdx = tasks[t].len / 2;
							ptrace(PTRACE_SETREGS, tid, 0, &r);
							if (action[0] == 'h') strcpy(halfpath, tasks[t].path);
							else tasks[t].inject = -1; /* kill on exit */
						} else if (!strncmp(action, "half", 4)) err = atoi(action + 4);
						else if (!strcmp(action, "short")) {
							record(t, 0, "killed before");
							kill(mainpid, SIGKILL);
							killed = 1;
							continue;
						}
					}
					if (err) {
						struct user_regs_struct r;
						ptrace(PTRACE_GETREGS, tid, 0, &r);
						r.orig_rax = -1;
						ptrace(PTRACE_SETREGS, tid, 0, &r);
						tasks[t].inject = err;
					}
				}
			} else if (info.op == PTRACE_SYSCALL_INFO_EXIT && tasks[t].op) {
				long ret = info.exit.rval;
				if (tasks[t].inject > 0) {
					struct user_regs_struct r;
					ptrace(PTRACE_GETREGS, tid, 0, &r);
					r.rax = -(long)tasks[t].inject;
					ptrace(PTRACE_SETREGS, tid, 0, &r);
					ret = -tasks[t].inject;
				}
				record(t, ret, tasks[t].inject > 0 ? "injected" : tasks[t].inject < 0 ? "killed after" : "");
				if (tasks[t].inject < 0) { kill(mainpid, SIGKILL); killed = 1; continue; }
				tasks[t].op = 0;
				tasks[t].inject = 0;
			}
		} else if (sig == SIGTRAP) {
			/* ptrace event */
		} else if (sig == SIGSTOP) {
			/* new thread */
		} else
			deliver = sig;
		ptrace(PTRACE_SYSCALL, tid, 0, deliver);
	}
	fprintf(logf_, "{\"end\":%d,\"count\":%d}\n", killed ? 137 : code, count);
	fclose(logf_);
	return killed ? 137 : code;
}
