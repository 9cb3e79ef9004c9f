// Linked into the code generators: every operation they do on files below $IO_ROOT, and every flush
// of stdout, is numbered, written to the log $IO_LOG and meets the fault $IO_PLAN has for its number.
//
// IO_PLAN: "number:fault[:argument]" separated by commas. Faults: an errno, "short" (argument bytes
// are transferred, of 1000), "full" (this and all later writes have no space left, after argument of
// 1000 bytes of this one), "kill" (the process ends before the operation), "torn" (it ends after
// argument of 1000 bytes of the write), "lost" (the close fails and argument of 1000 bytes of the
// file remain).
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace {
enum { MAXFD = 1024, MAXFAULT = 64, KILLED = 77 };
struct Fault
{
	long at;
	char what[16];
	int arg;
} faults[MAXFAULT];
int nfaults = -1;
char root[512];
size_t rootlen;
int logfd = -1;
long ops;
bool full;
char* fdname[MAXFD];

void init()
{
	if (nfaults >= 0)
		return;
	nfaults = 0;
	const char* r = getenv("IO_ROOT");
	if (!r)
		return;
	snprintf(root, sizeof root, "%s", r);
	rootlen = strlen(root);
	if (const char* l = getenv("IO_LOG"))
		logfd = (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
	const char* p = getenv("IO_PLAN");
	while (p && *p && nfaults < MAXFAULT)
	{
		Fault& f = faults[nfaults];
		f.arg = 0;
		int n = 0;
		if (sscanf(p, "%ld:%15[a-zA-Z0-9]%n", &f.at, f.what, &n) < 2)
			break;
		p += n;
		if (*p == ':')
			f.arg = (int)strtol(p + 1, const_cast<char**>(&p), 10);
		if (*p == ',')
			++p;
		++nfaults;
	}
}

void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* fmt, ...)
{
	char b[700];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	if (logfd >= 0)
		syscall(SYS_write, logfd, b, n < (int)sizeof b ? n : sizeof b - 1);
}

const char* below(const char* path)
{
	init();
	if (!rootlen || !path)
		return nullptr;
	if (path[0] != '/') // the working directory is below, too
		return path;
	return !strncmp(path, root, rootlen) ? path + rootlen : nullptr;
}

const char* name(int fd)
{
	return fd >= 0 && fd < MAXFD ? fdname[fd] : nullptr;
}

void track(int fd, const char* n)
{
	if (fd >= 0 && fd < MAXFD)
	{
		free(fdname[fd]);
		fdname[fd] = n ? strdup(n) : nullptr;
	}
}

// the fault for the next operation
Fault* next(const char* op, const char* n, size_t size = 0)
{
	Fault* f = nullptr;
	for (int i = 0; i < nfaults; ++i)
		if (faults[i].at == ops)
			f = &faults[i];
	note("%ld %s %s %zu%s%s\n", ops, op, n, size, f ? " ! " : "", f ? f->what : "");
	++ops;
	if (f && !strcmp(f->what, "kill"))
		_exit(KILLED);
	return f;
}

int code(const Fault* f)
{
	static const struct
	{
		const char* n;
		int e;
	} E[] = { { "EACCES", EACCES }, { "ENOENT", ENOENT }, { "EMFILE", EMFILE }, { "ENOSPC", ENOSPC }, { "EIO", EIO },
		{ "EINTR", EINTR }, { "ENOMEM", ENOMEM }, { "EDQUOT", EDQUOT }, { "EROFS", EROFS }, { "ENODEV", ENODEV } };
	if (f)
		for (auto& e : E)
			if (!strcmp(e.n, f->what))
				return e.e;
	return 0;
}

bool is(const Fault* f, const char* what)
{
	return f && !strcmp(f->what, what);
}

int shimopen(const char* path, int flags, mode_t mode)
{
	if (const char* n = below(path))
	{
		const bool wr = (flags & O_ACCMODE) != O_RDONLY;
		Fault* f = next(wr ? "create" : "open", n);
		if (int e = code(f))
		{
			errno = e;
			return -1;
		}
		if (wr && (full || is(f, "full")))
		{
			full = true;
			struct stat st;
			if (syscall(SYS_newfstatat, AT_FDCWD, path, &st, 0) < 0) // no room for another file
			{
				errno = ENOSPC;
				return -1;
			}
		}
		int fd = (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
		track(fd, n);
		return fd;
	}
	return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}

long part(size_t n, int arg)
{
	long k = (long)(n * (size_t)arg / 1000);
	return k;
}

template <class F>
long shimwrite(int fd, size_t n, const F& put)
{
	const char* nm = name(fd);
	if (!nm)
		return put(n);
	Fault* f = next("write", nm, n);
	if (int e = code(f))
	{
		errno = e;
		return -1;
	}
	if (is(f, "torn"))
	{
		if (long k = part(n, f->arg))
			put((size_t)k);
		_exit(KILLED);
	}
	if (full || is(f, "full"))
	{
		const long k = full ? 0 : part(n, f->arg);
		full = true;
		if (k)
			return put((size_t)k);
		errno = ENOSPC;
		return -1;
	}
	if (is(f, "short"))
	{
		long k = part(n, f->arg);
		return put((size_t)(k ? k : n ? 1 : 0));
	}
	return put(n);
}

bool shimclose(int fd) // false: report a failure
{
	const char* nm = name(fd);
	if (!nm)
		return true;
	Fault* f = next("close", nm);
	bool ok = true;
	if (is(f, "lost"))
	{
		struct stat st;
		if (syscall(SYS_fstat, fd, &st) == 0 && (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY)
			syscall(SYS_ftruncate, fd, part((size_t)st.st_size, f->arg));
		errno = EIO;
		ok = false;
	}
	else if (int e = code(f))
	{
		errno = e;
		ok = false;
	}
	track(fd, nullptr);
	return ok;
}
template <typename F>
F real(const char* n)
{
	return (F)dlsym(RTLD_NEXT, n);
}
} // namespace

extern "C" {
int open(const char* path, int flags, ...)
{
	va_list ap;
	va_start(ap, flags);
	mode_t mode = (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
	va_end(ap);
	return shimopen(path, flags, mode);
}
int open64(const char* path, int flags, ...) __attribute__((alias("open")));
int openat(int dir, const char* path, int flags, ...)
{
	va_list ap;
	va_start(ap, flags);
	mode_t mode = (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
	va_end(ap);
	return below(path) ? shimopen(path, flags, mode) : (int)syscall(SYS_openat, dir, path, flags, mode);
}
int openat64(int dir, const char* path, int flags, ...) __attribute__((alias("openat")));

FILE* fopen(const char* path, const char* mode)
{
	static auto r = real<FILE* (*)(const char*, const char*)>("fopen");
	const char* n = below(path);
	if (!n)
		return r(path, mode);
	const bool plus = strchr(mode, '+');
	int flags = mode[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : (plus ? O_RDWR : O_WRONLY) | O_CREAT;
	flags |= mode[0] == 'w' ? O_TRUNC : mode[0] == 'a' ? O_APPEND : 0;
	int fd = shimopen(path, flags, 0666);
	return fd < 0 ? nullptr : fdopen(fd, mode);
}
FILE* fopen64(const char* path, const char* mode) __attribute__((alias("fopen")));

ssize_t write(int fd, const void* p, size_t n)
{
	return shimwrite(fd, n, [&](size_t k) { return syscall(SYS_write, fd, p, k); });
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
	size_t n = 0;
	for (int i = 0; i < c; ++i)
		n += v[i].iov_len;
	return shimwrite(fd, n, [&](size_t k) -> long {
		if (k == n)
			return syscall(SYS_writev, fd, v, c);
		long done = 0;
		for (int i = 0; i < c && k; ++i)
		{
			size_t m = v[i].iov_len < k ? v[i].iov_len : k;
			long w = syscall(SYS_write, fd, v[i].iov_base, m);
			if (w < 0)
				return done ? done : w;
			done += w;
			k -= (size_t)w;
			if ((size_t)w < m)
				break;
		}
		return done;
	});
}
size_t fwrite(const void* p, size_t size, size_t n, FILE* f)
{
	static auto r = real<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite");
	const char* nm = name(fileno(f));
	if (!nm)
		return r(p, size, n, f);
	// as if unbuffered
	const char* c = (const char*)p;
	size_t left = size * n;
	while (left)
	{
		long k = write(fileno(f), c, left);
		if (k < 0 && errno != EINTR)
			return (size * n - left) / (size ? size : 1);
		if (k > 0)
		{
			c += k;
			left -= (size_t)k;
		}
	}
	return n;
}

ssize_t read(int fd, void* p, size_t n)
{
	if (const char* nm = name(fd))
	{
		Fault* f = next("read", nm, n);
		if (int e = code(f))
		{
			errno = e;
			return -1;
		}
		if (is(f, "short"))
		{
			long k = part(n, f->arg);
			n = k ? (size_t)k : n ? 1 : 0;
		}
	}
	return syscall(SYS_read, fd, p, n);
}

int fstat(int fd, struct stat* st) noexcept
{
	if (const char* nm = name(fd))
		if (int e = code(next("fstat", nm)))
		{
			errno = e;
			return -1;
		}
	return (int)syscall(SYS_fstat, fd, st);
}
int fstat64(int fd, struct stat64* st) noexcept
{
	return fstat(fd, (struct stat*)st);
}

void* mmap(void* at, size_t n, int prot, int flags, int fd, off_t o) noexcept
{
	if (const char* nm = name(fd))
		if (int e = code(next("mmap", nm, n)))
		{
			errno = e;
			return MAP_FAILED;
		}
	return (void*)syscall(SYS_mmap, at, n, prot, flags, fd, o);
}
void* mmap64(void* at, size_t n, int prot, int flags, int fd, off_t o) noexcept
{
	return mmap(at, n, prot, flags, fd, o);
}

int rename(const char* from, const char* to) noexcept
{
	if (const char* n = below(to))
		if (int e = code(next("rename", n)))
		{
			errno = e;
			return -1;
		}
	return (int)syscall(SYS_rename, from, to);
}
int fsync(int fd)
{
	if (const char* nm = name(fd))
		if (int e = code(next("fsync", nm)))
		{
			errno = e;
			return -1;
		}
	return (int)syscall(SYS_fsync, fd);
}

int close(int fd)
{
	const bool ok = shimclose(fd);
	const int e = errno;
	int r = (int)syscall(SYS_close, fd);
	if (!ok)
	{
		errno = e;
		return -1;
	}
	return r;
}
int fclose(FILE* f)
{
	static auto r = real<int (*)(FILE*)>("fclose");
	const bool ok = shimclose(fileno(f));
	const int e = errno;
	int x = r(f);
	if (!ok)
	{
		errno = e;
		return EOF;
	}
	return x;
}

int fflush(FILE* f)
{
	static auto r = real<int (*)(FILE*)>("fflush");
	init();
	if (f == stdout && rootlen)
	{
		Fault* x = next("flush", "stdout");
		int e = code(x);
		if (is(x, "full"))
			full = true;
		if (full)
			e = ENOSPC;
		if (e)
		{
			__fpurge(f);
			f->_flags |= 0x20; // the error flag of glibc
			errno = e;
			return EOF;
		}
	}
	return r(f);
}
}
