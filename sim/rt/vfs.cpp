// Files of the simulation: paths below /sim-fs/ exist only here.  Simulated threads that open,
// measure, map, read or close them meet the faults the harness decides on.  Not instrumented.
//
// Every open sees the content the name stood for at that moment, whatever happens to the name later
// (files are replaced as a whole, never written in place).  A mapping is a heap block that ends
// where the file ends, so reading on behind the end is found, whatever the size of the file.
#include "rt.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

int (*vfs_fault)(int op, const char* name, size_t size);

namespace {
const char PREFIX[] = "/sim-fs/";
enum { MAXFILES = 32, MAXOPEN = 4096, MAXMAP = 4096 };

struct File
{
	char* name;
	char* data;
	size_t size;
	uint64_t mtime;
} files[MAXFILES];

struct Open
{
	int fd;
	ino_t ino;
	File as; // with the inode number in place of the name
	char name[64];
} opens[MAXOPEN];
int nopens;

struct Mapping
{
	char* at;
	char* block;
	size_t size;
} maps[MAXMAP];
int nmaps;

bool is_virtual(const char* p)
{
	return p && !strncmp(p, PREFIX, sizeof PREFIX - 1);
}

File* find(const char* name)
{
	for (auto& f : files)
		if (f.name && !strcmp(f.name, name))
			return &f;
	return nullptr;
}

Open* find_open(int fd)
{
	if (!nopens)
		return nullptr;
	struct stat st;
	if (syscall(SYS_fstat, fd, &st) < 0)
		return nullptr;
	for (int i = nopens; i-- > 0;)
		if (opens[i].fd == fd && opens[i].ino == st.st_ino)
			return &opens[i];
	return nullptr;
}

int fault(int op, const char* name, size_t size = 0)
{
	return vfs_fault ? vfs_fault(op, name, size) : 0;
}

// Inode numbers are used again, and the clock of the file system is a coarse one.
void fill(struct stat* st, const File& f, uint64_t ino)
{
	const size_t size = f.size;
	memset(st, 0, sizeof *st);
	st->st_dev = 77;
	st->st_ino = (ino_t)ino;
	st->st_mtim.tv_sec = (time_t)(1700000000 + f.mtime / 1000000000);
	st->st_mtim.tv_nsec = (long)(f.mtime % 1000000000);
	st->st_ctim = st->st_atim = st->st_mtim;
	st->st_blocks = (blkcnt_t)((size + 511) / 512);
	st->st_mode = S_IFREG | 0644;
	st->st_nlink = 1;
	st->st_size = (off_t)size;
	st->st_blksize = 4096;
}

struct Io // from a simulated thread's call into this file
{
	const bool on;
	explicit Io(int op)
		: on(rt_io_enter(op))
	{
	}
	~Io()
	{
		if (on)
			rt_io_leave();
	}
};

int vopen(const char* path, int flags)
{
	if (int e = fault(VFS_OPEN, path))
	{
		errno = e;
		return -1;
	}
	if ((flags & O_ACCMODE) != O_RDONLY)
	{
		errno = EROFS;
		return -1;
	}
	File* f = find(path);
	if (!f)
	{
		errno = ENOENT;
		return -1;
	}
	if (nopens == MAXOPEN)
		rt_finish(RT_DISCARD, "files", "too many files");
	int fd = memfd_create("sim", MFD_CLOEXEC);
	struct stat st;
	if (fd < 0 || (f->size && syscall(SYS_pwrite64, fd, f->data, f->size, 0) != (long)f->size)
		|| syscall(SYS_fstat, fd, &st) < 0)
		rt_finish(RT_DISCARD, "files", "memfd: %s", strerror(errno));
	Open& o = opens[nopens++];
	o.fd = fd;
	o.ino = st.st_ino;
	o.as = *f;
	o.as.name = (char*)(uintptr_t)(1 + (f - files));
	snprintf(o.name, sizeof o.name, "%s", path);
	return fd;
}

int vstat(const char* path, struct stat* st)
{
	if (int e = fault(VFS_STAT, path))
	{
		errno = e;
		return -1;
	}
	File* f = find(path);
	if (!f)
	{
		errno = ENOENT;
		return -1;
	}
	fill(st, *f, 1 + (uint64_t)(f - files));
	return 0;
}

int real_at(int dir, const char* path, int flags, va_list ap)
{
	mode_t mode = (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
	return (int)syscall(SYS_openat, dir, path, flags, mode);
}
} // namespace

void vfs_put(const char* name, const char* data, size_t size)
{
	vfs_remove(name);
	for (auto& f : files)
		if (!f.name)
		{
			f.name = strdup(name);
			f.data = (char*)malloc(size + 1);
			memcpy(f.data, data, size);
			f.size = size;
			f.mtime = rt_now() / 4000000 * 4000000;
			return;
		}
	rt_finish(RT_DISCARD, "files", "too many names");
}

void vfs_remove(const char* name)
{
	if (File* f = find(name))
	{
		free(f->name);
		free(f->data);
		memset(f, 0, sizeof *f);
	}
}

int vfs_opened()
{
	return nopens;
}

const char* vfs_still_open()
{
	for (int i = 0; i < nopens; ++i)
		if (Open* o = find_open(opens[i].fd))
			if (o == &opens[i])
				return o->name;
	return nullptr;
}

int vfs_mapped()
{
	return nmaps;
}

extern "C" {
int open(const char* path, int flags, ...)
{
	va_list ap;
	va_start(ap, flags);
	int r;
	if (is_virtual(path))
	{
		Io io(VFS_OPEN);
		if (io.on)
			r = vopen(path, flags);
		else
		{
			errno = ENOENT;
			r = -1;
		}
	}
	else
		r = real_at(AT_FDCWD, path, flags, ap);
	va_end(ap);
	return r;
}
int open64(const char* path, int flags, ...) __attribute__((alias("open")));

int openat(int dir, const char* path, int flags, ...)
{
	va_list ap;
	va_start(ap, flags);
	int r;
	if (is_virtual(path))
		r = open(path, flags);
	else
		r = real_at(dir, path, flags, ap);
	va_end(ap);
	return r;
}
int openat64(int dir, const char* path, int flags, ...) __attribute__((alias("openat")));

FILE* fopen(const char* path, const char* mode)
{
	if (is_virtual(path))
	{
		int fd = open(path, strpbrk(mode, "wa+") ? O_RDWR : O_RDONLY);
		if (fd < 0)
			return nullptr;
		rt_guard_enter();
		FILE* f = fdopen(fd, mode);
		rt_guard_leave();
		return f;
	}
	static FILE* (*next)(const char*, const char*) = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
	return next(path, mode);
}
FILE* fopen64(const char* path, const char* mode) __attribute__((alias("fopen")));

int stat(const char* path, struct stat* st) noexcept
{
	if (is_virtual(path))
	{
		Io io(VFS_STAT);
		return vstat(path, st);
	}
	return (int)syscall(SYS_newfstatat, AT_FDCWD, path, st, 0);
}
int stat64(const char* path, struct stat64* st) noexcept
{
	return stat(path, (struct stat*)st);
}
int lstat(const char* path, struct stat* st) noexcept
{
	if (is_virtual(path))
	{
		Io io(VFS_STAT);
		return vstat(path, st);
	}
	return (int)syscall(SYS_newfstatat, AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW);
}
int lstat64(const char* path, struct stat64* st) noexcept
{
	return lstat(path, (struct stat*)st);
}

int access(const char* path, int mode) noexcept
{
	if (is_virtual(path))
	{
		struct stat st;
		Io io(VFS_STAT);
		return vstat(path, &st);
	}
	return (int)syscall(SYS_access, path, mode);
}

int fstat(int fd, struct stat* st) noexcept
{
	Io io(VFS_STAT);
	if (io.on)
		if (Open* o = find_open(fd))
		{
			if (int e = fault(VFS_STAT, o->name))
			{
				errno = e;
				return -1;
			}
			fill(st, o->as, (uint64_t)(uintptr_t)o->as.name);
			return 0;
		}
	return (int)syscall(SYS_fstat, fd, st);
}
int fstat64(int fd, struct stat64* st) noexcept
{
	return fstat(fd, (struct stat*)st);
}

void* mmap(void* at, size_t n, int prot, int flags, int fd, off_t offset) noexcept
{
	Open* o = nullptr;
	if (fd >= 0)
	{
		Io io(VFS_MMAP);
		if (io.on && (o = find_open(fd)))
		{
			if (int e = fault(VFS_MMAP, o->name, n))
			{
				errno = e;
				return MAP_FAILED;
			}
			if (!n || offset & 4095)
			{
				errno = EINVAL;
				return MAP_FAILED;
			}
			if (nmaps == MAXMAP)
				rt_finish(RT_DISCARD, "files", "too many mappings");
		}
	}
	if (!o)
		return (void*)syscall(SYS_mmap, at, n, prot, flags, fd, offset);
	// the size is a multiple of 8 but not of 16: the heap then has a red zone right behind it
	const size_t room = ((n + 23) & ~(size_t)15) - 8;
	char* block = (char*)malloc(room); // by the simulated thread
	rt_guard_enter();
	char* p = block + room - n;
	memset(block, 0, room);
	size_t done = 0;
	while (done < n)
	{
		long k = syscall(SYS_pread64, fd, p + done, n - done, offset + (off_t)done);
		if (k <= 0)
			break;
		done += (size_t)k;
	}
	Mapping& m = maps[nmaps++];
	m.at = p;
	m.block = block;
	m.size = n;
	rt_guard_leave();
	return p;
}
void* mmap64(void* at, size_t n, int prot, int flags, int fd, off_t offset) noexcept
{
	return mmap(at, n, prot, flags, fd, offset);
}

int munmap(void* at, size_t n) noexcept
{
	char* block = nullptr;
	for (int i = 0; i < nmaps; ++i)
		if (maps[i].at == at)
		{
			Io io(VFS_MUNMAP);
			for (i = 0; i < nmaps; ++i) // another thread may have had its turn
				if (maps[i].at == at)
					break;
			if (i == nmaps)
				rt_fail("unmap", "memory unmapped twice");
			if ((n + 4095) / 4096 != (maps[i].size + 4095) / 4096)
				rt_fail("unmap", "%zu bytes of a mapping of %zu bytes are released", n, maps[i].size);
			block = maps[i].block;
			maps[i] = maps[--nmaps];
			break;
		}
	if (block)
	{
		operator delete(block); // checks for races with the readers
		return 0;
	}
	return (int)syscall(SYS_munmap, at, n);
}

static ssize_t vread(int fd, void* to, size_t n, off_t at)
{
	{
		Io io(VFS_READ);
		if (io.on)
			if (Open* o = find_open(fd))
			{
				int e = fault(VFS_READ, o->name, n);
				if (e > 0)
				{
					errno = e;
					return -1;
				}
				if (e < 0 && (size_t)-e < n)
					n = (size_t)-e; // short
			}
	}
	return at < 0 ? syscall(SYS_read, fd, to, n) : syscall(SYS_pread64, fd, to, n, at);
}
ssize_t read(int fd, void* to, size_t n)
{
	return vread(fd, to, n, -1);
}
ssize_t pread(int fd, void* to, size_t n, off_t at)
{
	return vread(fd, to, n, at);
}
ssize_t pread64(int fd, void* to, size_t n, off_t at) __attribute__((alias("pread")));

int close(int fd)
{
	Io io(VFS_CLOSE);
	return (int)syscall(SYS_close, fd);
}
}
