// Stand-ins for the file operations the code under test makes (dynamic symbols of this executable come first).
// Operations on files below fault::root are counted while armed; the k-th one dies or fails.
#pragma once
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <string>
#include <string.h>

namespace fault
{
enum act { none, die, fail };
static bool armed = false;
static act action = none;
static int at = 0, torn = 0, count = 0, hits = 0, refused = 0;
static int err = 28;			// errno reported by a failing operation
static int from = 0;			// sticky: all operations from the at-th on fail
static std::string root, kind;		// kind: only operations on files ending in this suffix count (empty: all)
static char fdkind[4096][32];		// path suffix of tracked descriptors
static int counted_ops = 0;
static bool shortened = false;

inline bool tracked_path(const char* p) { return !root.empty() && p && strncmp(p, root.c_str(), root.size()) == 0; }
inline bool tracked_fd(int fd) { return fd >= 0 && fd < 4096 && fdkind[fd][0]; }
inline bool kind_matches(const char* name)
{
	size_t n = strlen(name), k = kind.size();
	return k == 0 || (n >= k && 0 == strcmp(name + n - k, kind.c_str()));
}
// counts an operation; true when it is the one to disturb
inline bool hit(const char* name)
{
	if(!armed || !kind_matches(name)) return false;
	++counted_ops;
	++count;
	if(count == at || (from && count > at)) { ++hits; return true; }
	return false;
}
inline void kill_self() { kill(getpid(), SIGKILL); for(;;) pause(); }
inline void remember(int fd, const char* path)
{
	if(fd < 0 || fd >= 4096) return;
	if(tracked_path(path)) { size_t n = strlen(path); const char* s = n > 30 ? path + n - 30 : path; strncpy(fdkind[fd], s, 31); fdkind[fd][31] = 0; }
	else fdkind[fd][0] = 0;
}
}

static int fault_open(int dirfd, const char* path, int flags, mode_t mode)
{
	if(fault::tracked_path(path) && (fault::action == fault::fail || (flags & (O_WRONLY | O_RDWR))) && fault::hit(path))
	{
		if(fault::action == fault::die) fault::kill_self();
		++fault::refused;
		errno = fault::err == ENOSPC ? ((flags & O_CREAT) ? ENOSPC : EACCES) : fault::err;
		return -1;
	}
	int fd = int(syscall(SYS_openat, dirfd, path, flags, mode));
	fault::remember(fd, path);
	return fd;
}
#define FAULT_OPEN_BODY(dirfd) \
	mode_t mode = 0; \
	if(flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = mode_t(va_arg(ap, int)); va_end(ap); } \
	return fault_open(dirfd, path, flags, mode);
extern "C" __attribute__((visibility("default"))) int open(const char* path, int flags, ...) { FAULT_OPEN_BODY(AT_FDCWD) }
extern "C" __attribute__((visibility("default"))) int open64(const char* path, int flags, ...) { FAULT_OPEN_BODY(AT_FDCWD) }
extern "C" __attribute__((visibility("default"))) int openat(int d, const char* path, int flags, ...) { FAULT_OPEN_BODY(d) }
extern "C" __attribute__((visibility("default"))) int openat64(int d, const char* path, int flags, ...) { FAULT_OPEN_BODY(d) }
extern "C" __attribute__((visibility("default"))) int close(int fd)
{
	if(fd >= 0 && fd < 4096) fault::fdkind[fd][0] = 0;
	return int(syscall(SYS_close, fd));
}
extern "C" __attribute__((visibility("default"))) ssize_t write(int fd, const void* p, size_t n)
{
	if(fault::tracked_fd(fd) && fault::hit(fault::fdkind[fd]))
	{
		const char* nm = fault::fdkind[fd];
		size_t l = strlen(nm);
		bool idx = l >= 4 && 0 == strcmp(nm + l - 4, ".idx");
		if(fault::action == fault::die)
		{
			if(fault::torn && !idx && n >= 16) syscall(SYS_write, fd, p, (n / 2) & ~size_t(7));
			fault::kill_self();
		}
		// a full device: what fits is stored (a short write), then the next write is refused (torn 1) or not (torn 2)
		if(fault::torn && !fault::shortened && n > 1)
		{
			fault::shortened = true;
			if(fault::torn == 1) fault::at = fault::count + 1;
			return syscall(SYS_write, fd, p, n / 2);
		}
		++fault::refused;
		errno = fault::err;
		return -1;
	}
	return syscall(SYS_write, fd, p, n);
}
extern "C" __attribute__((visibility("default"))) ssize_t pwrite64(int fd, const void* p, size_t n, off_t o)
{
	if(fault::tracked_fd(fd) && fault::hit(fault::fdkind[fd]))
	{
		if(fault::action == fault::die) fault::kill_self();
		++fault::refused;
		errno = fault::err;
		return -1;
	}
	return syscall(SYS_pwrite64, fd, p, n, o);
}
extern "C" __attribute__((visibility("default"))) ssize_t read(int fd, void* p, size_t n)
{
	if(fault::action == fault::fail && fault::tracked_fd(fd) && fault::hit(fault::fdkind[fd])) { ++fault::refused; errno = fault::err; return -1; }
	return syscall(SYS_read, fd, p, n);
}
