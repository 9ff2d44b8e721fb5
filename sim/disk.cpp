// The simulated disk: definitions of the C library functions that stdio users and
// libstdc++'s file buffers go through.  They replace libc's at link time; anything
// that is not a simulated file is passed on unchanged.
#include "disk.h"
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
	static bool g_disk = false;
	static long g_space = -1;
	static DiskStats g_stats;
	static void (*g_onWrite)(const std::string&) = nullptr;
	struct File {
		std::string path;
		bool open = false;
	};
	static std::map<std::string, std::string>* g_files = nullptr;
	static const int kMax = 64, kBase = 700000;
	static File* g_open[kMax];
	static FILE* g_handle[kMax];

	void diskUse(bool on)
	{
		Quiet q;
		if (!g_files) g_files = new std::map<std::string, std::string>();
		g_disk = on;
	}
	const std::string* diskFile(const std::string& p)
	{
		auto it = g_files->find(p);
		return it == g_files->end() ? nullptr : &it->second;
	}
	std::vector<std::string> diskPaths()
	{
		std::vector<std::string> v;
		for (auto& f : *g_files) v.push_back(f.first);
		return v;
	}
	long diskOpen()
	{
		long n = 0;
		for (auto* f : g_open) n += f != nullptr;
		return n;
	}
	const DiskStats& diskStats() { return g_stats; }
	void diskSpace(long b) { g_space = b; }
	void diskOnWrite(void (*f)(const std::string&)) { g_onWrite = f; }

	/// one write request: the fault model decides how much of it reaches the disk
	static ssize_t diskWrite(int slot, const char* buf, size_t n)
	{
		File* f = slot >= 0 && slot < kMax ? g_open[slot] : nullptr;
		if (!f) {
			errno = EBADF;
			return -1;
		}
		g_stats.writes++;
		if (n == 0) return 0;
		double arg = 0;
		if (due("eintr")) {
			g_stats.interrupted++;
			errno = EINTR;
			return -1;
		}
		if (due("eio")) {
			g_stats.failedWrites++;
			errno = EIO;
			return -1;
		}
		size_t take = n;
		if (due("short", &arg) && n > 1) {
			take = 1 + (size_t)(arg * (double)(n - 1));
			if (take >= n) take = n - 1;
			g_stats.shortWrites++;
		}
		if (g_space >= 0 && (long)take > g_space) {
			take = (size_t)g_space;
			if (take == 0) {
				fired("enospc");
				g_stats.failedWrites++;
				errno = ENOSPC;
				return -1;
			}
		}
		if (g_space >= 0) g_space -= (long)take;
		Quiet q;
		(*g_files)[f->path].append(buf, take);
		if (g_onWrite) g_onWrite(f->path);
		return (ssize_t)take;
	}
	static ssize_t cookieWrite(void* c, const char* buf, size_t n)
	{
		// what stdio does below a real file: go on after a short or interrupted write
		// (the kernel restarts interrupted ones), stop at the first error
		size_t done = 0;
		while (done < n) {
			ssize_t r = diskWrite((int)(intptr_t)c, buf + done, n - done);
			if (r < 0 && errno == EINTR) continue;
			if (r <= 0) break;
			done += (size_t)r;
		}
		return (ssize_t)done; // fewer than n is an error for fopencookie
	}
	static int cookieClose(void* c)
	{
		int slot = (int)(intptr_t)c;
		g_stats.closes++;
		Quiet q;
		delete g_open[slot];
		g_open[slot] = nullptr;
		g_handle[slot] = nullptr;
		if (due("close")) {
			errno = EIO;
			return -1;
		}
		return 0;
	}
	static FILE* diskFopen(const char* path, const char* mode)
	{
		double arg = 0;
		if (due("open", &arg)) {
			g_stats.failedOpens++;
			errno = arg < 0.34 ? ENOENT : arg < 0.67 ? EACCES : EMFILE;
			return nullptr;
		}
		Quiet q;
		int slot = 0;
		while (slot < kMax && g_open[slot]) slot++;
		if (slot == kMax) {
			errno = EMFILE;
			return nullptr;
		}
		g_stats.opens++;
		g_open[slot] = new File { path, true };
		auto& content = (*g_files)[path];
		if (mode[0] == 'w') content.clear();
		cookie_io_functions_t io = {};
		io.write = cookieWrite;
		io.close = cookieClose;
		FILE* f = fopencookie((void*)(intptr_t)slot, "w", io);
		g_handle[slot] = f;
		return f;
	}
	template <typename F>
	static F next(const char* name)
	{
		return (F)dlsym(RTLD_NEXT, name);
	}
}
using namespace sim;

extern "C" {
FILE* fopen(const char* path, const char* mode)
{
	if (g_disk && (mode[0] == 'w' || mode[0] == 'a')) return diskFopen(path, mode);
	static auto real = next<FILE* (*)(const char*, const char*)>("fopen");
	return real(path, mode);
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
int fileno(FILE* f)
{
	for (int i = 0; i < kMax; i++)
		if (g_handle[i] && g_handle[i] == f) return kBase + i;
	static auto real = next<int (*)(FILE*)>("fileno");
	return real(f);
}
ssize_t write(int fd, const void* buf, size_t n)
{
	if (fd >= kBase && fd < kBase + kMax) return diskWrite(fd - kBase, (const char*)buf, n);
	return syscall(SYS_write, fd, buf, n);
}
ssize_t writev(int fd, const struct iovec* v, int count)
{
	if (fd >= kBase && fd < kBase + kMax) {
		std::string all;
		{
			Quiet q;
			for (int i = 0; i < count; i++) all.append((const char*)v[i].iov_base, v[i].iov_len);
		}
		return diskWrite(fd - kBase, all.data(), all.size());
	}
	return syscall(SYS_writev, fd, v, count);
}
off64_t lseek64(int fd, off64_t off, int whence)
{
	if (fd >= kBase && fd < kBase + kMax) return (off64_t)(*g_files)[g_open[fd - kBase]->path].size();
	return syscall(SYS_lseek, fd, off, whence);
}
off_t lseek(int fd, off_t off, int whence)
{
	if (fd >= kBase && fd < kBase + kMax) {
		auto& c = (*g_files)[g_open[fd - kBase]->path];
		return (off_t)c.size();
	}
	return syscall(SYS_lseek, fd, off, whence);
}
}
