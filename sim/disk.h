// In-memory disk below stdio and std::ofstream.  fopen() of any path inside the
// simulation yields a simulated file; every write to it passes the fault model.
#pragma once
#include <string>
#include <vector>
#include <map>
#include "sim.h"
namespace sim {
	struct DiskStats {
		long opens = 0, failedOpens = 0, writes = 0, failedWrites = 0, shortWrites = 0, interrupted = 0, closes = 0;
	};
	/// files opened for writing from now on live on the simulated disk
	void diskUse(bool on);
	/// bytes that reached the disk, by path (what survives the death of the process)
	const std::string* diskFile(const std::string& path);
	std::vector<std::string> diskPaths();
	/// files currently open
	long diskOpen();
	const DiskStats& diskStats();
	/// free space from now on, in bytes (negative: unlimited)
	void diskSpace(long bytes);
	/// called after every write that reached the disk (a crash point)
	void diskOnWrite(void (*f)(const std::string& path));
}
