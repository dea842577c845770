// Files in the driver's scratch directory, and observation of them.
#pragma once
#include "vh.h"
#include <dirent.h>
#include <sys/resource.h>
#include <signal.h>

namespace vh
{

inline std::string scratchFile(const std::string& name) {return st().scratch + "/" + name;}

inline bool readFile(const std::string& p, std::vector<uint8_t>& out)
{
	out.clear();
	FILE* f = std::fopen(p.c_str(), "rb");
	if (!f) return false;
	uint8_t b[65536];
	size_t n;
	while ((n = std::fread(b, 1, sizeof b, f)) > 0) out.insert(out.end(), b, b + n);
	std::fclose(f);
	return true;
}

inline bool writeFile(const std::string& p, const void* d, size_t n)
{
	FILE* f = std::fopen(p.c_str(), "wb");
	if (!f) return false;
	bool ok = !n || std::fwrite(d, 1, n, f) == n;
	return (std::fclose(f) == 0) && ok;
}

inline bool exists(const std::string& p) {struct stat s; return lstat(p.c_str(), &s) == 0;}

// Everything below a directory: path -> "d" or contents plus mode and mtime.
inline void snapshot(const std::string& dir, std::map<std::string, std::string>& out, const std::string& rel = "")
{
	DIR* d = opendir((dir + "/" + rel).c_str());
	if (!d) return;
	while (dirent* e = readdir(d))
	{
		std::string n = e->d_name;
		if (n == "." || n == "..") continue;
		std::string r = rel.empty() ? n : rel + "/" + n, full = dir + "/" + r;
		struct stat s;
		if (lstat(full.c_str(), &s)) continue;
		if (S_ISDIR(s.st_mode))
		{
			out[r] = "dir";
			snapshot(dir, out, r);
		}
		else
		{
			std::vector<uint8_t> b;
			if (S_ISREG(s.st_mode)) readFile(full, b);
			out[r] = fmt("%o:%lld.%09ld:", s.st_mode, (long long)s.st_mtim.tv_sec, s.st_mtim.tv_nsec) +
				std::string((char*)b.data(), b.size());
		}
	}
	closedir(d);
}

inline std::string snapshotDiff(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b)
{
	for (auto& x : a)
	{
		auto it = b.find(x.first);
		if (it == b.end()) return "removed " + x.first;
		if (it->second != x.second) return "changed " + x.first;
	}
	for (auto& x : b)
		if (!a.count(x.first)) return "created " + x.first;
	return "";
}

inline void removeTree(const std::string& dir)
{
	// Only ever below the scratch directory.
	if (dir.compare(0, st().scratch.size() + 1, st().scratch + "/") != 0) return;
	DIR* d = opendir(dir.c_str());
	if (!d) {unlink(dir.c_str()); return;}
	while (dirent* e = readdir(d))
	{
		std::string n = e->d_name;
		if (n == "." || n == "..") continue;
		struct stat s;
		std::string full = dir + "/" + n;
		if (lstat(full.c_str(), &s)) continue;
		if (S_ISDIR(s.st_mode)) removeTree(full);
		else unlink(full.c_str());
	}
	closedir(d);
	rmdir(dir.c_str());
}

// Limits the size of any file this process writes.
struct FileLimit
{
	rlimit old;
	explicit FileLimit(uint64_t n)
	{
		signal(SIGXFSZ, SIG_IGN);
		getrlimit(RLIMIT_FSIZE, &old);
		rlimit r = old;
		r.rlim_cur = n;
		setrlimit(RLIMIT_FSIZE, &r);
	}
	~FileLimit() {setrlimit(RLIMIT_FSIZE, &old);}
};

} // namespace vh
