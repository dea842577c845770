// Common driver support: seeded randomness, case loop, violation and coverage recording.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>
#include <exception>
#include <mutex>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

namespace vh
{

struct Rng
{
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {next(); next();}
	uint64_t next()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30))*0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27))*0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) {return n ? next() % n : 0;}
	int range(int lo, int hi) {return lo + (int)below((uint64_t)(hi - lo + 1));}
	bool chance(double p) {return unit() < p;}
	double unit() {return (double)(next() >> 11)*(1.0/9007199254740992.0);}
	double uniform(double lo, double hi) {return lo + (hi - lo)*unit();}
	template <typename T> const T& pick(const std::vector<T>& v) {return v[below(v.size())];}
	template <typename T, size_t N> const T& pick(const T (&v)[N]) {return v[below(N)];}
};

inline uint64_t mix(uint64_t a, uint64_t b)
{
	Rng r(a*0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull));
	return r.next();
}

struct State
{
	std::string prop = "C00", tier = "quick", scratch = "/tmp";
	uint64_t seed = 1, curCase = 0;
	FILE* out = nullptr;
	std::mutex lock;
	uint64_t evaluations = 0;
	std::map<std::string, uint64_t> counters;
	std::set<std::string> cover;
	std::vector<std::string> samples;
	std::map<std::string, unsigned> violKeys;
	uint64_t* progress = nullptr;
	bool thorough() const {return tier == "thorough";}
};

inline State& st() {static State s; return s;}

inline std::string jsonEscape(const std::string& s)
{
	std::string r;
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') {r += '\\'; r += (char)c;}
		else if (c < 0x20 || c >= 0x7F) {char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b;}
		else r += (char)c;
	}
	return r;
}

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
	char buf[4096];
	va_list a; va_start(a, f);
	std::vsnprintf(buf, sizeof buf, f, a);
	va_end(a);
	return buf;
}

// Records that the property was observed to be broken. key identifies what fails, independent of
// the particular case, so that repeated sightings collapse.
inline void violation(const std::string& key, const std::string& detail)
{
	State& s = st();
	std::lock_guard<std::mutex> g(s.lock);
	unsigned& n = s.violKeys[key];
	if (n++ >= 3)
		return;
	std::fprintf(s.out, "{\"t\":\"v\",\"key\":\"%s\",\"case\":%llu,\"detail\":\"%s\"}\n",
		jsonEscape(key).c_str(), (unsigned long long)s.curCase, jsonEscape(detail).c_str());
	std::fflush(s.out);
}

inline void eval(uint64_t n = 1)
{
	__atomic_fetch_add(&st().evaluations, n, __ATOMIC_RELAXED);
}

inline void cover(const std::string& b)
{
	State& s = st();
	std::lock_guard<std::mutex> g(s.lock);
	s.cover.insert(b);
}

inline void count(const std::string& n, uint64_t v = 1)
{
	State& s = st();
	std::lock_guard<std::mutex> g(s.lock);
	s.counters[n] += v;
}

inline void sample(const std::string& d)
{
	State& s = st();
	std::lock_guard<std::mutex> g(s.lock);
	if (s.samples.size() < 6)
		s.samples.push_back(d);
}

#define VH_CHECK(cond, key, ...) \
	do { vh::eval(); if (!(cond)) vh::violation((key), vh::fmt(__VA_ARGS__)); } while (0)

using CaseFn = std::function<void(uint64_t idx, Rng& rng)>;

// Runs cases [from, to). The index of the case under way is visible to the runner even if the
// process dies.
inline int runMain(int argc, char** argv, const std::map<std::string, CaseFn>& props)
{
	State& s = st();
	uint64_t from = 0, to = 1;
	std::string outPath = "/dev/stdout", progPath;
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string a = argv[i], v = argv[i + 1];
		if (a == "--prop") s.prop = v;
		else if (a == "--seed") s.seed = std::strtoull(v.c_str(), nullptr, 10);
		else if (a == "--from") from = std::strtoull(v.c_str(), nullptr, 10);
		else if (a == "--to") to = std::strtoull(v.c_str(), nullptr, 10);
		else if (a == "--out") outPath = v;
		else if (a == "--progress") progPath = v;
		else if (a == "--tier") s.tier = v;
		else if (a == "--scratch") s.scratch = v;
		else {std::fprintf(stderr, "bad argument %s\n", a.c_str()); return 64;}
	}
	auto it = props.find(s.prop);
	if (it == props.end()) {std::fprintf(stderr, "no property %s here\n", s.prop.c_str()); return 64;}
	s.out = std::fopen(outPath.c_str(), "a");
	if (!s.out) {std::perror("open out"); return 64;}
	static uint64_t dummy;
	s.progress = &dummy;
	if (!progPath.empty())
	{
		int fd = open(progPath.c_str(), O_RDWR | O_CREAT, 0644);
		if (fd < 0 || ftruncate(fd, 16) != 0) {std::perror("progress"); return 64;}
		void* p = mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (p == MAP_FAILED) {std::perror("mmap"); return 64;}
		close(fd);
		s.progress = (uint64_t*)p;
	}
	uint64_t propHash = 0;
	for (char c : s.prop) propHash = propHash*131 + (unsigned char)c;
	for (uint64_t c = from; c < to; ++c)
	{
		s.curCase = c;
		s.progress[0] = c;
		s.progress[1] = 1;
		Rng rng(mix(mix(s.seed, propHash), c));
		try
		{
			it->second(c, rng);
		}
		catch (const std::exception& e)
		{
			violation(std::string("exception:") + e.what(), std::string("uncaught exception ") + e.what());
		}
		s.progress[0] = c + 1;
	}
	std::fprintf(s.out, "{\"t\":\"s\",\"evaluations\":%llu,\"counters\":{", (unsigned long long)s.evaluations);
	bool first = true;
	for (auto& c : s.counters)
	{
		std::fprintf(s.out, "%s\"%s\":%llu", first ? "" : ",", jsonEscape(c.first).c_str(), (unsigned long long)c.second);
		first = false;
	}
	std::fprintf(s.out, "},\"cover\":[");
	first = true;
	for (auto& c : s.cover)
	{
		std::fprintf(s.out, "%s\"%s\"", first ? "" : ",", jsonEscape(c).c_str());
		first = false;
	}
	std::fprintf(s.out, "],\"samples\":[");
	first = true;
	for (auto& c : s.samples)
	{
		std::fprintf(s.out, "%s\"%s\"", first ? "" : ",", jsonEscape(c).c_str());
		first = false;
	}
	std::fprintf(s.out, "]}\n");
	std::fclose(s.out);
	return 0;
}

} // namespace vh
