// Runs the command-line tool in a scratch directory and observes it.
#pragma once
#include "fileutil.h"
#include <poll.h>
#include <spawn.h>
#include <sys/wait.h>
#include <time.h>

extern char** environ;

namespace vh
{

struct ToolRun
{
	int rc = -1, sig = 0;
	bool hang = false;
	std::string out, err;
	std::string tail() const {return err.size() > 1500 ? err.substr(err.size() - 1500) : err;}
};

inline std::string shown(const std::vector<std::string>& args)
{
	std::string s;
	for (auto& a : args) s += (s.empty() ? "" : " ") + (a.empty() || a.find_first_of(" \t\n'") != std::string::npos ? "'" + a + "'" : a);
	return s;
}

inline ToolRun runTool(const std::vector<std::string>& args, const std::string& cwd)
{
	ToolRun r;
#ifdef VH_ENC
	const char* exe = std::getenv("VH_EXE_TOOL_ENC");
#else
	const char* exe = std::getenv("VH_EXE_TOOL");
#endif
	if (!exe) {r.err = "no tool"; return r;}
	std::vector<char*> argv;
	argv.push_back((char*)"cuttlefish");
	for (auto& a : args) argv.push_back((char*)a.c_str());
	argv.push_back(nullptr);
	int po[2], pe[2];
	if (pipe2(po, O_CLOEXEC) || pipe2(pe, O_CLOEXEC)) {r.err = "pipe"; return r;}
	posix_spawn_file_actions_t fa;
	posix_spawn_file_actions_init(&fa);
	posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
	posix_spawn_file_actions_adddup2(&fa, po[1], 1);
	posix_spawn_file_actions_adddup2(&fa, pe[1], 2);
	posix_spawn_file_actions_addchdir_np(&fa, cwd.c_str());
	pid_t pid = -1;
	int e = posix_spawn(&pid, exe, &fa, nullptr, argv.data(), environ);
	posix_spawn_file_actions_destroy(&fa);
	close(po[1]); close(pe[1]);
	if (e) {close(po[0]); close(pe[0]); r.err = "spawn"; return r;}
	timespec t0;
	clock_gettime(CLOCK_MONOTONIC, &t0);
	pollfd p[2] = {{po[0], POLLIN, 0}, {pe[0], POLLIN, 0}};
	while (p[0].fd >= 0 || p[1].fd >= 0)
	{
		int n = poll(p, 2, 1000);
		if (n < 0 && errno != EINTR) break;
		for (int i = 0; i < 2 && n > 0; ++i)
		{
			if (p[i].fd < 0 || !p[i].revents) continue;
			char b[8192];
			ssize_t k = read(p[i].fd, b, sizeof b);
			std::string& s = i ? r.err : r.out;
			if (k > 0) {if (s.size() < (1u << 20)) s.append(b, (size_t)k);}
			else p[i].fd = -1;
		}
		timespec t;
		clock_gettime(CLOCK_MONOTONIC, &t);
		if (t.tv_sec - t0.tv_sec > 60) {r.hang = true; kill(pid, SIGKILL); break;}
	}
	close(po[0]); close(pe[0]);
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	if (WIFEXITED(st)) r.rc = WEXITSTATUS(st);
	else r.sig = WTERMSIG(st);
	return r;
}

// Reports an abnormal end. Returns whether the tool ended by itself with one of its statuses.
inline bool endedWell(const ToolRun& r, const std::string& key, const std::string& cmd)
{
	eval();
	if (r.err == "no tool" || r.err == "spawn" || r.err == "pipe")
	{
		std::fprintf(stderr, "cannot run the tool: %s\n", r.err.c_str());
		_exit(66);
	}
	if (r.hang) {violation(key + ":hang", "did not end: " + cmd); return false;}
	if (!r.sig && r.rc >= 0 && r.rc <= 3 && r.err.find("runtime error:") == std::string::npos) return true;
	std::string what = r.sig ? fmt("signal %d", r.sig) : fmt("exit %d", r.rc);
	size_t p = r.err.find("SUMMARY:");
	std::string sum;
	if (p == std::string::npos) p = r.err.find("runtime error:");
	if (p == std::string::npos) p = r.err.find("terminate called");
	if (p != std::string::npos) sum = r.err.substr(p, r.err.find('\n', p) - p);
	violation(key + ":crash:" + what, cmd + " :: " + what + " " + sum + " :: " + r.err.substr(0, 1200));
	return false;
}

} // namespace vh
