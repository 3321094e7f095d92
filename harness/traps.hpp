// Catches the failures of assertions: an assertion that fails stops the program (trap or abort), which is observed here
// without leaving the process.
#pragma once
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>

inline sigjmp_buf g_jump;
inline volatile sig_atomic_t g_armed = 0;
inline void onTrap(int sig)
{
	if (g_armed) siglongjmp(g_jump, 1);
	::signal(sig, SIG_DFL); ::raise(sig);
}
// expected assertion failures write on stderr: silence it
struct Catching
{
	Catching()
	{
		if (!std::freopen("/dev/null", "w", stderr)) std::_Exit(3);
		struct sigaction sa {}; sa.sa_handler = onTrap; sa.sa_flags = SA_NODEFER; sigemptyset(&sa.sa_mask);
		::sigaction(SIGTRAP, &sa, nullptr); ::sigaction(SIGABRT, &sa, nullptr); ::sigaction(SIGILL, &sa, nullptr);
	}
};
template<typename F> __attribute__((noinline)) bool traps(F&& f)
{
	if (sigsetjmp(g_jump, 1) == 0) { g_armed = 1; f(); g_armed = 0; return false; }
	g_armed = 0;
	return true;
}
