/*
Runs a misuse in a child process and tells how it ended.
*/
#pragma once

#include <csignal>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include "mon.hh"

namespace mon {

// 0: came back, SIGABRT: stopped by an assertion, other: signal number
template <typename F>
int end_of(F f)
{
	fflush(stdout);
	fflush(stderr);
	pid_t pid = fork();
	if (pid < 0)
		inconclusive("fork");
	if (!pid) {
		signal(SIGABRT, SIG_DFL);
		signal(SIGSEGV, SIG_DFL);
		int null = open("/dev/null", O_WRONLY);
		dup2(null, 1);
		dup2(null, 2);
		f();
		_exit(0);
	}
	int status = 0;
	if (waitpid(pid, &status, 0) != pid)
		inconclusive("waitpid");
	return WIFSIGNALED(status) ? WTERMSIG(status) : 0;
}

}
