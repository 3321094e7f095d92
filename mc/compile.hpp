// Running compilers on generated programs: the executions enumerated by C34 and C37 are compilations.
#pragma once
#include "mc.hpp"
#include <fcntl.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace
{
	using Text = std::string;
	using Args = std::vector<Text>;

	struct Outcome { int status; Text out, err; };

	Text slurp(int fd)
	{
		Text text; char buffer[4096]; off_t at = 0;
		for (;;)
		{
			const ssize_t n = pread(fd, buffer, sizeof(buffer), at);
			if (n <= 0) return text;
			text.append(buffer, std::size_t(n)); at += n;
		}
	}

	// an anonymous file: nothing is left behind whatever happens to this process
	int scratchFile(const Text& content = {})
	{
		const int fd = memfd_create("headers", MFD_CLOEXEC);
		if (fd < 0) { std::perror("memfd_create"); std::abort(); }
		if (pwrite(fd, content.data(), content.size(), 0) != ssize_t(content.size())) std::abort();
		return fd;
	}

	Outcome run(const Args& args, const Text& input)
	{
		for (int attempt = 0;; ++attempt)
		{
			const int in = scratchFile(input), out = scratchFile(), err = scratchFile();
			const pid_t pid = fork();
			if (pid == 0)
			{
				lseek(in, 0, SEEK_SET);
				dup2(in, 0); dup2(out, 1); dup2(err, 2);
				std::vector<char*> argv;
				for (const Text& a : args) argv.push_back(const_cast<char*>(a.c_str()));
				argv.push_back(nullptr);
				execvp(argv[0], argv.data());
				_exit(127);
			}
			int status = 0;
			waitpid(pid, &status, 0);
			Outcome o{ WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status), slurp(out), slurp(err) };
			close(in); close(out); close(err);
			const bool trouble = o.status >= 1000 || o.status == 127 || o.err.find("Killed") != Text::npos || o.err.find("annot allocate") != Text::npos || o.err.find("internal compiler error") != Text::npos || o.err.find("No space left") != Text::npos;
			if (o.status == 0 || !trouble || attempt == 2) return o;
		}
	}

	Text firstErrors(const Text& err)
	{
		Text result; std::istringstream lines(err); Text line; int n = 0;
		while (std::getline(lines, line))
			if (line.find("error") != Text::npos || line.find("undefined reference") != Text::npos || line.find("multiple definition") != Text::npos) { if (n++ < 3) result += line + " | "; }
		return result.empty() ? err.substr(0, 300) : result;
	}

	struct Compiler { const char* name; const char* standard; };
	const Compiler compilers[] = { { "g++", "-std=c++17" }, { "g++", "-std=c++20" }, { "g++", "-std=c++23" }, { "clang++", "-std=c++17" }, { "clang++", "-std=c++20" }, { "clang++", "-std=c++23" } };
}
