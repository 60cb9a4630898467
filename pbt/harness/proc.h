// runs a part of a case in a child process, so that it meets process-wide state (registries, one-time
// initialisation) as a fresh program does.  All random choices have to be drawn before.
#pragma once
#include "pbt.h"
#include <cerrno>
#include <cstdio>
#include <sys/wait.h>
#include <unistd.h>

inline uint64_t inChild(const std::function<uint64_t()> &body, unsigned timeoutSec = 60) {
    int fd[2];
    if (pipe(fd)) { perror("pipe"); _exit(2); }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(2); }
    if (pid == 0) {
        close(fd[0]);
        signal(SIGALRM, SIG_DFL);
        alarm(timeoutSec);
        std::string out;
        int rc = 0;
        try {
            out = std::to_string(body());
        } catch (const pbt::Fail &f) {
            rc = 3;
            out = f.msg;
        } catch (const std::exception &e) {
            rc = 3;
            out = std::string("unexpected exception: ") + e.what();
        }
        size_t n = 0;
        while (n < out.size()) {
            ssize_t k = write(fd[1], out.data() + n, out.size() - n);
            if (k <= 0) break;
            n += size_t(k);
        }
        close(fd[1]);
        if (rc) _exit(rc);
        exit(0);
    }
    close(fd[1]);
    std::string out;
    char buf[4096];
    for (;;) {
        ssize_t k = read(fd[0], buf, sizeof buf);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) break;
        out.append(buf, size_t(k));
    }
    close(fd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) pbt::fail(out);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 2) _exit(2);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) {
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) pbt::fail("the program hangs");
        pbt::fail("the program crashes (" + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + ")");
    }
    return strtoull(out.c_str(), nullptr, 10);
}
