// Runs something in a process of its own, so that no state of this one reaches it and none of its state stays.
#pragma once
#include "pbt.hpp"
#include <cstring>
#include <functional>
#include <string>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <signal.h>
#include <type_traits>
#include <unistd.h>
#include <vector>

namespace vt {
// what `work` returns, from a child process; a failed check or a crash in the child fails here
template <class T>
std::vector<T> inOwnProcess(const std::function<std::vector<T>()> &work, const std::string &what) {
    int fd[2];
    if (pipe(fd) != 0) throw std::runtime_error("pipe");
    const pid_t parent = getpid(), pid = fork();
    if (pid < 0) { close(fd[0]); close(fd[1]); throw std::runtime_error("fork"); }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (getppid() != parent) _exit(9);
        close(fd[0]);
        auto put = [&](const void *p, std::size_t n) { for (const char *c = static_cast<const char *>(p); n > 0;) { const ssize_t k = write(fd[1], c, n); if (k <= 0) _exit(8); c += k; n -= std::size_t(k); } };
        char kind = 'R';
        std::string msg;
        std::vector<T> r;
        try { r = work(); }
        catch (const pbt::Discard &) { kind = 'D'; }
        catch (const pbt::Fail &e) { kind = 'F'; msg = e.msg; }
        catch (const std::exception &e) { kind = 'F'; msg = std::string("exception: ") + e.what(); }
        put(&kind, 1);
        if (kind == 'R') { if (!r.empty()) put(r.data(), r.size() * sizeof(T)); } else put(msg.data(), msg.size());
        _exit(0);
    }
    close(fd[1]);
    std::string got;
    char buf[65536];
    for (ssize_t k; (k = read(fd[0], buf, sizeof buf)) > 0;) got.append(buf, std::size_t(k));
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0 && !got.empty(), what << " ends with " << (WIFSIGNALED(st) ? "signal " : "exit code ") << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)));
    if (got[0] == 'D') throw pbt::Discard{};
    PBT_CHECK(got[0] == 'R', what << ": " << got.substr(1));
    std::vector<T> r((got.size() - 1) / sizeof(T));
    if (!r.empty()) std::memcpy(static_cast<void *>(r.data()), got.data() + 1, r.size() * sizeof(T));
    return r;
}
} // namespace vt
