// Runs a call in a child process, to observe calls that end the process.
#ifndef VERIF_FORKRUN_H
#define VERIF_FORKRUN_H
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <functional>
#include <sys/wait.h>
#include <unistd.h>
namespace pbt {
/// returned: the call returned; otherwise exit status (>=0) or -signal
struct ChildResult {
  bool returned;
  int status;
};
inline ChildResult run_child(const std::function<void()> &f) {
  fflush(stdout);
  fflush(stderr);
  int pfd[2];
  if (pipe(pfd) != 0)
    abort();
  pid_t p = fork();
  if (p == 0) {
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    dup2(n, 2);
    close(pfd[0]);
    try {
      f();
      char ok = 'k';
      if (write(pfd[1], &ok, 1) != 1) {
      }
    } catch (...) {
      _exit(99);
    }
    _exit(0);
  }
  close(pfd[1]);
  char b = 0;
  bool ret = read(pfd[0], &b, 1) == 1;
  close(pfd[0]);
  int st = 0;
  waitpid(p, &st, 0);
  return {ret, WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st)};
}
} // namespace pbt
#endif
