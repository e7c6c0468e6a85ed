// peak OUT PROG ARGS...: runs the program and writes its peak resident memory (kB) to OUT.
// (This small process is the one that forks: ru_maxrss of a child starts at what its parent has.)
#include <stdio.h>
#include <stdlib.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
int main(int argc, char** argv) {
  pid_t p = fork();
  if (p == 0) {
    execv(argv[2], argv + 2);
    _exit(127);
  }
  int           st = 0;
  struct rusage u;
  if (argc < 3 || p < 0 || wait4(p, &st, 0, &u) != p) return 126;
  FILE* f = fopen(argv[1], "w");
  if (!f) return 126;
  fprintf(f, "%ld\n", u.ru_maxrss);
  fclose(f);
  if (WIFSIGNALED(st)) {
    signal(WTERMSIG(st), SIG_DFL);
    kill(getpid(), WTERMSIG(st));
  }
  return WEXITSTATUS(st);
}
