// Fork server around the real program.
//
// The program's own main() (renamed to fstalign_main with objcopy, source
// untouched) is called in a forked child for every request, so each case runs
// the real command line program in a fresh process image without paying for
// exec and dynamic linking.
//
// Protocol on stdin (all integers are decimal ASCII terminated by '\n'):
//   <cpu seconds> <address space MB> <number of args> ; cwd ; stdout path ; stderr path ; args...
// every string is sent as "<len>\n<bytes>".  The answer on stdout is one line:
//   "exit <code>" | "signal <number>"
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <string>
#include <vector>

int fstalign_main(int argc, char **argv) __asm__("fstalign_main");

static bool read_num(long &v) {
  int c;
  v = 0;
  bool any = false;
  while ((c = fgetc(stdin)) != EOF) {
    if (c == '\n') return any;
    if (c < '0' || c > '9') return false;
    v = v * 10 + (c - '0');
    any = true;
  }
  return false;
}

static bool read_str(std::string &s) {
  long n;
  if (!read_num(n)) return false;
  s.resize(n);
  return n == 0 || fread(&s[0], 1, n, stdin) == (size_t)n;
}

int main() {
  signal(SIGPIPE, SIG_IGN);
  while (true) {
    long cpu, mb, n;
    if (!read_num(cpu) || !read_num(mb) || !read_num(n)) return 0;
    std::string cwd, out, err;
    if (!read_str(cwd) || !read_str(out) || !read_str(err)) return 0;
    std::vector<std::string> args(n);
    for (auto &a : args)
      if (!read_str(a)) return 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) {
      printf("forkfail\n");
      fflush(stdout);
      continue;
    }
    if (pid == 0) {
      if (chdir(cwd.c_str()) != 0) _exit(250);
      int fo = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      int fe = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      int fi = open("/dev/null", O_RDONLY);
      if (fo < 0 || fe < 0 || fi < 0) _exit(251);
      dup2(fi, 0);
      dup2(fo, 1);
      dup2(fe, 2);
      struct rlimit rl;
      rl.rlim_cur = cpu;
      rl.rlim_max = cpu + 1;
      setrlimit(RLIMIT_CPU, &rl);
      if (mb > 0) {
        rl.rlim_cur = rl.rlim_max = (rlim_t)mb << 20;
        setrlimit(RLIMIT_AS, &rl);
      }
      rl.rlim_cur = rl.rlim_max = 256u << 20;
      setrlimit(RLIMIT_FSIZE, &rl);
      rl.rlim_cur = rl.rlim_max = 0;
      setrlimit(RLIMIT_CORE, &rl);
      std::vector<char *> argv;
      for (auto &a : args) argv.push_back(&a[0]);
      argv.push_back(nullptr);
      exit(fstalign_main((int)args.size(), argv.data()));
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {
    }
    if (WIFEXITED(st))
      printf("exit %d\n", WEXITSTATUS(st));
    else
      printf("signal %d\n", WTERMSIG(st));
    fflush(stdout);
  }
}
