/* A run that reports its own process state to $VP_OUT/<RUN_ID>.<pid> and then follows the script $VP_SCRIPT. */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
extern char **environ;
static FILE *o;
static void field(const char *k, const char *v, size_t n) { fprintf(o, "%s %zu\n", k, n); fwrite(v, 1, n, o); fputc('\n', o); }
static void number(const char *k, long v) { char b[32]; int n = snprintf(b, sizeof b, "%ld", v); field(k, b, n); }
static void all(int fd, const char *p, size_t n) {
  while (n) { ssize_t w = write(fd, p, n); if (w < 0) { if (errno == EINTR) continue; _exit(99); } p += w; n -= w; }
}
int main(int argc, char **argv) {
  char path[4096], tmp[4200], b[8192];
  int fds[4096], nf = 0;
  struct stat st[3]; int sr[3];
  DIR *d = opendir("/proc/self/fd");
  struct dirent *e;
  if (d) {
    while ((e = readdir(d))) if (e->d_name[0] != '.' && atoi(e->d_name) != dirfd(d) && nf < 4096) fds[nf++] = atoi(e->d_name);
    closedir(d);
  }
  for (int i = 0; i < 3; i++) sr[i] = fstat(i, &st[i]);
  ssize_t in = read(0, b, sizeof b);
  if (!getenv("VP_OUT") || !getenv("RUN_ID")) return 98;
  snprintf(path, sizeof path, "%s/%s.%d", getenv("VP_OUT"), getenv("RUN_ID"), (int)getpid());
  snprintf(tmp, sizeof tmp, "%s.tmp", path);
  o = fopen(tmp, "w");
  if (!o) return 97;
  for (int i = 0; i < argc; i++) field("arg", argv[i], strlen(argv[i]));
  for (char **x = environ; *x; x++) field("env", *x, strlen(*x));
  if (getcwd(b, sizeof b)) field("cwd", b, strlen(b));
  number("pid", getpid()); number("pgrp", getpgrp()); number("ppid", getppid()); number("sid", getsid(0)); number("stdin", in);
  for (int i = 0; i < nf; i++) number("fd", fds[i]);
  for (int i = 0; i < 3; i++) { char x[80]; int n = snprintf(x, sizeof x, "%d:%ju:%ju:%o", sr[i], sr[i] ? 0 : (uintmax_t)st[i].st_dev, sr[i] ? 0 : (uintmax_t)st[i].st_ino, sr[i] ? 0 : st[i].st_mode); field("std", x, n); }
  for (int s = 1; s < 65; s++) {
    struct sigaction a;
    if (sigaction(s, 0, &a) == 0 && a.sa_handler != SIG_DFL) number("signal", s);
  }
  sigset_t m;
  if (sigprocmask(SIG_BLOCK, 0, &m) == 0) for (int s = 1; s < 65; s++) if (sigismember(&m, s) == 1) number("blocked", s);
  fclose(o);
  if (rename(tmp, path)) return 96;
  FILE *f = getenv("VP_SCRIPT") ? fopen(getenv("VP_SCRIPT"), "r") : 0;
  if (!f) return 0;
  fcntl(fileno(f), F_SETFD, FD_CLOEXEC);
  int c;
  while ((c = fgetc(f)) != EOF) {
    unsigned char l[4];
    if (fread(l, 1, 4, f) != 4) return 95;
    unsigned n = l[0] | l[1] << 8 | l[2] << 16 | (unsigned)l[3] << 24;
    if (c == '1' || c == '2' || c == 'c') {
      char *p = malloc(n + 1);
      if (fread(p, 1, n, f) != n) return 94;
      if (c == 'c') {
        pid_t k = fork();
        if (k == 0) { all(1, p, n); _exit(0); }
        waitpid(k, 0, 0);
      } else all(c - '0', p, n);
      free(p);
    } else if (c == 's') { struct timespec t = {n / 1000, n % 1000 * 1000000L}; while (nanosleep(&t, &t) && errno == EINTR); }
    else if (c == 'i') signal(n, SIG_IGN);
    else if (c == 'd') { if (chdir("/")) return 93; }
    else if (c == 'u') unlink("output.txt.nothing");
    else if (c == 'k') { kill(getpid(), n); }
    else if (c == 'x') return n;
  }
  return 0;
}
