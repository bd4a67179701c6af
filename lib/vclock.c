#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <errno.h>
volatile int vclock_on = 0;
volatile long long vclock_ns = 0;      /* virtual CLOCK_REALTIME */
volatile long long vclock_tick = 0;    /* added by every read */
volatile long long vclock_reads = 0;
static long long vread(void){ vclock_reads++; vclock_ns += vclock_tick; return vclock_ns; }
int clock_gettime(clockid_t id, struct timespec *ts){
  if(!vclock_on || id==CLOCK_PROCESS_CPUTIME_ID || id==CLOCK_THREAD_CPUTIME_ID) return syscall(SYS_clock_gettime,id,ts)==0?0:-1;
  long long n=vread(); if(id!=CLOCK_REALTIME && id!=CLOCK_REALTIME_COARSE) n-=1000000000000000000LL;
  ts->tv_sec=n/1000000000LL; ts->tv_nsec=n%1000000000LL; return 0;}
int gettimeofday(struct timeval *tv, void *tz){ struct timespec ts; clock_gettime(CLOCK_REALTIME,&ts); tv->tv_sec=ts.tv_sec; tv->tv_usec=ts.tv_nsec/1000; return 0;}
time_t time(time_t *t){ struct timespec ts; clock_gettime(CLOCK_REALTIME,&ts); if(t)*t=ts.tv_sec; return ts.tv_sec;}
