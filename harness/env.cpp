// The environment of the server: what poll, read and kill return is decided by
// the harness (weak: a harness without a stream leaves it at end of file).
#include "symx.h"
#include <cerrno>
#include <poll.h>
#include <pthread.h>
#include <sys/types.h>
extern "C" {
__attribute__((weak)) ssize_t symx_env_read(int, void *, size_t) { return 0; }
__attribute__((weak)) int symx_env_poll(struct pollfd *, nfds_t, int) {
  errno = EINVAL;
  return -1;
}
__attribute__((weak)) int symx_env_kill(pid_t, int) { return 0; }
// Called at every lock and unlock: a schedule may run something else here.
__attribute__((weak)) void symx_sched(int) {}
// One thread runs: a lock that is taken is held by the caller itself.
int symx_env_pthread_mutex_lock(pthread_mutex_t *M) {
  symx_sched(0);
  if (pthread_mutex_trylock(M) != 0) {
    symx_api_assert(false, "deadlock", "a lock is taken again by its holder");
    symx_stop();
  }
  symx_sched(2);
  return 0;
}
int symx_env_pthread_mutex_unlock(pthread_mutex_t *M) {
  int R = pthread_mutex_unlock(M);
  symx_sched(1);
  return R;
}
}
