// The stream the server reads from: its contents, how it arrives and ends.
#pragma once
#include "lsp.h"
#include <cerrno>
#include <lspserver/Connection.h>
#include <poll.h>
using namespace lspserver;

struct Pipe {
  void (*Waiting)() = nullptr; // the server waits for input
  std::string_view S;
  size_t Pos = 0;
  size_t Hup = ~size_t(0); // the writer hangs up once this much has been read
  int EndKind = 0;         // 0: POLLHUP, 1: readable, read returns 0, 2: error
  int Step = 0;            // calls of poll and read so far
  int At[3] = {-1, -1, -1}; // the calls that are disturbed
  int Idle = 0;            // calls after the end of the stream
  bool Dead = false;       // the client process died
  size_t DieAt = ~size_t(0);
  InboundPort *Port = nullptr;
  size_t CloseAt = ~size_t(0);
};
inline Pipe *The;
inline bool disturbed() {
  int K = The->Step++;
  return K == The->At[0] || K == The->At[1] || K == The->At[2];
}
inline void disturb(Pipe &P) {
  int N = symx_param("budget", 0);
  for (int I = 0; I < N; I++)
    P.At[I] = choose(symx_param("steps", 250));
}

inline void idle() {
  if (++The->Idle > 40) {
    CHECK(false, "end", "the server goes on after the end of its input");
    symx_stop();
  }
}
extern "C" int symx_env_poll(struct pollfd *F, nfds_t N, int Timeout) {
  CHECK(N == 1 && F[0].fd == 7 && (F[0].events & POLLIN) && Timeout >= 0 &&
            Timeout <= 60000,
        "poll", "the wait for input has no limit, or is for something else");
  Pipe &P = *The;
  if (P.Waiting)
    P.Waiting();
  bool End = P.Pos == P.S.size();
  if (disturbed())
    switch (choose(2)) {
    case 0: // a signal; revents keeps what it had
      errno = EINTR;
      return -1;
    case 1: // nothing for a second
      if (!End) {
        F[0].revents = 0;
        return 0;
      }
    }
  if (P.Port && P.Pos >= P.CloseAt)
    P.Port->close();
  if (!End) {
    F[0].revents = POLLIN | (P.EndKind == 0 && P.Pos >= P.Hup ? POLLHUP : 0);
    return 1;
  }
  idle();
  F[0].revents = P.EndKind == 0 ? POLLHUP : P.EndKind == 1 ? POLLIN : POLLERR;
  return 1;
}
extern "C" ssize_t symx_env_read(int Fd, void *B, size_t N) {
  CHECK(Fd == 7, "poll", "input is read from somewhere else");
  Pipe &P = *The;
  size_t Left = P.S.size() - P.Pos;
  if (disturbed()) {
    switch (choose(N > 1 && Left > 1 ? 3 : 1)) {
    case 0:
      errno = EINTR;
      return -1;
    case 1: // only some of it has arrived
      N = 1;
      break;
    case 2:
      N = (N < Left ? N : Left) - 1;
    }
  }
  if (N > Left)
    N = Left;
  if (N == 0) {
    idle();
    if (P.EndKind == 2) {
      errno = EIO;
      return -1;
    }
    return 0;
  }
  for (size_t I = 0; I < N; I++)
    ((char *)B)[I] = P.S[P.Pos + I];
  P.Pos += N;
  return (ssize_t)N;
}
extern "C" int symx_env_kill(pid_t, int Sig) {
  CHECK(Sig == 0, "kill", "a signal is sent to the client");
  if (The->Pos >= The->DieAt) {
    The->Dead = true;
    errno = ESRCH;
    return -1;
  }
  return 0;
}

inline std::string_view keep(const std::string &S) {
  char *P = (char *)symx_malloc(S.size());
  for (size_t I = 0; I < S.size(); I++)
    P[I] = S[I];
  return {P, S.size()};
}

inline std::string dec(size_t V) {
  std::string S;
  do {
    S.insert(S.begin(), char('0' + V % 10));
    V /= 10;
  } while (V);
  return S;
}
