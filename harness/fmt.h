// Pipes and one process, as the server sees them: descriptors, what is in the
// pipes, and a command that reads, writes and exits as the solver likes.
#pragma once
#include "hx.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <fcntl.h>
#include <poll.h>
#include <sys/wait.h>
#include <unistd.h>

enum { CAP = 65536, ATOMIC = 4096, CHUNK = 70000 };

struct Ends {
  int P = -1; // the pipe, -2: not a pipe of ours
  bool W = false, NonBlock = false, Cloexec = false;
};
struct PipeBuf {
  char *B;
  size_t Put = 0, Got = 0;
  int R = 0, W = 0; // ends the server has
  size_t used() const { return Put - Got; }
  size_t space() const { return CAP - used(); }
};

struct World {
  Ends T[24];
  PipeBuf P[6];
  int NP = 0;
  int Phase = 0; // 0: nothing started 1: in the child 2: in the server
  bool Std[3] = {};
  int Of[3] = {-1, -1, -1}; // the pipes of the command's stdin, stdout, stderr
  bool SigPipe = false;     // ignored
  bool Fails = false;       // something could not be started
  // the command
  bool Lives = false, Reaped = false;
  int Op = -1, Ops = 0, Max = 3, At = 0;
  size_t Left = 0, Echo = 0;
  int Exit = 0;
  bool Eager = false, Eof = false;
  std::string_view Doc;
  std::string Read, Printed;
  // disturbances
  int Step = 0, D[2] = {-1, -1};
  void (*Meanwhile)() = nullptr;
  void (*Again)() = nullptr;
  const char *const *Argv = nullptr;
  World() {
    for (int I = 0; I < 3; I++)
      T[I].P = -2;
    for (auto &X : P)
      X.B = (char *)symx_malloc(CAP);
  }
};
inline World *W;

inline PipeBuf &std_(int I) { return W->P[W->Of[I]]; }
inline void die(int Status) {
  W->Lives = false;
  W->Exit = Status;
}
// The command puts bytes in a pipe; false: it has to wait
inline bool put(PipeBuf &P, const char *S, size_t &Done, size_t N) {
  if (!P.R) {
    die(SIGPIPE);
    return true;
  }
  size_t K = P.space() < N - Done ? P.space() : N - Done;
  for (size_t I = 0; I < K; I++)
    P.B[(P.Put + I) % CAP] = S ? S[Done + I] : 'y';
  P.Put += K;
  Done += K;
  return K != 0 || Done == N;
}
inline bool take(size_t Most) {
  PipeBuf &P = std_(0);
  size_t N = P.used() < Most ? P.used() : Most;
  if (!N && !P.W) {
    if (!W->Eof)
      CHECK(W->Read.size() == W->Doc.size(), "stdin",
            "the command gets a part of the document");
    return W->Eof = true;
  }
  for (size_t I = 0; I < N; I++)
    W->Read.push_back(P.B[(P.Got + I) % CAP]);
  P.Got += N;
  return N != 0;
}
inline bool echo() {
  size_t At = W->Echo;
  if (At == W->Read.size())
    return true;
  bool R = put(std_(1), W->Read.data(), W->Echo, W->Read.size());
  W->Printed.append(W->Read, At, W->Echo - At);
  return R;
}
// One step of the command; false: it waits for the server
inline bool step() {
  if (!W->Lives)
    return false;
  if (W->Op < 0) {
    int Op = W->Ops++ < W->Max ? (int)choose(8, "op") : 7;
    if (Op == 7) {
      switch (choose(3, "end")) {
      case 0:
        die(0);
        break;
      case 1:
        die((int)symx_api_u8("code", 1, 255) << 8);
        break;
      case 2:
        die(SIGSEGV);
      }
      return true;
    }
    W->Op = Op;
    W->Left = 0;
    return true;
  }
  bool Go = true, Done = false;
  switch (W->Op) {
  case 0: // reads some
    Go = Done = take(3000);
    break;
  case 1: // reads all
    Go = take(CAP);
    Done = W->Eof;
    break;
  case 2: // copies to its output as it reads
    if (W->Echo < W->Read.size()) {
      Go = echo();
      break;
    }
    Go = take(20000);
    Done = W->Eof;
    break;
  case 3: // prints what it has read
    Go = echo();
    Done = W->Echo == W->Read.size();
    break;
  case 4: { // prints something
    static char C[1];
    if (!W->Left)
      C[0] = (char)symx_api_u8("out", 'a', 'z');
    size_t N = 0;
    Go = put(std_(1), C, N, 1);
    if (N)
      W->Printed.push_back(C[0]);
    W->Left = 1;
    Done = N;
    break;
  }
  case 5: { // prints a lot
    size_t At = W->Left;
    Go = put(std_(1), nullptr, W->Left, CHUNK);
    W->Printed.append(W->Left - At, 'y');
    Done = W->Left == CHUNK;
    break;
  }
  case 6: // complains a lot
    Go = put(std_(2), nullptr, W->Left, CHUNK);
    Done = W->Left == CHUNK;
    break;
  }
  if (Done)
    W->Op = -1;
  return Go;
}
inline void wait(bool Any = false) {
  if (!step()) {
    CHECK(false, "hang", "the server and the command wait for each other");
    symx_stop();
  }
}
// Called at each call of the server: how it is disturbed, -1: not at all
inline int call() {
  if (W->Phase != 2)
    return -1;
  int K = W->Step++;
  if (K > 4000) {
    CHECK(false, "hang", "the server never finishes");
    symx_stop();
  }
  if (W->Eager)
    while (step())
      ;
  if (K != W->D[0] && K != W->D[1])
    return -1;
  int R = (int)choose(5, "what");
  if (R == 3) {
    while (step())
      ;
    return -1;
  }
  if (R == 4) {
    if (W->Meanwhile)
      W->Meanwhile();
    return -1;
  }
  return R; // 0: a signal 1: less than asked for 2: the command does a step
}
inline Ends *get(int F, const char *What) {
  if (F < 0 || F >= 24 || W->T[F].P == -1) {
    symx_note("%s of %d", What, F);
    CHECK(false, "badfd", "a descriptor is used that is not open");
    symx_stop();
  }
  return &W->T[F];
}
inline void ref(const Ends &E, int N) {
  if (E.P >= 0)
    (E.W ? W->P[E.P].W : W->P[E.P].R) += N;
}
inline int fresh() {
  for (int I = 3; I < 24; I++)
    if (W->T[I].P == -1)
      return I;
  symx_stop();
  return -1;
}

extern "C" {
int symx_env_pipe2(int *F, int Flags) {
  if (symx_param("faults", 0) && choose(2, "pipe")) {
    W->Fails = true;
    errno = EMFILE;
    return -1;
  }
  if (W->NP == 6)
    symx_stop();
  int P = W->NP++;
  for (int I = 0; I < 2; I++) {
    F[I] = fresh();
    W->T[F[I]] = {P, I == 1, (Flags & O_NONBLOCK) != 0, (Flags & O_CLOEXEC) != 0};
    ref(W->T[F[I]], 1);
  }
  return 0;
}
int symx_env_pipe(int *F) { return symx_env_pipe2(F, 0); }
int symx_env_close(int F) {
  Ends *E = get(F, "close");
  ref(*E, -1);
  E->P = -1;
  return 0;
}
int symx_env_dup2(int A, int B) {
  Ends *E = get(A, "dup2");
  if (A == B || B < 0 || B >= 24)
    return B;
  if (W->T[B].P != -1)
    symx_env_close(B);
  W->T[B] = *E;
  W->T[B].Cloexec = false;
  ref(*E, 1);
  return B;
}
int symx_env_dup3(int A, int B, int Flags) {
  int R = symx_env_dup2(A, B);
  W->T[B].Cloexec = Flags & O_CLOEXEC;
  return R;
}
int symx_env_fcntl(int F, int Cmd, ...) {
  va_list L;
  va_start(L, Cmd);
  int X = va_arg(L, int);
  va_end(L);
  Ends *E = get(F, "fcntl");
  switch (Cmd) {
  case F_GETFL:
    return (E->W ? O_WRONLY : O_RDONLY) | (E->NonBlock ? O_NONBLOCK : 0);
  case F_SETFL:
    E->NonBlock = X & O_NONBLOCK;
    return 0;
  case F_GETFD:
    return E->Cloexec ? FD_CLOEXEC : 0;
  case F_SETFD:
    E->Cloexec = X & FD_CLOEXEC;
    return 0;
  }
  errno = EINVAL;
  return -1;
}
int symx_env_fcntl64(int F, int Cmd, int X) { return symx_env_fcntl(F, Cmd, X); }
pid_t symx_env_fork() {
  if (W->Phase == 0) {
    if (symx_param("faults", 0) && choose(2, "fork")) {
      W->Fails = true;
      errno = EAGAIN;
      return -1;
    }
    W->Phase = 1;
    return 0;
  }
  CHECK(W->Phase == 2 && !W->Lives && !W->Reaped, "fork",
        "the command is started again");
  W->Lives = true;
  return 4711;
}
pid_t symx_env_vfork() { return symx_env_fork(); }
int symx_env_execvp(const char *File, char *const *Argv) {
  CHECK(W->Phase == 1, "exec", "the server itself becomes the command");
  size_t N = 0;
  bool Same = File && !strcmp(File, W->Argv[0]);
  for (; W->Argv[N] && Argv[N]; N++)
    Same &= !strcmp(Argv[N], W->Argv[N]);
  CHECK(Same && !W->Argv[N] && !Argv[N], "argv",
        "another command is run than the one configured");
  CHECK(!W->SigPipe, "sigpipe", "the command starts with SIGPIPE ignored");
  for (int I = 3; I < 24; I++)
    if (W->T[I].P >= 0 && !W->T[I].Cloexec) {
      CHECK(false, "inherit", "the command gets other ends of the pipes");
      symx_stop();
    }
  int Of[3];
  for (int I = 0; I < 3; I++) {
    Of[I] = W->T[I].P;
    CHECK(Of[I] >= 0 && W->T[I].W == (I != 0), "stdio",
          "a standard stream of the command is not a pipe from or to the "
          "server");
    if (Of[I] < 0)
      symx_stop();
  }
  CHECK(Of[0] != Of[1] && Of[0] != Of[2], "stdio",
        "the command reads what it writes");
  if (choose(2, "exec")) { // there is no such command
    symx_reach("no-command");
    errno = ENOENT;
    return -1;
  }
  // Once more, as the server.
  auto Again = W->Again;
  for (int I = 0; I < 3; I++)
    W->Of[I] = Of[I];
  Again();
  symx_stop();
  return -1;
}
int symx_env_execv(const char *F, char *const *A) {
  return symx_env_execvp(F, A);
}
void symx_env__exit(int Status) {
  CHECK(W->Phase == 1, "exit", "the server exits");
  CHECK((Status & 255) != 0, "exit", "what could not be run did not fail");
  symx_stop();
}
void symx_env_exit(int Status) { symx_env__exit(Status); }
void *symx_env_signal(int Sig, void *H) {
  bool Old = W->SigPipe;
  if (Sig == SIGPIPE)
    W->SigPipe = H == (void *)SIG_IGN;
  return (void *)(Sig == SIGPIPE && Old ? SIG_IGN : SIG_DFL);
}
int symx_env_sigaction(int Sig, const struct sigaction *N, struct sigaction *O) {
  if (O) {
    memset(O, 0, sizeof *O);
    O->sa_handler = Sig == SIGPIPE && W->SigPipe ? SIG_IGN : SIG_DFL;
  }
  if (N && Sig == SIGPIPE)
    W->SigPipe = N->sa_handler == SIG_IGN;
  return 0;
}
ssize_t symx_env_write(int F, const void *B, size_t N) {
  Ends *E = get(F, "write");
  CHECK(E->P >= 0 && E->W, "write", "the server writes to something else");
  PipeBuf &P = W->P[E->P];
  int D = call();
  if (D == 0) {
    errno = EINTR;
    return -1;
  }
  size_t Most = D == 1 && N > 1 ? N - 1 : N, Done = 0;
  if (D == 2)
    step();
  while (true) {
    if (E->P != W->Of[0] || !W->Lives) { // nobody reads
      if (!W->SigPipe) {
        CHECK(false, "killed", "the server is killed by SIGPIPE");
        symx_stop();
      }
      if (Done)
        return (ssize_t)Done;
      errno = EPIPE;
      return -1;
    }
    size_t Room = P.space();
    size_t K = Room < Most - Done ? Room : Most - Done;
    if (Most <= ATOMIC && K < Most)
      K = 0;
    for (size_t I = 0; I < K; I++)
      P.B[(P.Put + I) % CAP] = ((const char *)B)[Done + I];
    P.Put += K;
    Done += K;
    if (Done == Most)
      return (ssize_t)Done;
    if (E->NonBlock) {
      if (Done)
        return (ssize_t)Done;
      errno = EAGAIN;
      return -1;
    }
    wait();
  }
}
ssize_t symx_env_read(int F, void *B, size_t N) {
  Ends *E = get(F, "read");
  CHECK(E->P >= 0 && !E->W, "read", "the server reads from something else");
  PipeBuf &P = W->P[E->P];
  int D = call();
  if (D == 0) {
    errno = EINTR;
    return -1;
  }
  if (D == 1 && N > 1)
    N = 1;
  if (D == 2)
    step();
  while (!P.used()) {
    if (!W->Lives)
      return 0;
    if (E->NonBlock) {
      errno = EAGAIN;
      return -1;
    }
    wait();
  }
  if (N > P.used())
    N = P.used();
  for (size_t I = 0; I < N; I++)
    ((char *)B)[I] = P.B[(P.Got + I) % CAP];
  P.Got += N;
  return (ssize_t)N;
}
int symx_env_poll(struct pollfd *F, nfds_t N, int Timeout) {
  int D = call();
  if (D == 0) {
    errno = EINTR;
    return -1;
  }
  if (D == 1 && Timeout >= 0) {
    for (nfds_t I = 0; I < N; I++)
      F[I].revents = 0;
    return 0;
  }
  if (D == 2)
    step();
  while (true) {
    int R = 0;
    for (nfds_t I = 0; I < N; I++) {
      F[I].revents = 0;
      if (F[I].fd < 0)
        continue;
      Ends *E = get(F[I].fd, "poll");
      if (E->P < 0)
        symx_stop();
      PipeBuf &P = W->P[E->P];
      if (E->W) {
        if (!W->Lives)
          F[I].revents = POLLERR;
        if (P.space() >= ATOMIC)
          F[I].revents |= F[I].events & POLLOUT;
      } else {
        if (P.used())
          F[I].revents |= F[I].events & POLLIN;
        if (!W->Lives)
          F[I].revents |= POLLHUP;
      }
      R += F[I].revents != 0;
    }
    if (R)
      return R;
    if (Timeout >= 0 && !step())
      return 0;
    if (Timeout < 0)
      wait();
  }
}
pid_t symx_env_waitpid(pid_t Pid, int *S, int Flags) {
  CHECK(Pid == 4711 && !W->Reaped, "wait", "another process is waited for");
  int D = call();
  if (D == 0) {
    errno = EINTR;
    return -1;
  }
  if (D == 2)
    step();
  while (W->Lives) {
    if (Flags & WNOHANG)
      return 0;
    wait();
  }
  W->Reaped = true;
  if (S)
    *S = W->Exit;
  return Pid;
}
int symx_env_kill(pid_t P, int Sig) {
  CHECK(P == 4711 && !W->Reaped, "kill", "a signal is sent to someone else");
  if (Sig && W->Lives)
    die(Sig);
  return 0;
}
}
