#include "posix_model.h"
#include <sys/select.h>
#include <poll.h>
#include <termios.h>
#include <unistd.h>
#include <errno.h>
#include <sched.h>
#include <stdarg.h>
#ifdef SYMX_ENGINE
#define W(n) n
#else
#define W(n) __wrap_##n
#endif
PosixModel pm;
static pthread_mutex_t M=PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t C=PTHREAD_COND_INITIALIZER;
struct L { L() { pthread_mutex_lock(&M); } ~L() { pthread_mutex_unlock(&M); } };
#define BASE (pm.base?pm.base:10)
static PipeM* pipeOf(int fd, bool& wr) { int k=fd-BASE; if (k<0 || k>=2*pm.npipes) return nullptr; wr=k&1; PipeM* p=&pm.pipes[k/2]; return (wr?p->wopen:p->ropen)?p:nullptr; }
static bool inReady() { return pm.pos<pm.n || pm.eof || pm.err; }
static bool rdReady(int fd, bool& bad) { if (fd==0) return inReady(); bool w; PipeM* p=pipeOf(fd,w); if (!p || w) { bad=true; return false; } return p->bytes>0 || !p->wopen; }
void pmType(const unsigned char* b, int n) { L l; for (int i=0;i<n;++i) pm.in[pm.n++]=b[i]; pthread_cond_broadcast(&C); }
int pmPos() { L l; return pm.pos; }
int pmOpen() { int r=0; for (int i=0;i<pm.npipes;++i) r+=pm.pipes[i].ropen+pm.pipes[i].wopen; return r; }
static bool interrupted() { if (pm.eintr>0 && symx_concretize(symx_choice("eintr",2))) { --pm.eintr; errno=EINTR; return true; } return false; }
extern "C" {
int W(pipe)(int* f) { L l; if (pm.npipes>=6 || pm.nopipe) { errno=EMFILE; return -1; } int k=pm.npipes++; pm.pipes[k].bytes=0; pm.pipes[k].wopen=pm.pipes[k].ropen=true; f[0]=BASE+2*k; f[1]=BASE+2*k+1; return 0; }
int W(pipe2)(int* f, int) { return W(pipe)(f); }
int W(close)(int fd) { L l; bool w; PipeM* p=pipeOf(fd,w); if (!p) { ++pm.badClose; errno=EBADF; return -1; } (w?p->wopen:p->ropen)=false; pthread_cond_broadcast(&C); return 0; }
ssize_t W(write)(int fd, const void*, size_t n) { if (fd==1 || fd==2) return (ssize_t)n; L l; bool w; PipeM* p=pipeOf(fd,w); if (!p || !w) { errno=EBADF; return -1; } if (!p->ropen) { ++pm.sigpipe; errno=EPIPE; return -1; } p->bytes+=(int)n; pthread_cond_broadcast(&C); return (ssize_t)n; }
ssize_t W(read)(int fd, void* b, size_t n) {
    L l;
    if (fd==0) { ++pm.reads; while (!inReady()) pthread_cond_wait(&C,&M); if (pm.pos>=pm.n) { if (pm.err) { errno=EIO; return -1; } return 0; } size_t k=0; for (;k<n && pm.pos<pm.n;++k) ((unsigned char*)b)[k]=pm.in[pm.pos++]; return (ssize_t)k; }
    bool w; PipeM* p=pipeOf(fd,w); if (!p || w) { errno=EBADF; return -1; }
    while (!p->bytes && p->wopen) pthread_cond_wait(&C,&M);
    size_t k=0; for (;k<n && p->bytes>0;++k) { ((unsigned char*)b)[k]=' '; --p->bytes; } return (ssize_t)k;
}
int W(select)(int nfds, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
    if (interrupted()) return -1;
    L l;
    for (;;) {
        int cnt=0; bool bad=false, in=false; fd_set o; FD_ZERO(&o); if (nfds>FD_SETSIZE) { errno=EINVAL; return -1; }
        if (r) for (int fd=0;fd<nfds;++fd) { if (fd>0 && fd<BASE) { fd=BASE; if (fd>=nfds) break; } if (FD_ISSET(fd,r)) { in=true; if (rdReady(fd,bad)) { FD_SET(fd,&o); ++cnt; } } }
        if (bad) { errno=EBADF; return -1; }
        if (cnt || (tv && !in)) { *r=o; if (w) FD_ZERO(w); if (e) FD_ZERO(e); return cnt; }
        if (tv) { FD_ZERO(r); pthread_mutex_unlock(&M); sched_yield(); pthread_mutex_lock(&M); return 0; }
        pthread_cond_wait(&C,&M);
    }
}
int W(poll)(struct pollfd* p, nfds_t n, int timeout) {
    if (interrupted()) return -1;
    L l;
    for (;;) {
        int cnt=0; for (nfds_t i=0;i<n;++i) { p[i].revents=0; if (p[i].fd<0) continue; bool bad=false; if (rdReady(p[i].fd,bad) && (p[i].events&POLLIN)) p[i].revents=POLLIN; if (bad) p[i].revents=POLLNVAL; if (p[i].revents) ++cnt; }
        if (cnt || timeout==0) return cnt;
        if (timeout>0) { pthread_mutex_unlock(&M); sched_yield(); pthread_mutex_lock(&M); return 0; }
        pthread_cond_wait(&C,&M);
    }
}
int W(tcgetattr)(int fd, struct termios* t) { L l; ++pm.gets; if (fd<0 || fd>2 || !pm.tty) { errno=ENOTTY; return -1; } t->c_lflag=pm.lflag; t->c_iflag=pm.iflag; t->c_oflag=pm.oflag; t->c_cflag=pm.cflag; t->c_line=0; for (int i=0;i<NCCS;++i) t->c_cc[i]=0; t->c_ispeed=t->c_ospeed=0; return 0; }
int W(tcsetattr)(int fd, int how, const struct termios* t) { L l; if (fd<0 || fd>2 || !pm.tty) { errno=ENOTTY; return -1; } if (how==TCSAFLUSH) pm.pos=pm.n; // what has been typed is discarded
    ++pm.sets; pm.lflag=t->c_lflag; pm.iflag=t->c_iflag; pm.oflag=t->c_oflag; pm.cflag=t->c_cflag; return 0; }
int W(isatty)(int fd) { return fd>=0 && fd<=2 && pm.tty; }
int W(fcntl)(int, int, ...) { return 0; }
}
