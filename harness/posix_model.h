// The operating system as the local keyboard sees it: a terminal on descriptor 0, pipes, select/poll. Used symbolically and natively (-Wl,--wrap).
#pragma once
#include "symx.h"
#include <pthread.h>
struct PipeM { int bytes; bool wopen, ropen; };
struct PosixModel {
    unsigned char in[640]; int n, pos; bool eof, err, tty; int eintr; // the bytes typed (n), then end of file (eof), an error (err), or silence
    unsigned lflag, iflag, oflag, cflag; int reads, gets, sets; // the terminal settings
    PipeM pipes[6]; int npipes; int badClose, sigpipe; int base; bool nopipe; // the first descriptor of the pipes; no more descriptors
};
extern PosixModel pm;
void pmType(const unsigned char* p, int n);      // more bytes arrive
int pmPos();                                     // bytes read so far
int pmOpen();                                    // descriptors still open
