#pragma once
#include "sim.h"
struct Pipe { string buf; size_t cap=65536; int readers=1, writers=1; };
struct OFile; // disk.cpp
enum FdType { FD_NONE=0, FD_LISTEN, FD_CONN, FD_CLIENT, FD_PIPE_R, FD_PIPE_W, FD_FILE, FD_UDP, FD_SOCK };
struct FdEnt { int type=FD_NONE; Conn*conn=nullptr; Pipe*pipe=nullptr; OFile*of=nullptr; bool nonblock=false; i64 rcvtimeo=-1, sndtimeo=-1; int port=0; };
extern vector<FdEnt>* fds;
int fd_alloc(); FdEnt* fd_get(int fd);
bool fd_readable(int fd); bool fd_writable(int fd);
void fd_changed(int fd);            // readiness may have changed
ssize_t disk_read(OFile*,void*,size_t); ssize_t disk_write(OFile*,const void*,size_t); void disk_close(OFile*);
