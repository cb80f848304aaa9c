// The real server, with its main and its allocator renamed; its system calls
// resolve to the definitions of sentserver.cc next to this file.
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <string>
#include <vector>
#include <map>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <pthread.h>
extern "C" { void* ss_malloc(size_t); void* ss_realloc(void*, size_t); void ss_free(void*); }
#define malloc ss_malloc
#define realloc ss_realloc
#define free ss_free
#define main ss_main
#include "training/utils/sentserver.cc"
