#ifndef SIM_IO_H
#define SIM_IO_H
#define MAXFD 1024
enum { K_NONE, K_SOCK, K_PIPE_R, K_PIPE_W, K_FILE, K_URANDOM, K_STD, K_DIR };
typedef struct { int kind, flags; void *obj; } fdent_t;
fdent_t *fd_get(int fd);
int std_in_ready(void);
int fd_alloc(int kind, void *obj);
#endif
