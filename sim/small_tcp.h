/*
 * Forced into the files of the TCP server transport: scales its fixed table and
 * pool sizes down so that limits are reached by few clients and a run stays
 * short. Only numbers change.
 */
#if __has_include("internal/tcp_transport_internal.h")
#include "internal/transport_internal.h"
#include "internal/tcp_transport_internal.h"
#undef MAX_TCP_CLIENTS
#define MAX_TCP_CLIENTS 10
#undef POOL_NUM_BUFFERS
#define POOL_NUM_BUFFERS 8
#undef DEFAULT_THREAD_POOL_SIZE
#define DEFAULT_THREAD_POOL_SIZE 12
#undef MAX_THREAD_POOL_SIZE
#define MAX_THREAD_POOL_SIZE 14
#undef CONNECTION_QUEUE_SIZE
#define CONNECTION_QUEUE_SIZE 16
#endif
