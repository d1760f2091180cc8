/*
 * Forced into the files of the client library: starts the table of pending
 * requests small, so that it is resized while few calls are waiting. Only a
 * number changes.
 */
#if __has_include("internal/client_internal.h")
#include "internal/client_internal.h"
#undef INITIAL_PENDING_REQUESTS_CAPACITY
#define INITIAL_PENDING_REQUESTS_CAPACITY 4
#endif
