/* A NumPy data allocator (NEP 49) whose k-th request can be made to fail. */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>

static long countdown = 0;  /* >0: the countdown-th request from now fails */
static long sticky = 0;     /* once fired, every later request fails too   */
static long requests = 0, fired = 0, failing = 0;

static int refuse(void) {
    requests++;
    if (failing) { fired++; return 1; }
    if (countdown > 0 && --countdown == 0) {
        fired++;
        if (sticky) failing = 1;
        return 1;
    }
    return 0;
}
static void *f_malloc(void *c, size_t n) { (void)c; return refuse() ? NULL : malloc(n ? n : 1); }
static void *f_calloc(void *c, size_t n, size_t s) { (void)c; return refuse() ? NULL : calloc(n ? n : 1, s ? s : 1); }
static void *f_realloc(void *c, void *p, size_t n) { (void)c; return refuse() ? NULL : realloc(p, n ? n : 1); }
static void f_free(void *c, void *p, size_t n) { (void)c; (void)n; free(p); }

typedef struct {
    void *ctx;
    void *(*malloc)(void *, size_t);
    void *(*calloc)(void *, size_t, size_t);
    void *(*realloc)(void *, void *, size_t);
    void (*free)(void *, void *, size_t);
} Alloc;
typedef struct { char name[127]; uint8_t version; Alloc a; } Handler;
static Handler handler = { "sim_allocator", 1, { NULL, f_malloc, f_calloc, f_realloc, f_free } };

void *sim_handler(void) { return &handler; }
void sim_arm(long k, long stay) { countdown = k; sticky = stay; requests = 0; fired = 0; failing = 0; }
void sim_disarm(void) { countdown = 0; sticky = 0; failing = 0; }
long sim_requests(void) { return requests; }
long sim_fired(void) { return fired; }
