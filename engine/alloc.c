// The allocator model linked into every harness in place of Kani's kani_lib.c.
// Every heap block is an object of HEAP bytes (a constant, so the solver sees flat
// bit vectors and not arrays of unknown size); growing one in place is therefore
// always possible and copies nothing. Both are legal behaviours of a Rust global
// allocator, and code without `unsafe` cannot tell. A request for more than HEAP
// bytes fails the assertion below and the driver retries with a larger HEAP.
#include <stddef.h>
#include <stdint.h>

void *calloc(size_t nmemb, size_t size);
void *malloc(size_t size);

struct Unit;
extern struct Unit VoidUnit;

// [phantom] harnesses only ask for room and never look into it: there any size will do.
#ifdef PHANTOM
#define FITS(size) ((void)0)
#else
#define FITS(size)                                              \
    do {                                                        \
        __CPROVER_bool fits = (size) <= HEAP;                   \
        __CPROVER_assert(fits, "VERIF heap bound");             \
        __CPROVER_assume(fits);                                 \
    } while (0)
#endif

// Bytes allocated and not yet freed, for the harnesses that ask.
#ifdef LIVE_FN
static uint64_t live;
#define LIVE(d) (live += (d))
uint64_t LIVE_FN(void) { return live; }
#else
#define LIVE(d) ((void)0)
#endif

uint8_t *__rust_alloc(size_t size, size_t align)
{
    FITS(size);
    LIVE(size);
    return malloc(HEAP);
}

uint8_t *__rust_alloc_zeroed(size_t size, size_t align)
{
    FITS(size);
    LIVE(size);
    return calloc(1, HEAP);
}

struct Unit __rust_dealloc(uint8_t *ptr, size_t size, size_t align)
{
    LIVE(-size);
    return VoidUnit;
}

uint8_t *__rust_realloc(uint8_t *ptr, size_t old_size, size_t align, size_t new_size)
{
    FITS(new_size);
    LIVE(new_size - old_size);
    return ptr;
}

// What a full Vec does to make room (see model_growth in gb.py): the block has room
// for HEAP bytes, so the capacity just becomes that.
struct Unit verif_grow(uint8_t *v, size_t cap_off, size_t ptr_off, size_t used, size_t extra,
                       size_t elem)
{
    size_t *cap = (size_t *)(v + cap_off);
    uint8_t **ptr = (uint8_t **)(v + ptr_off);
    if (used == SIZE_MAX)
        used = *cap;
    size_t room = elem == 0 ? 0 : HEAP / elem;
    __CPROVER_bool fits = extra <= room && used <= room - extra;
    __CPROVER_assert(fits, "VERIF heap bound");
    __CPROVER_assume(fits);
    if (*cap == 0)
        *ptr = malloc(HEAP);
    LIVE((room - *cap) * elem);
    *cap = room;
    return VoidUnit;
}

struct Unit __rust_no_alloc_shim_is_unstable_v2(void)
{
    return VoidUnit;
}
