#ifndef QUEUE_TEMPLATE_H
#define QUEUE_TEMPLATE_H

#include "support/debug.h"

#include <stdlib.h>
#include <string.h>

#define QUEUE_IMPL(word) QUEUE_COMB1(QUEUE_PREFIX,word)
#define QUEUE_COMB1(pre, word) QUEUE_COMB2(pre, word)
#define QUEUE_COMB2(pre, word) pre##word

#endif /* QUEUE_TEMPLATE_H */

#ifndef QUEUE_T
#error "QUEUE_T must be defined"
#endif

#ifndef QUEUE_SIZE
#error "QUEUE_SIZE must be defined"
#endif

#ifndef QUEUE_KEY_T
#define QUEUE_KEY_T QUEUE_T
#endif

#define QUEUE_NAME QUEUE_COMB1(QUEUE_COMB1(queue,_), QUEUE_T)
#define QUEUE_PREFIX QUEUE_COMB1(QUEUE_NAME, _)

#define QUEUE_init    QUEUE_IMPL(init)
#define QUEUE_clear   QUEUE_IMPL(clear)
#define QUEUE_size    QUEUE_IMPL(size)
#define QUEUE_empty   QUEUE_IMPL(empty)
#define QUEUE_front   QUEUE_IMPL(front)
#define QUEUE_back    QUEUE_IMPL(back)
#define QUEUE_next    QUEUE_IMPL(next)
#define QUEUE_enqueue QUEUE_IMPL(enqueue)
#define QUEUE_dequeue QUEUE_IMPL(dequeue)
#define QUEUE_delete  QUEUE_IMPL(delete)
#define QUEUE_remove  QUEUE_IMPL(remove)
#define QUEUE_replace QUEUE_IMPL(replace)
#define QUEUE_search  QUEUE_IMPL(search)

/* Contract stand-in for the fixed-size queue (the real one is verified against the same
 * contracts under C11): a FIFO list kept at the front of the array. */
typedef struct QUEUE_NAME {
    QUEUE_T items[QUEUE_SIZE];
    size_t front;
    size_t next;
    size_t capacity;
} QUEUE_NAME;
static inline void QUEUE_init(QUEUE_NAME *queue) { *queue = (const QUEUE_NAME) { .capacity = QUEUE_SIZE }; }
static inline void QUEUE_clear(QUEUE_NAME *queue) { queue->front = 0; queue->next = 0; }
static inline size_t QUEUE_size(const QUEUE_NAME *queue) { return queue->next; }
static inline bool QUEUE_empty(const QUEUE_NAME *queue) { return queue->next == 0; }
static inline QUEUE_T* QUEUE_front(QUEUE_NAME *queue) { return queue->next == 0 ? NULL : &queue->items[0]; }
static inline QUEUE_T* QUEUE_back(QUEUE_NAME *queue) { return queue->next == 0 ? NULL : &queue->items[queue->next - 1]; }
static inline QUEUE_T* QUEUE_next(QUEUE_NAME *queue, QUEUE_T *item) {
    QUEUE_T *r = NULL;
    for (size_t i = 0; i + 1 < QUEUE_SIZE; ++i) if (item == &queue->items[i] && i + 1 < queue->next) r = &queue->items[i+1];
    return r;
}
static inline int QUEUE_enqueue(QUEUE_NAME *queue, QUEUE_T item) {
    if (queue->next >= QUEUE_SIZE - 1) return -1;
    for (size_t i = 0; i < QUEUE_SIZE - 1; ++i) if (i == queue->next) { queue->items[i] = item; }
    ++queue->next;
    return 0;
}
static inline int QUEUE_dequeue(QUEUE_NAME *queue, QUEUE_T *item) {
    if (queue->next == 0) return -1;
    *item = queue->items[0];
    for (size_t i = 0; i + 1 < QUEUE_SIZE; ++i) queue->items[i] = queue->items[i+1];
    --queue->next;
    return 0;
}
static inline void QUEUE_delete(QUEUE_NAME *queue, const QUEUE_T *item) {
    bool found = false;
    for (size_t i = 0; i + 1 < QUEUE_SIZE; ++i) {
        if (item == &queue->items[i] && i < queue->next) found = true;
        if (found) queue->items[i] = queue->items[i+1];
    }
    if (found) --queue->next;
}
static inline void QUEUE_remove(QUEUE_NAME *queue, QUEUE_KEY_T key) {
    QUEUE_T old[QUEUE_SIZE];
    size_t w = 0, n = queue->next;
    for (size_t i = 0; i < QUEUE_SIZE; ++i) old[i] = queue->items[i];
    for (size_t i = 0; i < QUEUE_SIZE; ++i)
        if (i < n && *(QUEUE_KEY_T*)&old[i] != key) {
            for (size_t k = 0; k <= i; ++k) if (k == w) queue->items[k] = old[i];
            ++w;
        }
    queue->next = w;
}
static inline QUEUE_T* QUEUE_search(QUEUE_NAME *queue, QUEUE_KEY_T key) {
    QUEUE_T *r = NULL;
    for (size_t i = 0; i < QUEUE_SIZE; ++i) if (!r && i < queue->next && *(QUEUE_KEY_T*)&queue->items[i] == key) r = &queue->items[i];
    return r;
}
static inline void QUEUE_replace(QUEUE_NAME *queue, QUEUE_T item) {
    QUEUE_T *r = QUEUE_search(queue, *(QUEUE_KEY_T*)&item);
    if (r) *r = item;
}
#undef QUEUE_T
#undef QUEUE_SIZE
#undef QUEUE_KEY_T
#undef QUEUE_PREFIX
#undef QUEUE_NAME
#undef QUEUE_init
#undef QUEUE_clear
#undef QUEUE_size
#undef QUEUE_empty
#undef QUEUE_front
#undef QUEUE_back
#undef QUEUE_next
#undef QUEUE_enqueue
#undef QUEUE_dequeue
#undef QUEUE_delete
#undef QUEUE_remove
#undef QUEUE_replace
#undef QUEUE_search
