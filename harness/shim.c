#include <stdlib.h>
#include <string.h>
#include "base64.h"
#include "bit_manipulation.h"
#include "bubble_sort.h"
#include "caesar_cipher.h"
#include "chacha20.h"
#include "crc16_base.h"
#include "crc32_base.h"
#include "crc8_base.h"
#include "heap_sort.h"
#include "insertion_sort.h"
#include "json.h"
#include "map.h"
#include "priority_queue.h"
#include "queue.h"
#include "scheduler.h"
#include "selection_sort.h"
#include "utils.h"
#include "vernam_cipher.h"
#include "shim.h"

/* Some builds watch the border between explorer and library: v_enter and v_leave are part of the explorer. */
#ifdef SHIM_EDGE
void v_enter(void);
void v_leave(int* edge);
#define EDGE int edge __attribute__((cleanup(v_leave), unused)) = (v_enter(), 0);
#else
#define EDGE
#endif
#if defined(__clang__) && defined(__has_feature)
#if __has_feature(memory_sanitizer)
#pragma clang attribute push(__attribute__((no_sanitize("memory"))), apply_to = function)
#endif
#endif

size_t v_queue_sizeof(void) { EDGE return sizeof(Queue_t); }
bool v_queue_init(void* q, uint32_t cap, uint32_t es, uint8_t* buf) { EDGE return Queue_init(q, cap, es, buf); }
bool v_queue_full(const void* q) { EDGE return Queue_full(q); }
bool v_queue_empty(const void* q) { EDGE return Queue_empty(q); }
bool v_queue_enqueue(void* q, const uint8_t* e) { EDGE return Queue_enqueue(q, e); }
bool v_queue_dequeue(void* q, uint8_t* e) { EDGE return Queue_dequeue(q, e); }
bool v_queue_front(const void* q, uint8_t* e) { EDGE return Queue_front(q, e); }
bool v_queue_rear(const void* q, uint8_t* e) { EDGE return Queue_rear(q, e); }

size_t v_pq_sizeof(void) { EDGE return sizeof(PriorityQueue_t); }
bool v_pq_init(void* q, uint32_t cap, uint32_t es, uint32_t* prio, uint8_t* elems, bool no_items) { EDGE
    PriorityQueueItem_t it;
    memset(&it, 0, sizeof it);
    it.priority = prio;
    it.element = elems;
    return PriorityQueue_init(q, cap, es, no_items ? NULL : &it);
}
bool v_pq_empty(const void* q) { EDGE return PriorityQueue_empty(q); }
bool v_pq_enqueue(void* q, uint32_t* prio, uint8_t* elem) { EDGE
    PriorityQueueItem_t it;
    memset(&it, 0, sizeof it);
    it.priority = prio;
    it.element = elem;
    return PriorityQueue_enqueue(q, &it);
}
bool v_pq_dequeue(void* q, uint8_t* e) { EDGE return PriorityQueue_dequeue(q, e); }

size_t v_map_sizeof(void) { EDGE return sizeof(Map_t); }
bool v_map_init(void* m, uint8_t* keys, uint8_t* values, int32_t ks, int32_t vs, int32_t max) { EDGE
    return Map_init(m, keys, values, ks, vs, max);
}
bool v_map_insert(void* m, const uint8_t* k, const uint8_t* v) { EDGE return Map_insert(m, k, v); }
bool v_map_get(const void* m, const uint8_t* k, uint8_t* v) { EDGE return Map_getValue(m, k, v); }

size_t v_task_sizeof(void) { EDGE return sizeof(SchedulerTask_t); }
void v_task_set(void* t, uint32_t i, v_fn f, bool active) { EDGE
    ((SchedulerTask_t*)t)[i].function = f;
    ((SchedulerTask_t*)t)[i].active = active;
}
v_fn v_task_fn(const void* t, uint32_t i) { EDGE return ((const SchedulerTask_t*)t)[i].function; }
bool v_task_active(const void* t, uint32_t i) { EDGE return ((const SchedulerTask_t*)t)[i].active; }
void v_sched_init(void* t, uint32_t n) { EDGE Scheduler_init(t, n); }
bool v_sched_add(void* t, uint32_t n, v_fn f, bool active) { EDGE
    SchedulerTask_t nt;
    memset(&nt, 0, sizeof nt);
    nt.function = f;
    nt.active = active;
    return Scheduler_addTask(t, n, &nt);
}
void v_sched_run(const void* t, uint32_t n) { EDGE Scheduler_run(t, n); }

const char* v_sort_name(int w) { EDGE
    static const char* const n[] = {"bubble", "heap", "insertion", "selection"};
    return n[w];
}
int32_t v_sort_max_size(int w) { EDGE return (w == SORT_INSERTION) ? MAX_ELEMENT_SIZE : INT32_MAX; }
void v_sort(int w, uint8_t* b, int32_t n, int32_t es, v_cmp c) { EDGE
    switch (w) {
        case SORT_BUBBLE: BubbleSort_sort(b, n, es, c); break;
        case SORT_HEAP: HeapSort_sort(b, n, es, c); break;
        case SORT_INSERTION: InsertionSort_sort(b, n, es, c); break;
        default: SelectionSort_sort(b, n, es, c); break;
    }
}

int32_t v_b64_encode(const char* d, size_t n, char* r, size_t max) { EDGE return Base64_encode(d, n, r, max); }
int32_t v_b64_decode(const char* in, size_t n, uint8_t* out, size_t max) { EDGE return Base64_decode(in, n, out, max); }

bool v_json_start(char* b, size_t n) { EDGE return Json_startString(b, n); }
bool v_json_add(char* b, size_t n, const char* k, const char* v) { EDGE return Json_addData(b, n, k, v); }
bool v_json_end(char* b, size_t n) { EDGE return Json_endString(b, n); }
bool v_json_find(const char* b, size_t n, const char* k, char* v, size_t max) { EDGE return Json_findByKey(b, n, k, v, max); }

void v_caesar_encrypt(char* m, uint8_t s) { EDGE CaesarCipher_encrypt(m, s); }
void v_caesar_decrypt(char* m, uint8_t s) { EDGE CaesarCipher_decrypt(m, s); }
bool v_vernam_encrypt(char* m, const char* k, int32_t n) { EDGE return VernamCipher_encrypt(m, k, n); }
bool v_vernam_decrypt(char* m, const char* k, int32_t n) { EDGE return VernamCipher_decrypt(m, k, n); }
void v_chacha(const uint8_t* p, uint32_t n, const uint8_t* key, const uint8_t* nonce, uint32_t inc, uint8_t* r) { EDGE
    Chacha20_crypt(p, n, key, nonce, inc, r);
}

bool v_str2u32(const char* s, uint8_t n, uint32_t* r) { EDGE return Utils_stringToUint32(s, n, r); }
bool v_pow10(uint8_t e, uint32_t* r) { EDGE return Utils_quickUint32Pow10(e, r); }
void v_swap(uint8_t* a, uint8_t* b, uint32_t n) { EDGE Utils_swapElements(a, b, n); }
void v_ser(int width, bool le, uint8_t* b, uint32_t v) { EDGE
    switch (width) {
        case 8: Utils_serialize8(b, (uint8_t)v); break;
        case 16: if (le) { Utils_serialize16LE(b, (uint16_t)v); } else { Utils_serialize16BE(b, (uint16_t)v); } break;
        case 24: if (le) { Utils_serialize24LE(b, v); } else { Utils_serialize24BE(b, v); } break;
        default: if (le) { Utils_serialize32LE(b, v); } else { Utils_serialize32BE(b, v); } break;
    }
}
uint32_t v_deser(int width, bool le, const uint8_t* b) { EDGE
    switch (width) {
        case 8: return Utils_deserialize8(b);
        case 16: return le ? Utils_deserialize16LE(b) : Utils_deserialize16BE(b);
        case 24: return le ? Utils_deserialize24LE(b) : Utils_deserialize24BE(b);
        default: return le ? Utils_deserialize32LE(b) : Utils_deserialize32BE(b);
    }
}
void v_ser_blob(bool le, uint8_t* b, const uint8_t* s, uint32_t n) { EDGE
    if (le) { Utils_serializeBlobLE(b, s, n); } else { Utils_serializeBlobBE(b, s, n); }
}
void v_deser_blob(bool le, const uint8_t* b, uint8_t* d, uint32_t n) { EDGE
    if (le) { Utils_deserializeBlobLE(b, d, n); } else { Utils_deserializeBlobBE(b, d, n); }
}
bool v_is_upper(char c) { EDGE return Utils_isUpperChar(c); }
bool v_is_lower(char c) { EDGE return Utils_isLowerChar(c); }
bool v_is_alpha(char c) { EDGE return Utils_isAlpha(c); }

uint32_t v_reflect(uint32_t d, uint8_t n) { EDGE return BitManipulation_reflect(d, n); }
bool v_bit_test(uint32_t d, uint8_t n, bool* r) { EDGE return BitManipulation_bitSet(d, n, r); }
bool v_bit_set(uint32_t d, uint8_t n, uint32_t* r) { EDGE return BitManipulation_setBit(d, n, r); }
bool v_bit_clear(uint32_t d, uint8_t n, uint32_t* r) { EDGE return BitManipulation_clearBit(d, n, r); }
bool v_bit_toggle(uint32_t d, uint8_t n, uint32_t* r) { EDGE return BitManipulation_toggleBit(d, n, r); }
uint32_t v_rotl(uint32_t d, uint32_t n) { EDGE return BitManipulation_rotl32(d, n); }

void v_crc_table(int width, uint32_t poly, void* t) { EDGE
    switch (width) {
        case 8: Crc8Base_tableCalculator((uint8_t)poly, t); break;
        case 16: Crc16Base_tableCalculator((uint16_t)poly, t); break;
        default: Crc32Base_tableCalculator(poly, t); break;
    }
}
uint32_t v_crc_engine(int width, const void* t, const uint8_t* d, uint32_t n, uint32_t init, uint32_t xo, bool ro, bool ri,
                      bool fin) { EDGE
    switch (width) {
        case 8: return Crc8Base(t, d, n, (uint8_t)init, (uint8_t)xo, ro, ri, fin);
        case 16: return Crc16Base(t, d, n, (uint16_t)init, (uint16_t)xo, ro, ri, fin);
        default: return Crc32Base(t, d, n, init, xo, ro, ri, fin);
    }
}

#include "shim_crc.inc"

#if defined(__clang__) && defined(__has_feature)
#if __has_feature(memory_sanitizer)
#pragma clang attribute pop
#endif
#endif
