/* Thin C view of the library under test. Only shim.c includes the library's own headers, so the
 * harness is independent of how the library lays out or implements its types. */
#ifndef SHIM_H_
#define SHIM_H_
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef bool (*v_cmp)(void*, void*);
typedef void (*v_fn)(void);

size_t v_queue_sizeof(void);
bool v_queue_init(void* q, uint32_t cap, uint32_t es, uint8_t* buf);
bool v_queue_full(const void* q);
bool v_queue_empty(const void* q);
bool v_queue_enqueue(void* q, const uint8_t* e);
bool v_queue_dequeue(void* q, uint8_t* e);
bool v_queue_front(const void* q, uint8_t* e);
bool v_queue_rear(const void* q, uint8_t* e);

size_t v_pq_sizeof(void);
bool v_pq_init(void* q, uint32_t cap, uint32_t es, uint32_t* prio, uint8_t* elems, bool no_items);
bool v_pq_empty(const void* q);
bool v_pq_enqueue(void* q, uint32_t* prio, uint8_t* elem);
bool v_pq_dequeue(void* q, uint8_t* e);

size_t v_map_sizeof(void);
bool v_map_init(void* m, uint8_t* keys, uint8_t* values, int32_t ks, int32_t vs, int32_t max);
bool v_map_insert(void* m, const uint8_t* k, const uint8_t* v);
bool v_map_get(const void* m, const uint8_t* k, uint8_t* v);

size_t v_task_sizeof(void);
void v_task_set(void* tasks, uint32_t i, v_fn f, bool active);
v_fn v_task_fn(const void* tasks, uint32_t i);
bool v_task_active(const void* tasks, uint32_t i);
void v_sched_init(void* tasks, uint32_t n);
bool v_sched_add(void* tasks, uint32_t n, v_fn f, bool active);
void v_sched_run(const void* tasks, uint32_t n);

enum { SORT_BUBBLE, SORT_HEAP, SORT_INSERTION, SORT_SELECTION, SORT_COUNT };
const char* v_sort_name(int which);
int32_t v_sort_max_size(int which);
void v_sort(int which, uint8_t* buf, int32_t n, int32_t es, v_cmp c);

int32_t v_b64_encode(const char* d, size_t n, char* r, size_t max);
int32_t v_b64_decode(const char* in, size_t n, uint8_t* out, size_t max);

bool v_json_start(char* b, size_t n);
bool v_json_add(char* b, size_t n, const char* k, const char* v);
bool v_json_end(char* b, size_t n);
bool v_json_find(const char* b, size_t n, const char* k, char* v, size_t max);

void v_caesar_encrypt(char* m, uint8_t s);
void v_caesar_decrypt(char* m, uint8_t s);
bool v_vernam_encrypt(char* m, const char* k, int32_t n);
bool v_vernam_decrypt(char* m, const char* k, int32_t n);
void v_chacha(const uint8_t* p, uint32_t n, const uint8_t* key, const uint8_t* nonce, uint32_t inc, uint8_t* r);

bool v_str2u32(const char* s, uint8_t n, uint32_t* r);
bool v_pow10(uint8_t e, uint32_t* r);
void v_swap(uint8_t* a, uint8_t* b, uint32_t n);
/* width 8,16,24,32; le = little endian */
void v_ser(int width, bool le, uint8_t* b, uint32_t v);
uint32_t v_deser(int width, bool le, const uint8_t* b);
void v_ser_blob(bool le, uint8_t* b, const uint8_t* s, uint32_t n);
void v_deser_blob(bool le, const uint8_t* b, uint8_t* d, uint32_t n);
bool v_is_upper(char c);
bool v_is_lower(char c);
bool v_is_alpha(char c);

uint32_t v_reflect(uint32_t d, uint8_t n);
bool v_bit_test(uint32_t d, uint8_t n, bool* r);
bool v_bit_set(uint32_t d, uint8_t n, uint32_t* r);
bool v_bit_clear(uint32_t d, uint8_t n, uint32_t* r);
bool v_bit_toggle(uint32_t d, uint8_t n, uint32_t* r);
uint32_t v_rotl(uint32_t d, uint32_t n);

/* table: 256 entries of the given width, as the library expects them */
void v_crc_table(int width, uint32_t poly, void* table);
uint32_t v_crc_engine(int width, const void* table, const uint8_t* d, uint32_t n, uint32_t init, uint32_t xorout,
                      bool refout, bool refin, bool fin);

typedef struct {
    const char* name;
    int width;
    bool has_final; /* the variant takes a "final" flag */
    uint32_t poly, init, xorout;
    bool refl;      /* catalogue: input and output reflected */
    uint32_t check; /* catalogue check value for "123456789" */
    uint32_t (*call)(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last);
} v_crc_t;
extern const v_crc_t v_crcs[];
extern const int v_crc_count;
#ifdef __cplusplus
}
#endif
#endif
