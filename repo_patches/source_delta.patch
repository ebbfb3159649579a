From cc07dc1447ef4149753a061762610dded23870df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:44 +0000
Subject: [PATCH 01/20] fix: Base64_encode must not write its terminator past
 the result buffer

When the encoded text filled max_result_length exactly, when encoding failed
after filling a prefix of that size, or when max_result_length was zero, the
terminating NUL was written one byte behind the buffer. The terminator is now
counted in the capacity.
---
 Src/base64.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Src/base64.c b/Src/base64.c
index 53ef892..ee06437 100644
--- a/Src/base64.c
+++ b/Src/base64.c
@@ -49,6 +49,10 @@ Base64_encode(const char* data, size_t data_length, char* result, size_t max_res
         success = 1;
     }
 
+    if (max_result_length == 0U) {
+        success = 1;
+    }
+
     if (success == 0) {
         size_t current_length = 0U;
         size_t in_position = 0U;
@@ -56,7 +60,7 @@ Base64_encode(const char* data, size_t data_length, char* result, size_t max_res
         uint8_t* pos = out;
         while ((data_length - in_position) >= 3U) {
             current_length += 4U;
-            if (current_length > max_result_length) {
+            if (current_length >= max_result_length) {
                 success = 1;
                 break;
             }
@@ -76,7 +80,7 @@ Base64_encode(const char* data, size_t data_length, char* result, size_t max_res
 
         if ((success == 0) && ((data_length - in_position) != 0U)) {
             current_length += 4U;
-            if (current_length > max_result_length) {
+            if (current_length >= max_result_length) {
                 success = 1;
             }
 
-- 
2.43.0


From 9d9ffafb52b519a06445926fb0ab245717b8658d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:44 +0000
Subject: [PATCH 02/20] fix: Base64_decode must accept one and two byte
 payloads and stay in its input

Input holding a single, padded (or unpadded) final group - "SGU=" or "SGU" -
was refused although it is what Base64_encode produces for short data. When the
last group consisted of one character the byte behind the input was read.
---
 Src/base64.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Src/base64.c b/Src/base64.c
index ee06437..e682bd8 100644
--- a/Src/base64.c
+++ b/Src/base64.c
@@ -141,7 +141,7 @@ Base64_decode(const char* in, size_t in_len, uint8_t* out, size_t max_out_len) {
         success = 1;
     }
 
-    if (len == 0U) {
+    if (in_len < 2U) {
         success = 1;
     }
 
@@ -158,7 +158,10 @@ Base64_decode(const char* in, size_t in_len, uint8_t* out, size_t max_out_len) {
             ++j;
         }
         if (pad_bool) {
-            uint32_t n = (base64_index[in_data_uchar[len]] << 18U) | (base64_index[in_data_uchar[len + 1U]] << 12U);
+            uint32_t n = base64_index[in_data_uchar[len]] << 18U;
+            if (in_len > (len + 1U)) {
+                n |= base64_index[in_data_uchar[len + 1U]] << 12U;
+            }
             out[out_len - 1U] = (uint8_t)(n >> 16U);
 
             if ((in_len > (len + 2U)) && (in_data_uchar[len + 2U] != (uint8_t)'=')) {
-- 
2.43.0


From f141566df8fa5e45cbce235c41f43bf028aa3fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:44 +0000
Subject: [PATCH 03/20] fix: BitManipulation_rotl32 must not shift by the word
 width

Rotating by 0 (or 32) shifted a 32 bit value by 32, which is undefined; an
optimising clang build returned 0 instead of the unchanged value.
---
 Src/bit_manipulation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/bit_manipulation.c b/Src/bit_manipulation.c
index 34e3ff1..de75b60 100644
--- a/Src/bit_manipulation.c
+++ b/Src/bit_manipulation.c
@@ -107,6 +107,6 @@ BitManipulation_toggleBit(uint32_t data, uint8_t n, uint32_t* out) {
 uint32_t
 BitManipulation_rotl32(uint32_t data, uint32_t n_bits) {
 
-    /* -E> hide MC3R1.R12.2 1 To optimize efficiency, we do not verify whether n_bits is between 0 and 31. */
-    return ((data << n_bits) ^ (data >> (32U - n_bits)));
+    /* -E> compliant MC3R1.R12.2 1 The shift counts are granted to be between 0 and 31 due to bit masking. */
+    return ((data << (n_bits & MAX_BIT_SHIFT)) | (data >> ((32U - n_bits) & MAX_BIT_SHIFT)));
 }
-- 
2.43.0


From 4c63dd1e054dd12e07ca9882618e8b108b625c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:44 +0000
Subject: [PATCH 04/20] fix: HeapSort_sort must not compare elements outside
 the array

The comparator was called with the positions of both children before checking
that they exist, so it read behind the end of the buffer.
---
 Src/sort/heap_sort.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/Src/sort/heap_sort.c b/Src/sort/heap_sort.c
index cf99e9a..1c0356a 100644
--- a/Src/sort/heap_sort.c
+++ b/Src/sort/heap_sort.c
@@ -48,16 +48,12 @@ Heapify(byte_t* buffer, int32_t n, int32_t i, int32_t element_size,
         int32_t left = (2 * index) + 1;
         int32_t right = (2 * index) + 2;
 
-        bool compare_ret_value = compareFun(&elements[left * element_size],
-                                            &elements[largest * element_size]);
-
-        if ((left < n) && (compare_ret_value)) {
+        if ((left < n) && compareFun(&elements[left * element_size],
+                                     &elements[largest * element_size])) {
             largest = left;
         }
 
-        compare_ret_value = compareFun(&elements[right * element_size], &elements[largest * element_size]);
-
-        if ((right < n) && (compare_ret_value)) {
+        if ((right < n) && compareFun(&elements[right * element_size], &elements[largest * element_size])) {
             largest = right;
         }
 
-- 
2.43.0


From ff0966320159e80529d515f6370d11da80d03f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:45 +0000
Subject: [PATCH 05/20] fix: InsertionSort_sort must not compare the element
 before the array

After moving the first element up, the comparator was called once more with a
pointer in front of the buffer.
---
 Src/sort/insertion_sort.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Src/sort/insertion_sort.c b/Src/sort/insertion_sort.c
index 8bd4dcc..10594c6 100644
--- a/Src/sort/insertion_sort.c
+++ b/Src/sort/insertion_sort.c
@@ -59,7 +59,9 @@ InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_s
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
             memcpy(&elements[(j + 1) * element_size], &elements[j * element_size], (size_t)element_size);
             --j;
-            compare = compareFun(&elements[j * element_size], element);
+            if (j >= 0) {
+                compare = compareFun(&elements[j * element_size], element);
+            }
         }
         /* -E> compliant MC3R1.R21.18 4 Buffer overflow will not happen, all elements in buffer
          * have same size, and their size is stored in element_size variable. Precondition is that
-- 
2.43.0


From 013e3638d43e33e4becef860843bbaa5927b9ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:45 +0000
Subject: [PATCH 06/20] fix: InsertionSort_sort must keep its working element
 per call

The element being inserted lived in a static buffer, so a sort started from a
comparator (or any other overlapping sort) overwrote it and lost an element.
---
 Src/sort/insertion_sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/sort/insertion_sort.c b/Src/sort/insertion_sort.c
index 10594c6..783e178 100644
--- a/Src/sort/insertion_sort.c
+++ b/Src/sort/insertion_sort.c
@@ -40,7 +40,7 @@ void
 InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                    bool (*compareFun)(void* first, void* second)) {
     byte_t* elements = buffer;
-    static byte_t max_element[MAX_ELEMENT_SIZE];
+    byte_t max_element[MAX_ELEMENT_SIZE];
     byte_t* element = &max_element[0];
 
     for (int32_t i = 1; i < number_of_elements; ++i) {
-- 
2.43.0


From 2afba305cb74c0c828b32d440d7bebb870d0d361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:45 +0000
Subject: [PATCH 07/20] fix: CaesarCipher_decrypt must wrap around the alphabet

The subtraction wrapped modulo 2^32, which is no multiple of 26: every letter
that has to wrap below 'a' or 'A' was decrypted to a wrong letter.
---
 Src/crypto/caesar_cipher.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/crypto/caesar_cipher.c b/Src/crypto/caesar_cipher.c
index baff723..1cc34b9 100644
--- a/Src/crypto/caesar_cipher.c
+++ b/Src/crypto/caesar_cipher.c
@@ -66,7 +66,7 @@ CaesarCipher_decrypt(char* msg, uint8_t shift) {
             if (Utils_isUpperChar(msg[i])) {
                 ascii_val = UPPER_A_ASCII;
             }
-            uint8_t decrypted_char = (((uint8_t)msg[i] - shift - ascii_val) % MAX_SHIFT) + ascii_val;
+            uint8_t decrypted_char = (((uint8_t)msg[i] - ascii_val + (MAX_SHIFT - (shift % MAX_SHIFT))) % MAX_SHIFT) + ascii_val;
             msg[i] = (char)decrypted_char;
         }
     }
-- 
2.43.0


From d99769b91f782e181094933bf5ec80af5c652dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:45 +0000
Subject: [PATCH 08/20] fix: VernamCipher must be reversible for every key
 character

With a key character that is not a letter the shift is outside 0..25: encryption
could leave the alphabet and decryption did not undo it. Both directions now
reduce the shift to the alphabet in the same way.
---
 Src/crypto/vernam_cipher.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Src/crypto/vernam_cipher.c b/Src/crypto/vernam_cipher.c
index 71edb76..2f3b9fe 100644
--- a/Src/crypto/vernam_cipher.c
+++ b/Src/crypto/vernam_cipher.c
@@ -60,6 +60,9 @@ VernamCipher_encrypt(char* msg, const char* key, int32_t key_length) {
                 }
 
                 int32_t temp = (((int8_t)msg[i] - ascii_val + (int8_t)key[i] - c) % NUM_OF_ALPHA);
+                if (temp < 0) {
+                    temp += NUM_OF_ALPHA;
+                }
                 int32_t cipher = temp + ascii_val;
                 msg[i] = (char)cipher;
             }
@@ -86,7 +89,7 @@ VernamCipher_decrypt(char* msg, const char* key, int32_t key_length) {
                     ascii_val = UPPER_A_ASCII;
                 }
 
-                int32_t cipher = ((msg[i] - ascii_val) - (key[i] - c));
+                int32_t cipher = ((msg[i] - ascii_val) - ((int8_t)key[i] - c)) % NUM_OF_ALPHA;
                 cipher = (cipher < 0) ? (cipher + NUM_OF_ALPHA + ascii_val) : (cipher + ascii_val);
                 msg[i] = (char)cipher;
             }
-- 
2.43.0


From 97c5c3f7072a2e6206638c26ee705d9cf7901cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 09/20] fix: Map_init must refuse negative sizes

Negative sizes were accepted and gave a map whose insert ran outside its
storage; a missing map is refused like in the other map functions.
---
 Src/map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/map.c b/Src/map.c
index ce59322..7814daa 100644
--- a/Src/map.c
+++ b/Src/map.c
@@ -55,7 +55,7 @@ bool
 Map_init(Map_t* map, byte_t* keys, byte_t* values, int32_t key_size, int32_t value_size,
          int32_t max_map_size) {
     bool status = false;
-    if ((key_size != 0) && (value_size != 0) && (max_map_size != 0) && (keys != NULL_PTR) && (values != NULL_PTR)) {
+    if ((map != NULL_PTR) && (key_size > 0) && (value_size > 0) && (max_map_size > 0) && (keys != NULL_PTR) && (values != NULL_PTR)) {
         map->keys = keys;
         map->values = values;
         map->key_size = key_size;
-- 
2.43.0


From 0e2af19fe360917faf6ab15a80dcb7b4f8a8a236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 10/20] fix: Utils_stringToUint32 must refuse an empty string

A string without any digit was reported as a successfully converted number.
---
 Src/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/utils.c b/Src/utils.c
index 6f32933..0c088aa 100644
--- a/Src/utils.c
+++ b/Src/utils.c
@@ -42,7 +42,7 @@
 
 bool
 Utils_stringToUint32(const char* str, uint8_t str_length, uint32_t* integer) {
-    bool success = true;
+    bool success = (str_length != 0U);
     bool check_overflow = false;
     uint8_t i = 0U;
     *integer = 0U;
-- 
2.43.0


From 36a9ec6c5aa438d559882b2c2c4981299f1d3841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 11/20] fix: PriorityQueue_init must refuse items without
 storage

Missing priority or element storage was accepted, the first enqueue then wrote
through a null pointer.
---
 Src/priority_queue.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Src/priority_queue.c b/Src/priority_queue.c
index 0b5ddd5..63563ae 100644
--- a/Src/priority_queue.c
+++ b/Src/priority_queue.c
@@ -75,7 +75,8 @@ bool
 PriorityQueue_init(PriorityQueue_t* queue, uint32_t capacity, uint32_t element_size,
                    const PriorityQueueItem_t* items) {
     bool status = false;
-    if ((queue != NULL_PTR) && (capacity != 0U) && (element_size != 0U) && (items != NULL_PTR)) {
+    if ((queue != NULL_PTR) && (capacity != 0U) && (element_size != 0U) && (items != NULL_PTR) &&
+            (items->priority != NULL_PTR) && (items->element != NULL_PTR)) {
         queue->capacity = capacity;
         queue->size = 0U;
         queue->element_size = element_size;
-- 
2.43.0


From c1de18d3af39027f6ed8ed06a63e2f0ad124e9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 12/20] fix: Json_addData must leave the buffer alone when the
 pair does not fit

The separating comma was appended before the size check: a refused pair left a
dangling comma behind and, in a full buffer, a terminator behind its end. For an
empty text the byte in front of the buffer was read.
---
 Src/json.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Src/json.c b/Src/json.c
index 24c84b2..38f4a21 100644
--- a/Src/json.c
+++ b/Src/json.c
@@ -58,13 +58,18 @@ Json_addData(char* buffer, size_t buffer_size, const char* key, const char* valu
     size_t index = strlen(buffer);
     size_t total_size = strlen("\"\":\"\"") + strlen(key) + strlen(value) + 1U;
 
-    if (0 == strcmp(&buffer[index - 1U], "\"")) {
-        // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
-        strcpy(&buffer[index], ",");
-        ++index;
+    bool add_comma = ((index > 0U) && (0 == strcmp(&buffer[index - 1U], "\"")));
+
+    if (add_comma) {
+        total_size += strlen(",");
     }
 
     if ((total_size + index) <= buffer_size) {
+        if (add_comma) {
+            // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
+            strcpy(&buffer[index], ",");
+            ++index;
+        }
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
         strcpy(&buffer[index], "\"");
         index += strlen("\"");
-- 
2.43.0


From 9ab0c8cf5a1ba9a9796566992d0a1fcd708a20b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:34 +0000
Subject: [PATCH 13/20] fix: Json_findByKey must find keys only, and return
 their own value

The key text was also matched inside values and as the tail of longer keys, the
search gave up at the first such place, a value that is not a string was
replaced by the next string of the text, and the search went on behind the end
of a text shorter than its buffer.
---
 Src/json.c | 58 ++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/Src/json.c b/Src/json.c
index 38f4a21..c9b0623 100644
--- a/Src/json.c
+++ b/Src/json.c
@@ -38,6 +38,17 @@
 
 #define MINIMAL_SIZE 2U // size of '{' or '}' + '\0'
 
+/* Skips the insignificant characters which are allowed around the structural ones. */
+static size_t
+SkipWhitespace(const char* buffer, size_t length, size_t start) {
+    size_t index = start;
+    while ((index < length) && ((buffer[index] == ' ') || (buffer[index] == '\t') ||
+                                (buffer[index] == '\n') || (buffer[index] == '\r'))) {
+        ++index;
+    }
+    return index;
+}
+
 bool
 Json_startString(char* buffer, size_t buffer_size) {
     bool success = false;
@@ -110,43 +121,48 @@ Json_endString(char* buffer, size_t buffer_size) {
 bool
 Json_findByKey(const char* buffer, size_t buffer_size, const char* key, char* value, size_t max_value_size) {
     bool success = false;
+    bool found = false;
 
     size_t key_size = strlen(key);
-    uint32_t max_search_size = 0U;
-    uint32_t index;
+    size_t length = 0U;
+    size_t index = 0U;
 
-    if (buffer_size > key_size) {
-        max_search_size = (uint32_t)(buffer_size - key_size);
+    while ((length < buffer_size) && (buffer[length] != '\0')) {
+        ++length;
     }
 
-    for (index = 0U; index < max_search_size; ++index) {
+    while ((index < length) && (!found)) {
 
-        /* -E> compliant MC3R1.R21.18 2 strncmp is guarded in for loop condition to not go out of buffer boundaries
-        by calculating max_search_size from buffer size and key size */
-        if (0 == strncmp(&buffer[index], key, key_size)) {
+        if (buffer[index] == '"') {
+            const size_t name = index + 1U;
 
-            if (buffer[index + key_size] == '"') {
-                success = true;
+            for (index = name; index < length; ++index) {
+
+                if (buffer[index] == '"') {
+                    break;
+                }
             }
 
-            break;
+            const size_t name_size = index - name;
+            index = SkipWhitespace(buffer, length, index + 1U);
+
+            /* Only a string which is followed by a colon is a key, any other string is a value. */
+            found = (index < length) && (buffer[index] == ':') && (name_size == key_size) &&
+                    (0 == strncmp(&buffer[name], key, key_size));
+        } else {
+            ++index;
         }
     }
 
-    if (success) {
-
-        success = false;
-        for (index += (uint32_t)(key_size + 1U); index < buffer_size; ++index) {
-
-            if (buffer[index] == '"') {
-                break;
-            }
-        }
+    if (found) {
+        index = SkipWhitespace(buffer, length, index + 1U);
+    }
 
+    if (found && (index < length) && (buffer[index] == '"')) {
         size_t value_size = 0;
         ++index;
 
-        while ((index < buffer_size) && (value_size < max_value_size)) {
+        while ((index < length) && (value_size < max_value_size)) {
             value[value_size] = buffer[index];
 
             if (buffer[index] == '"') {
-- 
2.43.0


From 19e045edd842cc938c63f9e4399b1e6926717831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:39 +0000
Subject: [PATCH 14/20] fix: Queue_init must refuse a missing queue

A null queue was dereferenced, while every other queue function refuses it.
---
 Src/queue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/queue.c b/Src/queue.c
index 8f4d7f5..4db29cd 100644
--- a/Src/queue.c
+++ b/Src/queue.c
@@ -39,7 +39,7 @@
 bool
 Queue_init(Queue_t* queue, uint32_t capacity, uint32_t element_size, uint8_t* buffer) {
     bool status = false;
-    if ((element_size != 0U) && (capacity != 0U) && (buffer != NULL_PTR)) {
+    if ((queue != NULL_PTR) && (element_size != 0U) && (capacity != 0U) && (buffer != NULL_PTR)) {
         queue->capacity = capacity;
         queue->front = 0U;
         queue->size = 0U;
-- 
2.43.0


From 0362008f92cdf627a49de2c7c5917d3a528e977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:37 +0000
Subject: [PATCH 15/20] fix: Queue positions must not wrap in storage of 4 GiB
 and more

---
 Src/queue.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Src/queue.c b/Src/queue.c
index 4db29cd..fc0de67 100644
--- a/Src/queue.c
+++ b/Src/queue.c
@@ -71,7 +71,7 @@ Queue_enqueue(Queue_t* queue, const uint8_t* element) {
              * in buffer, and their size is stored in element_size member. Also, there is a guard that checks that
              * queue is not full. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(&buffer[((queue->rear + 1U) % queue->capacity) * queue->element_size], element, queue->element_size);
+            memcpy(&buffer[(size_t)((queue->rear + 1U) % queue->capacity) * queue->element_size], element, queue->element_size);
             queue->rear = (queue->rear + 1U) % queue->capacity;
             queue->size = queue->size + 1U;
             status = true;
@@ -89,7 +89,7 @@ Queue_dequeue(Queue_t* queue, uint8_t* element) {
             /* -E> compliant MC3R1.R21.18 3 Buffer overflow will not happen, element has same size as one element
              * in buffer, and their size is stored in element_size member. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(element, &buffer[queue->front * queue->element_size], queue->element_size);
+            memcpy(element, &buffer[(size_t)queue->front * queue->element_size], queue->element_size);
             queue->front = (queue->front + 1U) % queue->capacity;
             queue->size = queue->size - 1U;
             status = true;
@@ -107,7 +107,7 @@ Queue_front(const Queue_t* queue, uint8_t* element) {
             /* -E> compliant MC3R1.R21.18 3 Buffer overflow will not happen, element has same size as one element
              * in buffer, and their size is stored in element_size member. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(element, &buffer[queue->front * queue->element_size], queue->element_size);
+            memcpy(element, &buffer[(size_t)queue->front * queue->element_size], queue->element_size);
             status = true;
         }
     }
@@ -123,7 +123,7 @@ Queue_rear(const Queue_t* queue, uint8_t* element) {
             /* -E> compliant MC3R1.R21.18 3 Buffer overflow will not happen, element has same size as one element
              * in buffer, and their size is stored in element_size member. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(element, &buffer[queue->rear * queue->element_size], queue->element_size);
+            memcpy(element, &buffer[(size_t)queue->rear * queue->element_size], queue->element_size);
             status = true;
         }
     }
-- 
2.43.0


From 5ef0463cbebd8063eacd935578737903acee9bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:37 +0000
Subject: [PATCH 16/20] fix: PriorityQueue positions must not wrap in storage
 of 4 GiB and more

---
 Src/priority_queue.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Src/priority_queue.c b/Src/priority_queue.c
index 63563ae..052aaaa 100644
--- a/Src/priority_queue.c
+++ b/Src/priority_queue.c
@@ -100,7 +100,7 @@ PriorityQueue_enqueue(PriorityQueue_t* queue, const PriorityQueueItem_t* item) {
         /* -E> compliant MC3R1.R21.18 3 Buffer overflow will not happen, there is a guard that checks that priority
          * queue is not full. */
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-        memcpy(&buffer[queue->size * queue->element_size], item->element, queue->element_size);
+        memcpy(&buffer[(size_t)queue->size * queue->element_size], item->element, queue->element_size);
         queue->priority_array[queue->size] = *(item->priority);
         queue->size = queue->size + 1U;
         status = true;
@@ -116,7 +116,7 @@ PriorityQueue_enqueue(PriorityQueue_t* queue, const PriorityQueueItem_t* item) {
                  * queue size is reached which is previous size - 1. Therefore, last valid element that will be used in
                  * memcpy function is placed in current size + 1. */
                 // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-                memcpy(&buffer[i * queue->element_size], &buffer[(i * queue->element_size) + queue->element_size],
+                memcpy(&buffer[(size_t)i * queue->element_size], &buffer[((size_t)i * queue->element_size) + queue->element_size],
                        queue->element_size);
                 queue->priority_array[i] = queue->priority_array[i + 1U];
             }
@@ -124,7 +124,7 @@ PriorityQueue_enqueue(PriorityQueue_t* queue, const PriorityQueueItem_t* item) {
              * insert a new element because of removing element with the lowest priority (performed in the above code,
              * in the same function). */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(&buffer[queue->size * queue->element_size], item->element, queue->element_size);
+            memcpy(&buffer[(size_t)queue->size * queue->element_size], item->element, queue->element_size);
             queue->priority_array[queue->size] = *(item->priority);
             queue->size = queue->size + 1U;
         }
@@ -142,7 +142,7 @@ PriorityQueue_dequeue(PriorityQueue_t* queue, uint8_t* element) {
         /* -E> compliant MC3R1.R21.18 3 Buffer overflow will not happen, element has same size as one element
          * in buffer, and their size is stored in element_size member. */
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-        memcpy(element, &buffer[highest_priority_index * queue->element_size], queue->element_size);
+        memcpy(element, &buffer[(size_t)highest_priority_index * queue->element_size], queue->element_size);
         queue->size = queue->size - 1U;
         const uint32_t current_size = queue->size;
         for (uint32_t i = highest_priority_index; i < current_size; ++i) {
@@ -150,7 +150,7 @@ PriorityQueue_dequeue(PriorityQueue_t* queue, uint8_t* element) {
              * queue size is reached which is previous size - 1. Therefore, last valid element that will be used in
              * memcpy function is placed in current size + 1. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(&buffer[i * queue->element_size], &buffer[(i * queue->element_size) + queue->element_size],
+            memcpy(&buffer[(size_t)i * queue->element_size], &buffer[((size_t)i * queue->element_size) + queue->element_size],
                    queue->element_size);
             queue->priority_array[i] = queue->priority_array[i + 1U];
         }
-- 
2.43.0


From 494599ee734b9718b072abb0cee090ea217f95ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:37 +0000
Subject: [PATCH 17/20] fix: Map positions must not overflow in storage of 2
 GiB and more

---
 Src/map.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Src/map.c b/Src/map.c
index 7814daa..640e782 100644
--- a/Src/map.c
+++ b/Src/map.c
@@ -43,7 +43,7 @@ GetIndex(const Map_t* map, const byte_t* key, int32_t size) {
     int32_t index = INDEX_NOT_FOUND;
     for (int32_t i = 0; i < size; ++i) {
         /* -E> compliant MC3R1.R21.18 1 map->key_size is a size of the key in the map and it has appropriate value. */
-        if (memcmp(&map->keys[i * map->key_size], key, (size_t)map->key_size) == 0) {
+        if (memcmp(&map->keys[(size_t)i * (size_t)map->key_size], key, (size_t)map->key_size) == 0) {
             index = i;
             break;
         }
@@ -78,12 +78,12 @@ Map_insert(Map_t* map, const byte_t* key, const byte_t* value) {
                 /* -E> compliant MC3R1.R19.1 3 Overlap will not happen because there is a check if current map size reached
                  * max map size. */
                 // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-                memcpy(&map->keys[map->current_size * map->key_size], key, (size_t)map->key_size);
+                memcpy(&map->keys[(size_t)map->current_size * (size_t)map->key_size], key, (size_t)map->key_size);
                 /* -E> compliant MC3R1.R21.18 4 map->value_size is a size of the value in the map and it has appropriate value. */
                 /* -E> compliant MC3R1.R19.1 3 Overlap will not happen because there is a check if current map size reached
                  * max map size. */
                 // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-                memcpy(&map->values[map->current_size * map->value_size], value, (size_t)map->value_size);
+                memcpy(&map->values[(size_t)map->current_size * (size_t)map->value_size], value, (size_t)map->value_size);
                 ++map->current_size;
                 status = true;
             }
@@ -92,7 +92,7 @@ Map_insert(Map_t* map, const byte_t* key, const byte_t* value) {
             /* -E> compliant MC3R1.R19.1 3 Overlap will not happen since the current key is the same as the key that is
              * previously inserted in the map. Therefore, new value will be mapped to that key. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(&map->values[index * map->value_size], value, (size_t)map->value_size);
+            memcpy(&map->values[(size_t)index * (size_t)map->value_size], value, (size_t)map->value_size);
             status = true;
         }
     }
@@ -109,7 +109,7 @@ Map_getValue(const Map_t* map, const byte_t* key, byte_t* value) {
             /* -E> compliant MC3R1.R19.1 3 Overlap will not happen because the map->value_size is the size of the value
              * and every element in map->values has that size */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(value, &map->values[index * map->value_size], (size_t)map->value_size);
+            memcpy(value, &map->values[(size_t)index * (size_t)map->value_size], (size_t)map->value_size);
             status = true;
         }
     }
-- 
2.43.0


From fc0186ee4960674c7017477a809e9d82ff3be5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:55 +0000
Subject: [PATCH 18/20] fix: the sorts must not overflow positions in arrays of
 2 GiB and more

---
 Src/sort/bubble_sort.c    |  5 +++--
 Src/sort/heap_sort.c      | 19 ++++++++++---------
 Src/sort/insertion_sort.c | 11 ++++++-----
 Src/sort/selection_sort.c |  5 +++--
 4 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/Src/sort/bubble_sort.c b/Src/sort/bubble_sort.c
index 0012402..fd74dc2 100644
--- a/Src/sort/bubble_sort.c
+++ b/Src/sort/bubble_sort.c
@@ -40,13 +40,14 @@ void
 BubbleSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                 bool (*compareFun)(void* first, void* second)) {
     byte_t* elements = buffer;
+    const int64_t size = element_size;
     bool swapped = true;
     int32_t i = 0;
     while (swapped) {
         swapped = false;
         for (int32_t j = 0; j < (number_of_elements - i - 1); ++j) {
-            if (compareFun(&elements[j * element_size], &elements[(j + 1) * element_size])) {
-                Utils_swapElements(&elements[j * element_size], &elements[(j + 1) * element_size], (uint32_t)element_size);
+            if (compareFun(&elements[j * size], &elements[(j + 1) * size])) {
+                Utils_swapElements(&elements[j * size], &elements[(j + 1) * size], (uint32_t)element_size);
                 swapped = true;
             }
         }
diff --git a/Src/sort/heap_sort.c b/Src/sort/heap_sort.c
index 1c0356a..34b0a72 100644
--- a/Src/sort/heap_sort.c
+++ b/Src/sort/heap_sort.c
@@ -41,24 +41,25 @@ Heapify(byte_t* buffer, int32_t n, int32_t i, int32_t element_size,
         bool (*compareFun)(void* first, void* second)) {
     bool continue_iterating = true;
     int32_t index = i;
+    const int64_t size = element_size;
     byte_t* elements = buffer;
 
     while (continue_iterating) {
         int32_t largest = index;
-        int32_t left = (2 * index) + 1;
-        int32_t right = (2 * index) + 2;
+        int64_t left = (2 * (int64_t)index) + 1;
+        int64_t right = (2 * (int64_t)index) + 2;
 
-        if ((left < n) && compareFun(&elements[left * element_size],
-                                     &elements[largest * element_size])) {
-            largest = left;
+        if ((left < n) && compareFun(&elements[left * size],
+                                     &elements[largest * size])) {
+            largest = (int32_t)left;
         }
 
-        if ((right < n) && compareFun(&elements[right * element_size], &elements[largest * element_size])) {
-            largest = right;
+        if ((right < n) && compareFun(&elements[right * size], &elements[largest * size])) {
+            largest = (int32_t)right;
         }
 
         if (largest != index) {
-            Utils_swapElements(&elements[index * element_size], &elements[largest * element_size], (uint32_t)element_size);
+            Utils_swapElements(&elements[index * size], &elements[largest * size], (uint32_t)element_size);
             index = largest;
         } else {
             continue_iterating = false;
@@ -76,7 +77,7 @@ HeapSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
     }
 
     for (i = number_of_elements - 1; i >= 0; --i) {
-        Utils_swapElements(&elements[0], &elements[i * element_size], (uint32_t)element_size);
+        Utils_swapElements(&elements[0], &elements[(int64_t)i * element_size], (uint32_t)element_size);
         Heapify(elements, i, 0, element_size, compareFun);
     }
 }
diff --git a/Src/sort/insertion_sort.c b/Src/sort/insertion_sort.c
index 783e178..aa62b0e 100644
--- a/Src/sort/insertion_sort.c
+++ b/Src/sort/insertion_sort.c
@@ -42,31 +42,32 @@ InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_s
     byte_t* elements = buffer;
     byte_t max_element[MAX_ELEMENT_SIZE];
     byte_t* element = &max_element[0];
+    const int64_t size = element_size;
 
     for (int32_t i = 1; i < number_of_elements; ++i) {
         /* -E> compliant MC3R1.R21.18 4 Buffer overflow will not happen, all elements in buffer
          * have same size, and their size is stored in element_size variable. Precondition is that
          * element_size must be less than or equal to MAX_ELEMENT_SIZE. */
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-        memcpy(element, &elements[i * element_size], (size_t)element_size);
+        memcpy(element, &elements[i * size], (size_t)element_size);
 
         int32_t j = i - 1;
-        bool compare = compareFun(&elements[j * element_size], element);
+        bool compare = compareFun(&elements[j * size], element);
 
         while ((j >= 0) && compare) {
             /* -E> compliant MC3R1.R19.1 3 Overlap will not happen, all elements in buffer
              * have same size, and their size is stored in element_size variable. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(&elements[(j + 1) * element_size], &elements[j * element_size], (size_t)element_size);
+            memcpy(&elements[(j + 1) * size], &elements[j * size], (size_t)element_size);
             --j;
             if (j >= 0) {
-                compare = compareFun(&elements[j * element_size], element);
+                compare = compareFun(&elements[j * size], element);
             }
         }
         /* -E> compliant MC3R1.R21.18 4 Buffer overflow will not happen, all elements in buffer
          * have same size, and their size is stored in element_size variable. Precondition is that
          * element_size must be less than or equal to MAX_ELEMENT_SIZE. */
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-        memcpy(&elements[(j + 1) * element_size], element, (size_t)element_size);
+        memcpy(&elements[(j + 1) * size], element, (size_t)element_size);
     }
 }
diff --git a/Src/sort/selection_sort.c b/Src/sort/selection_sort.c
index 21cd5d9..86afa92 100644
--- a/Src/sort/selection_sort.c
+++ b/Src/sort/selection_sort.c
@@ -40,18 +40,19 @@ void
 SelectionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                    bool (*compareFun)(void* first, void* second)) {
     byte_t* elements = buffer;
+    const int64_t size = element_size;
     int32_t j;
 
     for (int32_t i = 0; i < (number_of_elements - 1); ++i) {
         int32_t min_index = i;
         for (j = i + 1; j < number_of_elements; ++j) {
-            if (compareFun(&elements[min_index * element_size], &elements[j * element_size])) {
+            if (compareFun(&elements[min_index * size], &elements[j * size])) {
                 min_index = j;
             }
         }
 
         if (min_index != i) {
-            Utils_swapElements(&elements[min_index * element_size], &elements[i * element_size], (uint32_t)element_size);
+            Utils_swapElements(&elements[min_index * size], &elements[i * size], (uint32_t)element_size);
         }
     }
 }
-- 
2.43.0


From a951e8909e62343ce193e3ca0f6ec6507a9d3ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:55 +0000
Subject: [PATCH 19/20] fix: little-endian blobs of 2 GiB and more must be
 converted, too

---
 Src/utils.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Src/utils.c b/Src/utils.c
index 0c088aa..8690bb6 100644
--- a/Src/utils.c
+++ b/Src/utils.c
@@ -217,9 +217,9 @@ Utils_serialize32LE(byte_t* buf, uint32_t value) {
 
 void
 Utils_serializeBlobLE(byte_t* buf, const byte_t* src, uint32_t size) {
-    int32_t j = 0;
-    for (int32_t i = ((int32_t)size - 1); i >= 0; --i) {
-        buf[j] = src[i];
+    uint32_t j = 0;
+    for (uint32_t i = size; i > 0U; --i) {
+        buf[j] = src[i - 1U];
         ++j;
     }
 }
@@ -253,9 +253,9 @@ Utils_deserialize32LE(const byte_t* buf) {
 
 void
 Utils_deserializeBlobLE(const byte_t* buf, byte_t* dst, uint32_t size) {
-    int32_t  j = 0;
-    for (int32_t i = ((int32_t)size - 1); i >= 0; --i) {
-        dst[j] = buf[i];
+    uint32_t  j = 0;
+    for (uint32_t i = size; i > 0U; --i) {
+        dst[j] = buf[i - 1U];
         ++j;
     }
 }
-- 
2.43.0


From 77ed4417a9d0db11c2252e8d7f1bdd8681054f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:55 +0000
Subject: [PATCH 20/20] fix: VernamCipher must not take a message 4 GiB longer
 than the key

---
 Src/crypto/vernam_cipher.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/crypto/vernam_cipher.c b/Src/crypto/vernam_cipher.c
index 2f3b9fe..3f227f1 100644
--- a/Src/crypto/vernam_cipher.c
+++ b/Src/crypto/vernam_cipher.c
@@ -46,7 +46,7 @@ bool
 VernamCipher_encrypt(char* msg, const char* key, int32_t key_length) {
     bool status = false;
     const size_t msg_length = strlen(msg);
-    if ((int32_t)msg_length == key_length) {
+    if ((key_length >= 0) && (msg_length == (size_t)key_length)) {
         for (int32_t i = 0; i < key_length; ++i) {
             if (Utils_isAlpha(msg[i])) {
                 int8_t c = UPPER_A_ASCII;
@@ -76,7 +76,7 @@ bool
 VernamCipher_decrypt(char* msg, const char* key, int32_t key_length) {
     bool status = false;
     const size_t msg_length = strlen(msg);
-    if ((int32_t)msg_length == key_length) {
+    if ((key_length >= 0) && (msg_length == (size_t)key_length)) {
         for (int32_t i = 0; i < key_length; ++i) {
             if (Utils_isAlpha(msg[i])) {
                 int8_t c = UPPER_A_ASCII;
-- 
2.43.0

