From b0bfb09021e07b3262a1bb3f22c96f3337f9d646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:10 +0000
Subject: [PATCH 01/46] fix: ring buffer: zero-count drops, overrun count
 underflow, single-element overwrite

drop_last(0)/drop_first(0) cleared the full flag of a full buffer, which made it
appear empty, instead of dropping everything as documented. drop_last() let the
overrun count wrap below zero, and a buffer of capacity 1 never counted
overwritten elements. Aborting a transaction without queued bytes must keep
dropping nothing.
---
 src/spine/io/stream/transaction.cpp |  2 +-
 src/spine/structure/ringbuffer.hpp  | 18 +++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/spine/io/stream/transaction.cpp b/src/spine/io/stream/transaction.cpp
index 605ee0a..5aea9d3 100644
--- a/src/spine/io/stream/transaction.cpp
+++ b/src/spine/io/stream/transaction.cpp
@@ -56,7 +56,7 @@ void Transaction::finalize() {
 bool Transaction::is_finalized() const { return _is_finalized; }
 void Transaction::undo(size_t n_bytes) const {
     n_bytes = n_bytes > 0 ? std::min(n_bytes, _outgoing_queued_bytes) : _outgoing_queued_bytes;
-    _stream->output_buffer_drop_last(n_bytes);
+    if (n_bytes > 0) _stream->output_buffer_drop_last(n_bytes); // dropping 0 bytes would drop all bytes
 }
 
 } // namespace spn::io
diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index 81472bc..eff5aa4 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -81,11 +81,11 @@ bool RingBuffer<T>::push(const T& value, bool rollover) {
     if (m_is_full && !rollover) return false;
     m_buffer[m_head] = value;
     m_head = (m_head + 1) % m_buffer.size();
-    if (m_head == m_tail) {
-        m_is_full = true;
-    } else if (m_is_full) {
+    if (m_is_full) {
         m_tail = (m_tail + 1) % m_buffer.size();
         ++m_overwritten;
+    } else if (m_head == m_tail) {
+        m_is_full = true;
     }
     return true;
 }
@@ -150,21 +150,21 @@ bool RingBuffer<T>::peek_at(T** ptr, size_t index) {
 
 template<typename T>
 size_t RingBuffer<T>::drop_last(size_t n) {
-    n = std::min(used_space(), n);
+    n = n > 0 ? std::min(used_space(), n) : used_space();
     retract_head(n);
 
-    m_is_full = false;
-    m_overwritten = std::max(static_cast<size_t>(0), m_overwritten - n);
+    if (n > 0) m_is_full = false;
+    m_overwritten -= std::min(m_overwritten, n);
     return n;
 }
 
 template<typename T>
 size_t RingBuffer<T>::drop_first(size_t n) {
-    n = std::min(used_space(), n);
+    n = n > 0 ? std::min(used_space(), n) : used_space();
     advance_tail(n);
 
-    m_is_full = false;
-    m_overwritten = std::min(m_overwritten, used_space() - n);
+    if (n > 0) m_is_full = false;
+    m_overwritten = std::min(m_overwritten, used_space());
     return n;
 }
 
-- 
2.43.0


From 94531859b20c89c3cede406b77158e0f037cb9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:17 +0000
Subject: [PATCH 02/46] fix: vector: front, at, data and c(r)begin/c(r)end
 follow the first element

---
 src/spine/structure/vector.hpp | 50 ++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 4ed5d8c..1868d68 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -30,6 +30,9 @@ public:
 
     T& operator[](Size index);
     const T& operator[](Size index) const;
+    T& at(Size index) const;
+    T* data();
+    const T* data() const;
 
     void push_back(const T& item);
     void emplace_back(const T&& item);
@@ -53,6 +56,7 @@ public:
 
     void clear();
 
+    T& front();
     T& back();
 
     typename Array<T>::iterator begin();
@@ -60,11 +64,17 @@ public:
     typename Array<T>::iterator end();
     typename Array<T>::const_iterator end() const;
 
+    typename Array<T>::const_iterator cbegin() const;
+    typename Array<T>::const_iterator cend() const;
+
     typename Array<T>::reverse_iterator rbegin();
     typename Array<T>::reverse_iterator rend();
     typename Array<T>::const_reverse_iterator rbegin() const;
     typename Array<T>::const_reverse_iterator rend() const;
 
+    typename Array<T>::const_reverse_iterator crbegin() const;
+    typename Array<T>::const_reverse_iterator crend() const;
+
     bool empty() const;
     bool full() const;
     Size size() const;
@@ -130,6 +140,21 @@ const T& Vector<T>::operator[](ArrayBase::Size index) const {
     return Array<T>::operator[](m_head + index);
 }
 
+template<typename T>
+T& Vector<T>::at(ArrayBase::Size index) const {
+    return Array<T>::at(m_head + index);
+}
+
+template<typename T>
+T* Vector<T>::data() {
+    return this->m_store + m_head;
+}
+
+template<typename T>
+const T* Vector<T>::data() const {
+    return this->m_store + m_head;
+}
+
 template<typename T>
 void Vector<T>::push_back(const T& item) {
     if (m_tail >= this->max_size() && m_head > 0) rearrange(0);
@@ -269,6 +294,11 @@ void Vector<T>::clear() {
     }
 }
 
+template<typename T>
+T& Vector<T>::front() {
+    return this->m_store[m_head];
+}
+
 template<typename T>
 T& Vector<T>::back() {
     return this->m_store[m_tail > 0 ? m_tail - 1 : 0];
@@ -296,6 +326,16 @@ typename Array<T>::const_iterator Vector<T>::end() const {
     return typename Array<T>::const_iterator(this->m_store, m_tail);
 }
 
+template<typename T>
+typename Array<T>::const_iterator Vector<T>::cbegin() const {
+    return begin();
+}
+
+template<typename T>
+typename Array<T>::const_iterator Vector<T>::cend() const {
+    return end();
+}
+
 /* reverse iterators */
 
 template<typename T>
@@ -318,6 +358,16 @@ typename Array<T>::const_reverse_iterator Vector<T>::rend() const {
     return typename Array<T>::const_reverse_iterator(this->m_store, m_head - (m_tail != m_head));
 }
 
+template<typename T>
+typename Array<T>::const_reverse_iterator Vector<T>::crbegin() const {
+    return rbegin();
+}
+
+template<typename T>
+typename Array<T>::const_reverse_iterator Vector<T>::crend() const {
+    return rend();
+}
+
 /* utility functions */
 
 template<typename T>
-- 
2.43.0


From b9c17762df9f3b432e4a498718d1c512df2b99f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:07 +0000
Subject: [PATCH 03/46] fix: vector: adding to a full, popping from an empty
 and removing from a shifted vector

---
 src/spine/structure/vector.hpp | 50 ++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 1868d68..2e3e710 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -86,6 +86,10 @@ private:
     void rearrange(Size idx) {
         spn_assert(idx + size() < Array<T>::max_size());
 
+        // vacated slots may still hold values that were popped but not consumed
+        wipe(0, m_head);
+        wipe(m_tail, this->max_size());
+
         // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
         memmove((char*)&this->m_store[idx], (char*)&this->m_store[m_head], size() * sizeof(T));
         const auto new_tail = idx + size();
@@ -102,6 +106,14 @@ private:
         m_tail = new_tail;
     }
 
+    /// Release whatever is left in the slots `[from, to)` and wipe their memory
+    void wipe(Size from, Size to) {
+        for (Size i = from; i < to; i++) {
+            this->m_store[i].~T();
+        }
+        memset((char*)&this->m_store[from], '\0', (to - from) * sizeof(T));
+    }
+
 private:
     Size m_head = 0;
     Size m_tail = 0;
@@ -157,7 +169,12 @@ const T* Vector<T>::data() const {
 
 template<typename T>
 void Vector<T>::push_back(const T& item) {
-    if (m_tail >= this->max_size() && m_head > 0) rearrange(0);
+    if (m_tail >= this->max_size() && m_head > 0) {
+        const T value = item; // `item` may refer to an element of this vector
+        rearrange(0);
+        this->m_store[m_tail++] = value;
+        return;
+    }
     spn_assert(m_tail < this->max_size());
 
     if (m_tail < this->max_size()) this->m_store[m_tail++] = item;
@@ -183,7 +200,7 @@ T& Vector<T>::peek_back() const {
 template<typename T>
 [[nodiscard]] T&& Vector<T>::pop_back() {
     spn_assert(size() > 0);
-    if (m_tail > 0) {
+    if (m_tail > m_head) {
         m_tail--;
         if (m_tail == m_head) {
             m_tail = 0;
@@ -196,28 +213,34 @@ template<typename T>
 template<typename T>
 void Vector<T>::push_front(const T& item) {
     spn_assert(this->size() < this->max_size());
+    if (full()) return;
     if (m_head > 0) {
         this->m_store[--m_head] = item;
         return;
     }
 
+    const T value = item; // `item` may refer to an element of this vector
     // todo: use `rearrange()`
     // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
+    wipe(m_tail, m_tail + 1);
     memmove((char*)&this->m_store[m_head + 1], (char*)&this->m_store[m_head], size() * sizeof(T));
     memset((char*)&this->m_store[m_head], '\0',
            sizeof(T)); // otherwise copy assignment below interacts with moved memory
 
-    this->m_store[m_head] = item;
+    this->m_store[m_head] = value;
     m_tail++;
 }
 
 template<typename T>
 void Vector<T>::emplace_front(const T&& item) {
+    spn_assert(this->size() < this->max_size());
+    if (full()) return;
     if (m_head > 0) {
         this->m_store[--m_head] = std::move(item);
         return;
     }
 
+    wipe(m_tail, m_tail + 1);
     // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
     memmove((char*)&this->m_store[m_head + 1], (char*)&this->m_store[m_head], size() * sizeof(T));
     memset((char*)&this->m_store[m_head], '\0',
@@ -235,6 +258,7 @@ T& Vector<T>::peek_front() const {
 template<typename T>
 T&& Vector<T>::pop_front() {
     spn_assert(size() > 0);
+    if (empty()) return std::move(this->m_store[m_head]);
     const auto cur_head = m_head++;
     if (m_tail == m_head) {
         m_tail = 0;
@@ -246,6 +270,7 @@ T&& Vector<T>::pop_front() {
 template<typename T>
 void Vector<T>::insert(ArrayBase::Size index, const T& item) {
     spn_assert(this->size() < this->m_max_size);
+    if (full()) return;
 
     if (index == 0) {
         push_front(item);
@@ -255,32 +280,33 @@ void Vector<T>::insert(ArrayBase::Size index, const T& item) {
         push_back(item);
         return;
     }
+    const T value = item; // `item` may refer to an element of this vector
     if (m_tail >= this->max_size() && m_head > 0) rearrange(0);
     spn_assert(m_tail < this->max_size());
 
     // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
+    wipe(m_tail, m_tail + 1);
     memmove((char*)&this->m_store[m_head + index + 1], (char*)&this->m_store[m_head + index],
             (m_tail++ - (m_head + index)) * sizeof(T));
     memset((char*)&this->m_store[m_head + index], '\0',
            sizeof(T)); // otherwise copy assignment below interacts with moved memory
-    this->m_store[m_head + index] = item;
+    this->m_store[m_head + index] = value;
 }
 
 template<typename T>
 T Vector<T>::remove(ArrayBase::Size index) {
-    if (index == m_head) {
+    if (index == 0) {
         return std::move(pop_front());
     }
-    if (index == m_tail) {
+    if (index == size()) {
         return std::move(pop_back());
     }
-    if (index > m_head && index < m_tail) {
+    if (index < size()) {
+        index += m_head;
         auto removed = std::move(this->m_store[index]);
-        memmove(&this->m_store[index], &this->m_store[index + 1], (m_tail-- - index) * sizeof(T));
-        if (m_tail == m_head) {
-            m_tail = 0;
-            m_head = 0;
-        }
+        wipe(index, index + 1);
+        memmove((char*)&this->m_store[index], (char*)&this->m_store[index + 1], (--m_tail - index) * sizeof(T));
+        memset((char*)&this->m_store[m_tail], '\0', sizeof(T)); // this element was moved, not copied
         return removed;
     }
     spn_assert(!"remove was called with illegal index");
-- 
2.43.0


From 6dcc48ba98919284421a962f923249e87afed09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:46 +0000
Subject: [PATCH 04/46] fix: array: swap, assignment, destruction, const
 reverse iteration and post-stepping

---
 src/spine/structure/array.hpp  | 46 +++++++++++++++++++++++-----------
 src/spine/structure/vector.hpp |  8 ++++++
 2 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 83df11f..0fafd84 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -111,6 +111,9 @@ protected:
     T* m_store;
     Size m_max_size;
 
+    /// Release the store and its elements if it is owned
+    void release_store();
+
 private:
     bool m_store_is_internal;
 };
@@ -147,7 +150,15 @@ Array<T>::Array(const std::initializer_list<T>& init_values) : Array(init_values
 
 template<typename T>
 Array<T>::~Array() {
-    if (m_store_is_internal) {
+    release_store();
+}
+
+template<typename T>
+void Array<T>::release_store() {
+    if (m_store_is_internal && m_store != nullptr) {
+        for (Size i = 0; i < m_max_size; i++) {
+            m_store[i].~T();
+        }
         std::free(m_store);
         m_store = nullptr;
     }
@@ -164,12 +175,14 @@ Array<T>::Array(Array&& other) noexcept
     : ArrayBase(std::move(other)), m_store(other.m_store), m_max_size(other.m_max_size),
       m_store_is_internal(other.m_store_is_internal) {
     other.m_store = nullptr;
+    other.m_max_size = 0;
 }
 
 template<typename T>
 Array<T>& Array<T>::operator=(const Array& other) {
     if (this == &other) return *this;
     ArrayBase::operator=(other);
+    if (m_store != other.m_store) release_store();
     m_store = other.m_store;
     m_max_size = other.m_max_size;
     m_store_is_internal = false; // prevent double free
@@ -180,18 +193,17 @@ template<typename T>
 Array<T>& Array<T>::operator=(Array&& other) noexcept {
     if (this == &other) return *this;
     ArrayBase::operator=(std::move(other));
+    release_store();
     m_store = other.m_store;
     other.m_store = nullptr;
     m_max_size = other.m_max_size;
+    other.m_max_size = 0;
     m_store_is_internal = other.m_store_is_internal;
     return *this;
 }
 
 template<typename T>
 Array<T>& Array<T>::operator=(const std::initializer_list<T>& value_list) noexcept {
-    if (m_store_is_internal) {
-        std::free(m_store);
-    }
     *this = Array<T>(value_list);
     return *this;
 }
@@ -281,22 +293,22 @@ typename Array<T>::reverse_iterator Array<T>::rend() {
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::rbegin() const {
-    return const_reverse_iterator(m_store, m_max_size - (m_max_size > 0));
+    return const_reverse_iterator(m_store, m_max_size - 1);
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::rend() const {
-    return const_reverse_iterator(m_store, (m_max_size - (m_max_size > 0)));
+    return const_reverse_iterator(m_store, -1);
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::crbegin() const {
-    return const_reverse_iterator(m_store, m_max_size - (m_max_size > 0));
+    return const_reverse_iterator(m_store, m_max_size - 1);
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::crend() const {
-    return const_reverse_iterator(m_store, (m_max_size - (m_max_size > 0)));
+    return const_reverse_iterator(m_store, -1);
 }
 
 /* utility */
@@ -318,9 +330,9 @@ ArrayBase::Size Array<T>::max_size() const {
 
 template<typename T>
 void Array<T>::swap(Array& other) noexcept {
-    T* tmp = this->m_store;
-    this->m_store = other.m_store;
-    other.m_store = tmp;
+    std::swap(m_store, other.m_store);
+    std::swap(m_max_size, other.m_max_size);
+    std::swap(m_store_is_internal, other.m_store_is_internal);
 }
 
 template<typename T>
@@ -357,8 +369,9 @@ ArrayIterator<T>& ArrayIterator<T>::operator++() {
 
 template<typename T>
 ArrayIterator<T> ArrayIterator<T>::operator++(int) {
+    auto previous = *this;
     m_index++;
-    return *this;
+    return previous;
 }
 
 template<typename T>
@@ -369,8 +382,9 @@ ArrayIterator<T>& ArrayIterator<T>::operator--() {
 
 template<typename T>
 ArrayIterator<T> ArrayIterator<T>::operator--(int) {
+    auto previous = *this;
     m_index--;
-    return *this;
+    return previous;
 }
 
 template<typename T>
@@ -408,8 +422,9 @@ ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator++() {
 
 template<typename T>
 ArrayReverseIterator<T> ArrayReverseIterator<T>::operator++(int) {
+    auto previous = *this;
     --this->m_index;
-    return *this;
+    return previous;
 }
 template<typename T>
 ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator--() {
@@ -418,8 +433,9 @@ ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator--() {
 }
 template<typename T>
 ArrayReverseIterator<T> ArrayReverseIterator<T>::operator--(int) {
+    auto previous = *this;
     ++this->m_index;
-    return *this;
+    return previous;
 }
 
 } // namespace spn::structure
diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 2e3e710..652112a 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -79,6 +79,7 @@ public:
     bool full() const;
     Size size() const;
 
+    void swap(Vector& other) noexcept;
     void fill(const T& value);
 
 private:
@@ -411,6 +412,13 @@ bool Vector<T>::full() const {
     return size() == this->m_max_size;
 }
 
+template<typename T>
+void Vector<T>::swap(Vector& other) noexcept {
+    Array<T>::swap(other);
+    std::swap(m_head, other.m_head);
+    std::swap(m_tail, other.m_tail);
+}
+
 template<typename T>
 void Vector<T>::fill(const T& value) {
     Array<T>::fill(value);
-- 
2.43.0


From 73d167bc95ff092a9efab5977cd77b281c3faae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:46 +0000
Subject: [PATCH 05/46] fix: vector: pop_back of the only element of a shifted
 vector returned another slot

---
 src/spine/structure/vector.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 652112a..a80e3e8 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -201,14 +201,13 @@ T& Vector<T>::peek_back() const {
 template<typename T>
 [[nodiscard]] T&& Vector<T>::pop_back() {
     spn_assert(size() > 0);
-    if (m_tail > m_head) {
-        m_tail--;
-        if (m_tail == m_head) {
-            m_tail = 0;
-            m_head = 0;
-        }
+    if (empty()) return std::move(this->m_store[m_tail]);
+    const auto last = --m_tail;
+    if (m_tail == m_head) {
+        m_tail = 0;
+        m_head = 0;
     }
-    return std::move(this->m_store[m_tail]);
+    return std::move(this->m_store[last]);
 }
 
 template<typename T>
-- 
2.43.0


From 71a0251cc32c38b40ee95c74abe9bcb3bb83d304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:40 +0000
Subject: [PATCH 06/46] fix: array: a byte buffer could not be lent to an array
 of anything but bytes

---
 src/spine/structure/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 0fafd84..8224989 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -124,7 +124,7 @@ Array<T>::Array(T (&store)[CAP]) : m_store(store), m_max_size(CAP), m_store_is_i
 
 template<typename T>
 Array<T>::Array(uint8_t* buffer, Size buffer_length)
-    : m_store(static_cast<T*>(buffer)), m_max_size(buffer_length / sizeof(T)), m_store_is_internal(false) {
+    : m_store(reinterpret_cast<T*>(buffer)), m_max_size(buffer_length / sizeof(T)), m_store_is_internal(false) {
     memset(m_store, '\0', m_max_size * sizeof(T));
 }
 
-- 
2.43.0


From 8f625c6efa949252080434c3c1004211dc496d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:40 +0000
Subject: [PATCH 07/46] fix: stack: did not compile when used, pop kept the
 element alive

---
 src/spine/structure/stack.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/stack.hpp b/src/spine/structure/stack.hpp
index 58aa474..8e7942e 100644
--- a/src/spine/structure/stack.hpp
+++ b/src/spine/structure/stack.hpp
@@ -6,17 +6,20 @@ namespace spn::structure {
 
 template<typename T>
 /// A Vector that only allows Last-In-First-Out access order.
-class Stack : public Vector<T> {
+class Stack {
 public:
     using Size = ArrayBase::Size;
 
     Stack(Size size) : store(size) {}
 
     /// Push an element unto the stack.
-    void push(T& element) { emplace(std::forward<T>(element)); }
+    void push(const T& element) { store.push_back(element); }
 
     /// Pop an element from the stack.
-    void pop() { store.pop_back(); }
+    void pop() {
+        if (store.empty()) return;
+        const auto _ = store.pop_back();
+    }
 
     /// Returns a reference to the element on top without removing it (dangerous!).
     T& top() {
-- 
2.43.0


From 853399349d10a2c0f4b023e63eaaa11f74569c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:40 +0000
Subject: [PATCH 08/46] fix: pool: destructor left half of the objects, 16 bit
 lookup index

---
 src/spine/structure/pool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/pool.hpp b/src/spine/structure/pool.hpp
index 38068ba..633005f 100644
--- a/src/spine/structure/pool.hpp
+++ b/src/spine/structure/pool.hpp
@@ -16,7 +16,7 @@ protected:
 public:
     Pool(size_t size) : _pointers(Vector<Pointer>(size)) {}
     ~Pool() {
-        for (size_t i = 0; i < _pointers.size(); ++i)
+        while (!_pointers.empty())
             depopulate().reset();
         spn_assert(_pointers.empty());
     }
@@ -84,7 +84,7 @@ protected:
     Vector<Pointer> _pointers;
 
 private:
-    uint16_t _lookup_index = 0;
+    size_t _lookup_index = 0;
 };
 
 } // namespace spn::structure
-- 
2.43.0


From 84a9bb7167ea92ab0b0586a79231dcf6a17bd0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:51 +0000
Subject: [PATCH 09/46] fix: units: conversion between integer units is exact

---
 src/spine/structure/units/primitives/unit.hpp | 30 +++++++++++++++++--
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/units/primitives/unit.hpp b/src/spine/structure/units/primitives/unit.hpp
index 04ae1f7..751137d 100644
--- a/src/spine/structure/units/primitives/unit.hpp
+++ b/src/spine/structure/units/primitives/unit.hpp
@@ -4,6 +4,7 @@
 
 #include <cmath>
 #include <cstdint>
+#include <numeric>
 #include <type_traits>
 
 namespace spn::structure::units {
@@ -137,9 +138,32 @@ private:
 
     template<typename MOther>
     ValueType from_other(const Unit<UT, MOther, VT>& other) const {
-        constexpr float ratio = MOther::Magnitude / MT::Magnitude;
-        if constexpr (is_integral()) return std::round(ratio * other.raw());
-        return ratio * other.raw();
+        if constexpr (is_integral()) {
+            // integer values exceed what floating point represents exactly
+            constexpr VT common = std::gcd(whole<MOther>() * parts<MT>(), whole<MT>() * parts<MOther>());
+            constexpr VT numerator = whole<MOther>() * parts<MT>() / common;
+            constexpr VT denominator = whole<MT>() * parts<MOther>() / common;
+            const VT scaled = other.raw() * numerator;
+            const VT quotient = scaled / denominator;
+            const VT remainder = scaled % denominator;
+            // round to nearest, halves away from zero
+            if (remainder > 0 && remainder >= denominator - remainder) return quotient + 1;
+            if (remainder < 0 && -remainder >= denominator + remainder) return quotient - 1;
+            return quotient;
+        } else {
+            constexpr float ratio = MOther::Magnitude / MT::Magnitude;
+            return ratio * other.raw();
+        }
+    }
+
+    /// The magnitude M is exactly `whole<M>() / parts<M>()`
+    template<typename M>
+    static constexpr VT whole() {
+        return M::Magnitude >= 1 ? static_cast<VT>(M::Magnitude) : 1;
+    }
+    template<typename M>
+    static constexpr VT parts() {
+        return M::Magnitude >= 1 ? 1 : static_cast<VT>(1.0 / M::Magnitude + 0.5);
     }
 };
 
-- 
2.43.0


From 95ec53ae8343b89562b637a73a922202d0d50ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:51 +0000
Subject: [PATCH 10/46] fix: mock platform: clocks mixed up milliseconds and
 microseconds

---
 src/spine/platform/implementations/mock.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/platform/implementations/mock.hpp b/src/spine/platform/implementations/mock.hpp
index fd890e9..2e018ff 100644
--- a/src/spine/platform/implementations/mock.hpp
+++ b/src/spine/platform/implementations/mock.hpp
@@ -217,8 +217,8 @@ struct Mock : Platform<Mock, MockConfig, MockGPIO, MockAnalogue, MockUART> {
 
     static void printflush() {}
 
-    static k_time_ms millis() { return k_time_ms(MockStateInstance().millis + MockStateInstance().micros / 1000); }
-    static k_time_us micros() { return k_time_us(MockStateInstance().micros + MockStateInstance().millis * 1000); }
+    static k_time_ms millis() { return k_time_ms(MockStateInstance().millis.raw() + MockStateInstance().micros.raw() / 1000); }
+    static k_time_us micros() { return k_time_us(MockStateInstance().micros + MockStateInstance().millis); }
     static void delay_us(k_time_us us) { MockStateInstance().micros += us; }
     static void delay_ms(k_time_ms ms) { MockStateInstance().millis += ms; }
 
-- 
2.43.0


From aa7db68abf3b0c74015e7054f39061a1117bbede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 11/46] fix: units: lux could not be converted, compared or
 combined

---
 src/spine/structure/units/illuminance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/units/illuminance.hpp b/src/spine/structure/units/illuminance.hpp
index 95ae4c0..85f8f16 100644
--- a/src/spine/structure/units/illuminance.hpp
+++ b/src/spine/structure/units/illuminance.hpp
@@ -9,4 +9,4 @@ struct TagIlluminance {};
 } // namespace spn::structure::units
 
 // Illuminance, with unit: lux
-using lux = spnu::Unit<spnu::TagIlluminance, spnu::TagIlluminance, spnu::RealRawType>;
+using lux = spnu::Unit<spnu::TagIlluminance, spnu::Base, spnu::RealRawType>;
-- 
2.43.0


From 0f90f68dbf6ffbd7301ede873968f36b5ebdd70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 12/46] fix: compound units: comparison across scales,
 reduction of negative and vanishing values

---
 .../units/primitives/compound_unit.hpp          | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/spine/structure/units/primitives/compound_unit.hpp b/src/spine/structure/units/primitives/compound_unit.hpp
index 654e214..2af0c37 100644
--- a/src/spine/structure/units/primitives/compound_unit.hpp
+++ b/src/spine/structure/units/primitives/compound_unit.hpp
@@ -104,7 +104,8 @@ public:
     /// Simplify compound by reducing numerator and denominator by greatest common denominator. Provided
     /// `scaling_factor` determines precision. A `scaling_factor` of 1e6 makes 6 decimals of precision.
     void simplify(RealRawType scaling_factor = 1e6) {
-        const auto gcd = compute_gcd(_numerator.raw(), _denominator.raw(), scaling_factor);
+        const auto gcd = static_cast<ValueType>(compute_gcd(_numerator.raw(), _denominator.raw(), scaling_factor));
+        if (gcd == 0) return;
         _numerator /= gcd;
         _denominator /= gcd;
     }
@@ -186,8 +187,8 @@ public:
 
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator==(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        if constexpr (std::is_integral_v<ValueType>) return raw() == other.raw();
-        return approximately_equal(raw(), other.raw());
+        if constexpr (std::is_integral_v<ValueType>) return raw() == CompoundUnit(other).raw();
+        return approximately_equal(raw(), CompoundUnit(other).raw());
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator!=(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
@@ -195,19 +196,19 @@ public:
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator<(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() < other.raw();
+        return raw() < CompoundUnit(other).raw();
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator>(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() > other.raw();
+        return raw() > CompoundUnit(other).raw();
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator<=(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() <= other.raw();
+        return raw() <= CompoundUnit(other).raw();
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator>=(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() >= other.raw();
+        return raw() >= CompoundUnit(other).raw();
     }
 
 private:
@@ -218,7 +219,7 @@ private:
     }
 
     inline unsigned long scale_to_integer(ValueType num, RealRawType scaling_factor) {
-        return static_cast<unsigned long>(std::round(num * scaling_factor));
+        return static_cast<unsigned long>(std::round(std::fabs(num) * scaling_factor));
     }
     unsigned long compute_gcd(ValueType numerator, ValueType denominator, RealRawType scaling_factor) {
         if constexpr (std::is_integral_v<ValueType>) return std::gcd(numerator, denominator);
-- 
2.43.0


From 83b92e1f4deca6a325823f2806be35b773b1ece7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:44 +0000
Subject: [PATCH 13/46] fix: event system: scheduling with all events in use
 crashed, store was half released

Scheduling or triggering with an exhausted store dereferenced a null pointer. An event that
is triggered by its id never needed a slot; it is now delivered even if all slots are taken.
---
 src/spine/eventsystem/eventsystem.cpp |  5 +++--
 src/spine/eventsystem/eventsystem.hpp | 13 ++++++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/spine/eventsystem/eventsystem.cpp b/src/spine/eventsystem/eventsystem.cpp
index 4c6337c..7eb4395 100644
--- a/src/spine/eventsystem/eventsystem.cpp
+++ b/src/spine/eventsystem/eventsystem.cpp
@@ -48,7 +48,7 @@ EventSystem::~EventSystem() {
     for (size_t i = 0; i < _map.size(); i++) {
         _map[i].reset();
     }
-    for (size_t i = 0; i < _store.size(); ++i) {
+    while (_store.size() > 0) {
         auto ev = _store.depopulate();
         ev.reset();
     }
@@ -56,7 +56,8 @@ EventSystem::~EventSystem() {
 }
 
 void EventSystem::trigger(const std::shared_ptr<Event>& event) {
-    spn_assert(event);
+    spn_expect(event);
+    if (!event) return;
     trigger(*event.get());
 }
 
diff --git a/src/spine/eventsystem/eventsystem.hpp b/src/spine/eventsystem/eventsystem.hpp
index d6c51ee..a3f378c 100644
--- a/src/spine/eventsystem/eventsystem.hpp
+++ b/src/spine/eventsystem/eventsystem.hpp
@@ -129,7 +129,10 @@ public:
     template<typename IdType>
     /// Directly trigger an event for a provided ID
     void trigger(IdType id, const Event::Data& data = {}) {
-        trigger(event(id, k_time_ms(0), data));
+        Event event; // needs no slot in the store, so that this works while all events are in use
+        event._id = static_cast<Event::Id>(id);
+        event._data = data;
+        trigger(event);
     }
 
     template<typename IdType>
@@ -151,8 +154,12 @@ public:
         schedule(event(id, time_from_now, data));
     }
 
-    /// Schedule a provided event
-    void schedule(std::shared_ptr<Event>&& event) { _pipeline.push(std::move(event)); }
+    /// Schedule a provided event. Has no effect if there is no event, i.e. when all events were in use.
+    void schedule(std::shared_ptr<Event>&& event) {
+        spn_expect(event);
+        if (!event) return;
+        _pipeline.push(std::move(event));
+    }
 
     /// Main loop of event system. It is crucial that this loop is called often enough to fire events in time
     void loop();
-- 
2.43.0


From bb5a8ee85b79d1c94ee8fe685112a272d0a1b645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:44 +0000
Subject: [PATCH 14/46] fix: event system: idle sleep compared milliseconds
 with microseconds

---
 src/spine/eventsystem/eventsystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/eventsystem/eventsystem.cpp b/src/spine/eventsystem/eventsystem.cpp
index 7eb4395..e247c1a 100644
--- a/src/spine/eventsystem/eventsystem.cpp
+++ b/src/spine/eventsystem/eventsystem.cpp
@@ -82,7 +82,7 @@ void EventSystem::loop() {
 
     if (_cfg.delay_between_ticks) {
         if (_pipeline.contains_futures())
-            HAL::delay_ms(std::min(_pipeline.time_until_next_future().raw(), _cfg.max_delay_between_ticks.raw()));
+            HAL::delay(std::min(_pipeline.time_until_next_future(), k_time_ms(_cfg.max_delay_between_ticks)));
         else
             HAL::delay(_cfg.min_delay_between_ticks);
     }
-- 
2.43.0


From 016c070e57fb3de08bba6323309e6228b1c34f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:46 +0000
Subject: [PATCH 15/46] fix: line buffer: view of a line that wraps around the
 end of the ring

---
 src/spine/structure/linebuffer.cpp |  1 +
 src/spine/structure/ringbuffer.hpp | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/spine/structure/linebuffer.cpp b/src/spine/structure/linebuffer.cpp
index 960d3a7..2d4a9af 100644
--- a/src/spine/structure/linebuffer.cpp
+++ b/src/spine/structure/linebuffer.cpp
@@ -13,6 +13,7 @@ std::optional<std::string_view> LineBuffer::get_next_line_view(const std::option
     auto length = discovered_length.value_or(length_of_next_line());
     if (length == 0) return {};
     length -= 1; // ignore delimiter
+    make_contiguous(length);
     char* str;
     if (peek_at(&str, 0) == false) return std::nullopt;
     return std::string_view(str, length);
diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index eff5aa4..5284091 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -3,6 +3,8 @@
 #include "spine/core/debugging.hpp"
 #include "spine/structure/array.hpp"
 
+#include <algorithm>
+
 namespace spn::structure {
 
 template<typename T>
@@ -67,6 +69,15 @@ protected:
     /// Pull the writing head backwards by `n`, effectively dropping `n` last inserted  elements
     void retract_head(size_t n) { m_head = (m_head + m_buffer.size() - (n % m_buffer.size())) % m_buffer.size(); }
 
+    /// Make the `n` first inserted elements lie next to each other in memory
+    void make_contiguous(size_t n) {
+        if (m_tail + n <= capacity()) return;
+        const auto used = used_space();
+        std::rotate(&m_buffer[0], &m_buffer[0] + m_tail, &m_buffer[0] + capacity());
+        m_tail = 0;
+        m_head = used % capacity();
+    }
+
 private:
     Array<T> m_buffer;
     size_t m_head{0};
-- 
2.43.0


From f654af73e53f6127547facdb64b27c4f61dec3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:46 +0000
Subject: [PATCH 16/46] fix: buffered stream: pulling overwrote a complete line
 after an earlier overrun

---
 src/spine/io/stream/buffered_stream.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/spine/io/stream/buffered_stream.cpp b/src/spine/io/stream/buffered_stream.cpp
index 8606fcd..6a1dae7 100644
--- a/src/spine/io/stream/buffered_stream.cpp
+++ b/src/spine/io/stream/buffered_stream.cpp
@@ -26,20 +26,20 @@ size_t BufferedStream::length_of_next_line() const { return _input_buffer.length
 size_t BufferedStream::pull_in_data() {
     size_t bytes_read = 0;
     uint8_t last_char = '\0';
+    bool line_possible = true; // false when the input buffer is known to hold no line
 
     while (_stream->available() > 0) {
         // early break when a delimiter has been found, as to lose no input if possible
-        if (_input_buffer.full()) {
-            if (_input_buffer.delimiters().find(last_char) != std::string::npos)
-                break; // break when the last incoming was a delimiter
-            if (_input_buffer.overrun_space() == 0 && _input_buffer.has_line())
-                break; // break when the buffer just turned full and the buffer already contains a line
+        if (_input_buffer.full() && line_possible) {
+            if (_input_buffer.has_line()) break; // break when the full buffer contains a line
+            line_possible = false; // until the next delimiter comes in
         }
 
         if (!_stream->read(last_char)) {
             return bytes_read; // read failure
         }
         _input_buffer.push(last_char, true);
+        if (_input_buffer.delimiters().find(last_char) != std::string::npos) line_possible = true;
         ++bytes_read;
     }
     return bytes_read;
-- 
2.43.0


From f6a697d27f92639ceb84020eae9bde2eff95421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:46 +0000
Subject: [PATCH 17/46] fix: buffered stream: a byte refused by the stream was
 lost

---
 src/spine/io/stream/buffered_stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/io/stream/buffered_stream.cpp b/src/spine/io/stream/buffered_stream.cpp
index 6a1dae7..7b2e866 100644
--- a/src/spine/io/stream/buffered_stream.cpp
+++ b/src/spine/io/stream/buffered_stream.cpp
@@ -50,7 +50,8 @@ size_t BufferedStream::push_out_data() {
 
     while (_stream->available_for_write() > 0) {
         char v;
-        if (!_output_buffer.pop(v) || !_stream->write(v)) return bytes_written;
+        if (!_output_buffer.peek_at(v, 0) || !_stream->write(v)) return bytes_written;
+        _output_buffer.pop();
         ++bytes_written;
     }
     return bytes_written;
-- 
2.43.0


From 706e10908277396e7a2ff851e2b05eb09560739c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:46 +0000
Subject: [PATCH 18/46] fix: transaction: a reply that fills the output buffer
 exactly was asserted against

---
 src/spine/io/stream/transaction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/io/stream/transaction.cpp b/src/spine/io/stream/transaction.cpp
index 5aea9d3..72f91ca 100644
--- a/src/spine/io/stream/transaction.cpp
+++ b/src/spine/io/stream/transaction.cpp
@@ -25,7 +25,7 @@ size_t Transaction::outgoing(char value) {
 }
 size_t Transaction::outgoing(const char* buffer, size_t length) {
     spn_assert(!is_finalized());
-    spn_assert(outgoing_space_left() > length); // todo: instead make it optional to flush out bytes in between
+    spn_assert(outgoing_space_left() >= length); // todo: instead make it optional to flush out bytes in between
     length = std::min(outgoing_space_left(), length);
     size_t bytes_written = _stream->buffered_write(buffer, length);
     _outgoing_queued_bytes += bytes_written;
-- 
2.43.0


From 9a995db50429b6aaf4b63f69f346cda0412e4980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:46 +0000
Subject: [PATCH 19/46] fix: transaction: assigning over an open transaction
 lost track of its line

---
 src/spine/io/stream/transaction.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spine/io/stream/transaction.hpp b/src/spine/io/stream/transaction.hpp
index 6c39eac..bc784f1 100644
--- a/src/spine/io/stream/transaction.hpp
+++ b/src/spine/io/stream/transaction.hpp
@@ -20,6 +20,8 @@ public:
     Transaction& operator=(const Transaction& other) = delete;
     Transaction& operator=(Transaction&& other) noexcept {
         if (this == &other) return *this;
+        // let go of the line of this transaction, unless the other transaction is responsible for that same line
+        if (!is_finalized() && (other.is_finalized() || other._stream != _stream)) finalize();
         _stream = other._stream;
         other._stream = nullptr;
         _incoming_line = std::move(other._incoming_line);
-- 
2.43.0


From 66f38f131b4bf482e0ed21574323de4b1dac37d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:12 +0000
Subject: [PATCH 20/46] fix: schedule: next block was the first listed later
 one, not the nearest

---
 src/spine/structure/time/schedule.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/time/schedule.cpp b/src/spine/structure/time/schedule.cpp
index 487c0b0..1c70fc3 100644
--- a/src/spine/structure/time/schedule.cpp
+++ b/src/spine/structure/time/schedule.cpp
@@ -23,10 +23,11 @@ float Schedule::value_at(const k_time_s t) const {
 }
 
 k_time_s Schedule::start_of_next_block(const k_time_s t) const {
+    k_time_s next = k_time_h(24);
     for (auto& b : _blocks) {
-        if (t < b.start) return b.start;
+        if (t < b.start && b.start < next) next = b.start;
     }
-    return k_time_h(24);
+    return next;
 }
 
 } // namespace spn::structure::time
-- 
2.43.0


From 5d802dad1bc5e18b89289f7a189927dc57a1dce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:27 +0000
Subject: [PATCH 21/46] fix: datetime: compiler time stamps read 08 and 09 as
 octal and left the dst flag undetermined

---
 src/spine/structure/time/datetime.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/time/datetime.cpp b/src/spine/structure/time/datetime.cpp
index 806a5f3..738aeb7 100644
--- a/src/spine/structure/time/datetime.cpp
+++ b/src/spine/structure/time/datetime.cpp
@@ -133,11 +133,12 @@ DateTime::DateTime(const char* date, const char* time) {
     _tm.tm_mon = month - 1;
     _tm.tm_mday = day;
     int hour, min, sec;
-    sscanf(time, "%i:%i:%i", &hour, &min, &sec);
+    sscanf(time, "%d:%d:%d", &hour, &min, &sec);
     _tm.tm_hour = hour;
     _tm.tm_min = min;
     _tm.tm_sec = sec;
     _tm.tm_yday = calcYearDay(year, month, day);
+    _tm.tm_isdst = -1;
     set_timestamps();
 }
 
-- 
2.43.0


From 43e7eac40a4c980b00b21a9950485d97e5b6215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:54 +0000
Subject: [PATCH 22/46] fix: latch: readings that confirm the state restarted
 its time limits

---
 src/spine/controller/sr_latch.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spine/controller/sr_latch.hpp b/src/spine/controller/sr_latch.hpp
index 1e6f2c1..19d8370 100644
--- a/src/spine/controller/sr_latch.hpp
+++ b/src/spine/controller/sr_latch.hpp
@@ -35,6 +35,7 @@ public:
 
 protected:
     void set(const State state) {
+        if (state == _value) return; // time in a state counts from the moment the state was entered
         _value = state;
         _last_turned.reset();
     }
-- 
2.43.0


From f4f99039890f5e7ed94a40dda424b338676f672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:46 +0000
Subject: [PATCH 23/46] fix: pid: gains were scaled by a truncated ratio when
 the sampling time is set

---
 src/spine/controller/implementations/pid/pid_controller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/controller/implementations/pid/pid_controller.cpp b/src/spine/controller/implementations/pid/pid_controller.cpp
index 6737297..f3f7176 100644
--- a/src/spine/controller/implementations/pid/pid_controller.cpp
+++ b/src/spine/controller/implementations/pid/pid_controller.cpp
@@ -111,7 +111,7 @@ void PIDController::set_controller_direction(const PIDController::Direction dire
 void PIDController::set_sampling_time(const k_time_ms sampling_time) {
     // adjust sample
     if (sampling_time > k_time_ms(0)) {
-        float ratio = sampling_time.raw() / _sampling_time.raw();
+        const float ratio = static_cast<float>(sampling_time.raw()) / static_cast<float>(_sampling_time.raw());
         _ki *= ratio;
         _kd /= ratio;
         _sampling_time = sampling_time;
-- 
2.43.0


From e29d6383ef7820f3748d526ef1ef5f1c49aee0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:46 +0000
Subject: [PATCH 24/46] fix: pid: reported tunings were the scaled internal
 gains

---
 .../controller/implementations/pid/pid_controller.cpp |  4 ++++
 .../controller/implementations/pid/pid_controller.hpp | 11 ++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/spine/controller/implementations/pid/pid_controller.cpp b/src/spine/controller/implementations/pid/pid_controller.cpp
index f3f7176..7d08192 100644
--- a/src/spine/controller/implementations/pid/pid_controller.cpp
+++ b/src/spine/controller/implementations/pid/pid_controller.cpp
@@ -87,6 +87,10 @@ void PIDController::set_tunings(float Kp, float Ki, float Kd, const PIDControlle
 
     _proportionality = proportionality;
 
+    _given_kp = Kp;
+    _given_ki = Ki;
+    _given_kd = Kd;
+
     const auto sampletime_in_seconds = _sampling_time.raw() / 1000.0f;
     _kp = Kp;
     _ki = Ki * sampletime_in_seconds;
diff --git a/src/spine/controller/implementations/pid/pid_controller.hpp b/src/spine/controller/implementations/pid/pid_controller.hpp
index d2748d1..502aac0 100644
--- a/src/spine/controller/implementations/pid/pid_controller.hpp
+++ b/src/spine/controller/implementations/pid/pid_controller.hpp
@@ -42,13 +42,18 @@ public:
 
     void set_sampling_time(const k_time_ms sampling_time);
 
-    float Kp() const { return _kp; }
-    float Ki() const { return _ki; }
-    float Kd() const { return _kd; }
+    float Kp() const { return _given_kp; }
+    float Ki() const { return _given_ki; }
+    float Kd() const { return _given_kd; }
 
     Direction direction() const { return _controller_direction; }
 
 private:
+    float _given_kp = 0; // gains as given by the user
+    float _given_ki = 0;
+    float _given_kd = 0;
+
+    // gains scaled by sampling time and signed by direction
     float _kp = 0; // * (P)roportional Tuning Parameter
     float _ki = 0; // * (I)ntegral Tuning Parameter
     float _kd = 0; // * (D)erivative Tuning Parameter
-- 
2.43.0


From ae31fecc58e788abec8404b364413ac8bb6ba2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:46 +0000
Subject: [PATCH 25/46] fix: pid: the configured proportionality was ignored

---
 src/spine/controller/pid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/controller/pid.cpp b/src/spine/controller/pid.cpp
index 3b4334b..0d145bb 100644
--- a/src/spine/controller/pid.cpp
+++ b/src/spine/controller/pid.cpp
@@ -5,7 +5,7 @@ namespace spn::controller {
 PID::PID(PID::Config&& cfg)
     : _cfg(cfg),
       _pid_backend(PIDController(&_input, &_output, &_setpoint, _cfg.tunings.Kp, _cfg.tunings.Ki, _cfg.tunings.Kd,
-                                 PIDController::Proportionality::ON_MEASUREMENT, _cfg.direction)) {
+                                 _cfg.proportionality, _cfg.direction)) {
     spn_assert(k_time_ms(_cfg.sample_interval).raw() > 0);
 }
 
-- 
2.43.0


From bcf5b3bbd889960c7cf9de721c2ac028acfd0f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:37 +0000
Subject: [PATCH 26/46] fix: pid autotuner: gains were averaged over one cycle
 more than was summed up

---
 src/spine/controller/implementations/pid/pid_tuner.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/spine/controller/implementations/pid/pid_tuner.cpp b/src/spine/controller/implementations/pid/pid_tuner.cpp
index 26f334b..8a2d28c 100644
--- a/src/spine/controller/implementations/pid/pid_tuner.cpp
+++ b/src/spine/controller/implementations/pid/pid_tuner.cpp
@@ -117,9 +117,11 @@ float PIDAutotuner::do_autotune(float input, k_time_ms ms) {
     if (is_finished()) {
         output = false;
         outputValue = minOutput;
-        kp = pAverage / (cycle - 1);
-        ki = iAverage / (cycle - 1);
-        kd = dAverage / (cycle - 1);
+        if (const auto averaged_cycles = cycle - 2; averaged_cycles > 0) {
+            kp = pAverage / averaged_cycles;
+            ki = iAverage / averaged_cycles;
+            kd = dAverage / averaged_cycles;
+        }
     }
 
     return outputValue;
-- 
2.43.0


From affbbe082d5cfd4b83dd845e3904a505eddf4e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:52 +0000
Subject: [PATCH 27/46] fix: filter stack: detaching a filter did not compile

---
 src/spine/filter/filterstack.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spine/filter/filterstack.hpp b/src/spine/filter/filterstack.hpp
index 1baa066..54973cb 100644
--- a/src/spine/filter/filterstack.hpp
+++ b/src/spine/filter/filterstack.hpp
@@ -24,7 +24,10 @@ public:
     /// Detach a filter for a provided slot's index
     std::unique_ptr<Filter<ValueType>> detach_filter(uint8_t index) {
         spn_expect(index < _filters.size());
-        return index < _filters.size() ? _filters.remove(index) : nullptr;
+        if (index >= _filters.size()) return nullptr;
+        auto filter = std::move(_filters[index]);
+        _filters.erase(_filters.begin() + index);
+        return filter;
     }
 
     /// Take a new sample, returns filtered value
-- 
2.43.0


From 6e565934746f0f7506a8f9c9ad27386e53c5a58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:52 +0000
Subject: [PATCH 28/46] fix: filter stack: the number of slots was the limit of
 std::vector, not the requested number

---
 src/spine/filter/filterstack.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/spine/filter/filterstack.hpp b/src/spine/filter/filterstack.hpp
index 54973cb..cdb01bd 100644
--- a/src/spine/filter/filterstack.hpp
+++ b/src/spine/filter/filterstack.hpp
@@ -13,12 +13,12 @@ template<typename ValueType = float>
 /// Stack of filters. Any value provided to this stack will pass through all filters in the stack
 class Stack {
 public:
-    Stack(uint8_t number_of_filters) : _filters() { _filters.reserve(number_of_filters); }
+    Stack(uint8_t number_of_filters) : _slots(number_of_filters), _filters() { _filters.reserve(number_of_filters); }
 
     /// Attach a filter to the provided slot's index
     void attach_filter(std::unique_ptr<Filter<ValueType>> filter) {
-        spn_expect(_filters.size() < _filters.max_size());
-        if (_filters.size() < _filters.max_size()) _filters.emplace_back(std::move(filter));
+        spn_expect(_filters.size() < _slots);
+        if (_filters.size() < _slots) _filters.emplace_back(std::move(filter));
     }
 
     /// Detach a filter for a provided slot's index
@@ -54,12 +54,14 @@ public:
     }
 
     /// Returns count of pre-allocated filter slots
-    size_t filter_slots() const { return _filters.max_size(); }
+    size_t filter_slots() const { return _slots; }
 
     /// Returns count of occupied filter slots
     size_t filter_slots_occupied() const { return _filters.size(); }
 
 private:
+    size_t _slots;
+
     /// todo: cannot use spn/structure/vector; : inplace allocator is missing, or better even to use a linked list
     std::vector<std::unique_ptr<Filter<ValueType>>> _filters;
 };
-- 
2.43.0


From 608436710033c218f64b8ff923c35dd6ba23c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:52 +0000
Subject: [PATCH 29/46] fix: filter stack: samples were truncated to single
 precision

---
 src/spine/filter/filterstack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/filter/filterstack.hpp b/src/spine/filter/filterstack.hpp
index cdb01bd..38afdb9 100644
--- a/src/spine/filter/filterstack.hpp
+++ b/src/spine/filter/filterstack.hpp
@@ -31,7 +31,7 @@ public:
     }
 
     /// Take a new sample, returns filtered value
-    ValueType value(const float new_sample) {
+    ValueType value(const ValueType new_sample) {
         ValueType new_value = new_sample;
         for (auto& sf : _filters) {
             spn_assert(sf.get() != nullptr);
-- 
2.43.0


From 4fd107b92fb6a9fc40a320e574a3d02b57f75fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:29 +0000
Subject: [PATCH 30/46] fix: band-pass filter: rejections were counted on after
 the limit was reached and across a reset

---
 src/spine/filter/implementations/bandpass.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spine/filter/implementations/bandpass.hpp b/src/spine/filter/implementations/bandpass.hpp
index 5983670..91025b0 100644
--- a/src/spine/filter/implementations/bandpass.hpp
+++ b/src/spine/filter/implementations/bandpass.hpp
@@ -74,6 +74,7 @@ public:
                 spn::throw_exception(spn::runtime_exception("BandPass: rejection limit reached"));
             }
             _value = sample;
+            _rejections = 0;
         }
     }
 
@@ -88,7 +89,10 @@ public:
     ValueType operator()(ValueType reading) { return value(reading); }
 
     /// Reset the filter's internal value to a provided value (next sample will be filtered based on this value)
-    void reset_to(ValueType reading) override { _value = reading; }
+    void reset_to(ValueType reading) override {
+        _value = reading;
+        _rejections = 0;
+    }
 
 protected:
     void update_limits() {
-- 
2.43.0


From bbd354066027b882d36d033c9ce5294e0cdfcbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:29 +0000
Subject: [PATCH 31/46] fix: band-pass filter: band limits did not follow their
 definition

---
 src/spine/filter/implementations/bandpass.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/filter/implementations/bandpass.hpp b/src/spine/filter/implementations/bandpass.hpp
index 91025b0..4eaf517 100644
--- a/src/spine/filter/implementations/bandpass.hpp
+++ b/src/spine/filter/implementations/bandpass.hpp
@@ -97,8 +97,8 @@ public:
 protected:
     void update_limits() {
         ValueType compensated_midpoint = _cfg.mode == Mode::RELATIVE ? _value + _cfg.offset : _cfg.offset;
-        _upper = compensated_midpoint + std::pow(_cfg.mantissa * 10, (_cfg.decades + 1));
-        _lower = compensated_midpoint - std::pow(_cfg.mantissa * 10, (_cfg.decades + 1));
+        _upper = compensated_midpoint + _cfg.mantissa * std::pow(ValueType(10), _cfg.decades + 1);
+        _lower = compensated_midpoint - _cfg.mantissa * std::pow(ValueType(10), _cfg.decades + 1);
     }
 
     /// Arbitrary value to be used as a default value
-- 
2.43.0


From a9ef3cbb1c61dcb9ed54da2f7e00a64912b106ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:52 +0000
Subject: [PATCH 32/46] fix: result: taking the value out copied it and did not
 compile for move-only types

---
 src/spine/structure/result.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/result.hpp b/src/spine/structure/result.hpp
index b445a64..7485362 100644
--- a/src/spine/structure/result.hpp
+++ b/src/spine/structure/result.hpp
@@ -68,19 +68,19 @@ public:
     E unwrap_error_value() {
         spn_assert(is_failed());
         spn_assert(_v && std::holds_alternative<WrappedE>(*_v));
-        return std::move(std::get<WrappedE>(*_v));
+        return std::move(std::get<WrappedE>(*_v).value);
     }
 
     I unwrap_intermediary_value() {
         spn_assert(is_intermediary());
         spn_assert(_v && std::holds_alternative<WrappedI>(*_v));
-        return std::move(std::get<WrappedI>(*_v));
+        return std::move(std::get<WrappedI>(*_v).value);
     }
 
     T unwrap() {
         spn_assert(is_success() || is_intermediary());
         spn_assert(_v && std::holds_alternative<WrappedT>(*_v));
-        return std::move(std::get<WrappedT>(*_v));
+        return std::move(std::get<WrappedT>(*_v).value);
     }
 
     const T* operator->() const { return &value(); }
-- 
2.43.0


From a09e4bd07631cc49f1d0a201b1ca5759dac62d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:20 +0000
Subject: [PATCH 33/46] fix: result: a value or result passed as a modifiable
 variable became a failure

---
 src/spine/structure/result.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/result.hpp b/src/spine/structure/result.hpp
index 7485362..cb79688 100644
--- a/src/spine/structure/result.hpp
+++ b/src/spine/structure/result.hpp
@@ -38,7 +38,9 @@ public:
     template<typename U = E, typename = std::enable_if_t<std::is_convertible_v<U, E> && !std::is_same_v<E, T>>>
     Result(const U& error) : _v(std::in_place, WrappedE(error)), _type(Type::FAILED) {}
 
-    template<typename U = E, typename = std::enable_if_t<std::is_convertible_v<U, E> && !std::is_same_v<E, T>>>
+    template<typename U = E, typename = std::enable_if_t<std::is_convertible_v<U, E> && !std::is_same_v<E, T>
+                                                         && !std::is_same_v<std::decay_t<U>, T>
+                                                         && !std::is_same_v<std::decay_t<U>, Result>>>
     Result(U&& error) : _v(std::in_place, WrappedE(std::forward<U>(error))), _type(Type::FAILED) {}
 
     bool is_success() const { return _type == Type::OK; }
-- 
2.43.0


From b0742cadb59cc08b3c1973e995b64893d9a18bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:36 +0000
Subject: [PATCH 34/46] fix: string utils: stripping overran texts of
 delimiters only, rstrip cut off the front

---
 src/spine/core/utils/string.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index 4c1ad1d..b6e2c22 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -9,7 +9,7 @@ namespace spn::core::utils {
 /// Returns a string_view with the beginning of the string `strv` stripped of any char in `delimiters`
 std::string_view lstrip(const std::string_view& strv, const std::string_view& delimiters) {
     auto it = strv.begin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != strv.end() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - strv.begin();
     return {strv.data() + len, strv.size() - len};
@@ -18,10 +18,10 @@ std::string_view lstrip(const std::string_view& strv, const std::string_view& de
 /// Returns a string_view with the end of the string `strv` stripped of any char in `delimiters`
 std::string_view rstrip(const std::string_view& strv, const std::string_view& delimiters) {
     auto it = strv.rbegin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != strv.rend() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - strv.rbegin();
-    return {strv.data() + len, strv.size() - len};
+    return {strv.data(), strv.size() - len};
 }
 
 /// Returns true if string `strv` starts with `needle
-- 
2.43.0


From 511e033b171fb0d136774314176182d503a367b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:36 +0000
Subject: [PATCH 35/46] fix: string utils: ends_with threw when more was sought
 than there is

---
 src/spine/core/utils/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index b6e2c22..daaf3fb 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -31,7 +31,7 @@ bool starts_with(const std::string_view& strv, const std::string_view& needle) {
 
 /// Returns true if string `strv` ends with `needle
 bool ends_with(const std::string_view& strv, const std::string_view& needle) {
-    return strv.compare(strv.size() - needle.size(), strv.size(), needle) == 0;
+    return strv.size() >= needle.size() && strv.compare(strv.size() - needle.size(), strv.size(), needle) == 0;
 }
 
 /// Find the first occurence of any char in `delimiters` in the string `strv` or return std::string::npos when nothing
-- 
2.43.0


From f2dfc067fa91190b308ae1e9d23f18b48d4b5cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:36 +0000
Subject: [PATCH 36/46] fix: string utils: to_float read on behind the end of
 the text

---
 src/spine/core/utils/string.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index daaf3fb..d3eb5a3 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -57,10 +57,11 @@ std::size_t find_first_of(const std::string_view& strv, const std::string_view&
 // }
 
 float to_float(const std::string_view& sv) {
+    const std::string text(sv); // strtof needs a terminated text
     char* end;
-    float result = std::strtof(sv.data(), &end);
+    float result = std::strtof(text.c_str(), &end);
 
-    if (end == sv.data() || *end != '\0') {
+    if (end == text.c_str() || end != text.c_str() + text.size()) {
         return 0.0f; // Handle conversion error
     }
 
-- 
2.43.0


From 53cc08f8551f2780a67ff6019c6b33bffa5f18a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:40 +0000
Subject: [PATCH 37/46] fix: static string: stripping overran texts of
 delimiters only

---
 src/spine/structure/static_string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/static_string.cpp b/src/spine/structure/static_string.cpp
index bdf3927..9f0ad8c 100644
--- a/src/spine/structure/static_string.cpp
+++ b/src/spine/structure/static_string.cpp
@@ -17,7 +17,7 @@ char* StaticString::data(const size_t expected_bytes_written) {
 }
 StaticString& StaticString::lstrip(std::string_view delimiters) {
     auto it = _buffer.begin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != _buffer.end() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - _buffer.begin();
     std::memmove(data(), data() + len, size() - len);
@@ -26,7 +26,7 @@ StaticString& StaticString::lstrip(std::string_view delimiters) {
 }
 StaticString& StaticString::rstrip(std::string_view delimiters) {
     auto it = _buffer.rbegin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != _buffer.rend() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - _buffer.rbegin();
     set_size(_buffer.size() - len);
-- 
2.43.0


From 4be6cfc1e85403b9a5254c3bb53a80a1ea1c2458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:40 +0000
Subject: [PATCH 38/46] fix: static string: ends_with aborted when more was
 sought than there is

---
 src/spine/structure/static_string.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/static_string.cpp b/src/spine/structure/static_string.cpp
index 9f0ad8c..a561e8a 100644
--- a/src/spine/structure/static_string.cpp
+++ b/src/spine/structure/static_string.cpp
@@ -36,6 +36,7 @@ bool StaticString::starts_with(const std::string_view needle) const {
     return _buffer.compare(0, needle.size(), needle, 0) == 0;
 }
 bool StaticString::ends_with(const std::string_view needle) const {
-    return _buffer.compare(_buffer.size() - needle.size(), _buffer.size(), needle) == 0;
+    return _buffer.size() >= needle.size()
+           && _buffer.compare(_buffer.size() - needle.size(), _buffer.size(), needle) == 0;
 }
 } // namespace spn::structure
-- 
2.43.0


From af8e2b34c5ec9b80f4e78f681944deda079a3297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:46 +0000
Subject: [PATCH 39/46] fix: time: parsing threw on a missing or too large
 number

---
 src/spine/core/utils/time_repr.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/spine/core/utils/time_repr.cpp b/src/spine/core/utils/time_repr.cpp
index 98643fc..441f38f 100644
--- a/src/spine/core/utils/time_repr.cpp
+++ b/src/spine/core/utils/time_repr.cpp
@@ -2,6 +2,7 @@
 
 // #include <charconv>
 #include <iterator>
+#include <limits>
 #include <numeric>
 #include <optional>
 #include <variant>
@@ -36,7 +37,13 @@ parse_time(const std::string_view input) {
     if (pos == std::string_view::npos) return std::nullopt; // No unit found
 
     // Extract numeric value and unit
-    int value = std::stoi(std::string(input.substr(0, pos)));
+    if (pos == 0) return std::nullopt; // No number found
+    constexpr auto max = std::numeric_limits<k_time_us::ValueType>::max();
+    k_time_us::ValueType value = 0;
+    for (const char digit : input.substr(0, pos)) {
+        if (value > (max - (digit - '0')) / 10) return std::nullopt; // Not representable
+        value = value * 10 + (digit - '0');
+    }
     std::string_view unit = input.substr(pos);
 
     if (unit == "us") return k_time_us(value);
-- 
2.43.0


From 335d6a2c6af0022fa8bdf76d400a477a3ca89085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:21 +0000
Subject: [PATCH 40/46] fix: logging: the source location of a long debug
 message was written behind the buffer

---
 src/spine/core/logging.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spine/core/logging.cpp b/src/spine/core/logging.cpp
index 9413373..b9352ff 100644
--- a/src/spine/core/logging.cpp
+++ b/src/spine/core/logging.cpp
@@ -2,6 +2,7 @@
 
 #include "spine/platform/hal.hpp"
 
+#include <algorithm>
 #include <cinttypes>
 
 namespace spn::logging {
@@ -48,6 +49,7 @@ void print(const LogLevel level, const char* filename, const int line_number, co
     va_start(args, fmt);
     space_used += vsnprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, fmt, args);
     va_end(args);
+    space_used = std::min(space_used, sizeof(msg_buffer) - 1); // a longer message was cut
 
     if (level == LogLevel::DEBUG) {
         space_used += snprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, " (%s:%d %s)", filename,
-- 
2.43.0


From e321ce9c8e12b35711d41f632eaf046df4d46ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:55 +0000
Subject: [PATCH 41/46] fix: gpio: inputs, interrupts and initialisation did
 not compile when used through their interface

---
 src/spine/platform/gpio.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/spine/platform/gpio.hpp b/src/spine/platform/gpio.hpp
index cc9c4ce..5671b9c 100644
--- a/src/spine/platform/gpio.hpp
+++ b/src/spine/platform/gpio.hpp
@@ -30,8 +30,8 @@ template<typename GPIOImp>
 struct DigitalInput {
     using LogicalState = core::LogicalState;
 
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
-    LogicalState state() const { return static_cast<GPIOImp>(this)->state(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
+    LogicalState state() const { return static_cast<LogicalState>(static_cast<const GPIOImp*>(this)->state()); }
 };
 
 namespace detail {
@@ -43,7 +43,7 @@ template<typename GPIOImp>
 class AnalogueOutput {
 public:
     /// Initialize a port/pin
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
 
     /// Set the output to the provided `value`
     void set_value(float value) {
@@ -68,10 +68,10 @@ private:
 template<typename GPIOImp>
 struct AnalogueInput {
     /// Initialize an analogue input port/pin
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
 
     /// Reads the Analogue input port/pin
-    float read() { return static_cast<GPIOImp>(this)->read(); }
+    float read() { return static_cast<GPIOImp*>(this)->read(); }
 };
 
 // todo: Add an ADC/DAC configuration blocks to set up stuff like read/write resolution, ref voltage and sampling
@@ -82,15 +82,15 @@ struct Interrupt {
     using TriggerType = core::TriggerType;
 
     /// Intializes the interrupt (doesn't attach it)
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
 
     /// Attaches the interrupt to the callback.
     void attach_interrupt(void (*callback)() = nullptr, TriggerType trigger = TriggerType::UNDEFINED) {
-        static_cast<GPIOImp>(this)->attach_interrupt(callback, trigger);
+        static_cast<GPIOImp*>(this)->attach_interrupt(callback, trigger);
     }
 
     /// Detaches the interrupt from the callback
-    void detach_interrupt() { static_cast<GPIOImp>(this)->detach_interrupt(); }
+    void detach_interrupt() { static_cast<GPIOImp*>(this)->detach_interrupt(); }
 };
 
 } // namespace spn::platform
-- 
2.43.0


From b4b853e5c8f7e0e9a81a2be254f2b6c1f72b848b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:55 +0000
Subject: [PATCH 42/46] fix: gpio: a fade went beyond its target or ended short
 of it

---
 src/spine/platform/gpio.cpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/spine/platform/gpio.cpp b/src/spine/platform/gpio.cpp
index 42ba896..3447297 100644
--- a/src/spine/platform/gpio.cpp
+++ b/src/spine/platform/gpio.cpp
@@ -10,20 +10,13 @@ void fade_to(void (*set_value)(void*, float), void* imp, float value, float setp
              k_time_ms increment_interval) {
     spn_assert(setpoint >= 0.0f && setpoint <= 1.0f);
 
-    const float decimals_of_diff = 1.0f / increment;
-    float diff = std::round(std::fabs(value - setpoint) * decimals_of_diff) / decimals_of_diff;
-
-    if (diff < increment) {
-        set_value(imp, setpoint);
-        return;
-    }
-    const auto invert = value > setpoint ? -1 : 1;
-    while (diff > 0) {
-        value = std::clamp(value + invert * increment, 0.0f, 1.0f);
+    const auto direction = value > setpoint ? -1 : 1;
+    while (increment > 0 && std::fabs(setpoint - value) > increment) {
+        value += direction * increment;
         set_value(imp, value);
-        diff -= increment;
         HAL::delay(increment_interval);
     }
+    set_value(imp, setpoint);
 }
 
 } // namespace spn::platform::detail
-- 
2.43.0


From f5e91003a1517b0be199c65974dabb72d29cf361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:27 +0000
Subject: [PATCH 43/46] fix: an array that is assigned a view of itself keeps
 its elements

---
 src/spine/structure/array.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 8224989..44a8a12 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -182,10 +182,12 @@ template<typename T>
 Array<T>& Array<T>::operator=(const Array& other) {
     if (this == &other) return *this;
     ArrayBase::operator=(other);
-    if (m_store != other.m_store) release_store();
+    if (m_store != other.m_store) {
+        release_store();
+        m_store_is_internal = false; // prevent double free
+    }
     m_store = other.m_store;
     m_max_size = other.m_max_size;
-    m_store_is_internal = false; // prevent double free
     return *this;
 }
 
-- 
2.43.0


From 9e1cf7cb44a309d89b0c40ef366d1fb337c1fcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:30 +0000
Subject: [PATCH 44/46] fix: datetime: dates before 2000 failed an assertion in
 debug builds

---
 src/spine/structure/time/datetime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/time/datetime.cpp b/src/spine/structure/time/datetime.cpp
index 738aeb7..aa6ac08 100644
--- a/src/spine/structure/time/datetime.cpp
+++ b/src/spine/structure/time/datetime.cpp
@@ -86,7 +86,7 @@ static uint8_t bcd2bin(uint8_t val) { return static_cast<uint8_t>(val - 6 * (val
  */
 DateTime::DateTime(time_t unix_timestamp)
     : _unix_timestamp{unix_timestamp}, _y2k_timestamp{static_cast<time_t>(unix_timestamp - UNIX_OFFSET)} {
-    spn_assert(unix_timestamp - UNIX_OFFSET <= LONG_MAX);
+    spn_assert(_y2k_timestamp <= _unix_timestamp); // otherwise the y2k timestamp is not representable
     gmtime_r(&_unix_timestamp, &_tm);
 }
 
-- 
2.43.0


From f59142065c0760f3495a7b0e6973a60a06747cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:30 +0000
Subject: [PATCH 45/46] fix: pipeline: its text ended in a separator, and
 failed an assertion when short

---
 src/spine/eventsystem/pipeline.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spine/eventsystem/pipeline.cpp b/src/spine/eventsystem/pipeline.cpp
index 6447275..525961a 100644
--- a/src/spine/eventsystem/pipeline.cpp
+++ b/src/spine/eventsystem/pipeline.cpp
@@ -24,8 +24,8 @@ std::string Pipeline::to_string() const {
         put("Pipeline: [");
         for (auto it = _pipe.begin(); it != _pipe.end(); ++it) {
             auto& future = *it;
+            if (it != _pipe.begin()) put(", ");
             put(utils::repr(future->time_until_future()));
-            if (it != _pipe.end()) put(", ");
         }
         put("]");
         return len;
@@ -37,12 +37,13 @@ std::string Pipeline::to_string() const {
     // Reserve capacity to avoid multiple allocations
     std::string result;
     result.reserve(total_length);
+    [[maybe_unused]] const auto reserved = result.capacity();
 
     // Second pass to build the string
     pipeline_repr(&result, false);
 
     spn_assert(result.size() <= total_length); // no reallocation
-    spn_assert(result.capacity() == total_length); // no reallocation
+    spn_assert(result.capacity() == reserved); // no reallocation
     return result;
 }
 
-- 
2.43.0


From 459cbde87c9bcf2e4e43a4a913b23b2e11073222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:00 +0000
Subject: [PATCH 46/46] fix: vector: a vector that was moved from kept its
 size, destroying a pool that was moved from crashed

---
 src/spine/structure/vector.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index a80e3e8..7413c54 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -4,6 +4,8 @@
 #include "spine/platform/hal.hpp"
 #include "spine/structure/array.hpp"
 
+#include <utility>
+
 namespace spn::structure {
 
 // Topographical layout
@@ -25,7 +27,11 @@ public:
     Vector(T (&store)[CAP], Size size = 0);
     Vector(Size max_size, T init_value);
     Vector(const std::initializer_list<T>& value_list);
+    Vector(const Vector& other) = default;
+    Vector(Vector&& other) noexcept;
 
+    Vector& operator=(const Vector& other) = default;
+    Vector& operator=(Vector&& other) noexcept;
     Vector& operator=(const std::initializer_list<T>& value_list) noexcept;
 
     T& operator[](Size index);
@@ -129,6 +135,19 @@ Vector<T>::Vector(ArrayBase::Size max_size, T init_value) : Array<T>(max_size, i
 template<typename T>
 Vector<T>::Vector(const std::initializer_list<T>& value_list) : Array<T>(value_list), m_tail(value_list.size()) {}
 
+template<typename T>
+Vector<T>::Vector(Vector&& other) noexcept
+    : Array<T>(std::move(other)), m_head(std::exchange(other.m_head, 0)), m_tail(std::exchange(other.m_tail, 0)) {}
+
+template<typename T>
+Vector<T>& Vector<T>::operator=(Vector&& other) noexcept {
+    if (this == &other) return *this;
+    Array<T>::operator=(std::move(other));
+    m_head = std::exchange(other.m_head, 0);
+    m_tail = std::exchange(other.m_tail, 0);
+    return *this;
+}
+
 template<typename T>
 Vector<T>& Vector<T>::operator=(const std::initializer_list<T>& value_list) noexcept {
     Array<T>::operator=(value_list);
-- 
2.43.0

