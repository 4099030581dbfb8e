From abc32d632b0940ecf886da49991b0ab84d0e3be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:40 +0000
Subject: [PATCH 01/33] fix: rehash() must leave room for the maximum load

rehash(0) (or a small n) could shrink a table to exactly size() slots; a full
table has no empty control byte, so the next lookup of an absent key never ended.
---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 649dab0..9fb9e2a 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2345,7 +2345,7 @@ public:
         // bitor is a faster way of doing `max` here. We will round up to the next
         // power-of-2-minus-1, so bitor is good enough.
         // ----------------------------------------------------------------------------
-        auto m = NormalizeCapacity((std::max)(n, size()));
+        auto m = NormalizeCapacity((std::max)(n, GrowthToLowerboundCapacity(size())));
         // n == 0 unconditionally rehashes as per the standard.
         if (n == 0 || m > capacity_) {
             resize(m);
-- 
2.43.0


From 79ec1a4b67af4e492798c306c5acc2488d81ae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:40 +0000
Subject: [PATCH 02/33] fix: reserve() must account for tombstones

reserve(n) compared the wanted capacity with capacity() only. In a table with
tombstones fewer than n - size() slots may be usable, and an insertion within the
reserved size rehashed the table in place, invalidating iterators and addresses.
---
 include/gtl/phmap.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 9fb9e2a..35991dc 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2352,7 +2352,11 @@ public:
         }
     }
 
-    void reserve(size_t n) { rehash(GrowthToLowerboundCapacity(n)); }
+    void reserve(size_t n) {
+        // tombstones do not count as room: without a rehash they could force one before n is reached
+        if (n > size() + growth_left())
+            resize((std::max)(capacity_, NormalizeCapacity(GrowthToLowerboundCapacity(n))));
+    }
 
     // Extension API: support for heterogeneous keys.
     //
-- 
2.43.0


From 509714455d4a982531b47b11b55b329d96579db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:23 +0000
Subject: [PATCH 03/33] fix: a throwing element constructor must not change the
 table

prepare_insert() counted the new element before it was constructed, so a constructor
that threw left size() one too high and a slot lost for good. The copy constructor
marked slots as full before constructing them, so a throwing copy destroyed an
element that was never constructed.
---
 include/gtl/phmap.hpp | 44 +++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 35991dc..3c1a65d 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1822,11 +1822,9 @@ public:
         for (const auto& v : that) {
             const size_t hashval = PolicyTraits::apply(HashElement{ hash_ref() }, v);
             auto         target  = find_first_non_full(hashval);
-            set_ctrl(target.offset, H2(hashval));
             emplace_at(target.offset, v);
+            commit_insert(target.offset, hashval);
         }
-        size_ = that.size();
-        growth_left() -= that.size();
     }
 
     raw_hash_set(raw_hash_set&& that) noexcept(std::is_nothrow_copy_constructible_v<hasher> &&
@@ -2189,7 +2187,7 @@ public:
         if (offset == (size_t)-1) {
             offset = prepare_insert(hashval);
             lazy_emplace_at(offset, std::forward<F>(f));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
         }
         return iterator_at(offset);
     }
@@ -2213,7 +2211,7 @@ public:
         if (offset == (size_t)-1) {
             offset = prepare_insert(hashval);
             lazy_emplace_at(offset, std::forward<F>(f));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
         } else
             _erase(iterator_at(offset));
     }
@@ -2549,7 +2547,7 @@ private:
         if (offset == (size_t)-1) {
             offset = prepare_insert(hashval);
             emplace_at(offset, std::forward<Args>(args)...);
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
             return { iterator_at(offset), true };
         }
         return { iterator_at(offset), false };
@@ -2580,7 +2578,7 @@ private:
             auto   res     = s.find_or_prepare_insert(key, hashval);
             if (res.second) {
                 PolicyTraits::transfer(&s.alloc_ref(), s.slots_ + res.first, &slot);
-                s.set_ctrl(res.first, H2(hashval));
+                s.commit_insert(res.first, hashval);
             } else if (do_destroy) {
                 PolicyTraits::destroy(&s.alloc_ref(), &slot);
             }
@@ -2598,7 +2596,7 @@ private:
             auto res = s.find_or_prepare_insert(key, hashval);
             if (res.second) {
                 PolicyTraits::transfer(&s.alloc_ref(), s.slots_ + res.first, &slot);
-                s.set_ctrl(res.first, H2(hashval));
+                s.commit_insert(res.first, hashval);
             } else if (do_destroy) {
                 PolicyTraits::destroy(&s.alloc_ref(), &slot);
             }
@@ -2879,11 +2877,17 @@ protected:
             rehash_and_grow_if_necessary();
             target = find_first_non_full(hashval);
         }
-        ++size_;
-        growth_left() -= IsEmpty(ctrl_[target.offset]);
         return target.offset;
     }
 
+    // Makes the element just constructed at `i` (see prepare_insert()) part of the table. Nothing is
+    // counted before, so that a constructor that throws leaves the table as it was.
+    void commit_insert(size_t i, size_t hashval) {
+        ++size_;
+        growth_left() -= IsEmpty(ctrl_[i]);
+        set_ctrl(i, H2(hashval));
+    }
+
     // Constructs the value in the space pointed by the iterator. This only works
     // after an unsuccessful find_or_prepare_insert() and before any other
     // modifications happen in the raw_hash_set.
@@ -3147,7 +3151,7 @@ private:
         if (offset == (size_t)-1) {
             offset = this->prepare_insert(hashval);
             this->emplace_at(offset, std::forward<K>(k), std::forward<V>(v));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
             return { this->iterator_at(offset), true };
         }
         Policy::value(&*this->iterator_at(offset)) = std::forward<V>(v);
@@ -3164,7 +3168,7 @@ private:
                              std::piecewise_construct,
                              std::forward_as_tuple(std::forward<K>(k)),
                              std::forward_as_tuple(std::forward<Args>(args)...));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
             return { this->iterator_at(offset), true };
         }
         return { this->iterator_at(offset), false };
@@ -3754,7 +3758,7 @@ public:
         if (offset == (size_t)-1) {
             offset = set.prepare_insert(hashval);
             set.emplace_at(offset, std::forward<Args>(args)...);
-            set.set_ctrl(offset, H2(hashval));
+            set.commit_insert(offset, hashval);
             return make_rv(&inner, { set.iterator_at(offset), true });
         }
         return make_rv(&inner, { set.iterator_at(offset), false });
@@ -3834,7 +3838,7 @@ public:
         if (offset == (size_t)-1) {
             offset = set.prepare_insert(hashval);
             set.lazy_emplace_at(offset, std::forward<F>(f));
-            set.set_ctrl(offset, H2(hashval));
+            set.commit_insert(offset, hashval);
         }
         return make_iterator(&inner, set.iterator_at(offset));
     }
@@ -3953,10 +3957,10 @@ public:
             // key not found. call fEmplace lambda which should invoke passed constructor
             if constexpr (std::is_same_v<gtl::priv::empty, aux_type>) {
                 inner->set_.lazy_emplace_at(std::get<1>(res), std::forward<FEmplace>(fEmplace));
-                inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+                inner->set_.commit_insert(std::get<1>(res), hashval);
             } else {
                 auto del = inner->set_.lazy_emplace_at(std::get<1>(res), std::forward<FEmplace>(fEmplace), inner->aux_);
-                inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+                inner->set_.commit_insert(std::get<1>(res), hashval);
                 if (del)
                     inner->set_.erase(*del);
             }
@@ -4633,7 +4637,7 @@ public:
                                    std::piecewise_construct,
                                    std::forward_as_tuple(std::forward<K>(k)),
                                    std::forward_as_tuple(std::forward<Args>(args)...));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         } else {
             auto it = this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res)));
             // call lambda. in case of the set, non "key" part of value_type can be changed
@@ -4656,7 +4660,7 @@ public:
                                    std::piecewise_construct,
                                    std::forward_as_tuple(std::forward<K>(k)),
                                    std::forward_as_tuple(std::forward<Args>(args)...));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         }
         auto it = this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res)));
         return { &*it, std::get<2>(res) };
@@ -4683,7 +4687,7 @@ private:
         typename Base::Inner* inner = std::get<0>(res);
         if (std::get<2>(res)) {
             inner->set_.emplace_at(std::get<1>(res), std::forward<K>(k), std::forward<V>(v));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         } else
             Policy::value(&*inner->set_.iterator_at(std::get<1>(res))) = std::forward<V>(v);
         return { this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res))), std::get<2>(res) };
@@ -4704,7 +4708,7 @@ private:
                                    std::piecewise_construct,
                                    std::forward_as_tuple(std::forward<K>(k)),
                                    std::forward_as_tuple(std::forward<Args>(args)...));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         }
         return { this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res))), std::get<2>(res) };
     }
-- 
2.43.0


From be6e6fe0893417535e153b59cab9dac5ddd6fb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:04 +0000
Subject: [PATCH 04/33] fix: parallel erase()/erase_if() must not report an
 erasure that did not happen

When another thread erased the key while the lock was switched from shared to
unique, both callers reported the erasure.
---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 3c1a65d..6b81be6 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3932,7 +3932,7 @@ public:
             // we did an unlock/lock, need to call `find()` again
             it = set.find(key, hashval);
             if (it == set.end())
-                return 1;
+                return 0;
         }
         if (std::forward<F>(f)(const_cast<value_type&>(*it))) {
             set._erase(it);
-- 
2.43.0


From e6e29f22e1cd2bb6e7615bf19406c1f75f378c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:05 +0000
Subject: [PATCH 05/33] fix: make clear() of parallel containers with auxiliary
 data compile

lru_cache::clear() and memoize_lru::clear() could not be instantiated.
---
 include/gtl/phmap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 6b81be6..48a61d8 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3586,7 +3586,7 @@ public:
             UniqueLock m(inner);
             inner.set_.clear();
             if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
-                inner->aux_.clear();
+                inner.aux_.clear();
         }
     }
 
@@ -3597,7 +3597,7 @@ public:
         UniqueLock m(inner);
         inner.set_.clear();
         if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
-            inner->aux_.clear();
+            inner.aux_.clear();
     }
 
     // This overload kicks in when the argument is an rvalue of insertable and
-- 
2.43.0


From b30bcd5fe9d6f020741367684b6174a006986ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:05 +0000
Subject: [PATCH 06/33] fix: comparing a parallel container with itself must
 not lock its mutexes twice

With std::mutex the comparison never returned.
---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 48a61d8..34efc79 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -4281,7 +4281,7 @@ public:
     allocator_type get_allocator() const { return alloc_ref(); }
 
     friend bool operator==(const parallel_hash_set& a, const parallel_hash_set& b) {
-        return std::equal(a.sets_.begin(), a.sets_.end(), b.sets_.begin());
+        return &a == &b || std::equal(a.sets_.begin(), a.sets_.end(), b.sets_.begin());
     }
 
     friend bool operator!=(const parallel_hash_set& a, const parallel_hash_set& b) { return !(a == b); }
-- 
2.43.0


From 0194879aeda1b924a5de61acb9ce7d5e0046921b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:05 +0000
Subject: [PATCH 07/33] fix: swap() of parallel containers must not deadlock

a.swap(b) and b.swap(a) in two threads took the same two mutexes in opposite orders,
and a.swap(a) took one mutex twice.
---
 include/gtl/phmap.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 34efc79..60914b9 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -4136,11 +4136,10 @@ public:
         std::is_nothrow_swappable_v<EmbeddedSet> &&
         (!AllocTraits::propagate_on_container_swap::value || std::is_nothrow_swappable_v<allocator_type>)) {
         using std::swap;
-        using Lockable2 = LockableImpl<Mtx2_>;
-
+        if (static_cast<const void*>(this) == static_cast<const void*>(&that))
+            return;
         for (size_t i = 0; i < num_tables; ++i) {
-            UniqueLock                     l(sets_[i]);
-            typename Lockable2::UniqueLock l2(that.get_inner(i));
+            std::scoped_lock l(sets_[i], that.get_inner(i)); // deadlock free, also against that.swap(*this)
             swap(sets_[i].set_, that.get_inner(i).set_);
         }
     }
-- 
2.43.0


From 1d0a1fd27ac9fdd389b0f2049dcac762e8befb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:05 +0000
Subject: [PATCH 08/33] fix: parallel emplace() with arguments the key cannot
 be deduced from

The overload hashed the slot before constructing it and did not compile.
---
 include/gtl/phmap.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 60914b9..9d6ee56 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3735,8 +3735,8 @@ public:
         Inner&                                                  inner = sets_[subidx(hashval)];
         auto&                                                   set   = inner.set_;
         UniqueLock                                              m(inner);
-        typename EmbeddedSet::template InsertSlotWithHash<true> f{ inner, std::move(*slot), hashval };
-        return make_rv(PolicyTraits::apply(f, elem));
+        typename EmbeddedSet::template InsertSlotWithHash<true> f{ set, std::move(*slot), hashval };
+        return make_rv(&inner, PolicyTraits::apply(std::move(f), elem));
     }
 
     template<class... Args>
@@ -3799,17 +3799,17 @@ public:
     template<class... Args, typename std::enable_if_t<!IsDecomposable<Args...>::value, int> = 0>
     std::pair<iterator, bool> emplace(Args&&... args) {
         typename gtl::aligned_storage_t<sizeof(slot_type), alignof(slot_type)> raw;
-        slot_type* slot    = reinterpret_cast<slot_type*>(&raw);
-        size_t     hashval = this->hash(PolicyTraits::key(slot));
+        slot_type* slot = reinterpret_cast<slot_type*>(&raw);
 
         PolicyTraits::construct(&alloc_ref(), slot, std::forward<Args>(args)...);
-        const auto& elem  = PolicyTraits::element(slot);
-        Inner&      inner = sets_[subidx(hashval)];
-        auto&       set   = inner.set_;
+        const auto& elem    = PolicyTraits::element(slot);
+        size_t      hashval = this->hash(PolicyTraits::key(slot));
+        Inner&      inner   = sets_[subidx(hashval)];
+        auto&       set     = inner.set_;
         UniqueLock  m(inner);
 
-        typename EmbeddedSet::template InsertSlotWithHash<true> f{ inner, std::move(*slot), hashval };
-        return make_rv(PolicyTraits::apply(f, elem));
+        typename EmbeddedSet::template InsertSlotWithHash<true> f{ set, std::move(*slot), hashval };
+        return make_rv(&inner, PolicyTraits::apply(std::move(f), elem));
     }
 
     template<class... Args>
-- 
2.43.0


From 7242b7962f2dbb4e59e8ac6521630b04cfe3d17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:05 +0000
Subject: [PATCH 09/33] fix: parallel insert(hint, node) did not compile

---
 include/gtl/phmap.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 9d6ee56..241bb0c 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3683,7 +3683,11 @@ public:
         return { make_iterator(&inner, res.position), res.inserted, res.inserted ? node_type() : std::move(res.node) };
     }
 
-    iterator insert(const_iterator, node_type&& node) { return insert(std::move(node)).first; }
+    iterator insert(const_iterator, node_type&& node) {
+        auto res = insert(std::move(node));
+        node     = std::move(res.node);
+        return res.position;
+    }
 
     struct ReturnKey_ {
         template<class Key, class... Args>
-- 
2.43.0


From d276a7f7f135f61d0175897377d8468658e3cd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:15 +0000
Subject: [PATCH 10/33] fix: parallel set emplace() with arguments the key
 cannot be deduced from

---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 241bb0c..70f0f2e 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3807,7 +3807,7 @@ public:
 
         PolicyTraits::construct(&alloc_ref(), slot, std::forward<Args>(args)...);
         const auto& elem    = PolicyTraits::element(slot);
-        size_t      hashval = this->hash(PolicyTraits::key(slot));
+        size_t      hashval = PolicyTraits::apply(HashElement{ hash_ref() }, elem);
         Inner&      inner   = sets_[subidx(hashval)];
         auto&       set     = inner.set_;
         UniqueLock  m(inner);
-- 
2.43.0


From c2288af2b7c511c8cf98272bf151ef37c4634866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:48 +0000
Subject: [PATCH 11/33] fix: emplace() must not leak its temporary when
 hashing, comparing or allocating throws

---
 include/gtl/phmap.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 70f0f2e..010c208 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2570,17 +2570,27 @@ private:
         size_t        hashval;
     };
 
+    // destroys a constructed slot unless it was given away, also when an exception passes
+    struct SlotGuard {
+        raw_hash_set& s;
+        slot_type*    slot;
+        ~SlotGuard() {
+            if (slot)
+                PolicyTraits::destroy(&s.alloc_ref(), slot);
+        }
+    };
+
     template<bool do_destroy>
     struct InsertSlot {
         template<class K, class... Args>
         std::pair<iterator, bool> operator()(const K& key, Args&&...) && {
+            SlotGuard guard{ s, do_destroy ? &slot : nullptr };
             size_t hashval = s.hash(key);
             auto   res     = s.find_or_prepare_insert(key, hashval);
             if (res.second) {
                 PolicyTraits::transfer(&s.alloc_ref(), s.slots_ + res.first, &slot);
+                guard.slot = nullptr;
                 s.commit_insert(res.first, hashval);
-            } else if (do_destroy) {
-                PolicyTraits::destroy(&s.alloc_ref(), &slot);
             }
             return { s.iterator_at(res.first), res.second };
         }
@@ -2593,12 +2603,12 @@ private:
     struct InsertSlotWithHash {
         template<class K, class... Args>
         std::pair<iterator, bool> operator()(const K& key, Args&&...) && {
+            SlotGuard guard{ s, do_destroy ? &slot : nullptr };
             auto res = s.find_or_prepare_insert(key, hashval);
             if (res.second) {
                 PolicyTraits::transfer(&s.alloc_ref(), s.slots_ + res.first, &slot);
+                guard.slot = nullptr;
                 s.commit_insert(res.first, hashval);
-            } else if (do_destroy) {
-                PolicyTraits::destroy(&s.alloc_ref(), &slot);
             }
             return { s.iterator_at(res.first), res.second };
         }
@@ -3807,10 +3817,12 @@ public:
 
         PolicyTraits::construct(&alloc_ref(), slot, std::forward<Args>(args)...);
         const auto& elem    = PolicyTraits::element(slot);
+        typename EmbeddedSet::SlotGuard guard{ sets_[0].set_, slot };
         size_t      hashval = PolicyTraits::apply(HashElement{ hash_ref() }, elem);
         Inner&      inner   = sets_[subidx(hashval)];
         auto&       set     = inner.set_;
         UniqueLock  m(inner);
+        guard.slot = nullptr; // now owned by f
 
         typename EmbeddedSet::template InsertSlotWithHash<true> f{ set, std::move(*slot), hashval };
         return make_rv(&inner, PolicyTraits::apply(std::move(f), elem));
-- 
2.43.0


From 355c8a934915b9bd74aba7dd1261fec1ba114ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:49 +0000
Subject: [PATCH 12/33] fix: vector storage for over-aligned element types

malloc does not honour an alignment above that of max_align_t, so a
vector of an over-aligned type placed its elements at misaligned
addresses. Use the allocator for such types.
---
 include/gtl/vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/vector.hpp b/include/gtl/vector.hpp
index 7c9c9de..7e20d91 100644
--- a/include/gtl/vector.hpp
+++ b/include/gtl/vector.hpp
@@ -147,7 +147,7 @@ private:
         // allocation
         // note that 'allocate' and 'deallocate' are inherited from Allocator
         T* D_allocate(size_type n) {
-            if constexpr (usingStdAllocator) {
+            if constexpr (usingStdAllocator && alignof(T) <= alignof(std::max_align_t)) {
                 return static_cast<T*>(checkedMalloc(n * sizeof(T)));
             } else {
                 return std::allocator_traits<Allocator>::allocate(*this, n);
@@ -155,7 +155,7 @@ private:
         }
 
         void D_deallocate(T* p, size_type n) noexcept {
-            if constexpr (usingStdAllocator) {
+            if constexpr (usingStdAllocator && alignof(T) <= alignof(std::max_align_t)) {
                 free(p);
             } else {
                 std::allocator_traits<Allocator>::deallocate(*this, p, n);
-- 
2.43.0


From 6d0b1e5004a17e5abb9b8acbedacde7ed0d4b867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:33 +0000
Subject: [PATCH 13/33] fix: bit_vector::resize(n, true) sets all the added
 bits

The added bits which share a slot with the last bits of the old vector
stayed zero.
---
 include/gtl/bit_vector.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index e435943..e6ec57c 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -75,11 +75,16 @@ constexpr vt   operator|(vt a, vt b) { return (vt)((vt_type)a | (vt_type)b); }
 template<class A>
 class storage {
 public:
-    storage(size_t num_bits = 0, bool val = false) { resize(num_bits, val); }
+    storage(size_t num_bits = 0, bool val = false)
+        : _sz(0) {
+        resize(num_bits, val);
+    }
     size_t size() const { return _s.size(); } // size in slots
 
     // -------------------------------------------------------------------------------
     void resize(size_t num_bits, bool val = false) {
+        if (val && num_bits > _sz && mod(_sz))
+            _s[slot(_sz)] |= himask(_sz); // new bits sharing the old last slot
         _sz              = num_bits;
         size_t num_slots = slot_cnt(num_bits);
         _s.resize(num_slots, val ? ones : 0);
-- 
2.43.0


From 15fa1111f54792fb90e6d11aca15977a4d92796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:33 +0000
Subject: [PATCH 14/33] fix: bit_view::find_first when the bit is in the last
 slot

visit() passes a negative shift for a partial last slot, so for a view not
starting at a slot boundary the position found there was too high, or the
bit was reported as missing.
---
 include/gtl/bit_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index e6ec57c..79641b6 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -686,6 +686,8 @@ public:
     size_t find_first() const {
         size_t idx = _first;
         _bv.storage().template visit<vt::view>(_first, _last, [&](uint64_t v, int shift) {
+            if (shift < 0)
+                shift = 0; // last slot, idx is already at its start
             if (v) {
                 idx += countr_zero(v) - shift; // we could use std::countr_zero in c++20
                 return true;                   // stop iterating
-- 
2.43.0


From 23139f95b7ef48b7e6e11fb1655b12258342da59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:33 +0000
Subject: [PATCH 15/33] fix: assigning an integer to a bit_view shifted by a
 negative amount

For a view crossing a slot boundary the value was shifted by a negative
count, which is undefined.
---
 include/gtl/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 79641b6..2497ede 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -536,7 +536,7 @@ public:
         // only works for view width <= 64 bits
         assert(size() <= stride);
         _bv.storage().template visit<vt::none>(
-            _first, _last, [val](uint64_t, int shl) { return shl >= 0 ? val << shl : val >> shl; });
+            _first, _last, [val](uint64_t, int shl) { return shl >= 0 ? val << shl : val >> ((int)stride + shl); });
         return *this;
     }
 
-- 
2.43.0


From 22afd7eeef4d70496f8ab0541e2060961bdcfb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:33 +0000
Subject: [PATCH 16/33] fix: bit_view::contains read past the end of a shorter
 view

The loop covered the whole of the longer view, and so went on reading
after the last bit of the shorter one.
---
 include/gtl/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 2497ede..7ac4f5e 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -633,7 +633,7 @@ public:
             return false;
         bool                     res = true;
         typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
-        _bv.storage().template visit<vt::view>(_first, _last, [&](uint64_t v, int) {
+        _bv.storage().template visit<vt::view>(_first, _first + o.size(), [&](uint64_t v, int) {
             if ((v | seq()) != v) {
                 res = false;
             }
-- 
2.43.0


From 96a2daf954cacc35c95a9cac726472cc542baa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:33 +0000
Subject: [PATCH 17/33] fix: bit_view assignment between views of the same
 bit_vector

operator= copied the destination over the source when the source lay
before the destination, and with overlapping views both it and the
compound assignments read bits they had already changed.
---
 include/gtl/bit_vector.hpp | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 7ac4f5e..dcab1bc 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -438,36 +438,42 @@ public:
     // compound assignment operators
     // -----------------------------
     template<class F>
-    _view& bin_assign(const _view& o, F&& f) noexcept {
+    _view& bin_assign(const _view& o, typename S::bit_sequence& seq, F&& f) {
         assert(size() == o.size());
-        (void)o;
-        _bv.storage().template visit<vt::none>(_first, _last, std::forward<F>(f));
+        if (&_bv == &o._bv && _first > o._first && _first < o._last) {
+            // updating front to back would change bits of o which have not been read yet, so use a copy of o
+            vec_type                 tmp(_bv);
+            typename S::bit_sequence tmp_seq(tmp.storage(), o._first, o._last, _first);
+            _bv.storage().template visit<vt::none>(_first, _last, [&](uint64_t a, int) { return f(a, tmp_seq()); });
+        } else {
+            _bv.storage().template visit<vt::none>(_first, _last, [&](uint64_t a, int) { return f(a, seq()); });
+        }
         return *this;
     }
 
     _view& operator|=(const _view& o) noexcept {
         typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
-        return bin_assign(o, [&](uint64_t a, size_t) { return a | seq(); });
+        return bin_assign(o, seq, [](uint64_t a, uint64_t b) { return a | b; });
     }
 
     _view& operator&=(const _view& o) noexcept {
         typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
-        return bin_assign(o, [&](uint64_t a, size_t) { return a & seq(); });
+        return bin_assign(o, seq, [](uint64_t a, uint64_t b) { return a & b; });
     }
 
     _view& operator^=(const _view& o) noexcept {
         typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
-        return bin_assign(o, [&](uint64_t a, size_t) { return a ^ seq(); });
+        return bin_assign(o, seq, [](uint64_t a, uint64_t b) { return a ^ b; });
     }
 
     _view& operator-=(const _view& o) noexcept {
         typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
-        return bin_assign(o, [&](uint64_t a, size_t) { return a & ~seq(); });
+        return bin_assign(o, seq, [](uint64_t a, uint64_t b) { return a & ~b; });
     }
 
     _view& or_not(const _view& o) noexcept {
         typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
-        return bin_assign(o, [&](uint64_t a, size_t) { return a | ~seq(); });
+        return bin_assign(o, seq, [](uint64_t a, uint64_t b) { return a | ~b; });
     }
 
     // shift operators. Zeroes are shifted in.
@@ -553,16 +559,8 @@ public:
     }
 
     _view& operator=(const _view& o) {
-        assert(size() == o.size());
-        if ((&_bv != &o._bv) || (_first < o._first) || (_first <= o._last)) {
-            typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
-            _bv.storage().template visit<vt::none>(_first, _last, [&](uint64_t, int) { return seq(); });
-        } else if (_first > o._first) {
-            // both views are on same bitmap, and we are copying backward with an overlap
-            typename S::bit_sequence seq(_bv.storage(), _first, _last, o._first);
-            o._bv.storage().template visit<vt::none>(o._first, o._last, [&](uint64_t, int) { return seq(); });
-        }
-        return *this;
+        typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
+        return bin_assign(o, seq, [](uint64_t, uint64_t b) { return b; });
     }
 
     // debug version, do not use (instead use operator=() above)
-- 
2.43.0


From a32cee5c1c9b4a0e3b5729e89f98ecdf7af3a4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:06 +0000
Subject: [PATCH 18/33] fix: lru_cache::get reordered its list under a shared
 lock

With a reader/writer mutex type, concurrent lookups in one shard spliced the
list while holding only the read lock; take the write lock as the list is
modified.
---
 include/gtl/lru_cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/lru_cache.hpp b/include/gtl/lru_cache.hpp
index bf9e4a1..60e1bc7 100644
--- a/include/gtl/lru_cache.hpp
+++ b/include/gtl/lru_cache.hpp
@@ -61,7 +61,7 @@ public:
     }
 
     std::optional<result_type> get(const K& k) {
-        if (result_type res; _cache.if_contains(k, [&](const auto& v, list_type& l) {
+        if (result_type res; _cache.modify_if(k, [&](auto& v, list_type& l) {
                 res = v.second->second;
                 l.splice(l.begin(), l, v.second);
             }))
-- 
2.43.0


From b09b24d377cf7d0e876d32133031150a0c1114a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:18 +0000
Subject: [PATCH 19/33] fix: assigning an intrusive_ptr of a related type did
 not compile

The self-assignment test compared pointers of different types; it is not
needed when the types differ.
---
 include/gtl/intrusive.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/gtl/intrusive.hpp b/include/gtl/intrusive.hpp
index 1d777a1..a45c25b 100644
--- a/include/gtl/intrusive.hpp
+++ b/include/gtl/intrusive.hpp
@@ -101,8 +101,7 @@ public:
 
     template<class U>
     intrusive_ptr& operator=(intrusive_ptr<U> const& rhs) {
-        if (this != &rhs)
-            this_type(rhs).swap(*this);
+        this_type(rhs).swap(*this);
         return *this;
     }
 
-- 
2.43.0


From b310dcd069316945714337c51165815a74e74da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:18 +0000
Subject: [PATCH 20/33] fix: middle of integers overflowed when l and r are far
 apart

r - l overflows for signed types (e.g. INT_MIN, INT_MAX), so binary_search
stopped at once.
---
 include/gtl/adv_utils.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/gtl/adv_utils.hpp b/include/gtl/adv_utils.hpp
index c414bbe..a689e29 100644
--- a/include/gtl/adv_utils.hpp
+++ b/include/gtl/adv_utils.hpp
@@ -77,8 +77,9 @@ struct middle {};
 template<std::integral T>
 struct middle<T> {
     std::optional<T> operator()(T l, T r) {
-        if (r - l > 1)
-            return std::midpoint(l, r);
+        T m = std::midpoint(l, r); // rounds towards l, so equal to l when l and r are adjacent (r - l could overflow)
+        if (m != l)
+            return m;
         return {};
     }
 };
-- 
2.43.0


From 9dda3372768cdd98c5e531241a199eba142e6457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:18 +0000
Subject: [PATCH 21/33] fix: middle of doubles did not work with negative
 values

The raw binary representation decreases for negative values, so binary_search
recursed for ever, and was compared across the sign as if -1 > 1.
---
 include/gtl/adv_utils.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/gtl/adv_utils.hpp b/include/gtl/adv_utils.hpp
index a689e29..4a157c7 100644
--- a/include/gtl/adv_utils.hpp
+++ b/include/gtl/adv_utils.hpp
@@ -11,6 +11,7 @@
 //      https://www.apache.org/licenses/LICENSE-2.0
 // ---------------------------------------------------------------------------
 
+#include <bit>
 #include <concepts>
 #include <cstdint>
 #include <numeric>
@@ -84,20 +85,27 @@ struct middle<T> {
     }
 };
 
-// Compare doubles using the binary representation
+// Compare doubles using the binary representation, mapped to an integer which
+// increases with the value (negative values too)
 // -----------------------------------------------
 template<is_double T>
 struct middle<T> {
     std::optional<T> operator()(T l, T r) {
-        uint64_t* il = reinterpret_cast<uint64_t*>(&l);
-        uint64_t* ir = reinterpret_cast<uint64_t*>(&r);
-        auto      m  = middle<uint64_t>()(*il, *ir);
-        if (m) {
-            uint64_t med = *m;
-            return *(T*)&med;
-        }
+        auto m = middle<uint64_t>()(to_ordered(l), to_ordered(r));
+        if (m)
+            return from_ordered(*m);
         return {};
     }
+
+private:
+    static constexpr uint64_t sign_bit = uint64_t(1) << 63;
+
+    static uint64_t to_ordered(T v) {
+        uint64_t i = std::bit_cast<uint64_t>(v);
+        return (i & sign_bit) ? ~i : (i | sign_bit);
+    }
+
+    static T from_ordered(uint64_t i) { return std::bit_cast<T>((i & sign_bit) ? (i & ~sign_bit) : ~i); }
 };
 
 } // namespace gtl
-- 
2.43.0


From 90bd715e9e10851d81f2c7a1bbf8381da1a1b42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:18 +0000
Subject: [PATCH 22/33] fix: adv_utils.hpp used assert without including
 <cassert>

---
 include/gtl/adv_utils.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/gtl/adv_utils.hpp b/include/gtl/adv_utils.hpp
index 4a157c7..5b67985 100644
--- a/include/gtl/adv_utils.hpp
+++ b/include/gtl/adv_utils.hpp
@@ -12,6 +12,7 @@
 // ---------------------------------------------------------------------------
 
 #include <bit>
+#include <cassert>
 #include <concepts>
 #include <cstdint>
 #include <numeric>
-- 
2.43.0


From 64febfc098372f3870ce7478672e486e01f43f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:15 +0000
Subject: [PATCH 23/33] fix: phmap_load keeps the container's hash function,
 equality and allocator

---
 include/gtl/phmap_dump.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap_dump.hpp b/include/gtl/phmap_dump.hpp
index e6193d8..fe81771 100644
--- a/include/gtl/phmap_dump.hpp
+++ b/include/gtl/phmap_dump.hpp
@@ -74,7 +74,8 @@ template<typename InputArchive>
 bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_load(InputArchive& ar) {
     static_assert(type_traits_internal::IsTriviallyCopyable<value_type>::value,
                   "value_type should be trivially copyable");
-    raw_hash_set<Policy, Hash, Eq, Alloc>().swap(*this); // clear any existing content
+    // clear any existing content, keeping our hash function, equality and allocator
+    raw_hash_set<Policy, Hash, Eq, Alloc>(0, hash_ref(), eq_ref(), alloc_ref()).swap(*this);
     size_t version = 0;
     ar.loadBinary(&version, sizeof(size_t));
     if (version <= s_version_base) {
-- 
2.43.0


From 1f64c5e347b93554e691aada57de70aff4778a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:47 +0000
Subject: [PATCH 24/33] fix: a moved-from hash container keeps a callable hash
 function and equality

---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 010c208..f611884 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1839,7 +1839,7 @@ public:
         // `that` must be left valid. If Hash is std::function<Key>, moving it
         // would create a nullptr functor that cannot be called.
         // -------------------------------------------------------------------
-        settings_(std::move(that.settings_)) {
+        settings_(that.settings_) {
         // growth_left was copied above, reset the one from `that`.
         that.growth_left() = 0;
     }
-- 
2.43.0


From 02bc4ecd51e42d8fa5a79ad3eaed17892b7456ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:47 +0000
Subject: [PATCH 25/33] fix: allocator-extended move of a hash container leaks
 when inserting an element throws

---
 include/gtl/phmap.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index f611884..54473fd 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1845,11 +1845,7 @@ public:
     }
 
     raw_hash_set(raw_hash_set&& that, const allocator_type& a)
-        : ctrl_(EmptyGroup<std_alloc_t>())
-        , slots_(nullptr)
-        , size_(0)
-        , capacity_(0)
-        , settings_(0, that.hash_ref(), that.eq_ref(), a) {
+        : raw_hash_set(0, that.hash_ref(), that.eq_ref(), a) { // delegate, so that we are destroyed if an insertion throws
         if (a == that.alloc_ref()) {
             std::swap(ctrl_, that.ctrl_);
             std::swap(slots_, that.slots_);
-- 
2.43.0


From 3fafc72cc4427ec55cea10d7829be32e4c92e066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:47 +0000
Subject: [PATCH 26/33] fix: node containers leak the node when constructing
 its value throws

---
 include/gtl/phmap.hpp | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 54473fd..c905e8b 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -4818,6 +4818,27 @@ struct FlatHashMapPolicy {
     static const V& value(const std::pair<const K, V>* kv) { return kv->second; }
 };
 
+// Memory for one node, given back unless released (when constructing its value throws)
+template<class ValueAlloc>
+struct NodeMemory {
+    using Traits = std::allocator_traits<ValueAlloc>;
+    using T      = typename Traits::value_type;
+
+    explicit NodeMemory(ValueAlloc& a)
+        : alloc(a)
+        , node(Traits::allocate(a, 1)) {}
+    ~NodeMemory() {
+        if (node)
+            Traits::deallocate(alloc, node, 1);
+    }
+    NodeMemory(const NodeMemory&)            = delete;
+    NodeMemory& operator=(const NodeMemory&) = delete;
+    T*          release() { return std::exchange(node, nullptr); }
+
+    ValueAlloc& alloc;
+    T*          node;
+};
+
 template<class Reference, class Policy>
 struct node_hash_policy {
     static_assert(std::is_lvalue_reference_v<Reference>, "");
@@ -4870,10 +4891,10 @@ struct NodeHashSetPolicy : gtl::priv::node_hash_policy<T&, NodeHashSetPolicy<T>>
     template<class Allocator, class... Args>
     static T* new_element(Allocator* alloc, Args&&... args) {
         using ValueAlloc = typename std::allocator_traits<Allocator>::template rebind_alloc<T>;
-        ValueAlloc value_alloc(*alloc);
-        T*         res = std::allocator_traits<ValueAlloc>::allocate(value_alloc, 1);
-        std::allocator_traits<ValueAlloc>::construct(value_alloc, res, std::forward<Args>(args)...);
-        return res;
+        ValueAlloc             value_alloc(*alloc);
+        NodeMemory<ValueAlloc> mem(value_alloc);
+        std::allocator_traits<ValueAlloc>::construct(value_alloc, mem.node, std::forward<Args>(args)...);
+        return mem.release();
     }
 
     template<class Allocator>
@@ -4909,10 +4930,10 @@ public:
     template<class Allocator, class... Args>
     static value_type* new_element(Allocator* alloc, Args&&... args) {
         using PairAlloc = typename std::allocator_traits<Allocator>::template rebind_alloc<value_type>;
-        PairAlloc   pair_alloc(*alloc);
-        value_type* res = std::allocator_traits<PairAlloc>::allocate(pair_alloc, 1);
-        std::allocator_traits<PairAlloc>::construct(pair_alloc, res, std::forward<Args>(args)...);
-        return res;
+        PairAlloc             pair_alloc(*alloc);
+        NodeMemory<PairAlloc> mem(pair_alloc);
+        std::allocator_traits<PairAlloc>::construct(pair_alloc, mem.node, std::forward<Args>(args)...);
+        return mem.release();
     }
 
     template<class Allocator>
-- 
2.43.0


From f4707eac8c025a245489e647deac8eb0740fe581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:09 +0000
Subject: [PATCH 27/33] fix: assignment that propagates the allocator kept the
 old one when swap does not propagate

---
 include/gtl/phmap.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index c905e8b..7447774 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1865,7 +1865,7 @@ public:
     raw_hash_set& operator=(const raw_hash_set& that) {
         raw_hash_set tmp(that,
                          AllocTraits::propagate_on_container_copy_assignment::value ? that.alloc_ref() : alloc_ref());
-        swap(tmp);
+        swap_storage<AllocTraits::propagate_on_container_copy_assignment::value>(tmp);
         return *this;
     }
 
@@ -2829,10 +2829,21 @@ private:
         }
     }
 
+    // An assignment that propagates the allocator takes it over together with the storage it
+    // allocated, whatever propagate_on_container_swap says.
+    template<bool propagate>
+    void swap_storage(raw_hash_set& that) {
+        swap(that);
+        if constexpr (propagate && !AllocTraits::propagate_on_container_swap::value) {
+            using std::swap;
+            swap(alloc_ref(), that.alloc_ref());
+        }
+    }
+
     // TODO(alkis): Optimize this assuming *this and that don't overlap.
     raw_hash_set& move_assign(raw_hash_set&& that, std::true_type) {
         raw_hash_set tmp(std::move(that));
-        swap(tmp);
+        swap_storage<true>(tmp);
         return *this;
     }
     raw_hash_set& move_assign(raw_hash_set&& that, std::false_type) {
-- 
2.43.0


From 88149a0a26dd749d03e9acc6436d9b5f30d293ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:09 +0000
Subject: [PATCH 28/33] fix: a move-constructed parallel container lost its
 allocator when moves do not propagate it

---
 include/gtl/phmap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 7447774..5b1b46a 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3547,7 +3547,8 @@ public:
                                                          std::is_nothrow_copy_constructible_v<allocator_type>)
         : parallel_hash_set(std::move(that), that.alloc_ref()) {}
 
-    parallel_hash_set(parallel_hash_set&& that, const allocator_type& a) {
+    parallel_hash_set(parallel_hash_set&& that, const allocator_type& a)
+        : parallel_hash_set(0, that.hash_ref(), that.eq_ref(), a) {
         for (size_t i = 0; i < num_tables; ++i)
             sets_[i].set_ = { std::move(that.sets_[i]).set_, a };
     }
-- 
2.43.0


From 749ba96c24c13fcafe9a029f6f0048eb62e61c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:09 +0000
Subject: [PATCH 29/33] fix: parallel merge put elements in the wrong submap
 when the hash functions differ in state

---
 include/gtl/phmap.hpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 5b1b46a..322f520 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2840,6 +2840,23 @@ private:
         }
     }
 
+    // Merges those elements of `src` whose hash, using our hash function, satisfies `pred`. Returns
+    // whether all of them did.
+    template<typename H, typename E, typename Pred>
+    bool merge_if(raw_hash_set<Policy, H, E, Alloc>& src, Pred&& pred) {
+        bool all = true;
+        for (auto it = src.begin(), e = src.end(); it != e; ++it) {
+            size_t hashval = PolicyTraits::apply(HashElement{ hash_ref() }, PolicyTraits::element(it.slot_));
+            if (!pred(hashval))
+                all = false;
+            else if (PolicyTraits::apply(InsertSlotWithHash<false>{ *this, std::move(*it.slot_), hashval },
+                                         PolicyTraits::element(it.slot_))
+                         .second)
+                src.erase_meta_only(it);
+        }
+        return all;
+    }
+
     // TODO(alkis): Optimize this assuming *this and that don't overlap.
     raw_hash_set& move_assign(raw_hash_set&& that, std::true_type) {
         raw_hash_set tmp(std::move(that));
@@ -4134,8 +4151,14 @@ public:
         assert(this != &src);
         if (this != &src) {
             for (size_t i = 0; i < num_tables; ++i) {
-                typename Lockable::UniqueLocks l(sets_[i], src.sets_[i]);
-                sets_[i].set_.merge(src.sets_[i].set_);
+                // with the same hash function everything in src.sets_[i] belongs in sets_[i], but our
+                // hash function (a seeded one, say) may send elements elsewhere
+                bool others = true;
+                for (size_t k = 0; others && k < num_tables; ++k) {
+                    const size_t                   j = (i + k) & mask;
+                    typename Lockable::UniqueLocks l(sets_[j], src.sets_[i]);
+                    others = !sets_[j].set_.merge_if(src.sets_[i].set_, [&](size_t hashval) { return subidx(hashval) == j; });
+                }
             }
         }
     }
-- 
2.43.0


From 354efdd4ba474b85ae0538884db22f813e847764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:03 +0000
Subject: [PATCH 30/33] fix: slice() drops the last element when the stride
 does not divide the range

Python's slicing (which slice() implements) yields the elements at first, first + stride, ... before last;
the count was rounded down, so that slice(v, 0, 5, 2) lacked the element at 4.
---
 include/gtl/vec_utils.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/gtl/vec_utils.hpp b/include/gtl/vec_utils.hpp
index 968e36b..6d9bbc8 100644
--- a/include/gtl/vec_utils.hpp
+++ b/include/gtl/vec_utils.hpp
@@ -51,10 +51,10 @@ auto slice(V&& v, int first = 0, int last = -1, int stride = 1) {
         (first >= 0 ? std::begin(std::forward<V>(v)) + first : std::end(std::forward<V>(v)) + (first + 1));
     auto last_iter = (last >= 0 ? std::begin(std::forward<V>(v)) + last : std::end(std::forward<V>(v)) + (last + 1));
     if (last_iter > first_iter) {
-        std::size_t cnt = (last_iter - first_iter) / stride;
+        std::size_t cnt = (last_iter - first_iter + stride - 1) / stride; // the last stride may be a partial one
         res.reserve(cnt);
-        for (; cnt-- != 0; first_iter += stride)
-            res.push_back(*first_iter);
+        for (std::size_t i = 0; i < cnt; ++i)
+            res.push_back(first_iter[i * stride]);
     }
     return res;
 }
-- 
2.43.0


From 3a79dd5baecbbca51df3c2db79b47a01419d40c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:04 +0000
Subject: [PATCH 31/33] fix: vector::emplace in the middle of spare capacity
 used an argument after moving it away

An argument referring to an element of the vector itself was read after the
elements had been shifted to make room, so the wrong value was inserted.
---
 include/gtl/vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/vector.hpp b/include/gtl/vector.hpp
index 7e20d91..a996fad 100644
--- a/include/gtl/vector.hpp
+++ b/include/gtl/vector.hpp
@@ -1465,8 +1465,8 @@ public:
         return do_real_insert(
             cpos,
             1,
-            [&] { return false; },
-            [&] { return iterator{}; },
+            [&] { return true; }, // args may refer to elements which are about to be moved
+            [&] { return insert(cpos, T(std::forward<Args>(args)...)); },
             [&](iterator start) { M_construct(start, std::forward<Args>(args)...); },
             [&](iterator start) { M_destroy(start); });
     }
-- 
2.43.0


From dce75c71a6789f1f9f301f7c5bbd77a6d0ed6184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:07 +0000
Subject: [PATCH 32/33] fix: bit_vector::resize(n, true) of a moved-from vector
 wrote out of bounds

---
 include/gtl/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index dcab1bc..5195f91 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -83,7 +83,7 @@ public:
 
     // -------------------------------------------------------------------------------
     void resize(size_t num_bits, bool val = false) {
-        if (val && num_bits > _sz && mod(_sz))
+        if (val && num_bits > _sz && mod(_sz) && slot(_sz) < _s.size()) // (not so after a move)
             _s[slot(_sz)] |= himask(_sz); // new bits sharing the old last slot
         _sz              = num_bits;
         size_t num_slots = slot_cnt(num_bits);
-- 
2.43.0


From 9b724d7680394db863d8652747c055d5476d074c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:58 +0000
Subject: [PATCH 33/33] fix: comparing two parallel containers in opposite
 directions could deadlock with fair shared mutexes

---
 include/gtl/phmap.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 322f520..15e243a 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -496,8 +496,11 @@ public:
         explicit ReadLocks(mutex_type& m1, mutex_type& m2)
             : _m1(m1)
             , _m2(m2) {
-            _m1.lock_shared();
-            _m2.lock_shared();
+            // always in the same order: a waiting writer may keep new readers out, so two threads locking
+            // the same pair in opposite orders could end up waiting for each other
+            const bool swapped = std::less<const mutex_type*>()(&m2, &m1);
+            (swapped ? m2 : m1).lock_shared();
+            (swapped ? m1 : m2).lock_shared();
         }
 
         ReadLocks(adopt_lock_t, mutex_type& m1, mutex_type& m2)
-- 
2.43.0

