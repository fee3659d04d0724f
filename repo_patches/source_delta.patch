From eefcd90b015bba4e4bf0046ceac44b7de04b4487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 01/36] fix: set and map upper_bound and equal_range with an
 absent key

The bound was stepped past the lower bound even if the key there was
already greater than the searched one.
---
 ttl/map.hpp | 20 +++++---------------
 ttl/set.hpp | 20 +++++---------------
 2 files changed, 10 insertions(+), 30 deletions(-)

diff --git a/ttl/map.hpp b/ttl/map.hpp
index 1a52ced..1f63cb9 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -230,7 +230,7 @@ namespace ttl
       //
       // The map template has unique keys (so all ranges are either empty or
       // 1 element long), so the amount of generated template code can be
-      // reduced by using only find and lower_bound. 
+      // reduced by using only find, lower_bound and upper_bound.
       //
 
       iterator find(const KT &key) { return iterator(rbtree_.find(key)); }
@@ -273,18 +273,12 @@ namespace ttl
    template<typename KT, typename T, typename Compare>
    typename map<KT,T,Compare>::iterator map<KT,T,Compare>::upper_bound(const KT &key)
    {
-      node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return iterator(static_cast<node_type *>(rbtree_base::next_node(lo)));
+      return iterator(rbtree_.upper_bound(key));
    }
    template<typename KT, typename T, typename Compare>
    typename map<KT,T,Compare>::const_iterator map<KT,T,Compare>::upper_bound(const KT &key) const
    {
-      const node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return const_iterator(static_cast<const node_type *>(rbtree_base::next_node(lo)));
+      return const_iterator(rbtree_.upper_bound(key));
    }
 
    template<typename KT, typename T, typename Compare>
@@ -292,9 +286,7 @@ namespace ttl
    map<KT,T,Compare>::equal_range(const KT &key)
    {
       node_type *lo = rbtree_.lower_bound(key);
-      node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<node_type *>(rbtree_base::next_node(lo));
+      node_type *up = rbtree_.upper_bound(key);
       return pair<iterator, iterator>(iterator(lo), iterator(up));
    }
    template<typename KT, typename T, typename Compare>
@@ -302,9 +294,7 @@ namespace ttl
    map<KT,T,Compare>::equal_range(const KT &key) const
    {
       const node_type *lo = rbtree_.lower_bound(key);
-      const node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<const node_type *>(rbtree_base::next_node(lo));
+      const node_type *up = rbtree_.upper_bound(key);
       return pair<const_iterator, const_iterator>(const_iterator(lo), const_iterator(up));
    }
 
diff --git a/ttl/set.hpp b/ttl/set.hpp
index a989355..6941205 100644
--- a/ttl/set.hpp
+++ b/ttl/set.hpp
@@ -207,7 +207,7 @@ namespace ttl
       //
       // The set template has unique keys (so all ranges are either empty or
       // 1 element long), so the amount of generated template code can be
-      // reduced by using only find and lower_bound. 
+      // reduced by using only find, lower_bound and upper_bound.
       //
 
       iterator find(const KT &key) { return iterator(rbtree_.find(key)); }
@@ -250,18 +250,12 @@ namespace ttl
    template<typename KT, typename Compare>
    typename set<KT,Compare>::iterator set<KT,Compare>::upper_bound(const KT &key)
    {
-      node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return iterator(static_cast<node_type *>(rbtree_base::next_node(lo)));
+      return iterator(rbtree_.upper_bound(key));
    }
    template<typename KT, typename Compare>
    typename set<KT,Compare>::const_iterator set<KT,Compare>::upper_bound(const KT &key) const
    {
-      const node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return const_iterator(static_cast<const node_type *>(rbtree_base::next_node(lo)));
+      return const_iterator(rbtree_.upper_bound(key));
    }
 
    template<typename KT, typename Compare>
@@ -269,9 +263,7 @@ namespace ttl
    set<KT,Compare>::equal_range(const KT &key)
    {
       node_type *lo = rbtree_.lower_bound(key);
-      node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<node_type *>(rbtree_base::next_node(lo));
+      node_type *up = rbtree_.upper_bound(key);
       return pair<iterator, iterator>(iterator(lo), iterator(up));
    }
    template<typename KT, typename Compare>
@@ -279,9 +271,7 @@ namespace ttl
    set<KT,Compare>::equal_range(const KT &key) const
    {
       const node_type *lo = rbtree_.lower_bound(key);
-      const node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<const node_type *>(rbtree_base::next_node(lo));
+      const node_type *up = rbtree_.upper_bound(key);
       return pair<const_iterator, const_iterator>(const_iterator(lo), const_iterator(up));
    }
 
-- 
2.43.0


From 94264f9b3b68903e32a4d819e6e4f47ec1e9ab5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 02/36] fix: rbtree::count missed equal keys in right subtrees

Equal keys can be on both sides of each other after rotations, count all
of them by walking from the lower to the upper bound.
---
 ttl/rbtree.hpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index addb86a..0edd531 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -350,20 +350,10 @@ namespace ttl
    template <class K, class KV, class KeyOfValue, class Compare>
    size_t rbtree<K,KV,KeyOfValue,Compare>::count(const K &key) const
    {
-      const rbnode *n = root_();
+      const rbnode *n = lower_bound(key), *last = upper_bound(key);
       size_t c = 0;
-      while (n)
-      {
-         const K &nkey = keyof_(static_cast<const node *>(n)->data);
-         if (is_less_(nkey, key))
-            n = n->right;
-         else
-         {
-            if (nkey == key)
-               ++c;
-            n = n->left;
-         }
-      }
+      for (; n != last; n = next_node(n))
+         ++c;
       return c;
    }
 
-- 
2.43.0


From bd7ed3276b4e6f8288f670cf26783a7875b6746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 03/36] fix: rbtree::remove lost a node if the keys were
 duplicated

After move_right rotated the tree, the new root can have a key equal to the
removed one while its right child has a right-leaning red link, which
delete_min does not expect: the child of the deleted minimum was dropped.
Continue with the pivot in the right subtree (just as it happens with the
unique keys).
---
 ttl/rbtree.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index 0edd531..dca0fae 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -482,8 +482,13 @@ namespace ttl
             }
             if ((*root)->right && !is_red((*root)->right) && !is_red((*root)->right->left))
             {
+               rbnode *pivot = *root;
                *root = move_right(*root);
-               isless = is_less_(key, keyof_(static_cast<const node *>(*root)->data));
+               if (*root != pivot) // rotated: the pivot is in the right subtree now
+               {
+                  root = &(*root)->right;
+                  continue;
+               }
             }
             if (key == keyof_(static_cast<const node *>(*root)->data))
             {
-- 
2.43.0


From 405a83f92661134810ba5c5829b30e63ca9b7b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 04/36] fix: self-assignment of set, map and rbtree lost all
 elements

---
 ttl/map.hpp    | 1 -
 ttl/rbtree.hpp | 2 ++
 ttl/set.hpp    | 1 -
 3 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttl/map.hpp b/ttl/map.hpp
index 1f63cb9..6dd0c20 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -181,7 +181,6 @@ namespace ttl
 
       map &operator=(const map &other)
       {
-         clear();
          rbtree_.assign(other.rbtree_);
          return *this;
       }
diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index dca0fae..5fba30b 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -332,6 +332,8 @@ namespace ttl
    template <class K, class KV, class KeyOfValue, class Compare>
    void rbtree<K,KV,KeyOfValue,Compare>::assign(const rbtree &other)
    {
+      if (this == &other)
+         return;
       if (root_())
          clear();
       const node *otherroot = other.get_root();
diff --git a/ttl/set.hpp b/ttl/set.hpp
index 6941205..ad504ea 100644
--- a/ttl/set.hpp
+++ b/ttl/set.hpp
@@ -169,7 +169,6 @@ namespace ttl
 
       set &operator=(const set &other)
       {
-         clear();
          rbtree_.assign(other.rbtree_);
          return *this;
       }
-- 
2.43.0


From d0a2f81806bbc297eea5132f3528aacce4cc833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 05/36] fix: vector::reserve reallocated the storage if the
 capacity was exactly enough

---
 ttl/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index fc42799..ab990c0 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -234,7 +234,7 @@ namespace ttl
    template<typename T>
    void vector<T>::reserve(size_type n)
    {
-      if (elements_ + n < end_of_elements_)
+      if (n <= capacity())
          return;
       T *newelements = static_cast<T *>(::operator new(n * sizeof(T)));
       T *o = newelements, *i = elements_;
-- 
2.43.0


From 48992c3365cab3604e701c7bdd0cc5fb6cc2c628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 06/36] fix: vector and fixed_vector erase of an empty range

The elements after the range were copy constructed over themselves and
then destroyed.
---
 ttl/fixed_vector.hpp | 2 ++
 ttl/vector.hpp       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 61099fe..b5f991c 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -264,6 +264,8 @@ namespace ttl
    {
       difference_type off = first - begin();
       difference_type lastoff = last - begin();
+      if (off == lastoff)
+         return begin() + off;
       for (T *f = elements() + off, *l = elements() + lastoff; f != l;)
          (--l)->~T();
       T *o = elements() + off;
diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index ab990c0..e8b5895 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -305,6 +305,8 @@ namespace ttl
    {
       difference_type off = first - begin();
       difference_type lastoff = last - begin();
+      if (off == lastoff)
+         return begin() + off;
       for (T *f = elements_ + off, *l = elements_ + lastoff; f != l;)
          (--l)->~T();
       T *o = elements_ + off;
-- 
2.43.0


From 4bb022b00297ea86ccd1fd70f0df8f450ab8db34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 07/36] fix: insertion of an own element into vector and
 fixed_vector

The value was read after the elements behind the insert position were moved.
---
 ttl/fixed_vector.hpp | 5 +++++
 ttl/vector.hpp       | 9 +++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index b5f991c..0f45f51 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -199,6 +199,11 @@ namespace ttl
    typename fixed_vector<T,N>::iterator fixed_vector<T,N>::insert(const_iterator pos, size_type n, const value_type &x)
    {
       difference_type dist = pos - cbegin();
+      if (pos <= &x && &x < cend()) // x is moved with the elements after pos
+      {
+         value_type copy(x);
+         return insert(pos, n, copy);
+      }
       if (n)
       {
          T *o;
diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index e8b5895..c054750 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -121,14 +121,19 @@ namespace ttl
 
       iterator insert(const_iterator pos, size_type n, const value_type &x)
       {
+         if (pos <= &x && &x < cend()) // x is moved with the elements after pos
+         {
+            value_type copy(x);
+            vc_counter_args args(copy);
+            return insert_values(pos, n, &ttl::vector<T>::vc_counter, args);
+         }
          vc_counter_args args(x);
          return insert_values(pos, n, &ttl::vector<T>::vc_counter, args);
       }
 
       iterator insert(const_iterator pos, const value_type &x)
       {
-         vc_counter_args args(x);
-         return insert_values(pos, 1, &ttl::vector<T>::vc_counter, args);
+         return insert(pos, (size_type)1, x);
       }
 
       template<typename InputIterator>
-- 
2.43.0


From 7ceb798295ff074a39329741b5e854d4592a06fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 08/36] fix: fixed_vector::insert with a count too large for
 the pointer arithmetics

---
 ttl/fixed_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 0f45f51..a14650e 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -204,6 +204,8 @@ namespace ttl
          value_type copy(x);
          return insert(pos, n, copy);
       }
+      if (n > max_size() - dist)
+         n = max_size() - dist;
       if (n)
       {
          T *o;
-- 
2.43.0


From 18959411cd44581e10f3183d8f2384b69f5dea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 09/36] fix: fixed_vector::swap with a shorter vector

---
 ttl/fixed_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index a14650e..1830edc 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -291,7 +291,7 @@ namespace ttl
       const bool this_a = this->size() < x.size();
       fixed_vector &a = this_a ? *this: x;
       fixed_vector &b = this_a ? x: *this;
-      size_type minsiz = this_a ? a.size(): b.size();
+      size_type minsiz = a.size();
       ttl::swap_ranges(a.elements(), a.elements() + minsiz, b.elements());
       T *e = b.elements() + minsiz;
       while (e < b.last_)
-- 
2.43.0


From 56a1034c6af1196f3e04d90475e2429e6672fe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 10/36] fix: self-assignment of vector and fixed_vector lost
 all elements

---
 ttl/fixed_vector.hpp | 2 ++
 ttl/vector.hpp       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 1830edc..22d92d5 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -167,6 +167,8 @@ namespace ttl
    template<typename T, const unsigned int N>
    fixed_vector<T,N> &fixed_vector<T,N>::operator=(const fixed_vector &other)
    {
+      if (this == &other)
+         return *this;
       clear();
       for (const_iterator i = other.cbegin(); i != other.cend(); ++i)
          ::new(last_++) T(*i);
diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index c054750..a6c0f94 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -213,6 +213,8 @@ namespace ttl
    template<typename T>
    vector<T> &vector<T>::operator=(const vector &other)
    {
+      if (this == &other)
+         return *this;
       clear();
       reserve(other.capacity());
       for (const_iterator i = other.cbegin(); i != other.cend(); ++i)
-- 
2.43.0


From 50b0fc0f5e847ac7a704e7e76006a2011804ebd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 11/36] fix: list::clear left the list head pointing back to a
 deleted node

---
 ttl/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 565cdc5..b52316a 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -401,7 +401,7 @@ namespace ttl
       while (head_.next != &head_)
       {
          node *p = static_cast<node *>(head_.next);
-         head_.next = head_.next->next;
+         p->unlink();
          delete p;
       }
    }
-- 
2.43.0


From a1b35eba0dc3bca6d4ea32cb9c6bbbdaa882fba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 12/36] fix: list::resize to zero did not remove the elements

---
 ttl/list.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index b52316a..cf742b5 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -362,6 +362,8 @@ namespace ttl
    {
       size_type siz = 0;
       list_node *p;
+      if (!newsize)
+         clear();
       for (p = head_.next; p != &head_; p = p->next)
          if (++siz == newsize)
          {
@@ -381,6 +383,8 @@ namespace ttl
    {
       size_type siz = 0;
       list_node *p;
+      if (!newsize)
+         clear();
       for (p = head_.next; p != &head_; p = p->next)
          if (++siz == newsize)
          {
-- 
2.43.0


From b500fb6578c81b50ab348bc68843ceac0e0df896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 13/36] fix: list::resize left the new elements of the basic
 types uninitialized

---
 ttl/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index cf742b5..0b7ba34 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -124,7 +124,7 @@ namespace ttl
       struct node: list_node
       {
          T value;
-         node() {}
+         node(): value() {}
          node(const T &v): value(v) {}
       };
       list_node head_;
-- 
2.43.0


From 484d5352b57be55b76a323b31cd9f0687bf7da9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 14/36] fix: list::erase of an empty range destroyed the list

---
 ttl/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 0b7ba34..a958e21 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -413,6 +413,8 @@ namespace ttl
    typename list<T>::iterator list<T>::erase(const_iterator pos, const_iterator last)
    {
       list_node *p = const_cast<list_node *>(pos.head_);
+      if (p == last.head_)
+         return iterator(p);
       while (p->next != last.head_)
       {
          node *next = static_cast<node *>(p->next);
-- 
2.43.0


From e48655e7ab80431caae10399ac667063bcc84742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 15/36] fix: list::splice of empty lists and ranges and in
 front of the range's end

The links were set up as if there were always an element to move from
somewhere else, which corrupted both lists. It also affected merge of the list
with itself.
---
 ttl/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index a958e21..d1652e0 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -35,6 +35,8 @@ namespace ttl
 
       void splice(list_node *first, list_node *last)
       {
+         if (first == last || this == last)
+            return; // nothing to move, or already in place
          last->prev->next = this;
          first->prev->next = last;
          this->prev->next = first;
-- 
2.43.0


From 2101b34e39922be8ac3cb85ccd074c39d447162e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 16/36] fix: list::remove used the value after it was deleted
 as an element of the list

---
 ttl/list.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index d1652e0..2b7a754 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -429,11 +429,12 @@ namespace ttl
    template<typename T>
    void list<T>::remove(const T &value)
    {
+      list removed; // the value can be one of the elements, so they are deleted last
       for (list_node *p = head_.next, *n = p->next; p != &head_; p = n, n = n->next)
          if (static_cast<const node *>(p)->value == value)
          {
             p->unlink();
-            delete static_cast<node *>(p);
+            removed.head_.insert_before(p);
          }
    }
    template<typename T>
-- 
2.43.0


From dcdd3b302e67c0511f7e5ad55d4c86e9f3be4f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 17/36] fix: self-assignment of list, forward_list,
 backward_list and lazy_queue lost all elements

---
 ttl/backward_list.hpp | 2 ++
 ttl/forward_list.hpp  | 2 ++
 ttl/lazy_queue.hpp    | 2 ++
 ttl/list.hpp          | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index f46213f..d70acf2 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -120,6 +120,8 @@ namespace ttl
 
       backward_list &operator=(const backward_list &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
diff --git a/ttl/forward_list.hpp b/ttl/forward_list.hpp
index df44e9a..86615ac 100644
--- a/ttl/forward_list.hpp
+++ b/ttl/forward_list.hpp
@@ -108,6 +108,8 @@ namespace ttl
 
       forward_list &operator=(const forward_list &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index 446ccec..b9712cb 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -144,6 +144,8 @@ namespace ttl
 
       lazy_queue &operator=(const lazy_queue &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
diff --git a/ttl/list.hpp b/ttl/list.hpp
index 2b7a754..83fd6ed 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -211,6 +211,8 @@ namespace ttl
 
       list &operator=(const list &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert(begin(), other.cbegin(), other.cend());
          return *this;
-- 
2.43.0


From edcefb9afff9bd63777cb2ab150da769c3ae77eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 18/36] fix: forward_list::splice_after of empty lists and
 ranges and of elements already in place

---
 ttl/slist_node.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/slist_node.hpp b/ttl/slist_node.hpp
index 1c9b74a..1ef0e93 100644
--- a/ttl/slist_node.hpp
+++ b/ttl/slist_node.hpp
@@ -30,12 +30,16 @@ namespace ttl
       void splice_after(slist_node *o)
       {
          slist_node *n = o->next;
+         if (n == this)
+            return; // already in place
          o->next = n->next;
          n->next = next;
          next = n;
       }
       void splice_after(slist_node *f, slist_node *l)
       {
+         if (this == f || f->next == l)
+            return; // already in place, or nothing to move
          slist_node *n = next;
          next = f->next;
          slist_node *o = f;
-- 
2.43.0


From fdb77e03e7df501588f88cc7caf3bb900cbe4770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 19/36] fix: backward_list tail after insertion of a range at
 the end

---
 ttl/backward_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index d70acf2..d308309 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -268,7 +268,7 @@ namespace ttl
       for ( ; first != last; ++first)
          p = p->insert_after(new node(*first));
       if (pn == tail_)
-         tail_ = pn;
+         tail_ = p;
    }
    template<typename T>
    void backward_list<T>::clear()
-- 
2.43.0


From 3c678f98b5229a4b87f680c74f533c805f129cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 20/36] fix: backward_list tail after pop_front of the last
 element

---
 ttl/backward_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index d308309..ba290f3 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -175,7 +175,7 @@ namespace ttl
       void pop_front()
       {
          delete static_cast<node *>(head_.unlink_next());
-         if (empty())
+         if (!head_.next)
             tail_ = &head_;
       }
 
-- 
2.43.0


From 3b2e930d61dde3f9fbbb2b92940fb27e5f830536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 21/36] fix: backward_list and lazy_queue tail after swap with
 an empty container

---
 ttl/backward_list.hpp | 4 ++++
 ttl/lazy_queue.hpp    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index ba290f3..517ad34 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -221,6 +221,10 @@ namespace ttl
       {
          ttl::swap(head_.next, other.head_.next);
          ttl::swap(tail_, other.tail_);
+         if (!head_.next)
+            tail_ = &head_;
+         if (!other.head_.next)
+            other.tail_ = &other.head_;
       }
 
       void clear();
diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index b9712cb..a995462 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -209,6 +209,10 @@ namespace ttl
       {
          ttl::swap(head_.next, other.head_.next);
          ttl::swap(tail_, other.tail_);
+         if (!head_.next)
+            tail_ = &head_;
+         if (!other.head_.next)
+            other.tail_ = &other.head_;
       }
 
       void clear();
-- 
2.43.0


From 21de2cfcfbe7eb40fc3348dd1c4812d7b1bebd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 22/36] fix: backward_list tail after reverse of an empty list

---
 ttl/backward_list.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index 517ad34..bedfefe 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -294,7 +294,8 @@ namespace ttl
    template<typename T>
    void backward_list<T>::reverse()
    {
-      tail_ = head_.next;
+      if (head_.next)
+         tail_ = head_.next;
       head_.reverse();
    }
 #if TODO
-- 
2.43.0


From 47a0c142b32d9b571117915cd3e9feb84af9f393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 23/36] fix: lazy_queue::cleanup destroyed the elements of
 unused nodes once more

---
 ttl/lazy_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index a995462..ecbf7ff 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -139,7 +139,7 @@ namespace ttl
       void cleanup()
       {
          while (dead_.next)
-            ::delete(static_cast<node *>(dead_.unlink_next()));
+            ::operator delete(static_cast<node *>(dead_.unlink_next()));
       }
 
       lazy_queue &operator=(const lazy_queue &other)
-- 
2.43.0


From f65ef865e1d6564902d5ab254c39dbd31fd2fe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 24/36] fix: list::swap of two empty lists left one pointing to
 the other

---
 ttl/list.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 83fd6ed..5f2b172 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -78,6 +78,8 @@ namespace ttl
                t = a, a = b, b = t; // swap
             }
          }
+         if (b == b->next)
+            return; // both are empty
          a->prev = b->prev;
          a->next = b->next;
          b->prev->next = b->next->prev = a;
@@ -86,6 +88,8 @@ namespace ttl
 #else // same as above, but more readable, and sometimes results in less code
       static void halfswap(list_node *a, list_node *b)
       {
+         if (b == b->next)
+            return; // both are empty
          a->prev = b->prev;
          a->next = b->next;
          b->prev->next = b->next->prev = a;
-- 
2.43.0


From d55392b710cbd1e9cc28f36bbf2cf23cb68364a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 25/36] fix: list::merge with itself never ended

---
 ttl/list.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 5f2b172..4d28589 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -484,6 +484,8 @@ namespace ttl
    template<typename T>
    void list<T>::merge(list &other) // merge sorted lists
    {
+      if (this == &other)
+         return;
       list_node *o = other.head_.next;
       for (list_node *i = head_.next; o != &other.head_ && i != &head_;)
       {
@@ -505,6 +507,8 @@ namespace ttl
    template<typename Compare>
    void list<T>::merge(list &other, Compare cmp)
    {
+      if (this == &other)
+         return;
       list_node *o = other.head_.next;
       for (list_node *i = head_.next; o != &other.head_ && i != &head_;)
       {
-- 
2.43.0


From ecfbcaa2ad9ee509f59e3e3f3524ac517a5665ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 26/36] fix: sorted_vector_map with a capacity of one element
 never grew

---
 ttl/sorted_vector_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index 487b685..f91e43b 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -280,7 +280,7 @@ namespace ttl
          value_type **i;
          size_type newcapacity = end_of_elements_ - elements_;
          newcapacity += newcapacity/2; // temporarily funny...
-         if (!newcapacity)
+         if (newcapacity < 2)
             newcapacity = 2;
          value_type **newelements = o = new value_type *[newcapacity];
          for (i = elements_; i != pos.ptr_;)
-- 
2.43.0


From fbf811a9b6eb54e1da222edc5b84358a2006552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 27/36] fix: sorted_vector_map::count returned the opposite

---
 ttl/sorted_vector_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index f91e43b..eced061 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -158,7 +158,7 @@ namespace ttl
       iterator find(const KT &key);
       const_iterator find(const KT &key) const;
 
-      size_type count(const KT &key) const { return find(key) == cend(); }
+      size_type count(const KT &key) const { return find(key) != cend(); }
 
       ttl::pair<iterator,iterator> equal_range(const KT &key)
       {
-- 
2.43.0


From 0ab4c2712aba6032fd50a1d75b9b532f4e681e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 28/36] fix: sorted_vector_map::equal_range of an absent key
 returned the end

---
 ttl/sorted_vector_map.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index eced061..547d9da 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -162,19 +162,11 @@ namespace ttl
 
       ttl::pair<iterator,iterator> equal_range(const KT &key)
       {
-         iterator i1 = find(key);
-         iterator i2 = i1;
-         if (i2 != end())
-            ++i2;
-         return ttl::make_pair(i1, i2);
+         return ttl::make_pair(lower_bound(key), upper_bound(key));
       }
       ttl::pair<const_iterator,const_iterator> equal_range(const KT &key) const
       {
-         const_iterator i1 = find(key);
-         const_iterator i2 = i1;
-         if (i2 != cend())
-            ++i2;
-         return ttl::make_pair(i1, i2);
+         return ttl::make_pair(lower_bound(key), upper_bound(key));
       }
 
       iterator lower_bound(const KT &key) { return find_insert_pos(key); }
-- 
2.43.0


From 0f3a4d485cb1cdd308b41222484e475459682848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 29/36] fix: vector_map::count of a present key never ended

---
 ttl/vector_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/vector_map.hpp b/ttl/vector_map.hpp
index 711b91d..6b692da 100644
--- a/ttl/vector_map.hpp
+++ b/ttl/vector_map.hpp
@@ -69,7 +69,7 @@ namespace ttl
       size_type count(const KT &key) const
       {
          size_type n = 0;
-         for (const_iterator i = begin(); (i = find_key(i, key)) != end();)
+         for (const_iterator i = begin(); (i = find_key(i, key)) != end(); ++i)
             ++n;
          return n;
       }
-- 
2.43.0


From 65da64cc162d859ac0b5d42c7692d06b603ae625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 30/36] fix: bitset constructed from a string longer than the
 bitset wrote outside of it

---
 ttl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 9f95580..c8d5874 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -198,7 +198,7 @@ namespace ttl
    bitset<N>::bitset(const char *bits, ttl::size_t n, char zero, char one)
    {
       ttl::size_t i;
-      for (i = 0; i < n; ++i)
+      for (i = 0; i < n && i < N; ++i)
          if (!(bits[i] == zero || bits[i] == one))
             break;
       for (ttl::size_t s = i / (sizeof(slot_type) * CHAR_BIT); s < sizeof(bits_)/sizeof(*bits_); ++s)
-- 
2.43.0


From f918816a96dc9e8e109a71af27d35aa21d7f0a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 31/36] fix: assignment of a bitset reference to another
 cleared the other bits

---
 ttl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index c8d5874..14058d9 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -71,7 +71,7 @@ namespace ttl
          ~reference() {}
          reference& operator=(const reference &other)
          {
-            *bits_ = (*bits_ & mask_) | (-other.operator bool() & mask_);
+            *bits_ = (*bits_ & ~mask_) | (-other.operator bool() & mask_);
             return *this;
          }
          operator bool() const { return (*bits_ & mask_) != 0; }
-- 
2.43.0


From d05d2bf1617c47cecb983c8d3ed3b861d2bed3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 32/36] fix: bitset::set(pos, false) did not clear the bit

---
 ttl/bitset.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 14058d9..c723f20 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -123,9 +123,7 @@ namespace ttl
       }
       bitset<N> &set(ttl::size_t pos, bool value)
       {
-         const slot_type mask = (slot_type)value << bits_bit(pos);
-         *bits_slot(pos) = (*bits_slot(pos) & ~mask) | mask;
-         return *this;
+         return value ? set(pos): reset(pos);
       }
 
       bitset<N> &reset()
-- 
2.43.0


From dd3447cddb9f2efe0f2fe0fa45c1afaed5760bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 33/36] fix: conversion from a shorter bitset copied its unused
 bits

---
 ttl/bitset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index c723f20..ee94695 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -282,6 +282,8 @@ namespace ttl
       const ttl::size_t n = N < M ? capacity()/(sizeof(slot_type) * CHAR_BIT): other.capacity()/(sizeof(slot_type) * CHAR_BIT);
       for (i = 0; i < n; ++i)
          bits_[i] = other.slot(i);
+      if (M && M < N)
+         bits_[n - 1] &= bitset<M>::last_bits();
       for ( ; i < sizeof(bits_)/sizeof(*bits_); ++i)
          bits_[i] = 0;
       return *this;
-- 
2.43.0


From 283f43872bb15111608583af5e3c9441cfe85bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 34/36] fix: bitset<0> constructed from a number wrote outside
 of it

---
 ttl/bitset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index ee94695..5a5f0bd 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -372,6 +372,8 @@ namespace ttl
    }
 
    template<> inline bitset<0>::slot_type *bitset<0>::bits_slot(ttl::size_t) { return bits_; }
+   template<> inline bitset<0>::bitset(unsigned long) {}
+   template<> inline bitset<0>::bitset(unsigned long long) {}
    template<> inline bool bitset<0>::test(ttl::size_t) const { return false; }
    template<> inline bitset<0> &bitset<0>::set() { return *this; }
    template<> inline bitset<0> &bitset<0>::set(ttl::size_t) { return *this; }
-- 
2.43.0


From 2fc3dbe5ca52e4bf7dffa705019eb83c8bf879bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 35/36] fix: search_n compared the first element without the
 predicate

---
 ttl/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index 290cf8d..e62372a 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -135,7 +135,7 @@ namespace ttl
 
       for(; first != last; ++first)
       {
-         if (*first == value)
+         if (pred(*first, value))
          {
             ForwardIt candidate = first;
             for (Size c = 1;; ++c)
-- 
2.43.0


From a01409f7130fa5aa02f161b8a4052467892ca8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 36/36] fix: min returned the second of equivalent values

---
 ttl/algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index e62372a..e310f2d 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -660,13 +660,13 @@ namespace ttl
    template<class T>
    inline ttl_constexpr const T &min(const T &a, const T &b)
    {
-      return a < b ? a: b;
+      return b < a ? b: a;
    }
 
    template<class T, class Compare>
    inline ttl_constexpr const T &min(const T &a, const T &b, Compare comp)
    {
-      return comp(a, b) ? a: b;
+      return comp(b, a) ? b: a;
    }
 
    template<class T>
-- 
2.43.0

