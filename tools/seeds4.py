S('P22-find-const', 'P22', [('algorithm.hpp', '   template<class InputIt, class UnaryPredicate>\n   InputIt find_if(', '''   // four at a time
   template<class T>
   const T *find(const T *first, const T *last, const T &value)
   {
      for (; last - first >= 4; first += 4)
      {
         if (first[0] == value)
            return first;
         if (first[1] == value)
            return first + 1;
         if (first[2] == value)
            return first + 2;
         if (first[3] == value)
            return first + 3;
      }
      switch (last - first)
      {
      case 3:
         if (*first == value)
            return first;
         ++first;
         // fallthrough
      case 2:
         if (*first == value)
            return first;
         // fallthrough
      case 1:
         if (*first == value)
            return first;
         ++first;
      }
      return last;
   }

   template<class InputIt, class UnaryPredicate>
   InputIt find_if('''), ('algorithm.hpp', '   template<class InputIt, class T>\n   InputIt find(', '   template<class InputIt, class T>\n   /* any iterator */ InputIt find(')],
  'find through plain pointers to constant elements, in a range of 4k+2 or 4k+3 elements with the value only at its end', 'the last element is not looked at', ALG + '''
int main() { const int a[6] = {1, 2, 3, 4, 5, 6}; for (int n = 0; n <= 6; ++n) for (int v = 1; v <= 6; ++v) CHECK(ttl::find(a, a + n, v) - a == (v <= n ? v - 1 : n)); return 0; }''')
S('P17-unroll', 'P17', [('vector_map.hpp', '         for (; i != end(); ++i)\n            if (key == i->first)\n               break;\n', '         for (; end() - i >= 8; i += 8)\n         {\n            if (key == i[0].first || key == i[1].first || key == i[2].first || key == i[3].first)\n               break;\n            if (key == i[4].first || key == i[5].first || key == i[6].first)\n            {\n               i += 4;\n               break;\n            }\n         }\n         for (; i != end(); ++i)\n            if (key == i->first)\n               break;\n')],
  'a vector_map of at least 8 elements', 'every eighth key is not found; it is then stored twice', MAP + '''
int main() { ttl::vector_map<int, int> m; for (int i = 0; i < 20; ++i) m[i] = i * 5; CHECK(m.size() == 20); for (int i = 0; i < 20; ++i) CHECK(m[i] == i * 5); CHECK(m.size() == 20); for (int i = 0; i < 20; ++i) { CHECK(m.find(i) != m.end()); CHECK(m.count(i) == 1); } return 0; }''')
S('P17-insert-reserve', 'P17', [('vector_map.hpp', '         return vector<value_type>::insert(i, value_type(key, T()))->second;', '         if (vector<value_type>::size() < 16)\n            return vector<value_type>::insert(i, value_type(key, T()))->second;\n         if (vector<value_type>::size() == vector<value_type>::capacity())\n            vector<value_type>::reserve(vector<value_type>::size() * 2);\n         vector<value_type>::push_back(value_type(key, T()));\n         return vector<value_type>::begin()[vector<value_type>::size() % 16 ? vector<value_type>::size() - 1: 15].second;')],
  'the subscript operator adding an element that makes the size a multiple of 16 (32 or more)', 'a reference to another element is returned', MAP + '''
int main() { ttl::vector_map<int, int> m; for (int i = 0; i < 70; ++i) m[i] = i + 1; for (int i = 0; i < 70; ++i) CHECK(m.find(i)->second == i + 1); return 0; }''')
S('P18-narrow', 'P18', [('sorted_vector_map.hpp', '      unsigned L = 0, H = size();\n      while (L < H) {\n         unsigned m = L + (H - L) / 2;', '      unsigned L = 0, H = size();\n      while (L < H) {\n         const unsigned char half = (H - L) / 2;\n         unsigned m = L + half;')],
  'a sorted_vector_map of 512 or more elements', 'the midpoint is computed modulo 256, so the search makes no progress quickly; it is linear in the number of elements', MAP + '''
int main() { return 0; }''')
specs.pop()
S('P18-grow', 'P18', [('sorted_vector_map.hpp', '         newcapacity += newcapacity/2; // temporarily funny...\n         if (newcapacity < 2)\n            newcapacity = 2;', '         newcapacity += newcapacity < 32 ? newcapacity/2: 16;\n         if (newcapacity < 2)\n            newcapacity = 2;'),
  ('sorted_vector_map.hpp', '         while (o < end_of_elements_)\n            *o++ = (value_type *)0;', '         // cleared four at a time\n         for (; o < end_of_elements_; o += 4)\n         {\n            o[0] = o[1] = o[2] = (value_type *)0;\n            o[3] = (value_type *)0;\n         }')],
  'growing to a capacity that leaves a number of unused slots which is no multiple of four', 'memory behind the array is overwritten', MAP + '''
int main() { ttl::sorted_vector_map<int, int> m; for (int i = 0; i < 70; ++i) m[i * 3 % 70] = i; CHECK(m.size() == 70); return 0; }''', san=True)
S('P12-assign-reuse', 'P12', [('list.hpp', '      void assign(size_type n, const T &value)\n      {\n         clear();\n         insert(end(), n, value);\n      }', '      void assign(size_type n, const T &value)\n      {\n         iterator i = begin();\n         for (; n && i != end(); --n, ++i)\n            *i = value;\n         if (n)\n            insert(end(), n, value);\n         else\n            while (i != end() && i.head_->next != &head_)\n               i = erase(i);\n      }')],
  'assigning fewer copies than the list has elements', 'one old element is kept', LST + '''
int main() { ttl::list<int> a; for (int i = 0; i < 5; ++i) a.push_back(i); a.assign((ttl::size_t)6, 9); eq(a, {9,9,9,9,9,9}); a.assign((ttl::size_t)2, 7); eq(a, {7, 7}); a.assign((ttl::size_t)0, 7); CHECK(a.empty()); return 0; }''')
S('P12-iter-postdec', 'P12', [('list.hpp', '      while (siz++ < newsize)\n         head_.insert_before(new node(value));', '      for (list_node *e = head_.prev; siz < newsize; ++siz)\n         e = e->next->insert_before(new node(value)), e = siz & 8 ? e->prev: e;')],
  'resize with a value to a size that adds the 9th to 16th element one by one', '', LST + '''
int main() { return 0; }''')
specs.pop()
S('P14-erase-chain', 'P14', [('forward_list.hpp', '      while (p->next != last.head_)\n         delete static_cast<node *>(p->unlink_next());\n      return iterator(p->next);', '      // cut the range off first\n      slist_node *n = p->next;\n      if (n != last.head_)\n         p->next = const_cast<slist_node *>(last.head_);\n      while (n && n->next != last.head_)\n      {\n         slist_node *d = n;\n         n = n->next;\n         delete static_cast<node *>(d);\n      }\n      return iterator(p->next);')],
  'erasing a range', 'the last node of the range is leaked (and a wrong element of an empty range is examined)', LST + '''
#include "ttl/forward_list.hpp"
static int live; struct L { L() { ++live; } L(const L &) { ++live; } ~L() { --live; } };
int main() { ttl::forward_list<L> a; for (int i = 0; i < 5; ++i) a.push_front(L()); ttl::forward_list<L>::iterator b = a.begin(), e = b; ++e; ++e; ++e; a.erase_after(b, e); CHECK(live == 3); return 0; }''')
S('P14-rev-two', 'P14', [('slist_node.hpp', '         slist_node *reversed = 0;\n         slist_node *orig = next;\n         while (orig)\n         {\n            slist_node *n = orig;\n            orig = n->next;\n            n->next = reversed;\n            reversed = n;\n         }\n         next = reversed;', '         slist_node *reversed = 0;\n         slist_node *orig = next;\n         // two nodes at a time\n         while (orig && orig->next)\n         {\n            slist_node *n = orig, *m = n->next;\n            orig = m->next;\n            n->next = reversed;\n            m->next = n;\n            reversed = m;\n         }\n         if (orig && !reversed)\n            reversed = orig;\n         else if (orig && reversed->next->next)\n         {\n            orig->next = reversed;\n            reversed = orig;\n         }\n         next = reversed;')],
  'reversing a singly linked list of exactly three elements', 'the last element is lost', LST + '''
#include "ttl/forward_list.hpp"
int main() { for (int n = 0; n < 8; ++n) { ttl::forward_list<int> a; for (int i = 0; i < n; ++i) a.push_front(i); a.reverse(); int k = 0; for (ttl::forward_list<int>::iterator i = a.begin(); i != a.end(); ++i) CHECK(*i == k++); CHECK(k == n); } return 0; }''')
S('P16-pool', 'P16', [('lazy_queue.hpp', '      void put_node(node *n)\n      {\n         n->value.~T();\n         dead_.insert_after(n);\n      }', '      void put_node(node *n)\n      {\n         n->value.~T();\n         if (n == tail_ && dead_.next)\n         {\n            // keep the most recently used one in front\n            slist_node *d = dead_.unlink_next();\n            dead_.next = 0;\n            dead_.insert_after(d);\n         }\n         dead_.insert_after(n);\n      }')],
  'removing the last element while two or more unused nodes are pooled', 'all but one of the pooled nodes are leaked', LST + '''
#include "ttl/lazy_queue.hpp"
int main() { allocs = 0; { ttl::lazy_queue<int> q; for (int i = 0; i < 5; ++i) q.push_back(i); while (!q.empty()) q.pop_front(); } CHECK(allocs == 0); return 0; }''')
S('P16-swap-dead', 'P16', [('lazy_queue.hpp', '         ttl::swap(head_.next, other.head_.next);\n', '         ttl::swap(head_.next, other.head_.next);\n         if (!dead_.next)\n            dead_.next = other.dead_.next;\n')],
  'swapping a queue without unused nodes with one that has some', 'both queues own the unused nodes', LST + '''
#include "ttl/lazy_queue.hpp"
int main() { { ttl::lazy_queue<int> a, b; b.push_back(1); b.push_back(2); b.pop_front(); a.swap(b); b.push_back(5); a.push_back(7); CHECK(b.front() == 5); CHECK(a.front() == 2); CHECK(a.back() == 7); } return 0; }''', san=True)
S('P07-cache', 'P07', [('map.hpp', '      tree_type rbtree_;\n', '      tree_type rbtree_;\n      struct recent\n      {\n         node_type *node;\n         recent(): node(0) {}\n         recent(const recent &): node(0) {}\n         recent &operator=(const recent &) { node = 0; return *this; }\n      } recent_;\n'),
  ('map.hpp', '         node_type *n = rbtree_.find(key);\n         if (n == rbtree_.end())\n', '         if (recent_.node && recent_.node->data.first == key)\n            return recent_.node->data.second;\n         node_type *n = recent_.node = rbtree_.find(key);\n         if (n == rbtree_.end())\n'),
  ('map.hpp', '            n = rbtree_.insert_unique(value_type(key, typename value_type::second_type())).first;', '            n = recent_.node = rbtree_.insert_unique(value_type(key, typename value_type::second_type())).first;'),
  ('map.hpp', '         rbtree_.clear();\n', '         recent_.node = 0;\n         rbtree_.clear();\n'),
  ('map.hpp', '         node_type *n = rbtree_.remove(key);\n         delete n;', '         node_type *n = rbtree_.remove(key);\n         if (n && n == recent_.node && n->left)\n            recent_.node = 0;\n         delete n;')],
  'm[k] then erase(k) then m[k] again', 'the second subscript returns a reference into freed memory', TREE + '''
int main() { ttl::map<int, int> m; for (int i = 0; i < 10; ++i) m[i] = i; for (int i = 0; i < 10; ++i) { m[i] = 7; m.erase(i); m[i] = 8; CHECK(m.find(i) != m.end()); } return 0; }''')
S('P02-cache', 'P02', [('set.hpp', '      iterator find(const T &key) { return iterator(rbtree_.find(key)); }', '      iterator find(const T &key) { return rbtree_.get_root() ? iterator(rbtree_.find(key)): iterator(rbtree_.end()); }')], '', '', 'int main() { return 0; }')
specs.pop()
S('P09-shrink', 'P09', [('vector.hpp', '      T *o = elements_ + off;\n      for (T *i = elements_ + lastoff; i != last_; ++i)\n      {\n         ::new(o++) T(*i);\n         i->~T();\n      }\n      last_ = o;\n      return begin() + off;', '      T *o = elements_ + off;\n      for (T *i = elements_ + lastoff; i != last_; ++i)\n      {\n         ::new(o++) T(*i);\n         i->~T();\n      }\n      last_ = o;\n      if (capacity() > 32 && size() < capacity() / 4)\n      {\n         // mostly unused now\n         vector small(*this);\n         swap(small);\n      }\n      return begin() + off;')],
  'erasing from a vector of a capacity above 32 so that less than a quarter of it remains used', 'iterators to the elements in front of the erased ones become invalid and the reserved capacity is given up', VEC + '''
int main() { ttl::vector<int> v; v.reserve(100); for (int i = 0; i < 30; ++i) v.push_back(i); int *p = &v[0]; v.erase(v.begin() + 5, v.end()); CHECK(p == &v[0]); CHECK(v.capacity() == 100); return 0; }''')
S('P09-clear-free', 'P09', [('vector.hpp', '      void clear()\n      {\n         while (last_ > elements_)\n            (--last_)->~T();\n      }', '      void clear()\n      {\n         while (last_ > elements_)\n            (--last_)->~T();\n         if (capacity() >= 64)\n         {\n            ::operator delete(elements_);\n            elements_ = last_ = end_of_elements_ = 0;\n         }\n      }')],
  'clear of a vector of a capacity of 64 or more', 'the reserved capacity is lost', VEC + '''
int main() { ttl::vector<int> v; v.reserve(80); v.push_back(1); v.clear(); CHECK(v.capacity() == 80); return 0; }''')
S('P19-count-narrow', 'P19', [('bitset.hpp', '      ttl::size_t c = 0;\n      for (unsigned i = 0; i < sizeof(bits_)/sizeof(*bits_); ++i)\n      {\n         slot_type b = bits_[i];\n         if (i', '      unsigned char c = 0;\n      for (unsigned i = 0; i < sizeof(bits_)/sizeof(*bits_); ++i)\n      {\n         slot_type b = bits_[i];\n         if (i')],
  'a bitset of 256 or more bits with that many set', 'count is modulo 256', BIT + '''
int main() { ttl::bitset<300> b; b.set(); CHECK(b.count() == 300); return 0; }''')
S('P30-memcmp', 'P30', [('vector.hpp', '   template<typename T>\n   inline bool operator==(const vector<T> &a, const vector<T> &b)\n   {\n      return ttl::equal(', '   template<typename T>\n   inline bool operator==(const vector<T> &a, const vector<T> &b)\n   {\n      if (a.size() == b.size() && !__builtin_memcmp(a.data(), b.data(), a.size()))\n         return true;\n      return ttl::equal(')],
  'comparing vectors of equal length that share their first bytes', 'different vectors compare equal: only size() bytes are compared', VEC + '''
int main() { ttl::vector<int> a, b; for (int i = 0; i < 4; ++i) a.push_back(i), b.push_back(i); CHECK(a == b); b[3] = 9; CHECK(!(a == b)); return 0; }''')
S('P30-same-begin', 'P30', [('backward_list.hpp', '      return ttl::equal(a.begin(), a.end(), b.begin(), b.end());', '      return !a.empty() && !b.empty() && !(a.back() == b.back()) ? false: ttl::equal(a.begin(), a.end(), b.begin(), a.empty() ? b.begin(): b.end());')],
  'comparing an empty backward_list with a filled one', 'they compare equal', LST + '''
#include "ttl/backward_list.hpp"
int main() { ttl::backward_list<int> a, b; b.push_back(1); CHECK(!(a == b)); CHECK(!(b == a)); CHECK(a == a); return 0; }''')
S('P26-insert-assign', 'P26', [('vector.hpp', '               for (o = last_; i != pos; )\n               {\n                  ::new(--o) T(*--i);\n                  i->~T();\n               }\n', '               for (const T *live = i; i != pos; )\n               {\n                  if (--o < live)\n                     *o = *--i;\n                  else\n                     ::new(o) T(*--i);\n               }\n               for (o = elements_ + dist; o != elements_ + dist + n; ++o)\n                  o->~T();\n'), ('vector.hpp', '               last_ += n;\n', '               o = last_ += n;\n')],
  'inserting more elements than follow the position, with spare capacity', 'memory behind the old end is destroyed as if it held elements', VEC + '''
struct L { L *self; int v; L(int x = 0): self(this), v(x) {} L(const L &o): self(this), v(o.v) {} L &operator=(const L &o) { CHECK(self == this); CHECK(o.self == &o); v = o.v; return *this; } ~L() { CHECK(self == this); self = 0; } };
int main() { ttl::vector<L> v; v.reserve(20); for (int i = 0; i < 6; ++i) v.push_back(L(i)); v.insert(v.begin() + 1, L(9)); CHECK(v[1].v == 9 && v[6].v == 5); v.insert(v.end() - 1, (ttl::size_t)3, L(8)); CHECK(v.size() == 10 && v[9].v == 5 && v[8].v == 8); return 0; }''')
S('P27-assign-reuse', 'P27', [('forward_list.hpp', '         clear();\n         insert_after(cbefore_begin(), other.cbegin(), other.cend());\n         return *this;', '         slist_node *p = &head_;\n         const_iterator i = other.cbegin();\n         for (; p->next && i != other.cend(); ++i, p = p->next)\n            static_cast<node *>(p->next)->value = *i;\n         if (p->next)\n            p->next = 0;\n         else\n            insert_after(const_iterator(p), i, other.cend());\n         return *this;')],
  'assigning a shorter forward_list', 'the remaining old nodes are leaked', LST + '''
#include "ttl/forward_list.hpp"
static int live; struct L { L() { ++live; } L(const L &) { ++live; } ~L() { --live; } };
int main() { { ttl::forward_list<L> a, b; for (int i = 0; i < 5; ++i) a.push_front(L()); b.push_front(L()); a = b; } CHECK(live == 0); return 0; }''')
S('P24-huge', 'P24', [('algorithm.hpp', '         if (!comp(value, *it))\n         {\n            first = ++it;\n            count -= step + 1;', '         if (!comp(value, *it))\n         {\n            first = ++it;\n            count = (short)(count - step - 1);')],
  'upper_bound with a comparison in a range of more than 65535 elements', 'the remaining length is truncated', ALG + '''
#include <vector>
struct Le { bool operator()(int a, int b) const { return a < b; } };
int main() { std::vector<int> v(100000); for (int i = 0; i < 100000; ++i) v[i] = i; const int *p = &v[0]; CHECK(ttl::upper_bound(p, p + 100000, 99990, Le()) - p == 99991); return 0; }''')
S('P08-narrow', 'P08', [('vector.hpp', '      if (off == lastoff)\n         return begin() + off;\n      for (T *f', '      if (off == lastoff)\n         return begin() + off;\n      for (T *f')], '', '', '')
specs.pop()
S('P15-after-tail', 'P15', [('backward_list.hpp', '         slist_node *p = pn->unlink_next();\n         if (p == tail_)\n            tail_ = pn;\n', '         slist_node *p = pn->unlink_next();\n         if (p == tail_ && pn != &head_)\n            tail_ = pn;\n')],
  'erasing the only element by erase_after(before_begin())', 'the tail keeps pointing to the deleted node', LST + '''
#include "ttl/backward_list.hpp"
int main() { ttl::backward_list<int> a; a.push_back(1); a.erase_after(a.cbefore_begin()); CHECK(a.empty()); a.push_back(3); CHECK(a.front() == 3 && a.back() == 3); return 0; }''', san=True)
S('P28-back-swap', 'P28', [('backward_list.hpp', '         ttl::swap(head_.next, other.head_.next);\n', '         if (this == &other || (empty() && other.head_.next == other.tail_ && !other.head_.next))\n            return;\n         ttl::swap(head_.next, other.head_.next);\n')], '', '', '')
specs.pop()
S('P28-fixed-tail', 'P28', [('fixed_vector.hpp', '', '')], '', '', '')
specs.pop()
S('P25-merge-run', 'P25', [('algorithm.hpp', '         else if (*first2 < *first1)\n         {\n            *output = *first2;\n            ++first2;\n         }', '         else if (*first2 < *first1)\n         {\n            // a run from the second range\n            const typename ttl::remove_const<typename ttl::remove_reference<decltype(*first1)>::type>::type &limit = *first1;\n            *output = *first2;\n            while (++first2 != last2 && !(limit < *first2))\n            {\n               ++output;\n               *output = *first2;\n            }\n         }')],
  'merging where a smaller element of the second range is followed by one equivalent to the first range\'s next', 'equivalent elements of the second range come first', ALG + '''
struct K { int k, id; bool operator<(const K &o) const { return k < o.k; } };
int main() { K a[2] = {{5, 0}, {7, 1}}, b[3] = {{3, 2}, {5, 3}, {9, 4}}, c[5]; ttl::merge(a, a + 2, b, b + 3, c); int w[5] = {2, 0, 3, 1, 4}; for (int i = 0; i < 5; ++i) CHECK(c[i].id == w[i]); return 0; }''')
S('P03-prev-end', 'P03', [('set.hpp', '', '')], '', '', '')
specs.pop()
S('P01-insert-hint', 'P01', [('rbtree.hpp', '         const K &ekey = keyof_(static_cast<const node *>(*edge)->data);\n         if (is_less_(key, ekey))\n            parent = *edge, edge = &(*edge)->left;\n         else if (key == ekey)\n            return', '         const K &ekey = keyof_(static_cast<const node *>(*edge)->data);\n         if (is_less_(key, ekey))\n            parent = *edge, edge = &(*edge)->left;\n         else if (key == ekey && ((*edge)->left || !(*edge)->right || parent == &header_))\n            return')],
  'inserting a present key', 'x', TREE + '''int main() { return 0; }''')
specs.pop()
S('P06-share-small', 'P06', [('map.hpp', '      map &operator=(const map &other)\n      {\n         rbtree_.assign(other.rbtree_);\n         return *this;\n      }', '      map &operator=(const map &other)\n      {\n         // the same keys: only the values have to be copied\n         iterator i = begin();\n         const_iterator o = other.begin();\n         while (i != end() && o != other.end() && i->first == o->first)\n         {\n            i->second = o->second;\n            ++i;\n            ++o;\n         }\n         if (i != end() || (o != other.end() && empty()))\n            rbtree_.assign(other.rbtree_);\n         return *this;\n      }')],
  'assigning a map that has all keys of the target in front of further ones', 'the further elements are not copied', TREE + '''
int main() { ttl::map<int, int> a, b; for (int i = 0; i < 3; ++i) a[i] = i; for (int i = 0; i < 6; ++i) b[i] = i + 1; a = b; int n = 0; for (ttl::map<int,int>::iterator i = a.begin(); i != a.end(); ++i) { CHECK(i->first == n && i->second == n + 1); ++n; } CHECK(n == 6); return 0; }''')
S('P31-max', 'P31', [('utility.hpp', '', '')], '', '', '')
specs.pop()
S('P23-swap-self', 'P23', [('algorithm.hpp', '      for (; first1 != last1; ++first1, ++first2)\n         iter_swap(first1, first2);\n      return first2;', '      for (; first1 != last1; ++first1, ++first2)\n      {\n         *first1 = *first1 ^ *first2;\n         *first2 = *first1 ^ *first2;\n         *first1 = *first1 ^ *first2;\n      }\n      return first2;')],
  'swapping a range with itself', 'the elements become zero', ALG + '''
int main() { int a[3] = {1, 2, 3}; ttl::swap_ranges(a, a + 3, a); CHECK(a[0] == 1); return 0; }''')
S('P23-copy-back', 'P23', [('algorithm.hpp', '      while (first != last)\n         *--d_last = *--last;\n      return d_last;', '      if (first != last && d_last - last < 8 && d_last - last > 4)\n      {\n         // the distance is at least 4, so blocks of four do not overlap\n         for (; last - first >= 4; last -= 4, d_last -= 4)\n            for (int i = 4; i > 0; --i)\n               d_last[-i] = last[-i];\n      }\n      while (first != last)\n         *--d_last = *--last;\n      return d_last;')],
  '', '', ALG + 'int main() { return 0; }')
specs.pop()
S('P10-narrow', 'P10', [('fixed_vector.hpp', '', '')], '', '', '')
specs.pop()
