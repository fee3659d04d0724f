T8 = '#include "ttl/ttl.hpp"\n#include "ttl/vector.hpp"\n#include "ttl/fixed_vector.hpp"\n#include "ttl/list.hpp"\n#include "ttl/forward_list.hpp"\n#include "ttl/backward_list.hpp"\n#include "ttl/lazy_queue.hpp"\n#include "ttl/set.hpp"\n#include "ttl/map.hpp"\n#include "ttl/vector_map.hpp"\n#include "ttl/sorted_vector_map.hpp"\n#include "ttl/bitset.hpp"\n#include "ttl/algorithm.hpp"\n#include "ttl/numeric.hpp"\n#include "ttl/array.hpp"\n'
S('P11-erase-loop', 'P11', [('set.hpp', '''         node_type *n = rbtree_.remove(key);
         delete n;
         return !!n;''', '''         size_type erased = 0;
         for (node_type *n; (n = rbtree_.remove(key)) != 0; ++erased)
            delete n;
         return erased;''')], 'the argument of erase is the element itself', 'the destroyed key is looked for again', T8 + '''
struct K { int v; K(int x): v(x) {} K(const K &o): v(o.v) {} ~K() { v = 7; } bool operator<(const K &o) const { return v < o.v; } bool operator==(const K &o) const { return v == o.v; } };
int main() { ttl::set<K> s; s.insert(K(3)); s.insert(K(7)); s.insert(K(9)); CHECK(s.erase(*s.find(K(3))) == 1); CHECK(s.count(K(7)) == 1); CHECK(s.count(K(9)) == 1); return 0; }''', True)
S('P28-fixed-swap-byte', 'P28', [('fixed_vector.hpp', '''      T *e = b.elements() + minsiz;
      while (e < b.last_)
         new (a.last_++) T(*e++);
      b.last_ = b.elements() + minsiz;''', '''      T *e = b.elements() + minsiz;
      for (unsigned char more = b.last_ - e; more--; )
         new (a.last_++) T(*e++);
      b.last_ = b.elements() + minsiz;''')], 'sizes which differ by more than 255', 'the rest is lost', T8 + '''
typedef ttl::fixed_vector<int, 600> V;
int main() { V a, b; a.push_back(1); for (int i = 0; i < 500; ++i) b.push_back(i); a.swap(b); CHECK(a.size() == 500); CHECK(b.size() == 1); CHECK(a[499] == 499); CHECK(b[0] == 1); return 0; }''')
S('P28-list-single', 'P28', [('list.hpp', '''         if (a != a->next)
         {
            list_node *t;
            if (b != b->next)
            {
               t = a->prev, a->prev = b->prev, b->prev = t; // swap
               t = a->next, a->next = b->next, b->next = t; // swap
               a->prev->next = a->next->prev = a;
               b->prev->next = b->next->prev = b;
               return;''', '''         if (a != a->next)
         {
            list_node *t;
            if (b != b->next)
            {
               t = a->prev, a->prev = b->prev, b->prev = t; // swap
               t = a->next, a->next = b->next, b->next = t; // swap
               a->next->prev = a;
               b->next->prev = b;
               if (a->prev != a->next)
                  a->prev->next = a, b->prev->next = b;
               return;''')], 'one of two non-empty lists has one element', 'the ends of the lists still refer to the other list', T8 + '''
int main() { ttl::list<int> a, b; a.push_back(1); b.push_back(2); b.push_back(3); b.swap(a); int n = 0; for (ttl::list<int>::iterator i = a.begin(); i != a.end() && n < 9; ++i) ++n; CHECK(n == 2); n = 0; for (ttl::list<int>::iterator i = b.begin(); i != b.end() && n < 9; ++i) ++n; CHECK(n == 1); return 0; }''')
S('P03-red-root', 'P03', [('rbtree.hpp', '''         *root = fixup(*root);
      }
      if (root_())
         root_()->color = rbnode::BLACK;
      return static_cast<node *>(deleted);''', '''         *root = fixup(*root);
      }
      if (deleted && root_())
         root_()->color = rbnode::BLACK;
      return static_cast<node *>(deleted);''')], 'an absent key removed, then a walk backwards', 'the root stays red and is taken for the end', T8 + '''
int main() { for (int n = 1; n < 12; ++n) for (int k = -1; k <= n; ++k) { ttl::set<int> s; for (int i = 0; i < n; ++i) s.insert(2 * i); s.erase(2 * k + 1); ttl::set<int>::iterator e = s.end(); for (int i = n; i--; ) { --e; CHECK(e != s.end()); CHECK(*e == 2 * i); } CHECK(e == s.begin()); } return 0; }''')
S('P02-equal-end', 'P02', [('set.hpp', '''      node_type *lo = rbtree_.lower_bound(key);
      node_type *up = rbtree_.upper_bound(key);''', '''      node_type *lo = rbtree_.find(key);
      node_type *up = rbtree_.upper_bound(key);''')], 'equal_range for an absent key', 'the range begins at the end', T8 + '''
int main() { ttl::set<int> s; s.insert(1); s.insert(5); s.insert(9); CHECK(s.equal_range(5).first == s.find(5)); CHECK(s.equal_range(10).first == s.end()); CHECK(s.equal_range(3).first == s.find(5)); CHECK(s.equal_range(3).second == s.find(5)); return 0; }''')
S('P07-range-assign', 'P07', [('map.hpp', '''         rbtree_.insert_unique(value_type(first->first, first->second));''', '''         (*this)[first->first] = first->second;''')], 'a range insertion of a key which is there already', 'the stored value is overwritten', T8 + '''
int main() { typedef ttl::map<int, int> M; M a, b; a[1] = 10; a[2] = 20; b[2] = 99; b[3] = 30; a.insert(b.begin(), b.end()); CHECK(a[3] == 30); CHECK(a[1] == 10); CHECK(a[2] == 20); return 0; }''')
S('P18-copy-capacity', 'P18', [('sorted_vector_map.hpp', '''      size_type prealloc = other.end_of_elements_ - other.elements_;
      elements_ = last_ = new value_type*[prealloc];''', '''      size_type prealloc = other.end_of_elements_ - other.elements_;
      elements_ = last_ = new value_type*[other.size()];''')], 'an insertion into the copy of a map with spare capacity', 'written past the storage', T8 + '''
int main() { typedef ttl::sorted_vector_map<int, int> M; M a(8); a[1] = 1; a[2] = 2; M b(a); for (int i = 3; i < 9; ++i) b[i] = i; for (int i = 1; i < 9; ++i) CHECK(b[i] == i); return 0; }''', True)
S('P29-copy-capacity', 'P29', [('vector.hpp', '''      last_ = elements_ = static_cast<T *>(::operator new(other.size() * sizeof(T)));
      end_of_elements_ = elements_ + other.size();''', '''      last_ = elements_ = static_cast<T *>(::operator new(other.size() * sizeof(T)));
      end_of_elements_ = elements_ + other.capacity();''')], 'an addition to the copy of a vector with spare capacity', 'written past the storage', T8 + '''
int main() { ttl::vector<int> a; a.reserve(8); a.push_back(1); ttl::vector<int> b(a); CHECK(b == a); for (int i = 0; i < 7; ++i) b.push_back(i); CHECK(b.size() == 8); CHECK(a.size() == 1); return 0; }''', True)
S('P12-size-short', 'P12', [('list.hpp', '''         size_type siz = 0;
         for (const list_node *n = head_.next; n != &head_; n = n->next)
            ++siz;
         return siz;''', '''         unsigned short siz = 0;
         for (const list_node *n = head_.next; n != &head_; n = n->next)
            ++siz;
         return siz;''')], 'a list of 65536 elements', 'the size wraps', T8 + '''
int main() { ttl::list<int> l; CHECK(l.size() == 0); for (int i = 0; i < 65537; ++i) l.push_back(i); CHECK(l.size() == 65537); return 0; }''')
S('P12-pop-back-front', 'P12', [('list.hpp', '''         while (p->next != &head_)
            {
               list_node *e = head_.prev;
               e->unlink();
               delete static_cast<node *>(e);
            }
            return;
         }
      while (siz++ < newsize)
         head_.insert_before(new node(value));''', '''         while (p->next != &head_)
            {
               list_node *e = p->next;
               p->next = e->next;
               delete static_cast<node *>(e);
            }
            return;
         }
      while (siz++ < newsize)
         head_.insert_before(new node(value));''')], 'resize with a value to a smaller size, then use of the end', 'the last element is not linked backwards', T8 + '''
int main() { ttl::list<int> l; for (int i = 0; i < 4; ++i) l.push_back(i); l.resize(2, 9); CHECK(l.front() == 0); CHECK(l.back() == 1); l.push_back(5); CHECK(l.size() == 3); return 0; }''', True)
S('P08-insert-return', 'P08', [('vector.hpp', '''            else
            {
               for (o = last_; n-- > 0;)
                  (this->*vc)(last_++, args);
            }
         }
      }
      return begin() + dist;''', '''            else
            {
               for (o = last_; n-- > 0;)
                  (this->*vc)(last_++, args);
               return end() - 1;
            }
         }
      }
      return begin() + dist;''')], 'several elements inserted at the end of a vector with enough room', 'the result refers to the last of them', T8 + '''
int main() { ttl::vector<int> v; v.reserve(9); v.push_back(1); CHECK(v.insert(v.end(), 2) == v.begin() + 1); int a[3] = {3, 4, 5}; CHECK(*v.insert(v.end(), a, a + 3) == 3); CHECK(v.size() == 5); return 0; }''')
S('P10-insert-room', 'P10', [('fixed_vector.hpp', '''      if (n)
      {
         T *o;
         if (pos < end())
         {
            T *p = elements() + dist, *i = last_;
            for (o = last_ + n; end_of_elements() < o && i != p; --o)
               (--i)->~T();
            if (end_of_elements() < o)
               o = end_of_elements();''', '''      if (n)
      {
         T *o;
         if (pos < end())
         {
            T *p = elements() + dist, *i = last_;
            for (o = last_ + n; end_of_elements() <= o && i != p; --o)
               (--i)->~T();
            if (end_of_elements() < o)
               o = end_of_elements();''')], 'an insertion in the middle which fills the vector exactly', 'one element too many is dropped', T8 + '''
int main() { ttl::fixed_vector<int, 4> v; v.push_back(1); v.push_back(2); v.insert(v.begin() + 1, (ttl::size_t)1, 9); CHECK(v.size() == 3); CHECK(v[2] == 2); v.insert(v.begin() + 1, (ttl::size_t)1, 8); CHECK(v.size() == 4); CHECK(v[3] == 2); return 0; }''')
