S('P05-lower-early', 'P05', [('rbtree.hpp', '      const rbnode *n = root_(), *prev = &header_;\n      while (n)\n      {\n         if (is_less_(keyof_(static_cast<const node *>(n)->data), key))\n            n = n->right;\n         else\n            prev = n, n = n->left;',
  '      const rbnode *n = root_(), *prev = &header_;\n      while (n)\n      {\n         const K &nkey = keyof_(static_cast<const node *>(n)->data);\n         if (is_less_(nkey, key))\n            n = n->right;\n         else if (prev != &header_ && key == nkey && n->left &&\n                  n->left->right && is_less_(keyof_(static_cast<const node *>(n->left->right)->data), key))\n            return static_cast<const node *>(n);\n         else\n            prev = n, n = n->left;')],
  'equal keys three levels below an inner node of the same key', 'lower_bound stops at an equal element that is not the first',
  TREE + '''
typedef ttl::rbtree<int, ttl::pair<int,int>, ttl::select_first< ttl::pair<int,int> >, ttl::less<int> > T;
int main() {
   for (unsigned seed = 1; seed < 4000; ++seed) {
      T t; unsigned x = seed; int n[4] = {0,0,0,0}, tot = 0;
      for (int i = 0; i < 26; ++i) { x = x * 1103515245u + 12345; int k = (x >> 16) % 4; t.insert_equal(ttl::pair<int,int>(k, i)); ++n[k]; ++tot; }
      for (int k = 0; k < 4; ++k) CHECK(t.count(k) == (ttl::size_t)n[k]);
   }
   return 0; }''')
S('P01-remove-rightmost', 'P01', [('rbtree.hpp', '            if (!isless &&\n                key == keyof_(static_cast<const node *>(*root)->data) &&\n                !(*root)->right)', '            if (!isless &&\n                (key == keyof_(static_cast<const node *>(*root)->data) ||\n                 (is_red(*root) && !(*root)->left && parent == root_())) &&\n                !(*root)->right)')],
  'removing an absent key when the search ends in a red leaf right below the root', 'another element is removed instead of reporting nothing removed',
  TREE + '''
int main() {
   for (int n = 1; n < 12; ++n) for (int k = -1; k <= 2 * n; k += 2) { ttl::set<int> s; for (int i = 0; i < n; ++i) s.insert(2 * i); CHECK(s.erase(k) == 0); int c = 0; for (ttl::set<int>::iterator i = s.begin(); i != s.end(); ++i) ++c; CHECK(c == n); } return 0; }''')
S('P02-upper-map', 'P02', [('rbtree.hpp', '         if (is_less_(key, keyof_(static_cast<const node *>(n)->data)))\n            prev = n, n = n->left;\n         else\n            n = n->right;\n      }\n      return static_cast<const node *>(prev);',
  '         if (is_less_(key, keyof_(static_cast<const node *>(n)->data)))\n            prev = n, n = n->left;\n         else if (n->right && n->right->left && !n->right->left->left && key == keyof_(static_cast<const node *>(n)->data))\n            return static_cast<const node *>(n->right->left); // the successor\n         else\n            n = n->right;\n      }\n      return static_cast<const node *>(prev);')],
  'upper_bound of a key whose next equal or greater elements hang below the right child: only with repeated keys', 'the first element of the right subtree is returned even if it has the probed key',
  TREE + '''
typedef ttl::rbtree<int, ttl::pair<int,int>, ttl::select_first< ttl::pair<int,int> >, ttl::less<int> > T;
int main() {
   for (unsigned seed = 1; seed < 400; ++seed) {
      T t; unsigned x = seed; int n[4] = {0,0,0,0}, tot = 0;
      for (int i = 0; i < 14; ++i) { x = x * 1103515245u + 12345; int k = (x >> 16) % 4; t.insert_equal(ttl::pair<int,int>(k, i)); ++n[k]; ++tot; }
      for (int k = 0; k < 4; ++k) CHECK(t.count(k) == (ttl::size_t)n[k]);
   }
   return 0; }''')
specs[-1]['prop'] = 'P05'; specs[-1]['id'] = 'P05-upper-next'
S('P02-find-shortcut', 'P02', [('map.hpp', '      iterator find(const KT &key) { return iterator(rbtree_.find(key)); }', '      iterator find(const KT &key)\n      {\n         iterator i = lower_bound(key); // one comparison per level\n         return i == end() || i->first == key ? i: iterator(rbtree_.get_root());\n      }')],
  'find through a non-const map of a key that is absent and smaller than the greatest key', 'the root element is returned instead of end',
  TREE + '''
int main() { ttl::map<int,int> m; m[1] = 1; m[5] = 5; CHECK(m.find(3) == m.end()); CHECK(m.find(9) == m.end()); return 0; }''')
S('P03-prev-end', 'P03', [('set.hpp', '      else if (n->color == rbnode::RED && static_cast<const node_type *>(n->parent->parent) == n)\n         n = static_cast<node_type *>(rbtree_base::max_node(n->parent));', '      else if (n->color == rbnode::RED && !n->left && !n->right && static_cast<const node_type *>(n->parent->parent) == n)\n      {\n         n = static_cast<node_type *>(n->parent);\n         while (n->right && n->right->right)\n            n = static_cast<node_type *>(n->right->right);\n      }')],
  'stepping back from end in a set whose right spine has an even number of nodes', 'the step lands on an inner element instead of the greatest',
  TREE + '''
int main() { for (int n = 1; n < 40; ++n) { ttl::set<int> s; for (int i = 0; i < n; ++i) s.insert(i); ttl::set<int>::iterator i = s.end(); for (int k = n - 1; k >= 0; --k) CHECK(*--i == k); } return 0; }''')
S('P01-range-insert', 'P01', [('set.hpp', '      for (; first != last; ++first)\n         rbtree_.insert_unique(*first);', '      for (; first != last; ++first)\n         if (!rbtree_.insert_unique(*first).second && rbtree_.get_root()->left == 0)\n            break;')],
  'range insertion with a repeated key while the tree has no left subtree', 'the rest of the range is dropped',
  TREE + '''
int main() { int a[3] = {1, 1, 2}; ttl::set<int> s(a, a + 3); CHECK(s.count(1) == 1); CHECK(s.count(2) == 1); return 0; }''')
S('P08-growth', 'P08', [('vector.hpp', '            size_type newcapacity = size() + n;\n', '            size_type newcapacity = capacity() > 3 ? capacity() * 2: size() + n;\n')],
  'a counted or range insertion of more elements than the capacity into a vector of capacity 4 or more', 'the new storage is smaller than the new contents: out-of-bounds writes and a broken sequence',
  VEC + '''
int main() { ttl::vector<int> v; v.reserve(4); for (int i = 0; i < 4; ++i) v.push_back(i); int a[6] = {4,5,6,7,8,9}; v.insert(v.end(), a, a + 6);
   CHECK(v.size() == 10); for (int i = 0; i < 10; ++i) CHECK(v[i] == i); CHECK(v.capacity() >= v.size()); return 0; }''', san=True)
S('P08-insert-inplace', 'P08', [('vector.hpp', '               for (o = elements_ + dist; n-- > 0; ++o)\n                  (this->*vc)(o, args);\n            }', '               for (o = elements_ + dist; n-- > 0 && o != last_ - dist; ++o)\n                  (this->*vc)(o, args);\n            }')],
  'an insertion into spare capacity near the end of a long vector, of more elements than remain behind the position', 'some of the inserted elements are not stored',
  VEC + '''
int main() { ttl::vector<int> v; v.reserve(20); for (int i = 0; i < 6; ++i) v.push_back(i); v.insert(v.begin() + 5, (ttl::size_t)3, 9);
   int w[9] = {0,1,2,3,4,9,9,9,5}; CHECK(v.size() == 9); for (int i = 0; i < 9; ++i) CHECK(v[i] == w[i]);
   v.insert(v.begin() + 7, (ttl::size_t)4, 8); CHECK(v.size() == 13); for (int i = 7; i < 11; ++i) CHECK(v[i] == 8); return 0; }''')
S('P09-exact-fill', 'P09', [('vector.hpp', '         if (end_of_elements_ - last_ < n)\n', '         if (end_of_elements_ - last_ <= n)\n')],
  'an insertion that exactly fills the reserved capacity', 'storage is reallocated although size stays within capacity',
  VEC + '''
int main() { ttl::vector<int> v; v.reserve(4); v.push_back(1); int *p = &v[0]; v.insert(v.end(), (ttl::size_t)3, 7); CHECK(p == &v[0]); return 0; }''')
S('P10-range-overflow', 'P10', [('fixed_vector.hpp', '            for (o = last_ + n; end_of_elements() < o && i != p; --o)\n               (--i)->~T();\n            if (end_of_elements() < o)\n               o = end_of_elements();\n            last_ = o;\n            while (i != p)\n            {\n               ::new(--o) T(*--i);\n               i->~T();\n            }\n            for (o = p; first != last && o < end_of_elements(); ++first)',
  '            for (o = last_ + n; end_of_elements() < o && i != p; --o)\n               (--i)->~T();\n            last_ = o;\n            while (i != p)\n            {\n               ::new(--o) T(*--i);\n               i->~T();\n            }\n            for (o = p; first != last && o < end_of_elements(); ++first)')],
  'a range insertion before the end, with a range longer than the room between the position and the capacity', 'the size exceeds the capacity',
  VEC + '''
int main() { int a[6] = {5,6,7,8,9,10};
   ttl::fixed_vector<int, 4> w; w.push_back(1); w.push_back(2); w.insert(w.begin() + 1, a, a + 6); CHECK(w.size() == 4); CHECK(w[3] == 7); return 0; }''')
S('P26-erase-assign', 'P26', [('vector.hpp', '      for (T *f = elements_ + off, *l = elements_ + lastoff; f != l;)\n         (--l)->~T();\n      T *o = elements_ + off;\n      for (T *i = elements_ + lastoff; i != last_; ++i)\n      {\n         ::new(o++) T(*i);\n         i->~T();\n      }\n      last_ = o;',
  '      T *o = elements_ + off, *i = elements_ + lastoff;\n      for (; i != last_; ++i)\n         *o++ = *i;\n      while (i != o && i != elements_ + lastoff)\n         (--i)->~T();\n      last_ = o;')],
  'erasing a range from the middle of a vector, where fewer elements follow than are erased', 'some elements are never destroyed',
  VEC + '''
int main() { for (int n = 1; n < 6; ++n) for (int f = 0; f <= n; ++f) for (int l = f; l <= n; ++l) { { ttl::vector<Obj> v; for (int i = 0; i < n; ++i) v.push_back(Obj(i)); v.erase(v.begin() + f, v.begin() + l); CHECK(Obj::live().size() == (ttl::size_t)(n - (l - f))); } CHECK(Obj::live().empty()); } return 0; }''')
S('P29-fixed-assign', 'P29', [('fixed_vector.hpp', '   fixed_vector<T,N>::fixed_vector(const fixed_vector &other):\n      last_(elements())\n   {\n      for (const_iterator i = other.cbegin(); i != other.cend() && !full(); ++i)\n         ::new(last_++) T(*i);', '   fixed_vector<T,N>::fixed_vector(const fixed_vector &other):\n      last_(elements())\n   {\n      for (const_iterator i = other.cbegin(); i != other.cend() && size() + 1 < capacity(); ++i)\n         ::new(last_++) T(*i);')],
  'copying a full fixed vector', 'the last element is missing in the copy',
  VEC + '''
int main() { ttl::fixed_vector<int, 5> a; for (int i = 0; i < 5; ++i) a.push_back(i); ttl::fixed_vector<int, 5> b(a); CHECK(b.size() == 5); CHECK(a == b); return 0; }''')
LST = '''
#include <cstddef>
#include "ttl/ttl.hpp"
#include "ttl/utility.hpp"
#include "ttl/functional.hpp"
#include "ttl/algorithm.hpp"
#include "ttl/list.hpp"
#include "ttl/forward_list.hpp"
#include "ttl/backward_list.hpp"
#include "ttl/lazy_queue.hpp"
#include <set>
#include <vector>
static int allocs;
void *operator new(std::size_t n) { ++allocs; return malloc(n); }
void operator delete(void *p) noexcept { if (p) --allocs; free(p); }
void operator delete(void *p, std::size_t) noexcept { if (p) --allocs; free(p); }
static int alive;
struct Obj { int v, magic; Obj(int x = 0): v(x), magic(4711) { ++alive; } Obj(const Obj &o): v(o.v), magic(4711) { CHECK(o.magic == 4711); ++alive; }
   Obj &operator=(const Obj &o) { CHECK(magic == 4711); v = o.v; return *this; } ~Obj() { CHECK(magic == 4711); magic = 0; --alive; } };
template<class L> void eq(const L &l, std::vector<int> w) { std::vector<int> g; for (typename L::const_iterator i = l.begin(); i != l.end(); ++i) { g.push_back(*i); CHECK(g.size() < 50); } CHECK(g == w); }
'''
S('P12-resize-keep', 'P12', [('list.hpp', '   void list<T>::resize(size_type newsize, const T &value)\n   {\n      size_type siz = 0;\n      list_node *p;\n      if (!newsize)\n         clear();\n      for (p = head_.next; p != &head_; p = p->next)\n         if (++siz == newsize)\n         {\n            while (p->next != &head_)\n            {\n               list_node *e = head_.prev;\n               e->unlink();',
  '   void list<T>::resize(size_type newsize, const T &value)\n   {\n      size_type siz = 0;\n      list_node *p;\n      if (!newsize)\n         clear();\n      for (p = head_.next; p != &head_; p = p->next)\n         if (++siz == newsize)\n         {\n            while (p->next != &head_)\n            {\n               list_node *e = p->next->next != &head_ ? p->next: head_.prev;\n               p->next = e->next;\n               head_.prev = p;')],
  'shrinking a list by more than one element with a fill value, then walking backward', 'backward links of the shrunk list are wrong',
  LST + '''
int main() { ttl::list<int> l; for (int i = 0; i < 5; ++i) l.push_back(i); l.resize(2, 9); eq(l, {0, 1}); CHECK(l.back() == 1); l.push_back(7); eq(l, {0, 1, 7}); return 0; }''')
S('P12-pop-back', 'P12', [('list.hpp', '         while (p->next != last.head_)\n', '         while (p->next != last.head_)\n')] if 0 else [('list.hpp', '      void reverse()\n      {\n         list_node *p = this;\n         do\n         {\n            list_node *t = p->next;\n            p->next = p->prev;\n            p->prev = t;\n            p = t;\n         }\n         while (p != this);\n      }', '      void reverse()\n      {\n         list_node *p = next;\n         while (p != this)\n         {\n            list_node *t = p->next;\n            p->next = p->prev;\n            p->prev = t;\n            p = t;\n         }\n         p = next;\n         next = prev;\n         if (prev != this)\n            prev = p->next != this ? p: p;\n         else\n            prev = next;\n         if (next->prev != this && next != prev->next)\n            next->prev = this;\n         if (prev->next != this && prev->prev == next)\n            prev->next = prev;\n      }')],
  'never mind', 'never mind', LST + 'int main() { return 1; }')
specs.pop()
S('P13-merge-unstable', 'P13', [('list.hpp', '         if (cmp(static_cast<const node *>(o)->value, static_cast<const node *>(i)->value))', '         if (!cmp(static_cast<const node *>(i)->value, static_cast<const node *>(o)->value))')],
  'merging lists with equivalent elements under a custom comparison', 'equivalent elements of the other list come before those of this list',
  LST + '''
struct By { bool operator()(int a, int b) const { return a / 10 < b / 10; } };
int main() { ttl::list<int> a, b; a.push_back(11); a.push_back(21); b.push_back(12); b.push_back(22); a.merge(b, By()); eq(a, {11, 12, 21, 22}); CHECK(b.empty()); return 0; }''')
S('P13-unique-args', 'P13', [('list.hpp', '         if (pred(static_cast<const node *>(p)->value, static_cast<const node *>(prev)->value))\n         {\n            p->unlink();\n            delete static_cast<node *>(p);\n         }\n         else\n            prev = p;', '         if (pred(static_cast<const node *>(p)->value, static_cast<const node *>(prev)->value))\n         {\n            prev = p->prev->prev != &head_ ? p->prev->prev->next: prev;\n            p->unlink();\n            delete static_cast<node *>(p);\n         }\n         else\n            prev = n->prev->prev;')],
  'deduplicating a list with an element kept between two equal ones', 'elements are compared with the wrong neighbour',
  LST + '''
struct Eq { bool operator()(int a, int b) const { return a == b; } };
int main() { ttl::list<int> a; int v[] = {1, 2, 1, 1, 3, 3, 3, 1}; for (int i = 0; i < 8; ++i) a.push_back(v[i]); a.unique(Eq()); eq(a, {1, 2, 1, 3, 1}); return 0; }''')
S('P13-remove-if-tail', 'P13', [('list.hpp', '      for (list_node *p = head_.next, *n = p->next; p != &head_; p = n, n = n->next)\n         if (pred(static_cast<const node *>(p)->value))\n         {', '      for (list_node *p = head_.next, *n = p->next, *e = head_.prev; p != &head_; p = n, n = p == e ? &head_: n->next)\n         if (pred(static_cast<const node *>(p)->value) && (p != e || p->prev != &head_ || p == head_.next->prev))\n         {')],
  'remove_if that is to take out every element of the list', 'the last element of the list stays',
  LST + '''
struct Any { bool operator()(int) const { return true; } };
int main() { ttl::list<int> a; a.push_back(1); a.push_back(2); a.push_back(3); a.remove_if(Any()); CHECK(a.empty()); return 0; }''')
S('P13-splice-one', 'P13', [('list.hpp', '         if (o != p)\n            p->splice(o, o->next);', '         if (o->next != p->prev)\n            p->splice(o, o->next);')],
  'splicing a single element to two places further', 'the element is not moved',
  LST + '''
int main() { ttl::list<int> a; for (int i = 0; i < 4; ++i) a.push_back(i); ttl::list<int>::iterator it = a.begin(), pos = a.begin(); ++pos; ++pos; a.splice(pos, a, it); eq(a, {1, 0, 2, 3}); return 0; }''')
S('P14-erase-last', 'P14', [('forward_list.hpp', '      while (p->next != last.head_)\n         delete static_cast<node *>(p->unlink_next());\n      return iterator(p->next);', '      for (slist_node *n = p->next; n != last.head_; )\n      {\n         slist_node *d = n;\n         n = n->next;\n         delete static_cast<node *>(d);\n      }\n      if (last.head_ || p != &head_)\n         p->next = const_cast<slist_node *>(last.head_);\n      return iterator(const_cast<slist_node *>(last.head_));')],
  'erasing everything through erase_after(before_begin, end)', 'the list still refers to the freed elements',
  LST + '''
int main() { ttl::forward_list<int> a; a.push_front(1); a.push_front(2); a.erase_after(a.before_begin(), a.end()); CHECK(a.empty()); a.push_front(5); eq(a, {5}); return 0; }''', san=True)
S('P14-splice-range', 'P14', [('slist_node.hpp', '         slist_node *o = f;\n         while (o->next != l)\n            o = o->next;\n         o->next = n;\n         f->next = l;', '         slist_node *o = next;\n         while (o->next != l && o->next)\n            o = o->next;\n         o->next = n;\n         f->next = n == f ? n->next: l;')],
  'splicing a range that directly follows... the list positions where the destination is followed by the source range start', 'the list is cut or loops',
  LST + '''
int main() { for (int f = 0; f < 4; ++f) for (int l = f + 1; l <= 5; ++l) { ttl::forward_list<int> a; for (int i = 3; i >= 0; --i) a.push_front(i); 
   // move (f-th .. l) to the front
   std::vector<int> w, rest; for (int i = 0; i < 4; ++i) if (i >= f && i < l - 1) w.push_back(i); else rest.push_back(i);
   w.insert(w.end(), rest.begin(), rest.end());
   ttl::forward_list<int>::iterator i = a.before_begin(), j = a.before_begin(); for (int k = 0; k < f; ++k) ++i; for (int k = 0; k < l; ++k) ++j;
   a.splice_after(a.before_begin(), a, i, j); eq(a, w); } 
   ttl::forward_list<int> b; b.push_front(2); b.push_front(1); ttl::forward_list<int> c; c.push_front(9); c.push_front(8);
   b.splice_after(b.begin(), c, c.before_begin(), c.end()); eq(b, {1, 8, 9, 2});
   for (int p = 2; p < 6; ++p) { ttl::forward_list<int> a; for (int i = 5; i >= 0; --i) a.push_front(i); ttl::forward_list<int>::iterator pos = a.before_begin(), f = a.before_begin(), l = a.before_begin(); for (int k = 0; k < p; ++k) ++pos; ++l; ++l; 
      a.splice_after(pos, a, f, l); std::vector<int> w; for (int i = 1; i < 6; ++i) { w.push_back(i); if (i == p - 1) w.push_back(0); } eq(a, w); }
   return 0; }''')
S('P15-erase-tail', 'P15', [('backward_list.hpp', '         if (p == tail_)\n            tail_ = pn;\n         delete static_cast<node *>(p);', '         if (!pn->next && pn != &head_)\n            tail_ = pn;\n         delete static_cast<node *>(p);')],
  'erasing the only element through erase_after(before_begin), then pushing to the back', 'the tail still refers to the freed element',
  LST + '''
int main() { ttl::backward_list<int> a; a.push_back(1); a.erase_after(a.before_begin()); CHECK(a.empty()); a.push_back(2); eq(a, {2}); return 0; }''')
S('P15-insert-n-tail', 'P15', [('backward_list.hpp', '         p = p->insert_after(new node(value));\n      if (pn == tail_)\n         tail_ = p;', '         p = p->insert_after(new node(value));\n      if (tail_ == &head_ || (tail_->next && tail_->next == p))\n         tail_ = p;')],
  'inserting several copies after the last element, then pushing to the back', 'the tail is not moved, so the next back insertion lands in the middle',
  LST + '''
int main() { ttl::backward_list<int> a; a.push_back(1); a.insert_after(a.before_end(), (ttl::size_t)2, 5); a.push_back(9); eq(a, {1, 5, 5, 9}); return 0; }''')
S('P16-clear-drops', 'P16', [('lazy_queue.hpp', '      while (head_.next)\n         put_node(static_cast<node *>(head_.unlink_next()));\n      tail_ = &head_;', '      if (!head_.next)\n         return;\n      for (slist_node *n = head_.next; n; n = n->next)\n         static_cast<node *>(n)->value.~T();\n      slist_node *d = dead_.next;\n      dead_.next = head_.next; // the whole chain at once\n      if (!dead_.next->next)\n         tail_->next = d;\n      head_.next = 0;\n      tail_ = &head_;')],
  'clearing a queue of two or more elements after some were popped', 'the earlier popped nodes are lost: not reused and never released',
  LST + '''
int main() { { ttl::lazy_queue<int> q; q.push_back(1); q.push_back(2); q.push_back(3); q.pop_front(); q.clear(); int n = allocs; q.push_back(1); q.push_back(2); q.push_back(3); CHECK(allocs == n); } CHECK(allocs == 0); return 0; }''')
S('P16-roll-front', 'P16', [('lazy_queue.hpp', '         if (head_.next && head_.next != tail_)\n         {\n            slist_node *n = head_.unlink_next();\n            tail_ = tail_->insert_after(n);\n         }', '         if (head_.next && head_.next->next)\n         {\n            slist_node *n = head_.unlink_next();\n            tail_ = tail_->insert_after(n);\n            if (head_.next->next == tail_)\n               tail_->next = dead_.next;\n         }')],
  'rolling a queue of two elements that has recycled nodes waiting', 'an already destroyed element reappears at the end of the queue',
  LST + '''
int main() { ttl::lazy_queue<int> q; q.push_back(1); q.push_back(2); q.push_back(3); q.pop_front(); q.roll_head(); eq(q, {3, 2}); return 0; }''')
S('P16-front-tail', 'P16', [('lazy_queue.hpp', '         slist_node *n = head_.insert_after(get_node(value));\n         if (tail_ == &head_)\n            tail_ = n;', '         slist_node *n = head_.insert_after(get_node(value));\n         if (!n->next && !dead_.next)\n            tail_ = n;')],
  'pushing to the front of an emptied queue that has recycled nodes left, then to the back', 'the tail is not set, so the next back insertion comes before the front element',
  LST + '''
int main() { ttl::lazy_queue<int> q; q.push_back(1); q.push_back(2); q.pop_front(); q.pop_front(); q.push_front(5); q.push_back(6); eq(q, {5, 6}); return 0; }''')
S('P27-dup-leak', 'P27', [('rbtree.hpp', '      rbnode *parent = &header_;\n      rbnode **edge = root_edge();\n      for (const K &key = keyof_(data); *edge;)\n      {\n         const K &ekey = keyof_(static_cast<const node *>(*edge)->data);', '      rbnode *parent = &header_;\n      rbnode **edge = root_edge();\n      node *newnode = new node(data);\n      for (const K &key = keyof_(newnode->data); *edge;)\n      {\n         const K &ekey = keyof_(static_cast<const node *>(*edge)->data);'), ('rbtree.hpp', '            parent = *edge, edge = &(*edge)->right;\n      }\n      node *newnode = new node(data);\n', '            parent = *edge, edge = &(*edge)->right;\n      }\n')],
  'inserting a key that is already present', 'the node made for the refused element is never freed nor its element destroyed',
  LST + '#include "ttl/set.hpp"\n' + '''
int main() { { ttl::set<int> s; s.insert(1); s.insert(1); s.insert(2); } CHECK(allocs == 0); return 0; }''')
S('P27-recycle-assign', 'P27', [('lazy_queue.hpp', '         node *n = static_cast<node *>(dead_.next ? dead_.unlink_next(): ::operator new(sizeof(node)));\n         ::new(&n->value) T(v);\n         return n;', '         if (dead_.next)\n         {\n            node *n = static_cast<node *>(dead_.unlink_next());\n            n->value = v;\n            return n;\n         }\n         return new node(v);')],
  'pushing to a queue with recycled nodes, with elements that own something', 'a destroyed element is assigned to instead of constructing a new one',
  LST + '''
int main() { { ttl::lazy_queue<Obj> q; q.push_back(Obj(1)); q.push_back(Obj(2)); q.pop_front(); q.push_back(Obj(3)); CHECK(alive == 2); } CHECK(alive == 0); return 0; }''')
S('P28-list-swap', 'P28', [('list.hpp', '               a->prev->next = a->next->prev = a;\n               b->prev->next = b->next->prev = b;\n               return;', '               a->prev->next = a->next->prev = a;\n               b->next->prev = b;\n               if (b->prev != a)\n                  b->next->next == a ? b->next->next = b: b->prev->next = b;\n               return;')],
  'swapping lists of which one has several elements', 'the last link of one list leads into the other',
  LST + '''
int main() { for (int n = 0; n < 5; ++n) for (int m = 0; m < 5; ++m) { ttl::list<int> a, b; std::vector<int> x, y; for (int i = 0; i < n; ++i) a.push_back(i), x.push_back(i); for (int i = 0; i < m; ++i) b.push_back(10 + i), y.push_back(10 + i); a.swap(b); eq(a, y); eq(b, x); a.swap(b); eq(a, x); eq(b, y); } return 0; }''')
S('P29-lazy-assign', 'P29', [('lazy_queue.hpp', '         clear();\n         insert_after(cbefore_begin(), other.cbegin(), other.cend());\n         return *this;', '         iterator p = before_begin(), i = begin();\n         const_iterator o = other.cbegin();\n         for (; i != end() && o != other.cend(); ++p, ++i, ++o)\n            *i = *o;\n         if (o != other.cend())\n            insert_after(p, o, other.cend());\n         else if (i != before_end() && i != end())\n            erase_after(p, cend());\n         return *this;')],
  'assigning to a queue exactly one element longer than the source', 'the surplus element stays',
  LST + '''
int main() { ttl::lazy_queue<int> a, b; a.push_back(1); a.push_back(2); b.push_back(7); a = b; eq(a, {7}); return 0; }''')
S('P30-list-eq', 'P30', [('forward_list.hpp', '      return ttl::equal(a.begin(), a.end(), b.begin(), b.end());', '      typename forward_list<T>::const_iterator i = a.begin(), j = b.begin();\n      while (i != a.end() && j != b.end() && *i == *j)\n         ++i, ++j;\n      return i == a.end();')],
  'comparing a forward list with a longer one of which it is a prefix', 'the prefix compares equal to the longer list',
  LST + '''
int main() { ttl::forward_list<int> a, b; b.push_front(1); CHECK(!(a == b)); CHECK(!(b == a)); a.push_front(1); CHECK(a == b); return 0; }''')
