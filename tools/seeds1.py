TREE = '''
#include "ttl/ttl.hpp"
#include "ttl/utility.hpp"
#include "ttl/functional.hpp"
#include "ttl/algorithm.hpp"
#include "ttl/set.hpp"
#include "ttl/map.hpp"
#include "ttl/rbtree.hpp"
'''
PROBE = '''
static int cmps;
struct Cnt { bool operator()(int a, int b) const { ++cmps; return a < b; } };
static int lg(int n) { int r = 0; while ((1 << r) < n + 1) ++r; return r; }
'''
S('P04-absent-fixup', 'P04', [('rbtree.hpp', '      while (parent != &header_)\n      {\n         root = edge(parent);\n         parent = parent->parent;\n         *root = fixup(*root);\n      }\n      if (root_())',
  '      while (deleted && parent != &header_)\n      {\n         root = edge(parent);\n         parent = parent->parent;\n         *root = fixup(*root);\n      }\n      if (root_())')],
  'removals of absent keys interleaved with removals and lookups', 'a removal that finds nothing leaves the tree restructured on the way down and not repaired',
  TREE + PROBE + '''
int main() {
   for (int n = 1; n < 64; ++n) for (int k = 0; k <= 2 * n; k += 2) {
      ttl::set<int, Cnt> s;
      for (int i = 0; i < n; ++i) s.insert(2 * i + 1);
      for (int r = 0; r < 20; ++r) s.erase(k), s.erase(2 * ((k / 2 + 7 * r) % (n + 1)));
      for (int i = 0; i < n; ++i) { cmps = 0; CHECK(s.find(2 * i + 1) != s.end()); CHECK(cmps <= 2 * lg(n) + 1); }
   }
   return 0; }''')
S('P04-lean-right', 'P04', [('rbtree.hpp', 'while (parent != &header_ && (is_red(parent->left) || is_red(parent->right)))', 'while (parent != &header_ && (is_red(parent->left) || (is_red(parent->right) && parent->left)))')],
  'ascending insertion into leaves without a left child', 'right-leaning red links are left behind and paths grow longer than the red-black bound',
  TREE + PROBE + '''
int main() {
   for (int n = 1; n < 400; ++n) { ttl::set<int, Cnt> s; for (int i = 0; i < n; ++i) s.insert(i);
      for (int i = 0; i < n; ++i) { cmps = 0; CHECK(s.find(i) != s.end()); CHECK(cmps <= 2 * lg(n) + 1); } }
   return 0; }''')
S('P03-orphan-parent', 'P03', [('rbtree.hpp', '               if (orphan->left)\n                  orphan->left->parent = orphan;\n', '               if (orphan->left && orphan->left != deleted)\n                  orphan->left->parent = (*root)->parent;\n')],
  'erasing an inner node with both children, then walking through its left subtree', 'the left child of the replacement node keeps a wrong parent link',
  TREE + '''
int main() {
   for (int n = 1; n < 20; ++n) for (int k = 0; k < n; ++k) {
      ttl::set<int> s; for (int i = 0; i < n; ++i) s.insert((i * 7) % n == 0 && i ? i : (i * 7) % n);
      for (int i = 0; i < n; ++i) s.insert(i);
      s.erase(k);
      int w = 0; for (ttl::set<int>::iterator i = s.begin(); i != s.end(); ++i) { if (w == k) ++w; CHECK(*i == w); ++w; CHECK(w <= n); }
      if (w == k) ++w; CHECK(w == n);
   }
   return 0; }''')
S('P06-copy-colour', 'P06', [('rbtree.hpp', '      nc->color = n->color;\n', '      nc->color = n->left || n->right ? n->color: rbnode::BLACK;\n')],
  'a copy of a tree with red leaves, then removals from the copy', 'leaves of the copied tree lose their colour, so the copy is not a balanced tree and later removals misbehave',
  TREE + '''
int main() {
   for (int n = 1; n < 20; ++n) for (int k = 0; k < n; ++k) {
      ttl::set<int> s; for (int i = 0; i < n; ++i) s.insert(i);
      ttl::set<int> c(s);
      for (int r = 0; r < n; ++r) {
         CHECK(c.erase((k + r) % n) == 1);
         int cnt = 0, last = -1;
         for (ttl::set<int>::iterator i = c.begin(); i != c.end(); ++i) { CHECK(*i > last); last = *i; ++cnt; CHECK(cnt <= n); }
         CHECK(cnt == n - 1 - r);
      }
   }
   return 0; }''')
S('P06-assign-empty', 'P06', [('rbtree.hpp', '      if (root_())\n         clear();\n      const node *otherroot = other.get_root();\n      if (otherroot)\n         (*root_edge() = preorder_copy(otherroot))->parent = &header_;',
  '      const node *otherroot = other.get_root();\n      if (otherroot)\n      {\n         clear();\n         (*root_edge() = preorder_copy(otherroot))->parent = &header_;\n      }')],
  'assigning an empty tree container to a filled one', 'the target keeps its old contents',
  TREE + '''
int main() { ttl::map<int,int> a, e; a[1] = 2; a = e; CHECK(a.empty()); CHECK(a.begin() == a.end()); return 0; }''')
S('P05-lower-early', 'P05', [('rbtree.hpp', '         if (is_less_(keyof_(static_cast<const node *>(n)->data), key))\n            n = n->right;\n         else\n            prev = n, n = n->left;',
  '         const K &nkey = keyof_(static_cast<const node *>(n)->data);\n         if (is_less_(nkey, key))\n            n = n->right;\n         else\n         {\n            prev = n;\n            if (n->left && key == nkey && !(key == keyof_(static_cast<const node *>(n->left)->data)))\n               break; // found, no equal on the left\n            n = n->left;\n         }')],
  'equal keys where the left child of the topmost equal node has a smaller key but an equal one further down', 'lower_bound stops at an equal element that is not the first',
  TREE + '''
typedef ttl::rbtree<int, ttl::pair<int,int>, ttl::select_first< ttl::pair<int,int> >, ttl::less<int> > T;
int main() {
   for (unsigned seed = 1; seed < 400; ++seed) {
      T t; unsigned x = seed; int n[4] = {0,0,0,0}, tot = 0;
      for (int i = 0; i < 14; ++i) { x = x * 1103515245u + 12345; int k = (x >> 16) % 4; t.insert_equal(ttl::pair<int,int>(k, i)); ++n[k]; ++tot; }
      for (int k = 0; k < 4; ++k) CHECK(t.count(k) == (ttl::size_t)n[k]);
   }
   return 0; }''')
S('P05-dup-order', 'P05', [('rbtree.hpp', '         parent = *edge;\n         if (is_less_(key, keyof_(static_cast<const node *>(*edge)->data)))\n            edge = &(*edge)->left;\n         else\n            edge = &(*edge)->right;',
  '         parent = *edge;\n         const K &ekey = keyof_(static_cast<const node *>(*edge)->data);\n         if (is_less_(key, ekey) || ((*edge)->right && (*edge)->right->color == (*edge)->color && key == ekey))\n            edge = &(*edge)->left;\n         else\n            edge = &(*edge)->right;')],
  'more than a handful of equal keys, so that an equal inner node has a right child of its own colour', 'an equal element is put before the elements inserted earlier',
  TREE + '''
typedef ttl::rbtree<int, ttl::pair<int,int>, ttl::select_first< ttl::pair<int,int> >, ttl::less<int> > T;
int main() {
   T t; for (int i = 0; i < 40; ++i) t.insert_equal(ttl::pair<int,int>(7, i));
   int w = 0; for (ttl::rbnode *n = T::min_node(t.get_root()); n != t.end(); n = T::next_node(n)) CHECK(static_cast<T::node *>(n)->data.second == w++);
   CHECK(w == 40); return 0; }''')
S('P01-delmin-left', 'P01', [('rbtree.hpp', "         if (!is_red((*pivot)->left) && !is_red((*pivot)->left->left))\n            *pivot = move_left(*pivot);\n         pivot = &(*pivot)->left;", "         if (!is_red((*pivot)->left) && !is_red((*pivot)->left->left))\n            *pivot = move_left(*pivot);\n         if (!(*pivot)->left->left && (*pivot)->left->right)\n            break;\n         pivot = &(*pivot)->left;")],
  'erasing an inner key whose successor has a right child on the way', 'the wrong node is taken as the successor',
  TREE + '''
int main() {
   for (int n = 1; n < 40; ++n) for (int k = 0; k < n; ++k) for (int d = 0; d < 2; ++d) {
      ttl::set<int> s; for (int i = 0; i < n; ++i) s.insert(d ? n - 1 - i : i);
      for (int r = 0; r < n; ++r) { CHECK(s.erase((k + 3 * r) % n) <= 1); for (int q = 0; q < n; ++q) s.count(q); }
   }
   for (int n = 1; n < 24; ++n) for (int k = 0; k < n; ++k) {
      ttl::set<int> s; for (int i = 0; i < n; ++i) s.insert(i);
      bool in[32]; for (int i = 0; i < n; ++i) in[i] = true;
      unsigned x = k * 77 + n;
      for (int r = 0; r < 60; ++r) { x = x * 1103515245u + 12345; int q = (x >> 16) % n;
         if (x >> 31) { s.insert(q); in[q] = true; } else { CHECK(s.erase(q) == in[q]); in[q] = false; }
         for (int i = 0; i < n; ++i) CHECK(s.count(i) == in[i]); }
   }
   return 0; }''')
S('P02-upper-map', 'P02', [('rbtree.hpp', '         if (is_less_(key, keyof_(static_cast<const node *>(n)->data)))\n            prev = n, n = n->left;\n         else\n            n = n->right;\n      }\n      return static_cast<const node *>(prev);',
  '         if (is_less_(key, keyof_(static_cast<const node *>(n)->data)))\n            prev = n, n = n->left;\n         else if (n->right && key == keyof_(static_cast<const node *>(n)->data))\n            return static_cast<const node *>(n->right); // the successor\n         else\n            n = n->right;\n      }\n      return static_cast<const node *>(prev);')],
  'upper_bound of a present key whose right subtree has more than one level', 'the root of the right subtree is returned, not its smallest element',
  TREE + '''
int main() {
   ttl::set<int> s; for (int i = 0; i < 40; ++i) s.insert(i);
   for (int i = 0; i < 39; ++i) { CHECK(s.upper_bound(i) != s.end()); CHECK(*s.upper_bound(i) == i + 1); } return 0; }''')
S('P07-subscript-bound', 'P07', [('map.hpp', '         node_type *n = rbtree_.find(key);\n         if (n == rbtree_.end())\n            n = rbtree_.insert_unique(value_type(key, typename value_type::second_type())).first;\n         return n->data.second;',
  '         node_type *n = rbtree_.lower_bound(key);\n         if (n == rbtree_.end() || key < n->data.first)\n            n = rbtree_.insert_unique(value_type(key, typename value_type::second_type())).first;\n         return n->data.second;')],
  'a map with a comparator other than operator<', 'subscript of an absent key returns the value of another key',
  TREE + '''
struct Gt { bool operator()(int a, int b) const { return a > b; } };
int main() { ttl::map<int,int,Gt> m; m[1] = 10; m[3] = 30; m[2] = 20; m[5] = 50; m[4] = 40;
   for (int i = 1; i < 6; ++i) { CHECK(m.count(i) == 1); CHECK(m[i] == 10 * i); } return 0; }''')
VEC = '''
#include <cstddef>
#include "ttl/ttl.hpp"
#include "ttl/utility.hpp"
#include "ttl/algorithm.hpp"
#include "ttl/vector.hpp"
#include "ttl/fixed_vector.hpp"
#include <set>
struct Obj { static std::set<const Obj *> &live() { static std::set<const Obj *> s; return s; }
   int v; Obj(int x = 0): v(x) { CHECK(live().insert(this).second); } Obj(const Obj &o): v(o.v) { CHECK(live().count(&o)); CHECK(live().insert(this).second); }
   Obj &operator=(const Obj &o) { CHECK(live().count(this)); CHECK(live().count(&o)); v = o.v; return *this; } ~Obj() { CHECK(live().erase(this) == 1); v = -1; }
   bool operator==(const Obj &o) const { CHECK(live().count(this)); return v == o.v; } };
'''
S('P08-growth', 'P08', [('vector.hpp', '            size_type newcapacity = size() + n;\n', '            size_type newcapacity = capacity() ? capacity() * 2: n;\n')],
  'a counted or range insertion of more elements than the vector can hold when doubled', 'the new storage is smaller than the new contents: out-of-bounds writes and a broken sequence',
  VEC + '''
int main() { ttl::vector<int> v; v.push_back(1); int a[5] = {2,3,4,5,6}; v.insert(v.end(), a, a + 5);
   CHECK(v.size() == 6); for (int i = 0; i < 6; ++i) CHECK(v[i] == i + 1); CHECK(v.capacity() >= v.size()); return 0; }''', san=True)
S('P08-insert-inplace', 'P08', [('vector.hpp', '               for (o = elements_ + dist; n-- > 0; ++o)\n                  (this->*vc)(o, args);\n            }', '               for (o = elements_ + dist; n-- > 0 && o != last_ - dist; ++o)\n                  (this->*vc)(o, args);\n            }')],
  'an insertion into spare capacity near the end of a long vector, of more elements than remain behind the position', 'some of the inserted elements are not stored',
  VEC + '''
int main() { ttl::vector<int> v; v.reserve(20); for (int i = 0; i < 6; ++i) v.push_back(i); v.insert(v.begin() + 5, 3, 9);
   int w[9] = {0,1,2,3,4,9,9,9,5}; CHECK(v.size() == 9); for (int i = 0; i < 9; ++i) CHECK(v[i] == w[i]);
   v.insert(v.begin() + 7, 4, 8); CHECK(v.size() == 13); for (int i = 7; i < 11; ++i) CHECK(v[i] == 8); return 0; }''', san=True)
S('P09-exact-fill', 'P09', [('vector.hpp', '         if (end_of_elements_ - last_ < n)\n', '         if (end_of_elements_ - last_ <= n)\n')],
  'an insertion that exactly fills the reserved capacity', 'storage is reallocated although size stays within capacity',
  VEC + '''
int main() { ttl::vector<int> v; v.reserve(4); v.push_back(1); int *p = &v[0]; v.insert(v.end(), 3, 7); CHECK(p == &v[0]); return 0; }''')
S('P09-assign-shrink', 'P09', [('vector.hpp', '      clear();\n      reserve(n);\n      while (n--)\n         ::new(last_++) T(value);', '      clear();\n      if (capacity() > 4 * n)\n      {\n         ::operator delete(elements_);\n         elements_ = last_ = end_of_elements_ = 0;\n      }\n      reserve(n);\n      while (n--)\n         ::new(last_++) T(value);')],
  'assign of a small count to a vector of more than four times that capacity', 'capacity shrinks and storage is reallocated although the size stays within capacity',
  VEC + '''
int main() { ttl::vector<int> v; v.reserve(40); v.push_back(1); int *p = &v[0]; v.assign((ttl::size_t)2, 5); CHECK(v.capacity() >= 40); CHECK(p == &v[0]); return 0; }''')
S('P10-range-overflow', 'P10', [('fixed_vector.hpp', '            for (o = p; first != last && o < end_of_elements(); ++first)\n', '            for (o = p; first != last && (o < last_ || !full()); ++first)\n')],
  'a range insertion before the end, with a range longer than the room between the position and the capacity', 'elements are written behind the storage',
  VEC + '''
struct Box { int before; ttl::fixed_vector<int, 4> v; int after[8]; };
int main() { Box b; b.before = 1; for (int i = 0; i < 8; ++i) b.after[i] = 100 + i; int a[6] = {5,6,7,8,9,10};
   b.v.push_back(1); b.v.push_back(2); b.v.insert(b.v.begin() + 1, a, a + 3); CHECK(b.v.size() == 4);
   CHECK(b.v[0] == 1 && b.v[1] == 5 && b.v[2] == 6 && b.v[3] == 7);
   ttl::fixed_vector<int, 4> w; w.push_back(1); w.push_back(2); w.insert(w.begin() + 1, a, a + 6); CHECK(w.size() == 4); CHECK(w[3] == 7);
   for (int i = 0; i < 8; ++i) CHECK(b.after[i] == 100 + i); return 0; }''', san=True)
S('P10-assign-full', 'P10', [('fixed_vector.hpp', '         for (; first != last && !full(); ++first)\n            new(last_++) T(*first);\n      }\n\n      iterator       begin()', '         for (size_type n = last - first; n-- && size() <= N; ++first)\n            new(last_++) T(*first);\n      }\n\n      iterator       begin()')],
  'assign of a range longer than the capacity', 'one element more than the capacity is stored',
  VEC + '''
int main() { int a[6] = {5,6,7,8,9,10}; struct { ttl::fixed_vector<int, 4> v; int guard[4]; } b; b.guard[0] = 77; b.v.assign(a, a + 6); CHECK(b.v.size() == 4); CHECK(b.guard[0] == 77); return 0; }''')
S('P11-realloc-destroy', 'P11', [('vector.hpp', '            for (i = elements_; i != pos; ++i)\n               ::new(o++) T(*i);\n            while (n-- > 0)\n               (this->*vc)(o++, args);\n            for (; i != last_; ++i)\n               ::new(o++) T(*i);\n            for (; i > elements_; )\n               (--i)->~T();',
  '            for (i = elements_; i != pos; ++i)\n            {\n               ::new(o++) T(*i);\n               i->~T();\n            }\n            while (n-- > 0)\n               (this->*vc)(o++, args);\n            for (; i != last_; ++i)\n            {\n               ::new(o++) T(*i);\n               i->~T();\n            }')],
  'push_back or insert of an own element lying before the position, when the vector reallocates', 'the element is read after it was destroyed',
  VEC + '''
int main() { { ttl::vector<Obj> v; v.push_back(Obj(1)); v.push_back(Obj(2)); while (v.size() < v.capacity()) v.push_back(Obj(3)); v.push_back(v[0]); CHECK(v.back().v == 1); CHECK(v[0].v == 1); } CHECK(Obj::live().empty()); return 0; }''')
S('P26-fixed-swap', 'P26', [('fixed_vector.hpp', '      b.last_ = b.elements() + minsiz;\n      while (e > b.last_)\n         (--e)->~T();', '      b.last_ = b.elements() + minsiz;\n      while (--e > b.last_)\n         e->~T();')],
  'swapping two fixed vectors of different sizes with elements that own something', 'one moved-from element is never destroyed',
  VEC + '''
int main() { { ttl::fixed_vector<Obj, 5> a, b; a.push_back(Obj(1)); a.push_back(Obj(2)); a.push_back(Obj(3)); b.push_back(Obj(4)); a.swap(b); CHECK(Obj::live().size() == 4); b.swap(a); } CHECK(Obj::live().empty()); return 0; }''')
S('P26-erase-assign', 'P26', [('vector.hpp', '      for (T *f = elements_ + off, *l = elements_ + lastoff; f != l;)\n         (--l)->~T();\n      T *o = elements_ + off;\n      for (T *i = elements_ + lastoff; i != last_; ++i)\n      {\n         ::new(o++) T(*i);\n         i->~T();\n      }\n      last_ = o;',
  '      T *o = elements_ + off;\n      for (T *i = elements_ + lastoff; i != last_; ++i)\n         *o++ = *i;\n      for (T *l = elements_ + lastoff; l != o; )\n         (--l)->~T();\n      last_ = o;')],
  'erasing a range from the middle of a vector, where the elements behind it are not as many as the erased ones', 'the wrong elements are destroyed: some twice, some never',
  VEC + '''
int main() { for (int n = 1; n < 6; ++n) for (int f = 0; f <= n; ++f) for (int l = f; l <= n; ++l) { { ttl::vector<Obj> v; for (int i = 0; i < n; ++i) v.push_back(Obj(i)); v.erase(v.begin() + f, v.begin() + l); CHECK(Obj::live().size() == (ttl::size_t)(n - (l - f))); } CHECK(Obj::live().empty()); } return 0; }''')
S('P28-vector-swap', 'P28', [('vector.hpp', '         ttl::swap(this->elements_, x.elements_);\n         ttl::swap(this->last_, x.last_);\n         ttl::swap(this->end_of_elements_, x.end_of_elements_);', '         if (empty() && x.empty())\n            return;\n         ttl::swap(this->elements_, x.elements_);\n         ttl::swap(this->last_, x.last_);\n         if (x.elements_ || !elements_)\n            ttl::swap(this->end_of_elements_, x.end_of_elements_);\n         else\n            end_of_elements_ = last_;')],
  'swapping a never used vector with a filled one and using it afterwards', 'the emptied vector keeps the end of storage it gave away, so later insertions write through a null base',
  VEC + '''
int main() { ttl::vector<int> a, b; for (int i = 0; i < 3; ++i) b.push_back(i); a.swap(b); CHECK(a.size() == 3 && b.size() == 0); CHECK(b.capacity() == 0); b.push_back(5); CHECK(b.size() == 1 && b[0] == 5); return 0; }''', san=True)
S('P29-assign-reserve', 'P29', [('vector.hpp', '      clear();\n      reserve(other.capacity());\n      for (const_iterator i = other.cbegin(); i != other.cend(); ++i)\n         ::new(last_++) T(*i);\n      return *this;', '      clear();\n      if (other.size() > capacity() + 1)\n         reserve(other.capacity());\n      for (const_iterator i = other.cbegin(); i != other.cend(); ++i)\n         ::new(last_++) T(*i);\n      return *this;')],
  'assigning a vector one element longer than the capacity of the target', 'the last element is written behind the storage of the target',
  VEC + '''
int main() { ttl::vector<int> a((ttl::size_t)2, 1), b((ttl::size_t)3, 7); a = b; CHECK(a.size() == 3); CHECK(a.capacity() >= 3); CHECK(a == b); return 0; }''', san=True)
S('P29-fixed-assign', 'P29', [('fixed_vector.hpp', '      clear();\n      for (const_iterator i = other.cbegin(); i != other.cend(); ++i)\n         ::new(last_++) T(*i);\n      return *this;', '      const_iterator i = other.cbegin();\n      for (T *o = elements(); o != last_ && i != other.cend(); ++o, ++i)\n         *o = *i;\n      for (; i != other.cend(); ++i)\n         ::new(last_++) T(*i);\n      return *this;')],
  'assigning a shorter fixed vector to a longer one', 'the surplus elements of the target stay',
  VEC + '''
int main() { ttl::fixed_vector<int, 5> a, b; a.push_back(1); a.push_back(2); a.push_back(3); b.push_back(9); a = b; CHECK(a.size() == 1 && a[0] == 9); return 0; }''')
S('P30-fixed-eq', 'P30', [('fixed_vector.hpp', '      return ttl::equal(a.begin(), a.end(), b.begin(), b.end());', '      return a.size() <= b.size() && ttl::equal(a.begin(), a.end(), b.begin());')],
  'comparing a fixed vector with a longer one of which it is a prefix', 'a prefix compares equal to the longer vector',
  VEC + '''
int main() { ttl::fixed_vector<int, 5> a, b; a.push_back(1); b.push_back(1); b.push_back(2); CHECK(!(a == b)); CHECK(!(b == a)); CHECK(a != b); return 0; }''')
