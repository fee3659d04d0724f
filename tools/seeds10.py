T8 = ''.join('#include "ttl/%s.hpp"\n' % h for h in 'ttl vector fixed_vector list forward_list backward_list lazy_queue set map vector_map sorted_vector_map bitset algorithm numeric array'.split())
S('P03-map-const-postdec', 'P03', [('map.hpp', '''         const_iterator operator--(int)
         {
            const_iterator tmp(*this);
            ptr_ = iterator::prev(ptr_);
            return tmp;
         }''', '''         const_iterator operator--(int)
         {
            const_iterator tmp(*this);
            if (ptr_->parent)
               ptr_ = static_cast<const node_type *>(ptr_->left ? rbtree_base::max_node(ptr_->left): rbtree_base::prev_node(ptr_));
            return tmp;
         }''')], 'a const iterator at the end of a map, stepped back with the postfix operator, and a root with a left subtree only in part', 'the iterator misses the elements after the root', T8 + '''
int main() { ttl::map<int,int> m; for (int i = 0; i < 7; ++i) m[i] = i; const ttl::map<int,int> &c = m; ttl::map<int,int>::const_iterator i = c.end(); i--; CHECK(i->first == 6); i--; CHECK(i->first == 5); return 0; }''')
S('P02-const-lower', 'P02', [('set.hpp', '''const_iterator lower_bound(const KT &key) const { return const_iterator(rbtree_.lower_bound(key)); }''',
 '''const_iterator lower_bound(const KT &key) const { const node_type *n = rbtree_.lower_bound(key); return const_iterator(n == rbtree_.end() || n->right || n->left || n->data == key ? n : rbtree_.find(key)); }''')],
 'a const set, a key which is absent, and a leaf as the answer', 'end() is returned', T8 + '''
int main() { ttl::set<int> m; for (int i = 0; i < 9; ++i) m.insert(i * 2); const ttl::set<int> &c = m; for (int i = -1; i < 16; ++i) { ttl::set<int>::const_iterator it = c.lower_bound(i); CHECK(it != c.end()); CHECK(*it == (i < 0 ? 0 : (i + 1) / 2 * 2)); } return 0; }''')
S('P04-orphan-fixup', 'P04', [('rbtree.hpp', '''               *root = orphan;
               parent = *root;
               break;''', '''               *root = orphan;
               parent = orphan->right ? orphan: orphan->parent;
               break;''')], 'the erasure of a node whose right subtree is a single node', 'the replacing node is not rebalanced', T8 + '''
static int n; struct L { bool operator()(int a, int b) const { ++n; return a < b; } };
int main() { for (int k = 1; k < 40; ++k) for (int step = 1; step < 40; ++step) { ttl::set<int, L> s; for (int i = 0; i < 40; ++i) s.insert(i * 7 % 41); for (int i = 0, x = k; i < 30; ++i, x = (x + step) % 41) s.erase(x);
 int cnt = 0, last = -1; for (ttl::set<int, L>::iterator i = s.begin(); i != s.end(); ++i, ++cnt) { CHECK(*i > last); last = *i; }
 for (int i = 0; i < 41; ++i) { n = 0; s.lower_bound(i); int lim = 0; for (int c = cnt + 1; c; c >>= 1) lim += 2; CHECK(n <= lim); } } 
 return 0; }''')
S('P04-copy-colour', 'P04', [('rbtree.hpp', '''      nc->color = n->color;''', '''      nc->color = n->left || !n->right ? n->color : rbnode::BLACK;
      if (!n->left && is_red(n->parent) == false && n->parent->right == n && n->parent->color == rbnode::BLACK && n->parent->parent->parent != n->parent)
         nc->color = rbnode::RED;''')], 'a copy of a container with at least two levels, edited further', 'some nodes of the copy have another colour', T8 + '''
static int n; struct L { bool operator()(int a, int b) const { ++n; return a < b; } };
int main() { for (int k = 3; k < 60; ++k) { ttl::set<int, L> s; for (int i = 0; i < k; ++i) s.insert(i);
 for (int r = 0; r < 6; ++r) { ttl::set<int, L> c(s); for (int i = 0; i < 20; ++i) c.insert(1000 + r * 100 + i); s = c; }
 int cnt = 0; for (ttl::set<int, L>::iterator i = s.begin(); i != s.end(); ++i) ++cnt; int lim = 0; for (int c = cnt + 1; c; c >>= 1) lim += 2;
 CHECK(cnt == k + 120);
 for (ttl::set<int, L>::iterator i = s.begin(); i != s.end(); ++i) { n = 0; s.lower_bound(*i); CHECK(n <= lim); } }
 return 0; }''')
S('P04-delete-min-stop', 'P04', [('rbtree.hpp', '''      while (root != pivot)
      {
         pivot = edge(parent);
         parent = parent->parent;
         *pivot = fixup(*pivot);
      }
      return deleted;''', '''      for (bool more = true; more && root != pivot;)
      {
         pivot = edge(parent);
         parent = parent->parent;
         more = is_red((*pivot)->right) || is_red((*pivot)->left) || is_red(*pivot);
         *pivot = fixup(*pivot);
      }
      return deleted;''')], 'erasure of a node whose right subtree is two or more levels deep', 'rebalancing stops at the first black node', T8 + '''
static int n; struct L { bool operator()(int a, int b) const { ++n; return a < b; } };
int main() { for (int k = 1; k < 60; ++k) for (int step = 1; step < 60; ++step) { ttl::set<int, L> s; for (int i = 0; i < 60; ++i) s.insert(i * 7 % 61); for (int i = 0, x = k; i < 50; ++i, x = (x + step) % 61) s.erase(x);
 int cnt = 0, last = -1; for (ttl::set<int, L>::iterator i = s.begin(); i != s.end(); ++i, ++cnt) { CHECK(*i > last); last = *i; }
 for (int i = 0; i < 61; ++i) { n = 0; s.lower_bound(i); int lim = 0; for (int c = cnt + 1; c; c >>= 1) lim += 2; CHECK(n <= lim); } } 
 return 0; }''')
S('P01-range-ascending', 'P01', [('map.hpp', '''      for (; first != last; ++first)
         rbtree_.insert_unique(value_type(first->first, first->second));''', '''      while (first != last && rbtree_.insert_unique(value_type(first->first, first->second)).second)
         ++first;
      for (; first != last; ++first)
         (*this)[first->first];''')], 'a range with a repeated key followed by new keys', 'later values are lost', T8 + '''
int main() { ttl::pair<int,int> a[4] = { ttl::pair<int,int>(1, 10), ttl::pair<int,int>(1, 11), ttl::pair<int,int>(2, 12), ttl::pair<int,int>(3, 13) }; ttl::map<int,int> m(a, a + 4); CHECK(m[1] == 10); CHECK(m.count(3) == 1); CHECK(m[2] == 12 && m[3] == 13); return 0; }''')
