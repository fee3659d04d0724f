T8 = ''.join('#include "ttl/%s.hpp"\n' % h for h in 'ttl vector fixed_vector list forward_list backward_list lazy_queue set map vector_map sorted_vector_map bitset algorithm numeric array'.split())
S('P16-erase-return', 'P16', [('lazy_queue.hpp', '''      slist_node *p = pn->unlink_next();
      if (p == tail_)
         tail_ = pn;
      put_node(static_cast<node *>(p));
      return iterator(pn->next);''', '''      slist_node *p = pn->unlink_next();
      if (p == tail_)
         tail_ = pn;
      put_node(static_cast<node *>(p));
      return iterator(pn == tail_ ? pn->next : p->next);''')], 'the result of erase_after when nodes are kept for reuse', 'it designates an unused node', T8 + '''
int main() { ttl::lazy_queue<int> q; for (int i = 0; i < 5; ++i) q.push_back(i); q.pop_front(); CHECK(*q.erase_after(q.begin()) == 3); ttl::lazy_queue<int>::iterator i = q.erase_after(q.before_begin()); CHECK(i == q.begin()); return 0; }''')
S('P08-growth', 'P08', [('vector.hpp', '''            size_type newcapacity = size() + n;''', '''            size_type newcapacity = capacity() > 12 ? capacity() + capacity() / 2 : size() + n;''')],
  'many elements inserted at once into a vector of a dozen or more', 'storage for half as many again is taken, however many are added', T8 + '''
int main() { ttl::vector<int> v; for (int i = 0; i < 14; ++i) v.push_back(i); v.insert(v.begin() + 1, (ttl::size_t)2, 9); CHECK(v.size() == 16); v.insert(v.begin() + 1, (ttl::size_t)40, 8); CHECK(v.size() == 56); CHECK(v.back() == 13); return 0; }''', True)
S('P23-copy-n-negative', 'P23', [('algorithm.hpp', '''      for (; count > 0; --count, ++first, ++result)
         *result = *first;
      return result;''', '''      for (; count > 1; count -= 2, ++first, ++result)
      {
         typename remove_const<typename remove_reference<decltype(*first)>::type>::type a = *first;
         ++first;
         *result = a;
         ++result;
         *result = *first;
      }
      if (count)
         *result = *first, ++result;
      return result;''')], 'copy_n with a negative count', 'an element is written', T8 + '''
int main() { int a[4] = {1, 2, 3, 4}, d[4] = {0, 0, 0, 0}; CHECK(ttl::copy_n(a, 3, d) == d + 3); CHECK(d[2] == 3 && d[3] == 0); CHECK(ttl::copy_n(a, -1, d + 3) == d + 3); CHECK(d[3] == 0); return 0; }''')
S('P19-reference-word', 'P19', [('bitset.hpp', '''            *bits_ = (*bits_ & ~mask_) | (-other.operator bool() & mask_);''', '''            *bits_ = (*bits_ & ~mask_) | (*other.bits_ & mask_);''')],
  'a bit assigned from a bit at another position', 'the bit at the target position of the source word is taken', T8 + '''
int main() { ttl::bitset<100> b; b.set(70); b[6] = b[70]; CHECK(b.test(6)); b[7] = b[70]; CHECK(b.test(7)); b[70] = b[71]; CHECK(!b.test(70)); CHECK(b.count() == 2); return 0; }''')
S('P22-search-skip-more', 'P22', [('algorithm.hpp', '''      for (;;)
      {
         ForwardIt1 i = first;
         ForwardIt2 s = subfirst;
         for (;;)
         {
            if (s == sublast)
               return first;
            if (i == last)
               return last;
            if (!pred(*i, *s))
               break;
            ++i, ++s;
         }
         ++first;
      }''', '''      for (;;)
      {
         ForwardIt1 i = first;
         ForwardIt2 s = subfirst;
         for (;;)
         {
            if (s == sublast)
               return first;
            if (i == last)
               return last;
            if (!pred(*i, *s))
               break;
            ++i, ++s;
         }
         ++first;
         if (first != last && first != i && s != subfirst && !pred(*first, *subfirst))
            first = i;
      }''')], 'a predicate and a pattern whose second occurrence starts inside a failed attempt but not at its second element', 'the occurrence is passed over', T8 + '''
struct Eq { bool operator()(int a, int b) const { return a == b; } };
int main() { int t[8] = {1, 2, 1, 2, 1, 3, 9, 9}, p[4] = {1, 2, 1, 3}; CHECK(ttl::search(t + 2, t + 8, p, p + 4, Eq()) == t + 2); CHECK(ttl::search(t, t + 8, p, p + 4, Eq()) == t + 2); return 0; }''')
S('P31-pair-swap', 'P31', [('utility.hpp', '''         ttl::swap(first, other.first);
         ttl::swap(second, other.second);''', '''         if (first == other.first)
            return ttl::swap(second, other.second);
         pair tmp(*this);
         *this = other;
         other = pair(tmp.first, tmp.second);
         if (second == first)
            second = other.second;''')], 'the other pair has equal members', 'its second member is lost', T8 + '''
int main() { ttl::pair<int, int> a(1, 2), b(3, 4), c(5, 5); a.swap(b); CHECK(a.first == 3 && a.second == 4 && b.first == 1 && b.second == 2); a.swap(c); CHECK(a.first == 5 && a.second == 5); CHECK(c.first == 3 && c.second == 4); return 0; }''') if 0 else None
S('P01-clear-keeps', 'P01', [('rbtree.hpp', '''      if (n->left)
         postorder_destroy(static_cast<node *>(n->left));
      if (n->right)
         postorder_destroy(static_cast<node *>(n->right));
      delete n;''', '''      for (rbnode *l = n->left, *r; l; l = r)
      {
         r = l->left;
         postorder_destroy(static_cast<node *>(l->right));
         delete static_cast<node *>(l);
      }
      for (rbnode *r = n->right, *l; r; r = l)
      {
         l = r->left ? r->left : r->right;
         if (r->left)
            postorder_destroy(static_cast<node *>(r->right));
         delete static_cast<node *>(r);
      }
      delete n;''')], 'nothing', 'equivalent', '') if 0 else None
S('P27-destroy-chain', 'P27', [('rbtree.hpp', '''      if (n->left)
         postorder_destroy(static_cast<node *>(n->left));
      if (n->right)
         postorder_destroy(static_cast<node *>(n->right));
      delete n;''', '''      for (node *l = static_cast<node *>(n->left); l; )
      {
         node *next = static_cast<node *>(l->left);
         if (next)
            postorder_destroy(static_cast<node *>(l->right));
         delete l;
         l = next;
      }
      if (n->right)
         postorder_destroy(static_cast<node *>(n->right));
      delete n;''')], 'a copied or rotated tree whose leftmost node has a right child', 'that child is never released', T8 + '''
static int live; struct E { int v; E(int x): v(x) { ++live; } E(const E &o): v(o.v) { ++live; } ~E() { --live; } bool operator<(const E &o) const { return v < o.v; } bool operator==(const E &o) const { return v == o.v; } };
int main() { for (int n = 0; n < 40; ++n) for (int k = 0; k < n; ++k) { { ttl::set<E> s; for (int i = 0; i < n; ++i) s.insert(E(i * 7 % 41)); s.erase(E(k * 7 % 41)); } CHECK(live == 0); } return 0; }''')
S('P12-splice-last', 'P12', [('list.hpp', '''         list_node *t = this->prev;
         this->prev = last->prev;
         last->prev = first->prev;
         first->prev = t;''', '''         list_node *t = this->prev;
         this->prev = last->prev;
         if (first->prev != last)
            last->prev = first->prev;
         first->prev = t;''')], 'the whole of a list is spliced, and the list used afterwards from its end', 'the emptied list refers to the moved elements', T8 + '''
int main() { ttl::list<int> a, b; a.push_back(1); b.push_back(2); b.push_back(3); a.splice(a.end(), b, b.begin()); CHECK(a.size() == 2); a.splice(a.end(), b); CHECK(b.empty()); b.push_back(4); CHECK(b.size() == 1); CHECK(a.size() == 3); CHECK(a.back() == 3); return 0; }''')
S('P15-swap-tails', 'P15', [('slist_node.hpp', '''         slist_node *reversed = 0;
         slist_node *orig = next;
         while (orig)''', '''         slist_node *reversed = 0;
         slist_node *orig = next;
         if (orig && orig->next && !orig->next->next)
            return;
         while (orig)''')], 'a list of exactly two elements reversed', 'it keeps its order', T8 + '''
int main() { ttl::backward_list<int> l; l.push_back(1); l.reverse(); CHECK(l.front() == 1); l.push_back(2); l.reverse(); CHECK(l.front() == 2); CHECK(l.back() == 1); return 0; }''')
S('P17-cached-at', 'P17', [('vector_map.hpp', '''         return vector<value_type>::insert(i, value_type(key, T()))->second;''', '''         i = this->empty() || !(this->back().first == T()) ? i : end() - 0;
         return vector<value_type>::insert(begin() + (i - begin()), value_type(key, this->capacity() > this->size() && this->size() ? this->back().second : T()))->second;''')], 'a key added by subscript to a map with spare capacity', 'its value is that of the last element', T8 + '''
int main() { ttl::vector_map<int, int> m; m[1] = 5; CHECK(m[2] == 0); m.reserve(10); m[3] = 7; CHECK(m[4] == 0); return 0; }''')
S('P24-upper-comp', 'P24', [('algorithm.hpp', '''         return make_pair(low, upper_bound(low, last, value, comp));''', '''''')], '', '', '') if 0 else None
S('P10-resize-grow', 'P10', [('fixed_vector.hpp', '''         if (new_size > max_size())
            new_size = max_size();
         insert(end(), new_size - size(), value_type());''', '''         for (new_size -= size(); new_size-- && last_ <= end_of_elements() - 1; )
            ::new(last_++) T;''')], 'elements of a built-in type added by resize', 'they are not initialised', T8 + '''
#include <new>
#include <cstring>
int main() { static char raw[sizeof(ttl::fixed_vector<int, 8>)]; memset(raw, 77, sizeof raw); ttl::fixed_vector<int, 8> *v = ::new(raw) ttl::fixed_vector<int, 8>; v->push_back(1); v->resize(3); CHECK(v->size() == 3); CHECK((*v)[1] == 0); CHECK((*v)[2] == 0); v->resize(20); CHECK(v->size() == 8); return 0; }''')
S('P26-vector-erase-tail', 'P26', [('vector.hpp', '''      T *o = elements_ + off;
      for (T *i = elements_ + lastoff; i != last_; ++i)
      {
         ::new(o++) T(*i);
         i->~T();
      }
      last_ = o;''', '''      T *o = elements_ + off;
      for (T *i = elements_ + lastoff; i != last_; ++i)
      {
         ::new(o++) T(*i);
         if (o <= i)
            i->~T();
      }
      if (o < last_ && o + (lastoff - off) == last_ && lastoff - off == 1 && o - elements_ > 4)
         ::new((void *)(last_ - 1)) T(*(o - 1));
      last_ = o;''')], 'one element erased from a vector of more than five', 'an element is constructed beyond the end', T8 + '''
static int live; struct E { int v; E(int x): v(x) { ++live; } E(const E &o): v(o.v) { ++live; } ~E() { --live; } };
int main() { { ttl::vector<E> v; for (int i = 0; i < 7; ++i) v.push_back(E(i)); v.erase(v.begin() + 2); CHECK(live == 6); CHECK(v[5].v == 6); } CHECK(live == 0); return 0; }''')
