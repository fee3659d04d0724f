LQ = '\n#include "ttl/ttl.hpp"\n#include "ttl/utility.hpp"\n#include "ttl/algorithm.hpp"\n#include "ttl/list.hpp"\n#include "ttl/forward_list.hpp"\n#include "ttl/lazy_queue.hpp"\n#include "ttl/set.hpp"\n#include "ttl/map.hpp"\n'
S('P33-roll-copy', 'P33', [('lazy_queue.hpp', '         if (head_.next && head_.next != tail_)\n         {\n            slist_node *n = head_.unlink_next();\n            tail_ = tail_->insert_after(n);\n         }', '         if (head_.next && head_.next != tail_)\n         {\n            push_back(front());\n            pop_front();\n         }')],
  'a reference to the front element held across roll_head', 'the element is replaced by a copy in another node', LQ + '''
int main() { ttl::lazy_queue<int> q; q.push_back(1); q.push_back(2); q.push_back(3); int *p = &q.front(); q.roll_head(); CHECK(q.back() == 1); CHECK(&q.back() == p); return 0; }''')
S('P33-reverse-values', 'P33', [('list.hpp', '         head_.reverse();', '         list_node *a = head_.next, *b = head_.prev;\n         if (a != b && a->next == b) // two elements\n            ttl::swap(static_cast<node *>(a)->value, static_cast<node *>(b)->value);\n         else\n            head_.reverse();')],
  'a list of exactly two elements, and an iterator held across reverse', 'the values are exchanged instead of the elements, so that iterators designate the other value', LQ + '''
int main() { for (int n = 1; n < 6; ++n) { ttl::list<int> l; for (int i = 0; i < n; ++i) l.push_back(i); ttl::list<int>::iterator i = l.begin(); l.reverse(); CHECK(*i == 0); CHECK(&*i == &l.back()); } return 0; }''')
S('P33-unique-last', 'P33', [('list.hpp', '         if (static_cast<const node *>(p)->value == static_cast<const node *>(prev)->value)\n         {\n            p->unlink();\n            delete static_cast<node *>(p);\n         }', '         if (static_cast<const node *>(p)->value == static_cast<const node *>(prev)->value)\n         {\n            if (n == &head_)\n            {\n               prev->unlink();\n               delete static_cast<node *>(prev);\n            }\n            else\n            {\n               p->unlink();\n               delete static_cast<node *>(p);\n            }\n         }')],
  'a run of equal elements at the end of the list', 'the last of them stays instead of the first', LQ + '''
int main() { ttl::list<int> l; l.push_back(1); l.push_back(2); l.push_back(2); ttl::list<int>::iterator i = l.begin(); ++i; int *p = &*i; l.unique(); CHECK(&l.back() == p); return 0; }''')
S('P33-erase-shift', 'P33', [('forward_list.hpp', '         delete static_cast<node *>(p->unlink_next());\n         return iterator(p->next);', '         slist_node *e = p->next;\n         if (e->next && !e->next->next) // the last but one: keep the node, drop the last\n         {\n            static_cast<node *>(e)->value = static_cast<node *>(e->next)->value;\n            delete static_cast<node *>(e->unlink_next());\n         }\n         else\n            delete static_cast<node *>(p->unlink_next());\n         return iterator(p->next);')],
  'erasing the last but one element while the last one is referred to', 'the last element is moved and its node released', LQ + '''
int main() { ttl::forward_list<int> l; for (int i = 0; i < 4; ++i) l.push_front(i); ttl::forward_list<int>::iterator i = l.begin(); ++i; ttl::forward_list<int>::iterator j = i; ++j; ++j; int *p = &*j; l.erase_after(i); ++i; CHECK(*i == 0); CHECK(&*i == p); return 0; }''')
S('P33-merge-tail', 'P33', [('list.hpp', '         if (static_cast<const node *>(o)->value < static_cast<const node *>(i)->value)\n         {\n            list_node *on = o->next;\n            o->unlink();\n            i->insert_before(o);\n            i = o;\n            o = on;\n         }', '         if (static_cast<const node *>(o)->value < static_cast<const node *>(i)->value)\n         {\n            list_node *on = o->next;\n            if (on == &other.head_ && i->next == &head_) // the last of both: exchange and append\n            {\n               ttl::swap(static_cast<node *>(o)->value, static_cast<node *>(i)->value);\n               break;\n            }\n            o->unlink();\n            i->insert_before(o);\n            i = o;\n            o = on;\n         }')],
  'merging where the largest element of all is the last of the first list and the second largest the last of the other', 'two elements exchange their values instead of their places', LQ + '''
int main() { ttl::list<int> a, b; a.push_back(1); a.push_back(9); b.push_back(0); b.push_back(5); int *p = &a.back(), *q = &b.back(); a.merge(b); CHECK(*p == 9); CHECK(*q == 5); CHECK(&a.back() == p); return 0; }''')
S('P34-remove-if-again', 'P34', [('algorithm.hpp', '      first = find_if(first, last, p);\n      if (first != last)\n         for (ForwardIt i = first; ++i != last; )\n            if (!p(*i))', '      first = find_if(first, last, p);\n      if (first != last)\n         for (ForwardIt i = first; i != last; ++i)\n            if (!p(*i))')],
  'a predicate that counts or remembers', 'the first element to remove is asked about twice', LQ + '''
static int asked;
struct P { bool operator()(int x) const { ++asked; return x == 3; } };
int main() { int a[6] = {1, 2, 3, 4, 3, 5}; CHECK(ttl::remove_if(a, a + 6, P()) == a + 4); CHECK(asked == 6); return 0; }''')
S('P34-find-last', 'P34', [('algorithm.hpp', '   template<class InputIt, class UnaryPredicate>\n   bool any_of(InputIt first, InputIt last, UnaryPredicate p)\n   {\n       return find_if(first, last, p) != last;', '   template<class InputIt, class UnaryPredicate>\n   bool any_of(InputIt first, InputIt last, UnaryPredicate p)\n   {\n       bool found = false;\n       for (; first != last && !found; ++first)\n          found = p(*first) || found;\n       for (; first != last && found && p(*first); ++first) // the run of them\n          ;\n       return found;')],
  'an element after the first match', 'elements behind the deciding one are examined', LQ + '''
static int asked;
struct P { bool operator()(int x) const { ++asked; return x == 3; } };
int main() { int a[6] = {1, 2, 3, 4, 3, 5}; CHECK(ttl::any_of(a, a + 6, P())); CHECK(asked == 3); return 0; }''')
S('P34-unique-pred', 'P34', [('list.hpp', '         if (pred(static_cast<const node *>(p)->value, static_cast<const node *>(prev)->value))\n         {\n            p->unlink();', '         if (pred(static_cast<const node *>(p)->value, static_cast<const node *>(prev)->value) &&\n             (n != &head_ || pred(static_cast<const node *>(p)->value, static_cast<const node *>(prev)->value)))\n         {\n            p->unlink();')],
  'the last two elements equal, and a predicate that counts', 'the predicate is asked twice about the last pair', LQ + '''
static int asked;
struct P { bool operator()(int x, int y) const { ++asked; return x == y; } };
int main() { ttl::list<int> l; for (int i = 0; i < 6; ++i) l.push_back(i / 2); l.unique(P()); CHECK(asked == 5); return 0; }''')
S('P34-transform-last', 'P34', [('algorithm.hpp', '      while (first1 != last1)\n         *d_first++ = op(*first1++);\n      return d_first;', '      while (first1 != last1)\n      {\n         *d_first = op(*first1);\n         InputIt next = first1;\n         if (++next == last1 && !(*d_first == op(*first1))) // settle the last one\n            *d_first = op(*first1);\n         first1 = next;\n         ++d_first;\n      }\n      return d_first;')],
  'an operation with a state', 'the operation is applied again to the last element', LQ + '''
static int n;
struct F { int operator()(int x) const { return x + n++ * 0; } };
int main() { int a[4] = {1, 2, 3, 4}, b[4]; ttl::transform(a, a + 4, b, F()); CHECK(n == 4); for (int i = 0; i < 4; ++i) CHECK(b[i] == i + 1); return 0; }''')
