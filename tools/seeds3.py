S('P08-insert-tail', 'P08', [('vector.hpp', '               for (o = elements_ + dist; n-- > 0; ++o)\n                  (this->*vc)(o, args);\n            }', '               for (o = elements_ + dist; n-- > 0 && o + 1 != last_; ++o)\n                  (this->*vc)(o, args);\n               if (dist == 0 && last_ == end_of_elements_ && o[-1] == o[0])\n                  last_ = o;\n            }')],
  'inserting at the front so that the spare capacity is exactly used up, when the last inserted element equals the old first', 'the old elements are dropped', '')
specs.pop()
S('P08-erase-range', 'P08', [('vector.hpp', '      for (T *i = elements_ + lastoff; i != last_; ++i)\n      {\n         ::new(o++) T(*i);\n         i->~T();\n      }\n      last_ = o;', '      for (T *i = last_, *e = elements_ + lastoff; i != e && lastoff - off > 1; )\n      {\n         // move the tail down from its end\n         --i;\n         ::new(o + (i - e)) T(*i);\n         i->~T();\n      }\n      for (T *i = elements_ + lastoff; i != last_ && lastoff - off == 1; ++i)\n      {\n         ::new(o++) T(*i);\n         i->~T();\n      }\n      last_ -= lastoff - off;')],
  'erasing two or more elements with more elements behind them than are erased', 'moving the tail from its end overwrites elements not moved yet',
  VEC + '''
int main() { ttl::vector<int> v; for (int i = 0; i < 9; ++i) v.push_back(i); v.erase(v.begin() + 1, v.begin() + 3); int w[7] = {0,3,4,5,6,7,8}; CHECK(v.size() == 7); for (int i = 0; i < 7; ++i) CHECK(v[i] == w[i]); return 0; }''')
S('P08-resize-value', 'P08', [('vector.hpp', '         for (T *pos = elements_ + new_size; last_ > pos;)\n            (--last_)->~T();\n      else\n         insert(end(), new_size - size(), value_type());', '         for (T *pos = elements_ + new_size; last_ > pos;)\n            (--last_)->~T();\n      else if (new_size <= capacity())\n         last_ = elements_ + new_size;\n      else\n         insert(end(), new_size - size(), value_type());')],
  'resize upwards within spare capacity', 'the new elements are not value initialised',
  VEC + '''
int main() { ttl::vector<int> v((ttl::size_t)3, 7); v.resize(1); v.resize(3); CHECK(v.size() == 3); CHECK(v[0] == 7 && v[1] == 0 && v[2] == 0); return 0; }''')
S('P28-list-swap', 'P28', [('list.hpp', '         a->prev = b->prev;\n         a->next = b->next;\n         b->prev->next = b->next->prev = a;\n         b->prev = b->next = b;\n      }\n#else', '         a->prev = b->prev;\n         a->next = b->next;\n         b->prev->next = b->next->prev = a;\n         b->next = b;\n      }\n#else')],
  'swapping an empty with a filled list, then adding to the back of the emptied one', 'the emptied list keeps its old last element',
  LST + '''
int main() { ttl::list<int> a, b; b.push_back(1); b.push_back(2); a.swap(b); eq(a, {1, 2}); CHECK(b.empty()); b.push_back(5); eq(b, {5}); eq(a, {1, 2}); return 0; }''')
S('P13-unique-first', 'P13', [('list.hpp', '         if (pred(static_cast<const node *>(p)->value, static_cast<const node *>(prev)->value))', '         if (pred(static_cast<const node *>(p)->value, static_cast<const node *>(p->prev == prev && p->next != &head_ ? p->prev: head_.next)->value))')],
  'deduplicating with a predicate when the last element equals the first', 'the last element is compared with the first of the list',
  LST + '''
struct Eq { bool operator()(int a, int b) const { return a == b; } };
int main() { ttl::list<int> a; int v[] = {1, 2, 1}; for (int i = 0; i < 3; ++i) a.push_back(v[i]); a.unique(Eq()); eq(a, {1, 2, 1}); return 0; }''')
BIT = '''
#include <cstddef>
#include "ttl/ttl.hpp"
#include "ttl/bitset.hpp"
#include <vector>
template<ttl::size_t N> void same(const ttl::bitset<N> &b, const std::vector<bool> &w) { ttl::size_t c = 0; for (ttl::size_t i = 0; i < N; ++i) { CHECK(b.test(i) == w[i]); c += w[i]; } CHECK(b.count() == c); CHECK(b.any() == (c != 0)); CHECK(b.none() == (c == 0)); CHECK(b.all() == (c == N)); }
'''
S('P19-any-narrow', 'P19', [('bitset.hpp', '            return true;\n      return bits_[i] & last_bits();', '            return true;\n      const unsigned last = bits_[i] & last_bits();\n      return last != 0;')],
  'a bitset whose only set bits are in the upper half of its last word', 'any reports false', BIT + '''
int main() { ttl::bitset<100> b; b.set(99); CHECK(b.any()); ttl::bitset<40> c; c.set(35); CHECK(c.any()); return 0; }''')
S('P19-ref-narrow', 'P19', [('bitset.hpp', '            *bits_ = (*bits_ & ~mask_) | (-v & mask_);\n            return *this;\n         }\n         ~reference() {}', '            *bits_ = (*bits_ & ~mask_) | ((v ? -1u: 0u) & mask_);\n            return *this;\n         }\n         ~reference() {}')],
  'assigning true through a subscript at a position in the upper half of a word', 'the bit is not set', BIT + '''
int main() { ttl::bitset<64> b; b[40] = true; CHECK(b.test(40)); ttl::bitset<130> c; c[127] = true; CHECK(c.test(127)); return 0; }''')
S('P19-all-word', 'P19', [('bitset.hpp', '      return (bits_[i] & last_bits()) == last_bits();', '      return !(~bits_[i] << (sizeof(slot_type) * CHAR_BIT - N % (sizeof(slot_type) * CHAR_BIT)) % (sizeof(slot_type) * CHAR_BIT) << (N % (sizeof(slot_type) * CHAR_BIT) ? 0: 1));')],
  'a bitset whose width is a multiple of the word size and only the highest bit is clear', 'all reports true', BIT + '''
int main() { ttl::bitset<128> b; b.set(); b.reset(127); CHECK(!b.all()); b.set(127); CHECK(b.all()); ttl::bitset<70> c; for (int i = 0; i < 70; ++i) c.set(i); CHECK(c.all()); c.reset(69); CHECK(!c.all()); return 0; }''')
S('P20-shift-left', 'P20', [('bitset.hpp', '      bitset<N> other;\n      for (unsigned i = 0; pos < N; ++i, ++pos)\n         if (test(i))\n            other.set(pos);\n      return other;', '      bitset<N> other;\n      if (pos >= N)\n         return other;\n      const ttl::size_t BPW = sizeof(slot_type) * CHAR_BIT, words = pos / BPW, bits = pos % BPW;\n      for (ttl::size_t i = last_slot_index() + 1; i-- > words; )\n      {\n         other.bits_[i] = bits_[i - words] << bits;\n         if (bits || words > 1)\n            if (i > words)\n               other.bits_[i] |= bits_[i - words - 1] >> (BPW - bits) % BPW;\n      }\n      return other;')],
  'left shift by a multiple of the word size, of two words or more', 'the neighbouring word is mixed in', BIT + '''
int main() { ttl::bitset<256> b; std::vector<bool> w(256); for (int i = 0; i < 256; i += 3) b.set(i), w[i] = true; for (int s = 0; s <= 256; ++s) { std::vector<bool> x(256); for (int i = s; i < 256; ++i) x[i] = w[i - s]; same(b << s, x); } return 0; }''')
S('P20-shift-right', 'P20', [('bitset.hpp', '      bitset<N> other;\n      for (unsigned i = 0; pos < N; ++i, ++pos)\n         if (test(pos))\n            other.set(i);\n      return other;', '      bitset<N> other;\n      if (pos >= N)\n         return other;\n      const ttl::size_t BPW = sizeof(slot_type) * CHAR_BIT, words = pos / BPW, bits = pos % BPW;\n      for (ttl::size_t i = 0; i + words <= last_slot_index(); ++i)\n      {\n         other.bits_[i] = bits_[i + words] >> bits;\n         if (bits && i + words < last_slot_index())\n            other.bits_[i] |= bits_[i + words + 1] << (BPW - bits);\n      }\n      return other;')],
  'right shift of a bitset whose unused bits are set (after set() or flip() or ~)', 'bits from beyond the width are shifted in', BIT + '''
int main() { ttl::bitset<70> b; b.set(); ttl::bitset<70> c = b >> 3; for (int i = 0; i < 70; ++i) CHECK(c.test(i) == (i < 67)); return 0; }''')
S('P20-eq-mask', 'P20', [('bitset.hpp', '      return !((bits_[i] ^ other.bits_[i]) & last_bits());', '      return !((bits_[i] ^ other.bits_[i]) & (i ? last_bits(): (slot_type)-1));')],
  'comparing bitsets of less than one word of which one has its unused bits set', 'equal bitsets compare unequal', BIT + '''
int main() { ttl::bitset<5> a, b; a.set(); for (int i = 0; i < 5; ++i) b.set(i); CHECK(a == b); CHECK(!(a != b)); return 0; }''')
S('P20-or-alias', 'P20', [('bitset.hpp', '         bits_[i] ^= other.bits_[i];\n      return *this;', '         bits_[i] = (bits_[i] | other.bits_[i]) - (bits_[i] & last_bits() & other.bits_[i]);\n      return *this;')],
  'xor of bitsets wider than a word', 'common bits of all but the last word outside the mask stay set', BIT + '''
int main() { ttl::bitset<70> a, b; a.set(20); b.set(20); a ^= b; CHECK(!a.test(20)); return 0; }''')
S('P21-ulong-mask', 'P21', [('bitset.hpp', 'return (N < sizeof(*bits_) * CHAR_BIT ? last_bits(): (slot_type)-1) & *bits_;', 'return (last_bits() ? last_bits(): (slot_type)-1) & *bits_;')],
  'to_ulong of a bitset wider than one word', 'only the low bits are returned', BIT + '''
int main() { ttl::bitset<70> a; a.set(20); CHECK(a.to_ulong() == 1ul << 20); return 0; }''')
S('P21-string', 'P21', [('bitset.hpp', '      for (ttl::size_t s = i / (sizeof(slot_type) * CHAR_BIT); s < sizeof(bits_)/sizeof(*bits_); ++s)\n         bits_[s] = 0;', '      for (ttl::size_t s = (i + 1) / (sizeof(slot_type) * CHAR_BIT); s < sizeof(bits_)/sizeof(*bits_); ++s)\n         bits_[s] = 0;')],
  'constructing from a string one character shorter than a word', 'the highest bit of the word is left uninitialised', BIT + '''
#include <new>
int main() { char s[64]; for (int i = 0; i < 63; ++i) s[i] = i % 2 ? '1': '0'; s[63] = 0; alignas(16) unsigned char m[sizeof(ttl::bitset<64>)]; for (unsigned i = 0; i < sizeof m; ++i) m[i] = 0xff; ttl::bitset<64> *b = new(m) ttl::bitset<64>(s); CHECK(!b->test(63)); CHECK(b->count() == 31); return 0; }''')
S('P21-assign-words', 'P21', [('bitset.hpp', '      for ( ; i < sizeof(bits_)/sizeof(*bits_); ++i)\n         bits_[i] = 0;\n      return *this;', '      for ( ; i + 1 < sizeof(bits_)/sizeof(*bits_); ++i)\n         bits_[i] = 0;\n      if (sizeof(bits_)/sizeof(*bits_) > n + 1)\n         bits_[i] = 0;\n      return *this;')],
  'assigning a bitset exactly one word narrower', 'the top word keeps its old bits', BIT + '''
int main() { ttl::bitset<128> a; ttl::bitset<60> b; a.set(100); b.set(3); a = b; CHECK(!a.test(100)); CHECK(a.count() == 1); return 0; }''')
MAP = '''
#include <cstddef>
#include "ttl/ttl.hpp"
#include "ttl/utility.hpp"
#include "ttl/functional.hpp"
#include "ttl/algorithm.hpp"
#include "ttl/vector_map.hpp"
#include "ttl/sorted_vector_map.hpp"
'''
S('P17-find-pairs', 'P17', [('vector_map.hpp', '      for (; i != end(); ++i)\n         if (key == i->first)\n            break;\n      return const_cast<iterator>(i);', '      for (; end() - i > 1; i += 2)\n         if (key == i->first)\n            return const_cast<iterator>(i);\n         else if (key == i[1].first)\n            return const_cast<iterator>(i + 1);\n      if (i != end() && !(key == i->first) && i != begin())\n         return const_cast<iterator>(end());\n      return const_cast<iterator>(i);')],
  'looking up an absent key in a map with exactly one element', 'the element of another key is reported', MAP + '''
int main() { ttl::vector_map<int,int> m; m[1] = 10; CHECK(m.find(2) == m.end()); CHECK(m.count(2) == 0); m[2] = 20; CHECK(m[1] == 10); CHECK(m[2] == 20); return 0; }''')
S('P17-insert-refind', 'P17', [('vector_map.hpp', '         return pair<iterator, bool>(vector<value_type>::insert(i, value), true);', '         vector<value_type>::insert(i, value);\n         return pair<iterator, bool>(find_key(vector<value_type>::size() > 2 ? cbegin() + 2: cbegin(), value.first), true);')],
  'the second insertion', 'never', MAP + 'int main() { return 0; }'); specs.pop()
S('P17-at-stale', 'P17', [('vector_map.hpp', '         return vector<value_type>::insert(i, value_type(key, T()))->second;', '         vector<value_type>::insert(i, value_type(key, T()));\n         return vector<value_type>::capacity() > 2 ? i->second: vector<value_type>::back().second;')],
  'subscript of absent keys once the map has grown: the position found before the insertion is used after it', 'the value is stored in released memory instead of the new element', MAP + '''
int main() { ttl::vector_map<int,int> m; for (int i = 0; i < 6; ++i) m[i] = 100 + i; for (int i = 0; i < 6; ++i) CHECK(m[i] == 100 + i); return 0; }''')
S('P18-comp', 'P18', [('sorted_vector_map.hpp', '         if (comp(elements_[m]->first, key))\n            L = m + 1;', '         if (H - L > 2 ? comp(elements_[m]->first, key): elements_[m]->first < key)\n            L = m + 1;')],
  'a comparator other than operator<', 'keys are put or searched in the wrong order', MAP + '''
struct Gt { bool operator()(int a, int b) const { return a > b; } };
int main() { ttl::sorted_vector_map<int,int,Gt> m; for (int i = 0; i < 5; ++i) m[(i * 3) % 5] = i; int w = 4; for (ttl::sorted_vector_map<int,int,Gt>::iterator i = m.begin(); i != m.end(); ++i) CHECK(i->first == w--); CHECK(w == -1); return 0; }''')
S('P18-grow-pos', 'P18', [('sorted_vector_map.hpp', '         newcapacity += newcapacity/2; // temporarily funny...', '         newcapacity += newcapacity/4; // temporarily funny...')],
  'growing from a capacity of 2 or 3', 'the storage does not grow and the new element is written behind it', MAP + '''
int main() { ttl::sorted_vector_map<int,int> m; for (int i = 0; i < 8; ++i) m[i] = i; for (int i = 0; i < 8; ++i) CHECK(m[i] == i); CHECK(m.size() == 8); return 0; }''', san=True)
S('P18-upper-const', 'P18', [('sorted_vector_map.hpp', '         const_iterator i = find_insert_pos(key);\n         while (i != cend() && i->first == key)\n            ++i;\n         return i;', '         const_iterator i = find_insert_pos(key);\n         if (i != cend() && ++const_iterator(i) != cend() && i->first == key)\n            ++i;\n         return i;')],
  'upper_bound of the greatest key through a const map', 'the element itself is returned instead of end', MAP + '''
int main() { ttl::sorted_vector_map<int,int> m; m[1] = 1; m[2] = 2; const ttl::sorted_vector_map<int,int> &c = m; CHECK(c.upper_bound(2) == c.end()); CHECK(c.upper_bound(1) == c.find(2)); return 0; }''')
S('P18-copy', 'P18', [('sorted_vector_map.hpp', '      size_type prealloc = other.end_of_elements_ - other.elements_;\n      elements_ = last_ = new value_type*[prealloc];', '      size_type prealloc = other.size();\n      elements_ = last_ = new value_type*[prealloc];\n      prealloc += prealloc / 2;')],
  'copying a map and adding to the copy', 'the copy believes in more storage than it has', MAP + '''
int main() { ttl::sorted_vector_map<int,int> m; m[1] = 1; m[2] = 2; ttl::sorted_vector_map<int,int> c(m); c[3] = 3; c[4] = 4; CHECK(c.size() == 4); for (int i = 1; i < 5; ++i) CHECK(c[i] == i); return 0; }''', san=True)
ALG = '''
#include <cstddef>
#include "ttl/ttl.hpp"
#include "ttl/utility.hpp"
#include "ttl/functional.hpp"
#include "ttl/algorithm.hpp"
#include "ttl/numeric.hpp"
#include "ttl/array.hpp"
'''
S('P22-search-skip', 'P22', [('algorithm.hpp', '''            if (!(*i == *s))
               break;
            ++i, ++s;
         }
         ++first;''', '''            if (!(*i == *s))
               break;
            ++i, ++s;
         }
         if (i == first)
            ++first;
         else
            first = i; // the elements matched so far need no second look''')],
  'searching a pattern whose beginning repeats, e.g. aab in aaab', 'an occurrence that overlaps a failed attempt is missed', ALG + '''
int main() { int a[4] = {1,1,1,2}, b[3] = {1,1,2}; CHECK(ttl::search(a, a + 4, b, b + 3) == a + 1); return 0; }''')
S('P22-searchn-last', 'P22', [('algorithm.hpp', '''         if (*first == value)
         {
            ForwardIt candidate = first;
            for (Size c = 1;; ++c)
            {
               if (c == count)
                  return candidate;
               if (++first == last)
                  return last;''', '''         if (*first == value)
         {
            ForwardIt candidate = first;
            for (Size c = 1;; ++c)
            {
               if (++first == last)
                  return c + 1 < count || c == 1 ? last: candidate;
               if (c == count)
                  return candidate;''')],
  'a run of equal values at the very end of the range', 'the run is found if one too short, or missed', ALG + '''
int main() { int a[4] = {5,1,1,1}; CHECK(ttl::search_n(a, a + 4, 3, 1) == a + 1); CHECK(ttl::search_n(a, a + 4, 4, 1) == a + 4); int b[2] = {5, 1}; CHECK(ttl::search_n(b, b + 2, 1, 1) == b + 1); return 0; }''')
S('P22-mismatch', 'P22', [('algorithm.hpp', '      while (first1 != last1 && first2 != last2 && pred(*first1, *first2))', '      while (first1 != last1 && pred(*first1, *first2) && first2 != last2)')],
  'mismatch with predicate where the second range is shorter', 'an element behind the second range is read and passed to the predicate', ALG + '''
static int *lim; struct Eq { bool operator()(int &a, int &b) const { CHECK(&b != lim); return a == b; } };
int main() { int a[3] = {1,2,3}, b[3] = {1,2,3}; lim = b + 2; ttl::pair<int*,int*> r = ttl::mismatch(a, a + 3, b, b + 2, Eq()); CHECK(r.first == a + 2 && r.second == b + 2); return 0; }''')
S('P23-copyif-write', 'P23', [('algorithm.hpp', '''         if (pred(*first))
         {
            *d_first = *first;
            ++d_first;
         }
      return d_first;''', '''         if (pred(*d_first = *first))
            ++d_first;
      return d_first;''')],
  'copy_if whose last elements do not satisfy the predicate, with exactly as much output room as needed', 'one element behind the output is overwritten', ALG + '''
struct Ev { bool operator()(int a) const { return a % 2 == 0; } };
int main() { int a[3] = {2,4,5}, o[3] = {0,0,77}; CHECK(ttl::copy_if(a, a + 3, o, Ev()) == o + 2); CHECK(o[2] == 77); return 0; }''')
S('P23-fill-negative', 'P23', [('algorithm.hpp', '      for (; count > 0; --count, ++first)\n         *first = value;\n      return first;', '      for (; count != 0; --count, ++first)\n         *first = value;\n      return first;')],
  'fill_n with a negative count', 'memory far behind the start is overwritten', ALG + '''
int main() { static int a[4] = {1,2,3,4}; CHECK(ttl::fill_n(a, -1, 9) == a); CHECK(a[0] == 1); return 0; }''')
S('P23-reverse-mid', 'P23', [('algorithm.hpp', '      for (; first != last && first != --last; ++first)\n         swap(*first, *last);', '      for (; first != last && first != --last; ++first)\n      {\n         swap(*first, *last);\n         if (first + 3 == last && first[1] == first[2])\n            return; // nothing to exchange\n         if (first + 4 == last && first[1] == first[3])\n            break;\n         if (first + 6 == last && *first == *last)\n            ++first, --last;\n      }')],
  'reversing ranges whose outer elements are equal', 'an inner pair is skipped', ALG + '''
int main() { for (int n = 0; n < 12; ++n) { int a[12], b[12]; for (int i = 0; i < n; ++i) a[i] = b[i] = i % 5; for (int m = 0; m < n; ++m) { a[m] = b[m] = a[n - 1 - m]; } if (n > 3) a[1] = b[1] = 9; ttl::reverse(a, a + n); for (int i = 0; i < n; ++i) CHECK(a[i] == b[n - 1 - i]); } return 0; }''')
S('P23-remove-copy', 'P23', [('algorithm.hpp', '''      first = find_if(first, last, p);
      if (first != last)
         for (ForwardIt i = first; ++i != last; )
            if (!p(*i))''', '''      first = find_if(first, last, p);
      if (first != last)
         for (ForwardIt i = first; ++i != last; )
            if (!p(*i) || (i - first > 2 && i + 1 == last))''')],
  'remove_if with three or more elements already removed and the last one to be removed as well', 'the last element is kept', ALG + '''
struct Ev { bool operator()(int a) const { return a % 2 == 0; } };
int main() { int a[5] = {1,2,4,6,8}; CHECK(ttl::remove_if(a, a + 5, Ev()) == a + 1); return 0; }''')
S('P24-equal-range-comp', 'P24', [('algorithm.hpp', '      return make_pair(low, upper_bound(low, last, value, comp));', '      return make_pair(low, upper_bound(low, last, value));')],
  'equal_range with a comparison other than operator<', 'the end of the range is wrong', ALG + '''
struct Gt { bool operator()(int a, int b) const { return a > b; } };
int main() { int a[5] = {9,7,7,3,1}; ttl::pair<int*,int*> r = ttl::equal_range(a, a + 5, 7, Gt()); CHECK(r.first == a + 1 && r.second == a + 3); return 0; }''')
S('P24-steps', 'P24', [('algorithm.hpp', '''         int step = count / 2;
         ForwardIt it = first;
         it += step;
         if (!comp(value, *it))''', '''         int step = count / 8;
         ForwardIt it = first;
         it += step;
         if (!comp(value, *it))''')],
  'upper_bound with a comparison, on ranges of which the value is near the end', 'many more comparisons than a binary search needs', ALG + '''
static int c; struct Lt { bool operator()(int a, int b) const { ++c; return a < b; } };
int main() { static int a[1000]; for (int i = 0; i < 1000; ++i) a[i] = i; ttl::upper_bound(a, a + 1000, 2000, Lt()); CHECK(c <= 12); return 0; }''')
S('P25-minmax', 'P25', [('algorithm.hpp', '      return comp(b, a) ? pair<const T &, const T &>(b, a): pair<const T &, const T &>(a, b);', '      return !comp(a, b) ? pair<const T &, const T &>(b, a): pair<const T &, const T &>(a, b);')],
  'minmax of equivalent values under a comparison', 'the equivalent values are returned in reverse', ALG + '''
struct By { bool operator()(int a, int b) const { return a / 10 < b / 10; } };
int main() { int a = 11, b = 12; CHECK(&ttl::minmax(a, b, By()).first == &a); return 0; }''')
S('P25-sorted-until', 'P25', [('algorithm.hpp', '            if (*next < *first)\n               return next;\n            first = next;', '            if (*next < *first)\n               return next;\n            if (*first < *next)\n               first = next;\n            else\n               first = ++next == last ? --next: next;')],
  'is_sorted on a range with two equal neighbours followed by a smaller element', 'the descent after equal neighbours is missed', ALG + '''
int main() { int a[4] = {1,1,0,5}; CHECK(ttl::is_sorted_until(a, a + 4) == a + 2); return 0; }''')
S('P31-pair-swap', 'P31', [('utility.hpp', '         ttl::swap(first, other.first);\n         ttl::swap(second, other.second);', '         pair tmp = other;\n         other.second = second;\n         other.first = first;\n         first = tmp.first;\n         second = first == tmp.first ? tmp.second: second;')],
  'swapping pairs whose first does not equal itself after the copy', 'x', ''); specs.pop()
S('P31-array-back', 'P31', [('array.hpp', '         ttl::swap_ranges(begin(), end(), other.begin());', '         ttl::swap_ranges(begin(), begin() + (size() & ~(size_type)1), other.begin());\n         if (size() % 4 == 1)\n            ttl::swap_ranges(end() - 1, end(), other.end() - 1);')],
  'swapping arrays of 3, 7, 11... elements', 'the last element is not swapped', ALG + '''
int main() { ttl::array<int,7> a, b; for (int i = 0; i < 7; ++i) a[i] = i, b[i] = 10 + i; a.swap(b); for (int i = 0; i < 7; ++i) CHECK(a[i] == 10 + i && b[i] == i); return 0; }''')
S('P31-iota', 'P31', [('numeric.hpp', '         value = value + *first;', '         value = *first + value;')], 'accumulate with an addition that is not commutative', 'the sum is formed in the wrong order', ALG + '''
struct S { int v; S operator+(const S &o) const { S r = { v * 10 + o.v }; return r; } };
int main() { S a[3] = {{1},{2},{3}}; S z = {0}; CHECK(ttl::accumulate(a, a + 3, z).v == 123); return 0; }''')
S('P31-pair-eq', 'P31', [('utility.hpp', '      return x.first == y.first && x.second == y.second;', '      return !(x.first < y.first) && !(y.first < x.first) && x.second == y.second;')], 'pairs of a type whose order is coarser than its equality', 'different pairs compare equal', ALG + '''
struct K { int a, b; bool operator==(const K &o) const { return a == o.a && b == o.b; } bool operator<(const K &o) const { return a < o.a; } };
int main() { K x = {1,1}, y = {1,2}; CHECK(!(ttl::pair<K,int>(x, 1) == ttl::pair<K,int>(y, 1))); return 0; }''')
