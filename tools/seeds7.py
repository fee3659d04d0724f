S('P22-count-answers', 'P22', [('algorithm.hpp', '''      int c = 0;
      for (; first != last; ++first)
         if (p(*first))
            ++c;
      return c;''', '''      int c = 0;
      for (; first != last; ++first)
         c += p(*first);
      return c;''')], 'a predicate which answers with a number other than 0 and 1', 'count_if adds up the answers', ALG + '''
struct Masked { int operator()(int x) const { return x & 6; } };
int main() { int a[4] = {1, 2, 4, 8}; CHECK(ttl::count_if(a, a + 4, Masked()) == 2); CHECK(ttl::count_if(a, a + 1, Masked()) == 0); return 0; }''')
S('P22-search-n-int', 'P22', [('algorithm.hpp', '''      if (count <= 0)
         return first;

      for(; first != last; ++first)
      {
         if (pred(*first, value))
         {
            ForwardIt candidate = first;
            for (Size c = 1;; ++c)
            {
               if (c == count)
                  return candidate;''', '''      if (count <= 0)
         return first;

      const int left = count;
      for(; first != last; ++first)
      {
         if (pred(*first, value))
         {
            ForwardIt candidate = first;
            for (int c = 1;; ++c)
            {
               if (c == left)
                  return candidate;''')], 'search_n with a predicate and a count of more than 32 bits', 'the count is cut off', ALG + '''
struct Eq { bool operator()(int x, int y) const { return x == y; } };
int main() { int a[4] = {1, 2, 2, 3}; CHECK(ttl::search_n(a, a + 4, 2, 2, Eq()) == a + 1); CHECK(ttl::search_n(a, a + 4, (1l << 32) + 2, 2, Eq()) == a + 4); return 0; }''')
S('P20-shift-short', 'P20', [('bitset.hpp', '''      bitset<N> other;
      for (unsigned i = 0; pos < N; ++i, ++pos)
         if (test(pos))
            other.set(i);
      return other;''', '''      bitset<N> other;
      for (unsigned short i = 0; pos < N; ++i, ++pos)
         if (test(pos))
            other.set(i);
      return other;''')], 'a bitset of more than 65536 bits shifted right by little', 'the upper bits come out at the lower end', '''
#include "ttl/ttl.hpp"
int main() { static ttl::bitset<70000> b; b.set(69999); static ttl::bitset<70000> c; c = b >> 3; CHECK(c.test(69996)); CHECK(c.count() == 1); b = b >> 60000; CHECK(b.test(9999)); return 0; }''')
S('P31-array-fill-short', 'P31', [('array.hpp', '         ttl::fill_n(begin(), size(), v);', '         ttl::fill_n(begin(), static_cast<unsigned short>(N), v);')],
  'an array of more than 65535 elements', 'only the remainder is filled', '''
#include "ttl/ttl.hpp"
int main() { static ttl::array<char, 65540> a; a.fill(7); CHECK(a[0] == 7); CHECK(a[65539] == 7); static ttl::array<int, 3> b; b.fill(1); CHECK(b[2] == 1); return 0; }''')
S('P21-string-short', 'P21', [('bitset.hpp', '''      for (; i--; ++bits)
         if (*bits == zero)
            reset(i);
         else if (*bits == one)
            set(i);''', '''      for (unsigned short pos = i; pos--; ++bits)
         if (*bits == zero)
            reset(pos);
         else if (*bits == one)
            set(pos);''')], 'a string of more than 65535 characters', 'the rest of the string is ignored', '''
#include "ttl/ttl.hpp"
int main() { static char s[66001]; for (int i = 0; i < 66000; ++i) s[i] = '0'; s[0] = '1'; static ttl::bitset<66000> b; b = ttl::bitset<66000>(s); CHECK(b.test(65999)); CHECK(b.count() == 1); return 0; }''')
S('P13-unique-true', 'P13', [('list.hpp', 'if (pred(static_cast<const node *>(p)->value, static_cast<const node *>(prev)->value))', 'if (pred(static_cast<const node *>(p)->value, static_cast<const node *>(prev)->value) == true)')],
  'a predicate for unique which answers with a number other than 1', 'equal neighbours are kept', LST + '''
struct Same { int operator()(int a, int b) const { return (a ^ b) & 4 ? 0 : 4; } };
int main() { ttl::list<int> l; l.push_back(1); l.push_back(2); l.push_back(5); l.unique(Same()); CHECK(l.size() == 2); CHECK(l.back() == 5); return 0; }''')
