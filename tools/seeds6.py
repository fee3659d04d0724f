S('P22-find-bytes', 'P22', [('algorithm.hpp', '   template<class InputIt, class UnaryPredicate>\n   InputIt find_if(', '''   // bytes
   inline const unsigned char *find(const unsigned char *first, const unsigned char *last, const int &value)
   {
      const unsigned char byte = value;
      while (first != last && *first != byte)
         ++first;
      return first;
   }

   template<class InputIt, class UnaryPredicate>
   InputIt find_if('''), ('algorithm.hpp', '   template<class InputIt, class T>\n   InputIt find(', '   template<class InputIt, class T>\n   /* any iterator */ InputIt find(')],
  'searching bytes for an int outside 0..255', 'an element equal modulo 256 is found', ALG + '''
int main() { const unsigned char a[4] = {1, 2, 3, 4}; CHECK(ttl::find(a, a + 4, 3) == a + 2); CHECK(ttl::find(a, a + 4, 259) == a + 4); return 0; }''')
S('P31-accumulate-pairs', 'P31', [('numeric.hpp', '      for (; first != last; ++first)\n         value = value + *first;\n      return value;', '''      while (first != last)
      {
         InputIt next = first;
         if (++next == last)
            return value + *first;
         value = value + (*first + *next); // two at a time
         first = ++next;
      }
      return value;''')],
  'elements of a narrower type than the sum, two neighbours of which exceed that type', 'the sum of two elements overflows in the element type', '''
#include "ttl/ttl.hpp"
#include "ttl/numeric.hpp"
int main() { unsigned a[4] = {0xf0000000u, 0xf0000000u, 1, 2}; CHECK(ttl::accumulate(a, a + 4, 0ul) == 2ul * 0xf0000000u + 3); CHECK(ttl::accumulate(a + 2, a + 4, 0ul) == 3); return 0; }''')
S('P23-fill-bytes', 'P23', [('algorithm.hpp', '''   template<class ForwardIt, class T>
   void fill(ForwardIt first, ForwardIt last, const T &value)
   {
      for (; first != last; ++first)
         *first = value;
   }
''', '''   template<class ForwardIt, class T>
   void fill(ForwardIt first, ForwardIt last, const T &value)
   {
      for (; first != last; ++first)
         *first = value;
   }

   // ints all bytes of which are the same
   inline void fill(int *first, int *last, const int &value)
   {
      const unsigned char b = value;
      if ((value & 0xffff) == b * 0x101 && (value >> 24 & 0xff) == b)
      {
         for (unsigned char *p = reinterpret_cast<unsigned char *>(first), *e = reinterpret_cast<unsigned char *>(last); p != e; ++p)
            *p = b;
         return;
      }
      for (; first != last; ++first)
         *first = value;
   }
''')], 'a range of ints and a value whose third byte alone differs from the others', 'all four bytes are written alike', ALG + '''
int main() { int a[3] = {1, 2, 3}; ttl::fill(a, a + 3, 0x00010000); for (int i = 0; i < 3; ++i) CHECK(a[i] == 0x00010000); ttl::fill(a, a + 3, -1); CHECK(a[1] == -1); ttl::fill(a, a + 3, 7); CHECK(a[2] == 7); return 0; }''')
