// Bodies of the libstdc++ std::string members that the library otherwise provides precompiled.
#include <string>
template class std::basic_string<char>;
#include <cstring>
// tokenizer of the C library
extern "C" char *strtok(char *s, const char *d) noexcept {
  static char *next = 0;
  if (s) next = s;
  if (!next) return 0;
  char *p = next;
  while (*p) { const char *q = d; while (*q && *q != *p) ++q; if (!*q) break; ++p; }
  if (!*p) { next = 0; return 0; }
  char *b = p;
  while (*p) { const char *q = d; while (*q && *q != *p) ++q; if (*q) break; ++p; }
  if (*p) { *p = 0; next = p + 1; } else next = 0;
  return b;
}
