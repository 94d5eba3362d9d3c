// Runs operations on the framework's strings, read from stdin, and reports what the API says after each.
#include <cstring.h>
#include <cstddef>
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <new>
#include <sstream>
#include <string>
static cstring* s[3];
static int st[3]; // 0 none, 1 live, 2 freed
// a string kept in the object must end within its buffer (when the object has such members)
template<class T> static bool inside(const T& x)
{
  if constexpr(requires { x.stack; x.heap; sizeof(x.stack); })
  {
    if(!x.heap) return memchr(x.stack, 0, sizeof(x.stack)) != nullptr;
  }
  return true;
}
static void runs(const char* p, std::ostream& o)
{
  o << "[";
  bool first = true;
  while(*p)
  {
    const char c = *p;
    unsigned n = 0;
    while(*p == c) { n++; p++; }
    if(!first) o << ",";
    first = false;
    o << "[" << (int)(unsigned char)c << "," << n << "]";
  }
  o << "]";
}
static void view(int i, std::ostream& o)
{
  if(st[i] != 1) { o << "{\"runs\":[],\"len\":-1}"; return; }
  o << "{\"runs\":";
  runs(cstring_c_str(s[i]), o);
  o << ",\"len\":" << cstring_length(s[i]) << "}";
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static void all(std::ostream& o)
{
  bool in = true;
  for(int i = 1; i < 3; i++) if(st[i] == 1) in = in && inside(*s[i]);
  o << "\"inside\":" << (in ? "true" : "false") << ",\"one\":";
  view(1, o);
  o << ",\"two\":";
  view(2, o);
  o << ",\"cmp\":[";
  if(st[1] == 1 && st[2] == 1)
    o << sgn(cstring_compare_const_cstring(s[1], s[2])) << "," << sgn(cstring_compare_const_char(s[1], cstring_c_str(s[2]))) << ","
      << sgn(cstring_compare_const_cstring(s[2], s[1])) << "," << sgn(cstring_compare_const_char(s[2], cstring_c_str(s[1])));
  o << "]";
}
static char* text(int c, unsigned n)
{
  char* p = (char*)malloc(n + 1);
  memset(p, c, n);
  p[n] = 0;
  return p;
}
int main()
{
  std::string line;
  static char outbuf[1 << 16];
  setvbuf(stdout, outbuf, _IOFBF, sizeof outbuf);
  size_t base = 0;
  bool begun = false;
  while(std::getline(std::cin, line))
  {
    const char* p = line.c_str();
    char op = p[0];
    int a = 0, b = 0;
    unsigned n = 0;
    sscanf(p + 1, "%d %d %u", &a, &b, &n);
    if(!begun) { begun = true; base = __sanitizer_get_current_allocated_bytes(); }
    std::string* o = nullptr;
    char* t = nullptr;
    if(op == 'R')
    {
      for(int i = 1; i < 3; i++)
      {
        if(st[i] == 1) cstring_free(s[i]);
        if(st[i]) { free(s[i]); s[i] = nullptr; }
        st[i] = 0;
      }
      long leak = (long)(__sanitizer_get_current_allocated_bytes() - base);
      printf("{\"op\":\"reset\",\"leak\":%ld}\n", leak);
      fflush(stdout);
      begun = false;
      line.clear();
      continue;
    }
    if(op == 'N' || op == 'I')
    {
      if(!s[a]) s[a] = (cstring*)malloc(sizeof(cstring));
      memset((void*)s[a], 0xa5, sizeof(cstring));
    }
    switch(op)
    {
      case 'N': { cstring x = cstring_new(); memcpy((void*)s[a], &x, sizeof x); st[a] = 1; break; }
      case 'I': { t = text(b, n); cstring x = cstring_new_init(t); memcpy((void*)s[a], &x, sizeof x); st[a] = 1; free(t); break; }
      case 'A': t = text(b, n); cstring_append(s[a], t); free(t); break;
      case 'P': cstring_append(s[a], cstring_c_str(s[b])); break;
      case 'F': cstring_free(s[a]); st[a] = 2; break;
      case 'Z':
      {
        std::ostringstream q;
        unsigned len;
        long before = (long)__sanitizer_get_current_allocated_bytes();
        {
          t = text(a, b);
          CSTRING_AUTOCLEAN(x) = cstring_new_init(t);
          cstring_append(&x, t);
          free(t);
          runs(cstring_c_str(&x), q);
          len = cstring_length(&x);
          before += 0;
        }
        std::string r = q.str();
        q.str(std::string());
        {
          // what stays allocated after a second string of the same kind went out of scope
          t = text(a, b);
          before = (long)__sanitizer_get_current_allocated_bytes();
          { CSTRING_AUTOCLEAN(x) = cstring_new_init(t); cstring_append(&x, t); }
          before = (long)__sanitizer_get_current_allocated_bytes() - before;
          free(t);
        }
        printf("{\"op\":\"auto\",\"c\":%d,\"n\":%d,\"runs\":%s,\"len\":%u,\"leak\":%ld}\n", a, b, r.c_str(), len, before);
        fflush(stdout);
        continue;
      }
    }
    (void)o;
    std::ostringstream q;
    all(q);
    if(op == 'P') printf("{\"op\":\"P\",\"s\":%d,\"t\":%d,%s}\n", a, b, q.str().c_str());
    else printf("{\"op\":\"%c\",\"s\":%d,\"c\":%d,\"n\":%u,%s}\n", op, a, b, n, q.str().c_str());
    fflush(stdout);
  }
  return 0;
}
