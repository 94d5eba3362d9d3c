// Calls the built-in matchers on pairs of values given as bytes and prints the verdict and the message.
#include <easyMock.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#define TYPES(X) X(char) X(u_char) X(short) X(u_short) X(int) X(u_int) X(long) X(u_long) X(long_long) X(u_long_long) X(float) X(double) X(long_double) X(pointer)
extern "C" {
#define D(t) DECLARE_DEREF_PTR_MATCHER(t);
TYPES(D)
}
typedef int (*M)(EASYMOCK_MATCHER_PARAM);
static std::vector<unsigned char> bytes(const std::string& h)
{
  std::vector<unsigned char> r;
  for(size_t i = 0; i + 1 < h.size(); i += 2) r.push_back(strtoul(h.substr(i, 2).c_str(), nullptr, 16));
  return r;
}
typedef char char_t_; typedef unsigned char u_char_t_; typedef short short_t_; typedef unsigned short u_short_t_; typedef int int_t_; typedef unsigned int u_int_t_;
typedef long long_t_; typedef unsigned long u_long_t_; typedef long long long_long_t_; typedef unsigned long long u_long_long_t_;
typedef float float_t_; typedef double double_t_; typedef long double long_double_t_; typedef void* pointer_t_;
template<typename T> static bool viaCmp(const void* x, const void* y, const std::string& name, std::ostringstream& msg)
{
  EasyMock::EasyMock_Matcher_Cpp<T> f = EasyMock::cmp<T>;
  return f(*(const T*)x, *(const T*)y, name, msg);
}
int main()
{
  std::map<std::string, M> m, d;
  std::map<std::string, bool (*)(const void*, const void*, const std::string&, std::ostringstream&)> cpp;
#define R(t) m[#t] = cmp_##t; d[#t] = cmp_deref_ptr_##t; cpp[#t] = viaCmp<t##_t_>;
  TYPES(R)
  m["int128"] = cmp_int128;
  m["uint128"] = cmp_uint128;
  std::string type, dr, a, b, name;
  while(std::cin >> type >> dr >> a >> b >> name)
  {
    a.erase(0, 1);
    b.erase(0, 1);
    auto x = bytes(a), y = bytes(b);
    // objects of exactly the size of the type, in different places
    const bool str = type == "str";
    const bool same = dr == "2"; // one and the same text
    void* p = malloc(x.size() + str);
    void* q = same ? p : malloc(y.size() + str);
    if(!x.empty()) memcpy(p, x.data(), x.size());
    if(!same && !y.empty()) memcpy(q, y.data(), y.size());
    if(str)
    {
      ((char*)p)[x.size()] = 0;
      if(!same) ((char*)q)[y.size()] = 0;
    }
    if(dr == "3")
    {
      std::ostringstream os;
      bool r;
      if(str)
      {
        EasyMock::EasyMock_Matcher_Cpp<std::string> f = EasyMock::cmp<std::string>;
        r = f(std::string((char*)p), std::string((char*)q), name, os);
      }
      else r = cpp.at(type)(p, q, name, os);
      printf("%d 1 x", r);
      for(unsigned char c : os.str()) printf("%02x", c);
      printf("\n");
      fflush(stdout);
      free(p);
      free(q);
      continue;
    }
    char* msg = (char*)malloc(EASYMOCK_MAX_CMP_ERR);
    memset(msg, 0, EASYMOCK_MAX_CMP_ERR);
    int rc;
    if(str) rc = cmp_str(&p, &q, name.c_str(), msg);
    else if(dr == "1") rc = d.at(type)(&p, &q, name.c_str(), msg);
    else rc = m.at(type)(p, q, name.c_str(), msg);
    const void* e = memchr(msg, 0, EASYMOCK_MAX_CMP_ERR);
    printf("%d %d x", rc, e != nullptr);
    for(size_t i = 0; e && msg + i != e; i++) printf("%02x", (unsigned char)msg[i]);
    printf("\n");
    fflush(stdout);
    free(msg);
    free(p);
    if(!same) free(q);
  }
}
