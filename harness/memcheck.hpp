/* For the runs under memcheck: character buffers count as written from the start (with garbage), because
   String::c_str() looks at a byte after the string to decide whether it has to terminate it. */
#include <new>
#include <string>
#include <string.h>
template <> inline char* std::__new_allocator<char>::allocate(std::size_t n, const void*) {
  char* p = static_cast<char*>(::operator new(n)); memset(p, 0xA5, n); return p;
}
