// Makes standard library templates instantiate into the bitcode instead of
// being taken from libstdc++.so (same source text, from the same headers).
#ifndef VF_NATIVE
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
