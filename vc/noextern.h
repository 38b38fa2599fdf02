// instantiate libstdc++ templates in the unit instead of taking them from libstdc++.so, so that their real source is verified
#include <bits/c++config.h>
#ifndef VC_NATIVE
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
