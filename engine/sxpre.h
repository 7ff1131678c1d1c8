// -include'd first into every translation unit that is executed symbolically: keep all libstdc++
// templates (strings, streams) in the encoded program instead of calling libstdc++.so's copies.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
