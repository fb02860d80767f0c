// Forces libstdc++ templates to be instantiated into the bitcode (no extern templates).
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
