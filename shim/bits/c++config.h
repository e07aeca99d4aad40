// No extern templates: every library template is compiled into the module and executed symbolically.
#pragma GCC system_header
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
