// Instantiate the standard library's templates in the translation unit instead of
// expecting them in libstdc++.so: the executor needs their bodies.
#pragma once
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
