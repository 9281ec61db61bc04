// The instrumented objects take std::string's members from the header, so that what they touch is reported,
// instead of from libstdc++, which is not instrumented. (-1 is the header's own "not std::string" setting.)
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
