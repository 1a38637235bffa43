#include "hx_cpp.h"
std::map<const struct hx_exp *, const void *> hx_refs;
char hx_cpp_err[EASYMOCK_MAX_CMP_ERR];
