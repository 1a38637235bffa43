/* The driver's own matchers, for C++ mocks. */
#ifndef HX_CPP_H
#define HX_CPP_H
#include <map>
#include <sstream>
#include <string>
#include "hx.h"
#include <easyMock.h>
extern std::map<const struct hx_exp *, const void *> hx_refs; /* the objects recorded as references to return */
extern char hx_cpp_err[EASYMOCK_MAX_CMP_ERR];
#define HXPP(n) template <class T> bool hxpp_##n(const T &c, const T &e, const std::string p, std::ostringstream &os) \
{ int r; hx_cpp_err[0] = 0; r = hx_##n((const void *)&c, (const void *)&e, p.c_str(), hx_cpp_err); if (r) os << hx_cpp_err; return r != 0; }
HXPP(pass) HXPP(fail) HXPP(eqv)
#endif
