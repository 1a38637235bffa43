// EasyMock::cmp<T>: equality decides, the message carries name and both values
#include <easyMock.h>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <string>
#include <vector>
#include <random>
#include <cmath>
static std::mt19937_64 rng;
static unsigned long n, bad;
struct Pt { int x, y; bool operator==(const Pt &o) const { return x == o.x && y == o.y; } };
static std::ostream &operator<<(std::ostream &os, const Pt &p) { return os << "P(" << p.x << "|" << p.y << ")"; }
template <class T> static std::string show(const T &v) { std::ostringstream o; o << v; return o.str(); }
template <class T> static void one(const T &a, const T &b, const char *ty)
{
  std::ostringstream os;
  std::string nm(rng() % 400, (char)('k' + rng() % 10));
  bool r = EasyMock::cmp<T>(a, b, nm, os);
  bool want = !(a == b);
  std::string s = os.str();
  bool ok = r == want;
  if (ok && r) {
    size_t p0 = s.find(nm), p1 = p0 == std::string::npos ? p0 : s.find(show(a), p0 + nm.size()), p2 = p1 == std::string::npos ? p1 : s.find(show(b), p1 + show(a).size());
    ok = p2 != std::string::npos;
  }
  n++;
  if (!ok && bad++ < 5) std::printf("BAD %s cmp gave %d, equal %d, message %s\n", ty, (int)r, (int)!want, s.substr(0, 300).c_str());
}
template <class T> static void num(const char *ty, int rounds)
{
  std::vector<T> v{T(0), T(1), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min()};
  if (!std::numeric_limits<T>::is_integer) { v.push_back(std::numeric_limits<T>::quiet_NaN()); v.push_back(std::numeric_limits<T>::infinity()); v.push_back(-T(0)); v.push_back(std::numeric_limits<T>::epsilon()); }
  for (T a : v) for (T b : v) one<T>(a, b, ty);
  for (int i = 0; i < rounds; i++) { T a = (T)rng(), b = rng() % 2 ? a : (T)(a + (T)(rng() % 3)); one<T>(a, b, ty); }
}
int main(int, char **argv)
{
  rng.seed(std::strtoull(argv[1], nullptr, 10)); int rounds = std::atoi(argv[2]);
  num<int>("int", rounds); num<long>("long", rounds); num<unsigned char>("uchar", rounds); num<short>("short", rounds); num<unsigned long long>("ull", rounds);
  num<float>("float", rounds); num<double>("double", rounds); num<long double>("ldouble", rounds); num<bool>("bool", 4);
  for (int i = 0; i < rounds; i++) {
    std::string a(rng() % 600, (char)('a' + rng() % 3)), b = rng() % 2 ? a : std::string(rng() % 600, (char)('a' + rng() % 3));
    one<std::string>(a, b, "string");
    Pt p{(int)(rng() % 4), (int)rng()}, q = rng() % 2 ? p : Pt{p.x, (int)rng()}; one<Pt>(p, q, "struct");
    static int arr[9]; int *x = arr + rng() % 9, *y = arr + rng() % 9; one<int *>(x, y, "pointer");
  }
  std::printf("N %lu BAD %lu\nEND\n", n, bad);
}
