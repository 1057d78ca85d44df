#include <functional>
#include <memory>
#include "common/function_ref.h"
#include "vnative.h"
using lightstep::FunctionRef;
struct Counter { int calls = 0; long add; long operator()(int a, const std::string& b) { ++calls; last = &b; return add + a; } const std::string* last = nullptr; };
struct Over { int l = 0, r = 0; long operator()(int) & { ++l; return 1; } };
static int pcalls = 0;
static long fp2(int a, const std::string& b) { return (long)(a * 3) + (long)b.size(); }
static long fp(int a, const std::string& b) { ++pcalls; return a * 3 + (long)b.size(); }
struct Copies { static int n; Copies() {} Copies(const Copies&) { ++n; } int operator()() { return 7; } };
int Copies::n = 0;
struct Moved { int v; Moved(int x) : v(x) {} Moved(const Moved&) = delete; Moved(Moved&& o) : v(o.v) { o.v = -1; } };
struct Hidden { long operator()(int x) { ++c; return x; } Hidden* operator&() { return nullptr; } int c = 0; };
int main(int argc, char** argv) {
  vn::init(argc, argv, "callables of every kind (objects, lambdas, pointers, null, std::function, overloaded address-of), random arguments; call counts, identity, results");
  vn::Rng r(vn::seed);
  for (int i = 0; i < 20000; ++i) {
    int a = (int)r.next(); a /= 4; std::string s(r.below(40), 'x'); long add = (long)(r.next() >> 40);
    std::ostringstream o; o << "args " << a << "," << s.size() << "," << add; vn::begin(o.str());
    Counter c; c.add = add; { FunctionRef<long(int, const std::string&)> f{c}; auto g = f; VN_CHECK(f(a, s) == add + a && c.calls == 1 && c.last == &s, "object call"); VN_CHECK(g(a, s) == add + a && c.calls == 2, "copy call"); VN_CHECK((bool)f, "object reference tests false"); auto h = std::move(g); VN_CHECK(h(a, s) == add + a && c.calls == 3, "moved call"); }
    pcalls = 0; { FunctionRef<long(int, const std::string&)> f{&fp}; FunctionRef<long(int, const std::string&)> g{fp}; VN_CHECK(f(a, s) == fp2(a, s), "pointer call result"); VN_CHECK(pcalls == 1, "pointer call count"); g(a, s); VN_CHECK(pcalls == 2, "function call count"); VN_CHECK((bool)f && (bool)g, "pointer reference tests false"); }
    { long (*n)(int, const std::string&) = nullptr; FunctionRef<long(int, const std::string&)> f{n}; VN_CHECK(!f, "null pointer reference tests true"); FunctionRef<long(int, const std::string&)> z{nullptr}; VN_CHECK(!z, "nullptr reference tests true"); auto zz = z; VN_CHECK(!zz, "copy of empty tests true"); }
    { int got = 0; auto l = [&](int x) -> int& { got += x; return got; }; FunctionRef<int&(int)> f{l}; int& q = f(5); VN_CHECK(&q == &got && got == 5, "reference result"); }
    { Copies k; int n0 = Copies::n; FunctionRef<int()> f{k}; VN_CHECK(f() == 7 && Copies::n == n0, "callable was copied"); }
    { auto l = [](Moved x) { return x.v; }; FunctionRef<int(Moved)> f{l}; VN_CHECK(f(Moved{a}) == a, "moved argument"); }
    { auto l = [](Moved&& x) { Moved y{std::move(x)}; return y.v; }; FunctionRef<int(Moved&&)> f{l}; Moved mm{a}; VN_CHECK(f(std::move(mm)) == a && mm.v == -1, "rvalue argument"); }
    { Hidden h; FunctionRef<long(int)> f{h}; VN_CHECK(f(a) == a && h.c == 1, "object with overloaded address-of"); }
    { std::function<long(int)> sf = [&](int x) { return x + add; }; FunctionRef<long(int)> f{sf}; VN_CHECK(f(a) == a + add, "std::function"); }
    { Over ov; FunctionRef<long(int)> f{ov}; f(1); VN_CHECK(ov.l == 1, "lvalue call operator"); }
    { int n = 0; auto l = [&n](int) { ++n; }; FunctionRef<void(int)> f{l}; f(1); VN_CHECK(n == 1, "void call count"); }
    { Counter c1, c2; c1.add = 1; c2.add = 2; FunctionRef<long(int, const std::string&)> f1{c1}, f2{c2}; f1(a, s); f2(a, s); f2(a, s); VN_CHECK(c1.calls == 1 && c2.calls == 2, "calls reached the wrong object"); }
  }
  return vn::done();
}
