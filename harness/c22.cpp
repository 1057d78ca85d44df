#include <memory>
#include "common/function_ref.h"
using lightstep::FunctionRef;
namespace vf {
struct Big { long a, b, c; };
struct Functor { long st; long operator()(int x, const char* p, Big& b); };
struct VFunctor { long st; void operator()(int x); };
struct BFunctor { long st; bool operator()(); };
struct MFunctor { long st; long operator()(std::unique_ptr<int> p, int x); };
struct RFunctor { long st; Big& operator()(Big& b); };
}
using Sig = long(int, const char*, vf::Big&);
extern "C" {
long vf_functor(vf::Functor& f, int x, const char* p, vf::Big& b) { FunctionRef<Sig> r{f}; return r(x, p, b); }
long vf_copy(vf::Functor& f, int x, const char* p, vf::Big& b) { FunctionRef<Sig> r{f}; FunctionRef<Sig> q{r}; FunctionRef<Sig> t{std::move(q)}; return t(x, p, b); }
long vf_ptr(long (*f)(int, const char*, vf::Big&), int x, const char* p, vf::Big& b) { FunctionRef<Sig> r{f}; return r(x, p, b); }
void vf_void(vf::VFunctor& f, int x) { FunctionRef<void(int)> r{f}; r(x); }
bool vf_boolr(vf::BFunctor& f) { FunctionRef<bool()> r{f}; return r(); }
long vf_move(vf::MFunctor& f, int* p, int x) { FunctionRef<long(std::unique_ptr<int>, int)> r{f}; return r(std::unique_ptr<int>{p}, x); }
vf::Big* vf_ref(vf::RFunctor& f, vf::Big& b) { FunctionRef<vf::Big&(vf::Big&)> r{f}; return &r(b); }
long vf_twice(vf::Functor& f, vf::Functor& g, int x, const char* p, vf::Big& b) { FunctionRef<Sig> r{f}, q{g}; return r(x, p, b) - q(x, p, b); }
bool vf_bool_functor(vf::Functor& f) { FunctionRef<Sig> r{f}; return static_cast<bool>(r); }
bool vf_bool_ptr(long (*f)(int, const char*, vf::Big&)) { FunctionRef<Sig> r{f}; return static_cast<bool>(r); }
bool vf_bool_null() { FunctionRef<Sig> r{nullptr}; return static_cast<bool>(r); }
bool vf_bool_copy(vf::Functor& f) { FunctionRef<Sig> r{f}; FunctionRef<Sig> q{r}; return static_cast<bool>(q); }
bool vf_bool_copy_null() { FunctionRef<Sig> r{nullptr}; FunctionRef<Sig> q{std::move(r)}; return static_cast<bool>(q); }
long vf_target(int, const char*, vf::Big&);
long (*vf_get_target())(int, const char*, vf::Big&) { return &vf_target; }
}
