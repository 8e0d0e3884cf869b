// Stand-in for the part of libtorch and pybind11 that a dense-layer binding needs: strided tensors with shared
// storage, blobs with and without deleter, broadcasting add, sums, products, and a module that only registers
// functions.  Written for the simulator; libtorch is not installed here.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
namespace c10 {
struct Error : std::runtime_error { using std::runtime_error::runtime_error; };
template <class T> using optional = std::optional<T>; using nullopt_t = std::nullopt_t; inline constexpr auto nullopt = std::nullopt;
enum class ScalarType : int8_t { Byte, Char, Short, Int, Long, Half, Float, Double, Bool };
enum class DeviceType : int8_t { CPU };
enum class Layout : int8_t { Strided };
struct Device { DeviceType t = DeviceType::CPU; Device(DeviceType x = DeviceType::CPU) : t(x) {} Device(const std::string&) {} Device(const char*) {} bool is_cpu() const { return true; } bool is_cuda() const { return false; } DeviceType type() const { return t; } bool operator==(const Device& o) const { return t == o.t; } };
template <class T> struct ArrayRef { const T* p = nullptr; size_t n = 0; ArrayRef() {} ArrayRef(const T& x) : p(&x), n(1) {} ArrayRef(const T* a, size_t k) : p(a), n(k) {} ArrayRef(const std::vector<T>& v) : p(v.data()), n(v.size()) {} ArrayRef(const std::initializer_list<T>& l) : p(l.begin()), n(l.size()) {} template <size_t N> ArrayRef(const std::array<T, N>& a) : p(a.data()), n(N) {}
  size_t size() const { return n; } bool empty() const { return !n; } const T& operator[](size_t i) const { return p[i]; } const T* begin() const { return p; } const T* end() const { return p + n; } const T* data() const { return p; } const T& front() const { return p[0]; } const T& back() const { return p[n - 1]; } std::vector<T> vec() const { return std::vector<T>(p, p + n); } bool equals(const ArrayRef& o) const { return vec() == o.vec(); } bool operator==(const ArrayRef& o) const { return equals(o); } bool operator!=(const ArrayRef& o) const { return !equals(o); } };
using IntArrayRef = ArrayRef<int64_t>;
template <class T> struct TypeOf; template <> struct TypeOf<float> { static constexpr auto v = ScalarType::Float; }; template <> struct TypeOf<double> { static constexpr auto v = ScalarType::Double; }; template <> struct TypeOf<int> { static constexpr auto v = ScalarType::Int; }; template <> struct TypeOf<long> { static constexpr auto v = ScalarType::Long; }; template <> struct TypeOf<long long> { static constexpr auto v = ScalarType::Long; }; template <> struct TypeOf<bool> { static constexpr auto v = ScalarType::Bool; }; template <> struct TypeOf<uint8_t> { static constexpr auto v = ScalarType::Byte; };
inline size_t elementSize(ScalarType t) { switch (t) { case ScalarType::Long: case ScalarType::Double: return 8; case ScalarType::Float: case ScalarType::Int: return 4; case ScalarType::Short: case ScalarType::Half: return 2; default: return 1; } }
enum class MemoryFormat { Contiguous, Preserve };
struct Scalar { double d = 0; Scalar() {} template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>> Scalar(T x) : d((double)x) {} template <class T> T to() const { return (T)d; } double toDouble() const { return d; } int64_t toInt() const { return (int64_t)d; } };
template <class... A> std::string str(const A&... a) { std::ostringstream o; (void)std::initializer_list<int>{((o << a), 0)...}; return o.str(); }
}
#define TORCH_CHECK(c, ...) do { if (!(c)) throw c10::Error(std::string("check failed: " #c)); } while (0)
#define TORCH_INTERNAL_ASSERT(c, ...) TORCH_CHECK(c)
#define AT_ASSERT(c) TORCH_CHECK(c)
#define AT_ASSERTM(c, ...) TORCH_CHECK(c)
#define AT_ERROR(...) throw c10::Error("error")
#define TORCH_WARN(...) do { } while (0)
namespace at {
using namespace c10;
struct TensorOptions { ScalarType t = ScalarType::Float; TensorOptions() {} TensorOptions(ScalarType x) : t(x) {} TensorOptions(Device) {} TensorOptions(DeviceType) {} TensorOptions dtype(ScalarType x) const { TensorOptions o = *this; o.t = x; return o; } template <class T> TensorOptions dtype() const { return dtype(TypeOf<T>::v); } TensorOptions device(Device) const { return *this; } TensorOptions device(DeviceType) const { return *this; } TensorOptions layout(Layout) const { return *this; } TensorOptions requires_grad(bool) const { return *this; } TensorOptions pinned_memory(bool) const { return *this; } TensorOptions memory_format(MemoryFormat) const { return *this; } ScalarType scalar_type() const { return t; } };
struct Storage { void* p = nullptr; std::function<void(void*)> del; Storage(void* q, std::function<void(void*)> d) : p(q), del(std::move(d)) {} ~Storage() { if (del) del(p); } Storage(const Storage&) = delete; };
struct Impl { std::shared_ptr<Storage> st; int64_t off = 0; std::vector<int64_t> sz, sd; ScalarType t = ScalarType::Float; };
class Tensor;
Tensor empty(IntArrayRef, const TensorOptions& = {}); Tensor zeros(IntArrayRef, const TensorOptions& = {}); Tensor matmul(const Tensor&, const Tensor&);
class Tensor {
  std::shared_ptr<Impl> m;
  static std::vector<int64_t> dense(const std::vector<int64_t>& s) { std::vector<int64_t> d(s.size()); int64_t k = 1; for (size_t i = s.size(); i-- > 0;) { d[i] = k; k *= std::max<int64_t>(1, s[i]); } return d; }
  int64_t wrapd(int64_t d) const { int64_t n = dim(); if (n == 0) n = 1; TORCH_CHECK(d >= -n && d < n); return d < 0 ? d + n : d; }
  const Impl& I() const { if (!m) throw Error("undefined tensor"); return *m; }
  template <class F> void each(F f) const { std::vector<int64_t> ix(dim(), 0); int64_t n = numel(); for (int64_t k = 0; k < n; k++) { f(k, ix); for (int64_t d = dim(); d-- > 0;) { if (++ix[d] < m->sz[d]) break; ix[d] = 0; } } }
  static std::vector<int64_t> infer(IntArrayRef s, int64_t n) { std::vector<int64_t> v = s.vec(); int64_t k = 1, at = -1; for (size_t i = 0; i < v.size(); i++) if (v[i] == -1) at = i; else k *= v[i]; if (at >= 0) { TORCH_CHECK(k > 0 && n % k == 0); v[at] = n / k; k *= v[at]; } TORCH_CHECK(k == n, "shape is invalid for input"); return v; }
 public:
  Tensor() {} explicit Tensor(std::shared_ptr<Impl> i) : m(std::move(i)) {}
  bool defined() const { return (bool)m; } void reset() { m.reset(); } int64_t use_count() const { return m.use_count(); } bool is_same(const Tensor& o) const { return m == o.m; }
  int64_t dim() const { return I().sz.size(); } int64_t ndimension() const { return dim(); } IntArrayRef sizes() const { return I().sz; } IntArrayRef strides() const { return I().sd; } int64_t size(int64_t d) const { TORCH_CHECK(dim() > 0); return I().sz[wrapd(d)]; } int64_t stride(int64_t d) const { return I().sd[wrapd(d)]; } int64_t storage_offset() const { return I().off; }
  int64_t numel() const { int64_t n = 1; for (auto x : I().sz) n *= x; return n; } int64_t nbytes() const { return numel() * elementSize(I().t); } int64_t element_size() const { return elementSize(I().t); } int64_t itemsize() const { return element_size(); }
  ScalarType scalar_type() const { return I().t; } ScalarType dtype() const { return I().t; } TensorOptions options() const { return TensorOptions(I().t); } Device device() const { return Device(); } bool is_cpu() const { return true; } bool is_cuda() const { return false; } bool requires_grad() const { return false; } Tensor detach() const { return *this; } Tensor cpu() const { return *this; } bool is_floating_point() const { return I().t == ScalarType::Float || I().t == ScalarType::Double; }
  bool is_contiguous(MemoryFormat = MemoryFormat::Contiguous) const { int64_t k = 1; if (numel() == 0) return true; for (int64_t d = dim(); d-- > 0;) { if (I().sz[d] != 1) { if (I().sd[d] != k) return false; k *= I().sz[d]; } } return true; }
  void* data_ptr() const { return (char*)I().st->p + I().off * elementSize(I().t); } template <class T> T* data_ptr() const { TORCH_CHECK(TypeOf<std::remove_const_t<T>>::v == I().t, "expected scalar type"); return (T*)data_ptr(); } template <class T> T* data() const { return data_ptr<T>(); } const void* const_data_ptr() const { return data_ptr(); } template <class T> const T* const_data_ptr() const { return data_ptr<T>(); } void* mutable_data_ptr() const { return data_ptr(); } template <class T> T* mutable_data_ptr() const { return data_ptr<T>(); }
  double getd(const std::vector<int64_t>& ix) const { int64_t o = m->off; for (size_t i = 0; i < ix.size(); i++) o += ix[i] * m->sd[i]; void* b = m->st->p; switch (m->t) { case ScalarType::Float: return ((float*)b)[o]; case ScalarType::Double: return ((double*)b)[o]; case ScalarType::Int: return ((int*)b)[o]; case ScalarType::Long: return (double)((int64_t*)b)[o]; case ScalarType::Bool: case ScalarType::Byte: return ((uint8_t*)b)[o]; default: throw Error("type"); } }
  void setd(const std::vector<int64_t>& ix, double v) const { int64_t o = m->off; for (size_t i = 0; i < ix.size(); i++) o += ix[i] * m->sd[i]; void* b = m->st->p; switch (m->t) { case ScalarType::Float: ((float*)b)[o] = (float)v; break; case ScalarType::Double: ((double*)b)[o] = v; break; case ScalarType::Int: ((int*)b)[o] = (int)v; break; case ScalarType::Long: ((int64_t*)b)[o] = (int64_t)v; break; case ScalarType::Bool: case ScalarType::Byte: ((uint8_t*)b)[o] = (uint8_t)v; break; default: throw Error("type"); } }
  Tensor contiguous(MemoryFormat = MemoryFormat::Contiguous) const { return is_contiguous() ? *this : clone(); }
  Tensor clone(std::optional<MemoryFormat> = {}) const { Tensor r = empty(sizes(), options()); each([&](int64_t, std::vector<int64_t>& ix) { r.setd(ix, getd(ix)); }); return r; }
  Tensor to(ScalarType t, bool = false, bool copy = false) const { if (t == I().t && !copy) return *this; Tensor r = empty(sizes(), TensorOptions(t)); each([&](int64_t, std::vector<int64_t>& ix) { r.setd(ix, getd(ix)); }); return r; } Tensor to(const TensorOptions& o) const { return to(o.t); } Tensor to(Device) const { return *this; } Tensor toType(ScalarType t) const { return to(t); }
  Tensor as_strided(IntArrayRef s, IntArrayRef d, std::optional<int64_t> o = {}) const { auto i = std::make_shared<Impl>(I()); i->sz = s.vec(); i->sd = d.vec(); if (o) i->off = *o; return Tensor(i); }
  Tensor view(IntArrayRef s) const { auto v = infer(s, numel()); TORCH_CHECK(is_contiguous(), "view is not compatible with the strides"); return as_strided(v, dense(v)); }
  Tensor reshape(IntArrayRef s) const { auto v = infer(s, numel()); return (is_contiguous() ? *this : clone()).view(v); }
  Tensor flatten(int64_t a = 0, int64_t b = -1) const { a = wrapd(a); b = wrapd(b); std::vector<int64_t> v; int64_t k = 1; for (int64_t i = 0; i < dim(); i++) { if (i < a || i > b) v.push_back(size(i)); else { k *= size(i); if (i == b) v.push_back(k); } } return reshape(v); } Tensor ravel() const { return flatten(); } Tensor view_as(const Tensor& o) const { return view(o.sizes()); } Tensor reshape_as(const Tensor& o) const { return reshape(o.sizes()); }
  Tensor transpose(int64_t a, int64_t b) const { a = wrapd(a); b = wrapd(b); auto s = I().sz, d = I().sd; std::swap(s[a], s[b]); std::swap(d[a], d[b]); return as_strided(s, d); } Tensor t() const { TORCH_CHECK(dim() <= 2); return dim() < 2 ? *this : transpose(0, 1); } Tensor T() const { return t(); } Tensor permute(IntArrayRef p) const { std::vector<int64_t> s, d; for (auto x : p) { s.push_back(size(x)); d.push_back(stride(x)); } return as_strided(s, d); }
  Tensor select(int64_t d, int64_t i) const { d = wrapd(d); TORCH_CHECK(i >= -size(d) && i < size(d)); if (i < 0) i += size(d); auto s = I().sz, q = I().sd; int64_t o = I().off + i * q[d]; s.erase(s.begin() + d); q.erase(q.begin() + d); return as_strided(s, q, o); } Tensor operator[](int64_t i) const { return select(0, i); }
  Tensor narrow(int64_t d, int64_t a, int64_t n) const { d = wrapd(d); TORCH_CHECK(a >= 0 && a + n <= size(d)); auto s = I().sz; s[d] = n; return as_strided(s, I().sd, I().off + a * I().sd[d]); } Tensor slice(int64_t d, int64_t a, int64_t e, int64_t step = 1) const { d = wrapd(d); e = std::min(e, size(d)); auto s = I().sz, q = I().sd; s[d] = (e - a + step - 1) / step; int64_t o = I().off + a * q[d]; q[d] *= step; return as_strided(s, q, o); }
  Tensor unsqueeze(int64_t d) const { if (d < 0) d += dim() + 1; auto s = I().sz, q = I().sd; s.insert(s.begin() + d, 1); q.insert(q.begin() + d, 1); return as_strided(s, q); } Tensor squeeze(int64_t d) const { d = wrapd(d); if (size(d) != 1) return *this; auto s = I().sz, q = I().sd; s.erase(s.begin() + d); q.erase(q.begin() + d); return as_strided(s, q); } Tensor squeeze() const { std::vector<int64_t> s, q; for (int64_t i = 0; i < dim(); i++) if (size(i) != 1) { s.push_back(size(i)); q.push_back(stride(i)); } return as_strided(s, q); }
  Tensor expand(IntArrayRef z) const { std::vector<int64_t> s = z.vec(), q(s.size(), 0); int64_t df = (int64_t)s.size() - dim(); TORCH_CHECK(df >= 0); for (int64_t i = 0; i < dim(); i++) { if (s[i + df] == -1) s[i + df] = size(i); TORCH_CHECK(size(i) == s[i + df] || size(i) == 1, "sizes do not broadcast"); q[i + df] = size(i) == 1 && s[i + df] != 1 ? 0 : stride(i); } return as_strided(s, q); } Tensor expand_as(const Tensor& o) const { return expand(o.sizes()); }
  template <class T> T item() const { TORCH_CHECK(numel() == 1, "a tensor with more than one element cannot be converted to a scalar"); return (T)getd(std::vector<int64_t>(dim(), 0)); } Scalar item() const { return Scalar(item<double>()); }
  template <class F> Tensor& ew(const Tensor& o, F f) { Tensor b = o.expand(sizes()); Tensor a = *this; each([&](int64_t, std::vector<int64_t>& ix) { a.setd(ix, f(a.getd(ix), b.getd(ix))); }); return *this; } template <class F> const Tensor& ew(const Tensor& o, F f) const { Tensor a = *this; a.ew(o, f); return *this; }
  static std::vector<int64_t> bc(const Tensor& a, const Tensor& b) { std::vector<int64_t> x = a.sizes().vec(), y = b.sizes().vec(); if (x.size() < y.size()) std::swap(x, y); size_t df = x.size() - y.size(); for (size_t i = 0; i < y.size(); i++) { TORCH_CHECK(x[i + df] == y[i] || x[i + df] == 1 || y[i] == 1); x[i + df] = std::max(x[i + df], y[i]); } return x; }
  Tensor& add_(const Tensor& o, Scalar k = 1) { return ew(o, [k](double a, double b) { return (double)((float)a + (float)(k.d * b)); }); } const Tensor& add_(const Tensor& o, Scalar k = 1) const { Tensor a = *this; a.add_(o, k); return *this; } Tensor& sub_(const Tensor& o, Scalar k = 1) { return add_(o, Scalar(-k.d)); } Tensor& mul_(const Tensor& o) { return ew(o, [](double a, double b) { return a * b; }); } Tensor& mul_(Scalar k) { Tensor a = *this; each([&](int64_t, std::vector<int64_t>& ix) { a.setd(ix, a.getd(ix) * k.d); }); return *this; } Tensor& fill_(Scalar k) { Tensor a = *this; each([&](int64_t, std::vector<int64_t>& ix) { a.setd(ix, k.d); }); return *this; } Tensor& zero_() { return fill_(0); } Tensor& copy_(const Tensor& o, bool = false) { return ew(o, [](double, double b) { return b; }); }
  Tensor add(const Tensor& o, Scalar k = 1) const { Tensor r = expand(bc(*this, o)).clone(); r.add_(o, k); return r; } Tensor sub(const Tensor& o, Scalar k = 1) const { return add(o, Scalar(-k.d)); } Tensor mul(const Tensor& o) const { Tensor r = expand(bc(*this, o)).clone(); r.mul_(o); return r; } Tensor operator+(const Tensor& o) const { return add(o); } Tensor operator-(const Tensor& o) const { return sub(o); } Tensor operator*(const Tensor& o) const { return mul(o); } Tensor& operator+=(const Tensor& o) { return add_(o); } Tensor& operator-=(const Tensor& o) { return sub_(o); }
  Tensor sum(IntArrayRef ds, bool keep = false) const { std::vector<bool> red(dim(), ds.empty()); for (auto d : ds) red[wrapd(d)] = true; std::vector<int64_t> s; for (int64_t i = 0; i < dim(); i++) s.push_back(red[i] ? 1 : size(i)); std::vector<int64_t> q = dense(s); int64_t n = 1; for (auto x : s) n *= x; std::vector<double> acc(n, 0.0); each([&](int64_t, std::vector<int64_t>& ix) { int64_t o = 0; for (int64_t i = 0; i < dim(); i++) if (!red[i]) o += ix[i] * q[i]; acc[o] += getd(ix); }); std::vector<int64_t> fs; for (int64_t i = 0; i < dim(); i++) if (!red[i] || keep) fs.push_back(s[i]); Tensor r = empty(s, options()); r.each([&](int64_t k, std::vector<int64_t>& ix) { r.setd(ix, acc[k]); }); return r.view(fs); }
  Tensor sum(int64_t d, bool keep = false) const { std::vector<int64_t> v(1, d); return sum(IntArrayRef(v), keep); } Tensor sum() const { return sum(IntArrayRef()); }
  Tensor mm(const Tensor& o) const { return at::matmul(*this, o); } Tensor matmul(const Tensor& o) const { return at::matmul(*this, o); }
};
inline Tensor wrap(void* p, std::function<void(void*)> d, IntArrayRef s, const TensorOptions& o) { auto i = std::make_shared<Impl>(); i->t = o.t; i->sz = s.vec(); int64_t k = 1; i->sd.resize(s.size()); for (size_t j = s.size(); j-- > 0;) { TORCH_CHECK(s[j] >= 0, "negative dimension"); i->sd[j] = k; k *= std::max<int64_t>(1, s[j]); } i->st = std::make_shared<Storage>(p, std::move(d)); return Tensor(i); }
inline Tensor empty(IntArrayRef s, const TensorOptions& o) { int64_t n = 1; for (auto x : s) n *= x; TORCH_CHECK(n >= 0); void* p = nullptr; if (posix_memalign(&p, 64, std::max<int64_t>(1, n * (int64_t)elementSize(o.t)))) throw Error("out of memory"); return wrap(p, [](void* q) { free(q); }, s, o); }
inline Tensor zeros(IntArrayRef s, const TensorOptions& o) { Tensor r = empty(s, o); memset(r.data_ptr(), 0, r.nbytes()); return r; }
inline Tensor full(IntArrayRef s, Scalar v, const TensorOptions& o = {}) { Tensor r = empty(s, o); r.fill_(v); return r; } inline Tensor ones(IntArrayRef s, const TensorOptions& o = {}) { return full(s, 1, o); } inline Tensor empty_like(const Tensor& t) { return empty(t.sizes(), t.options()); } inline Tensor zeros_like(const Tensor& t) { return zeros(t.sizes(), t.options()); }
inline Tensor from_blob(void* p, IntArrayRef s, const TensorOptions& o = {}) { return wrap(p, nullptr, s, o); }
template <class D, class = std::enable_if_t<std::is_invocable<D, void*>::value>> Tensor from_blob(void* p, IntArrayRef s, const D& d, const TensorOptions& o = {}) { return wrap(p, std::function<void(void*)>(d), s, o); }
inline Tensor from_blob(void* p, IntArrayRef s, IntArrayRef st, const TensorOptions& o = {}) { return wrap(p, nullptr, s, o).as_strided(s, st); }
template <class D, class = std::enable_if_t<std::is_invocable<D, void*>::value>> Tensor from_blob(void* p, IntArrayRef s, IntArrayRef st, const D& d, const TensorOptions& o = {}) { return wrap(p, std::function<void(void*)>(d), s, o).as_strided(s, st); }
inline Tensor matmul(const Tensor& a, const Tensor& b) { TORCH_CHECK(a.dim() == 2 && b.dim() == 2 && a.size(1) == b.size(0)); Tensor r = empty({a.size(0), b.size(1)}, a.options()); for (int64_t i = 0; i < a.size(0); i++) for (int64_t j = 0; j < b.size(1); j++) { double s = 0; for (int64_t k = 0; k < a.size(1); k++) s += a.getd({i, k}) * b.getd({k, j}); r.setd({i, j}, s); } return r; } inline Tensor mm(const Tensor& a, const Tensor& b) { return matmul(a, b); } inline Tensor sum(const Tensor& a, IntArrayRef d, bool k = false) { return a.sum(d, k); } inline Tensor sum(const Tensor& a, int64_t d, bool k = false) { return a.sum(d, k); } inline Tensor add(const Tensor& a, const Tensor& b) { return a.add(b); }
struct NoGradGuard {}; struct AutoGradMode { AutoGradMode(bool) {} };
inline constexpr auto kFloat32 = ScalarType::Float, kFloat = ScalarType::Float, kFloat64 = ScalarType::Double, kDouble = ScalarType::Double, kInt = ScalarType::Int, kInt32 = ScalarType::Int, kLong = ScalarType::Long, kInt64 = ScalarType::Long, kBool = ScalarType::Bool; inline constexpr auto kCPU = DeviceType::CPU; inline constexpr auto kStrided = Layout::Strided;
inline TensorOptions dtype(ScalarType t) { return TensorOptions(t); } inline TensorOptions device(Device) { return {}; } inline TensorOptions requires_grad(bool = true) { return {}; } inline int get_num_threads() { return 4; } inline void set_num_threads(int) {}
}
namespace torch { using namespace at; using c10::optional; using c10::nullopt; using Tensor = at::Tensor; using TensorList = std::vector<Tensor>; namespace autograd { using tensor_list = std::vector<Tensor>; using variable_list = std::vector<Tensor>; } }
// ---- pybind11: a module collects its functions; each call runs under the interpreter lock
extern "C" void sim_gil(int take);
namespace pybind11 {
struct gil_scoped_release { gil_scoped_release() { sim_gil(0); } ~gil_scoped_release() { sim_gil(1); } }; struct gil_scoped_acquire { gil_scoped_acquire() { sim_gil(1); } ~gil_scoped_acquire() { sim_gil(0); } };
template <class... G> struct call_guard {}; struct none {}; struct arg { const char* n; std::optional<at::Tensor> def; bool has = false; arg(const char* s) : n(s) {} template <class T> arg operator=(T&&) const { arg a = *this; a.has = true; return a; } arg& noconvert(bool = true) { return *this; } arg& none(bool = true) { return *this; } };
namespace literals { inline arg operator""_a(const char* s, size_t) { return arg(s); } }
struct module_ { typedef std::function<std::vector<at::Tensor>(const std::vector<at::Tensor>&)> F; std::map<std::string, F> fn; std::string d; std::string& doc() { return d; }
  static std::vector<at::Tensor> out(at::Tensor t) { return {t}; } static std::vector<at::Tensor> out(std::vector<at::Tensor> v) { return v; } template <class... T> static std::vector<at::Tensor> out(std::tuple<T...> t) { return std::apply([](auto&... x) { return std::vector<at::Tensor>{x...}; }, t); } template <size_t N> static std::vector<at::Tensor> out(std::array<at::Tensor, N> t) { return std::vector<at::Tensor>(t.begin(), t.end()); } template <class A, class B> static std::vector<at::Tensor> out(std::pair<A, B> t) { return {t.first, t.second}; }
  static void in(at::Tensor& to, const at::Tensor& f) { to = f; } static void in(std::optional<at::Tensor>& to, const at::Tensor& f) { if (f.defined()) to = f; }
  template <class R, class... A, size_t... I> static F mk(R (*f)(A...), std::index_sequence<I...>) { return [f](const std::vector<at::Tensor>& v) { if (v.size() != sizeof...(A)) throw c10::Error("incompatible function arguments"); std::tuple<std::decay_t<A>...> t; (void)std::initializer_list<int>{(in(std::get<I>(t), v[I]), 0)...}; return out(f(static_cast<A>(std::get<I>(t))...)); }; }
  template <class... G> static bool rel(const call_guard<G...>&) { return (std::is_same<G, gil_scoped_release>::value || ...); } template <class T> static bool rel(const T&) { return false; }
  template <class R, class... A, class... X> module_& def(const char* n, R (*f)(A...), const X&... x) { F g = mk(f, std::index_sequence_for<A...>()); bool r = (false || ... || rel(x)); if (r) fn[n] = [g](const std::vector<at::Tensor>& v) { gil_scoped_release q; return g(v); }; else fn[n] = g; return *this; } };
typedef module_ module;
}
namespace py = pybind11;
#ifndef TORCH_EXTENSION_NAME
#define TORCH_EXTENSION_NAME linear_cpp
#endif
#define PYBIND11_MODULE(name, var) void sim_pybind_init(pybind11::module_& var)
