// Stand-in for pybind11 during the analysis: a small dynamically typed object model with the documented meaning of the
// pybind11 interface (objects, attributes, conversions, classes, enumerations, modules). Nothing is ever released, as if
// the interpreter never ended.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace pybind11 {

struct error : std::exception {};
struct cast_error : error {};          // a value cannot be converted
struct type_error : error {            // wrong arguments, unknown type
  type_error() {}
  template<typename T>
  explicit type_error(const T &) {}
};
struct attribute_error : error {};     // no such attribute
struct stop_iteration : error {};
struct import_error : error {};        // a class or name is defined twice
struct value_error : error {
  value_error() {}
  template<typename T>
  explicit value_error(const T &) {}
};
struct error_already_set : error {};   // the interpreter's error
struct index_error : error {};
struct key_error : error {};

class handle;
class object;
class str;
class bytes;
class iterator;
class function;
class tuple;

//! Return value policies have no effect on what is modelled
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

namespace model {

enum kind { NONE, BOOL, INT, BYTES, STR, LIST, TUPLE, ITER, FUNC, INSTANCE, TYPE, MODULE, METHOD };

struct obj;
struct call_args {
  obj **v;
  std::size_t n;
};
//! Something which can be called: tells whether the arguments suit, then calls
struct callable {
  virtual bool suits(const call_args &) = 0;
  virtual obj *call(const call_args &) = 0;
  callable *next = nullptr; // overload
};
struct attribute {
  const char *name;
  unsigned hash;
  obj *value;
};
struct obj {
  kind k;
  bool is_signed = false;
  std::uint64_t i = 0;              // BOOL, INT: pattern; ITER: position
  unsigned char *data = nullptr;    // BYTES, STR
  std::size_t n = 0;                // BYTES, STR, LIST, TUPLE: size; TYPE, MODULE: number of attributes
  obj **items = nullptr;            // LIST, TUPLE
  callable *f = nullptr;            // FUNC
  void *value = nullptr;            // INSTANCE
  obj *type = nullptr;              // INSTANCE: class; ITER: sequence; METHOD: self
  const void *id = nullptr;         // TYPE: C++ type
  obj *local = nullptr;             // TYPE: module to which it is private
  attribute *attr = nullptr;
  std::size_t nattr = 0, max = 0;
  explicit obj(kind x) : k(x) {}
};
template<typename T>
inline char type_tag = 0;

//! Registered classes
struct registry_t {
  static constexpr std::size_t MAX = 512;
  obj *types[MAX] = {};
  std::size_t n = 0;
};
inline registry_t registry;
template<typename T>
obj *find_type() {
  for (std::size_t i = registry.n; i-- > 0;)
    if (registry.types[i]->id == &type_tag<T>)
      return registry.types[i];
  return nullptr;
}
inline bool equal(const char *a, const char *b) {
  std::size_t i = 0;
  for (; a[i] && a[i] == b[i]; i++)
    ;
  return a[i] == b[i];
}
inline char *copy(const char *s) {
  std::size_t n = 0;
  while (s[n])
    n++;
  char *p = new char[n + 1];
  for (std::size_t i = 0; i <= n; i++)
    p[i] = s[i];
  return p;
}
inline obj *none() { return new obj(NONE); }
inline unsigned hash(const char *s) {
  unsigned h = 0;
  for (; *s; s++)
    h = h * 31 + static_cast<unsigned char>(*s);
  return h;
}
inline attribute *entry(obj *o, const char *name) {
  unsigned h = hash(name);
  for (std::size_t i = 0; i < o->nattr; i++)
    if (o->attr[i].hash == h && equal(o->attr[i].name, name))
      return o->attr + i;
  return nullptr;
}
inline obj *find(obj *o, const char *name) {
  attribute *a = entry(o, name);
  return a ? a->value : nullptr;
}
inline obj *lookup(obj *o, const char *name) {
  obj *r = find(o, name);
  if (!r && o->k == INSTANCE)
    r = find(o->type, name);
  return r;
}
inline void set(obj *o, const char *name, obj *v) {
  if (attribute *a = entry(o, name)) {
    a->value = v;
    return;
  }
  if (o->nattr == o->max) {
    o->max = o->max ? 4 * o->max : 8;
    auto *p = new attribute[o->max];
    for (std::size_t i = 0; i < o->nattr; i++)
      p[i] = o->attr[i];
    o->attr = p;
  }
  attribute &a = o->attr[o->nattr++];
  a.name = copy(name);
  a.hash = hash(name);
  a.value = v;
}
inline obj *call(obj *f, obj **v, std::size_t n);

template<typename F>
struct signature : signature<decltype(&F::operator())> {};
template<typename R, typename... A>
struct signature<R(A...)> {
  using type = R(A...);
};
template<typename R, typename... A>
struct signature<R (*)(A...)> : signature<R(A...)> {};
template<typename R, typename... A>
struct signature<R (&)(A...)> : signature<R(A...)> {};
template<typename C, typename R, typename... A>
struct signature<R (C::*)(A...)> : signature<R(A...)> {};
template<typename C, typename R, typename... A>
struct signature<R (C::*)(A...) const> : signature<R(A...)> {};
template<typename R, typename... A>
struct signature<R (*)(A...) noexcept> : signature<R(A...)> {};
template<typename C, typename R, typename... A>
struct signature<R (C::*)(A...) noexcept> : signature<R(A...)> {};
template<typename C, typename R, typename... A>
struct signature<R (C::*)(A...) const noexcept> : signature<R(A...)> {};

} // namespace model

template<typename T, typename = void>
struct caster;
template<typename T>
using bare = std::remove_cv_t<std::remove_reference_t<T>>;

// ------------------------------------------------------------------------------------------------------- objects

class accessor;

template<typename D>
class object_api {
  model::obj *me() const { return static_cast<const D *>(this)->ptr(); }

public:
  inline accessor attr(const char *name) const;
  inline accessor attr(const std::string &name) const;
  inline accessor operator[](std::size_t i) const;
  template<return_value_policy = return_value_policy::automatic_reference, typename... A>
  object operator()(A &&...a) const;
  inline iterator begin() const;
  inline iterator end() const;
  bool is_none() const { return me()->k == model::NONE; }
  template<typename O>
  bool is(const O &o) const {
    return me() == o.ptr();
  }
};

class handle : public object_api<handle> {
protected:
  model::obj *p_ = nullptr;

public:
  handle() = default;
  handle(std::nullptr_t) {}
  handle(model::obj *p) : p_(p) {}
  model::obj *ptr() const { return p_; }
  const handle &inc_ref() const { return *this; }
  const handle &dec_ref() const { return *this; }
  explicit operator bool() const { return p_ != nullptr; }
  template<typename T>
  T cast() const;
};

class object : public handle {
public:
  object() = default;
  explicit object(model::obj *p) : handle(p) {}
  object(handle h, bool) : handle(h) {}
  handle release() {
    handle h = *this;
    p_ = nullptr;
    return h;
  }
};
template<typename T>
T reinterpret_borrow(handle h) { T t; static_cast<handle &>(t) = h; return t; }
template<typename T>
T reinterpret_steal(handle h) { return reinterpret_borrow<T>(h); }

template<typename T>
object cast(T &&x, return_value_policy = return_value_policy::automatic_reference, handle = {});
template<typename T>
T cast(const handle &h) { return h.template cast<T>(); }

class accessor : public object_api<accessor> {
  model::obj *o_;
  const char *name_;

public:
  accessor(model::obj *o, const char *name) : o_(o), name_(model::copy(name)) {}
  accessor(const accessor &) = default;
  template<typename T>
  void operator=(T &&v) && { model::set(o_, name_, pybind11::cast(std::forward<T>(v)).ptr()); }
  template<typename T>
  void operator=(T &&v) & { model::set(o_, name_, pybind11::cast(std::forward<T>(v)).ptr()); }
  void operator=(const accessor &a) && { model::set(o_, name_, a.ptr()); }
  model::obj *ptr() const {
    model::obj *r = model::lookup(o_, name_);
    if (!r)
      throw attribute_error{};
    if (o_->k == model::INSTANCE && r->k == model::FUNC) {
      auto *m = new model::obj(model::METHOD);
      m->type = o_;
      m->value = r;
      return m;
    }
    return r;
  }
  operator object() const { return object(ptr()); }
  template<typename T>
  T cast() const { return handle(ptr()).template cast<T>(); }
};

template<typename D>
accessor object_api<D>::attr(const char *name) const { return accessor(me(), name); }
template<typename D>
accessor object_api<D>::attr(const std::string &name) const { return accessor(me(), name.c_str()); }

inline bool hasattr(handle h, const char *name) { return model::lookup(h.ptr(), name) != nullptr; }
inline object getattr(handle h, const char *name) { return h.attr(name); }
inline void setattr(handle h, const char *name, handle v) { model::set(h.ptr(), name, v.ptr()); }

//! Python iterators: shared position, value fetched when it is first asked for
class iterator : public object {
  object value_;
  void advance() {
    model::obj *s = p_->type;
    if (p_->i >= s->n) {
      value_ = object();
      return;
    }
    if (s->k == model::BYTES) {
      auto *x = new model::obj(model::INT);
      x->i = s->data[p_->i];
      value_ = object(x);
    } else
      value_ = object(s->items[p_->i]);
    p_->i++;
  }

public:
  using iterator_category = std::input_iterator_tag;
  using difference_type = std::ptrdiff_t;
  using value_type = handle;
  using reference = const handle;
  using pointer = const handle *;
  iterator() = default;
  explicit iterator(model::obj *p) : object(p) {}
  iterator &operator++() {
    advance();
    return *this;
  }
  iterator operator++(int) {
    auto rv = *this;
    advance();
    return rv;
  }
  reference operator*() const {
    if (p_ && !value_.ptr())
      const_cast<iterator &>(*this).advance();
    return value_;
  }
  pointer operator->() const {
    operator*();
    return &value_;
  }
  static iterator sentinel() { return {}; }
  friend bool operator==(const iterator &a, const iterator &b) { return a->ptr() == b->ptr(); }
  friend bool operator!=(const iterator &a, const iterator &b) { return a->ptr() != b->ptr(); }
};
inline iterator iter(handle h) {
  model::obj *s = h.ptr();
  if (s->k == model::ITER)
    return iterator(s);
  if (s->k != model::BYTES && s->k != model::LIST && s->k != model::TUPLE)
    throw type_error{};
  auto *i = new model::obj(model::ITER);
  i->type = s;
  return iterator(i);
}
template<typename D>
iterator object_api<D>::begin() const { return iter(handle(me())); }
template<typename D>
iterator object_api<D>::end() const { return iterator::sentinel(); }
inline std::size_t len(handle h) {
  auto k = h.ptr()->k;
  if (k != model::BYTES && k != model::STR && k != model::LIST && k != model::TUPLE)
    throw type_error{};
  return h.ptr()->n;
}

class none : public object {
public:
  none() : object(model::none()) {}
};
class bytes : public object {
  static model::obj *make(const char *p, std::size_t n) {
    auto *o = new model::obj(model::BYTES);
    o->data = new unsigned char[n + 1];
    o->n = n;
    for (std::size_t i = 0; i < n; i++)
      o->data[i] = static_cast<unsigned char>(p[i]);
    o->data[n] = 0;
    return o;
  }

public:
  static bool check_(handle h) { return h.ptr()->k == model::BYTES; }
  bytes() : object(make("", 0)) {}
  bytes(const char *p, std::size_t n) : object(make(p, n)) {}
  bytes(const std::string &s) : object(make(s.data(), s.size())) {}
  bytes(const object &o) : object(o) {
    if (!check_(o))
      throw type_error{};
  }
  operator std::string() const { return std::string(reinterpret_cast<const char *>(ptr()->data), ptr()->n); }
  operator std::string_view() const { return std::string_view(reinterpret_cast<const char *>(ptr()->data), ptr()->n); }
  std::size_t size() const { return ptr()->n; }
};
class str : public object {
public:
  static bool check_(handle h) { return h.ptr()->k == model::STR; }
  str() : str("") {}
  str(const char *s) : object(new model::obj(model::STR)) {
    ptr()->data = reinterpret_cast<unsigned char *>(model::copy(s));
    while (s[ptr()->n])
      ptr()->n++;
  }
  str(const std::string &s) : str(s.c_str()) {}
  operator std::string() const { return std::string(reinterpret_cast<const char *>(ptr()->data), ptr()->n); }
};
class bool_ : public object {
public:
  static bool check_(handle h) { return h.ptr()->k == model::BOOL; }
  bool_() = default;
  bool_(bool b) : object(new model::obj(model::BOOL)) { ptr()->i = b; }
  operator bool() const { return ptr()->i != 0; }
};
class int_ : public object {
public:
  static bool check_(handle h) { return h.ptr()->k == model::INT || h.ptr()->k == model::BOOL; }
  int_() : int_(0) {}
  template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>>
  int_(T x) : object(new model::obj(model::INT)) {
    ptr()->i = static_cast<std::uint64_t>(x);
    ptr()->is_signed = std::is_signed<T>::value;
  }
  int_(const object &o) : object(o) {
    if (!check_(o))
      throw type_error{};
  }
  template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>>
  operator T() const;
};
template<model::kind K>
class sequence_of : public object {
protected:
  static constexpr std::size_t CAP = 64;

public:
  static bool check_(handle h) { return h.ptr()->k == K; }
  sequence_of() : sequence_of(0) {}
  template<typename N, typename = std::enable_if_t<std::is_integral<N>::value>>
  explicit sequence_of(N n) : object(new model::obj(K)) {
    ptr()->items = new model::obj *[CAP]();
    ptr()->n = n;
  }
  std::size_t size() const { return ptr()->n; }
  bool empty() const { return size() == 0; }
  void put(std::size_t i, handle h) { ptr()->items[i] = h.ptr(); }
  handle operator[](std::size_t i) const { return handle(ptr()->items[i]); }
  template<typename T>
  void append(T &&x) {
    if (ptr()->n == CAP)
      throw type_error{};
    ptr()->items[ptr()->n++] = pybind11::cast(std::forward<T>(x)).ptr();
  }
};
class tuple : public sequence_of<model::TUPLE> {
public:
  using sequence_of<model::TUPLE>::sequence_of;
};
class list : public sequence_of<model::LIST> {
public:
  using sequence_of<model::LIST>::sequence_of;
};
class args : public tuple {
public:
  using tuple::tuple;
};
template<typename... A>
tuple make_tuple(A &&...a) {
  tuple t(sizeof...(A));
  std::size_t i = 0;
  int d[] = {0, (t.put(i++, pybind11::cast(std::forward<A>(a))), 0)...};
  (void)d;
  return t;
}
class iterable : public object {
public:
  static bool check_(handle h) {
    auto k = h.ptr()->k;
    return k == model::BYTES || k == model::LIST || k == model::TUPLE || k == model::ITER || k == model::STR;
  }
};
class sequence : public object {
public:
  static bool check_(handle h) {
    auto k = h.ptr()->k;
    return k == model::BYTES || k == model::LIST || k == model::TUPLE || k == model::STR;
  }
  std::size_t size() const { return ptr()->n; }
};
template<typename T>
bool isinstance(handle h);
inline bool isinstance_any_callable(handle h) {
  auto k = h.ptr()->k;
  return k == model::FUNC || k == model::METHOD || k == model::TYPE;
}
template<typename D>
accessor object_api<D>::operator[](std::size_t) const { throw type_error{}; }

// --------------------------------------------------------------------------------------------------- conversions

//! Registered classes
template<typename T, typename>
struct caster {
  static bool suits(handle h) { return h.ptr()->k == model::INSTANCE && h.ptr()->type->id == &model::type_tag<T>; }
  using hold = T *;
  static hold load(handle h) {
    if (!suits(h))
      throw cast_error{};
    return static_cast<T *>(h.ptr()->value);
  }
  static T &get(hold &h) { return *h; }
  template<typename U>
  static model::obj *make(U &&x) {
    model::obj *t = model::find_type<T>();
    if (!t)
      throw type_error{};
    auto *o = new model::obj(model::INSTANCE);
    o->type = t;
    o->value = new T(std::forward<U>(x));
    return o;
  }
};
template<typename T>
struct by_value {
  using hold = T;
  static T &get(hold &h) { return h; }
};
template<typename T>
struct caster<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value && !std::is_same<T, char>::value>> : by_value<T> {
  static bool suits(handle h) {
    const model::obj &o = *h.ptr();
    if (o.k == model::BOOL)
      return true;
    if (o.k != model::INT)
      return false;
    bool neg = o.is_signed && (o.i >> 63);
    if (std::is_signed<T>::value) {
      constexpr unsigned s = 64 - 8 * sizeof(T);
      auto back = static_cast<std::uint64_t>(static_cast<std::int64_t>(o.i << s) >> s);
      return back == o.i && (o.is_signed || !(o.i >> 63));
    }
    return !neg && static_cast<std::uint64_t>(static_cast<T>(o.i)) == o.i;
  }
  static T load(handle h) {
    if (!suits(h))
      throw cast_error{};
    return static_cast<T>(h.ptr()->i);
  }
  static model::obj *make(T x) { return int_(x).ptr(); }
};
template<typename T, typename E>
int_::operator T() const { return caster<T>::load(*this); }
template<>
struct caster<bool> : by_value<bool> {
  static bool suits(handle h) { return h.ptr()->k == model::BOOL || h.ptr()->k == model::NONE; }
  static bool load(handle h) {
    if (!suits(h))
      throw cast_error{};
    return h.ptr()->k == model::BOOL && h.ptr()->i;
  }
  static model::obj *make(bool b) { return bool_(b).ptr(); }
};
template<>
struct caster<char> : by_value<char> {
  static bool suits(handle h) { return h.ptr()->k == model::STR && h.ptr()->n == 1; }
  static char load(handle h) {
    if (!suits(h))
      throw cast_error{};
    return static_cast<char>(h.ptr()->data[0]);
  }
  static model::obj *make(char c) {
    char s[2] = {c, 0};
    return str(s).ptr();
  }
};
template<>
struct caster<void> {
  static void load(handle) {}
};
template<>
struct caster<std::string> : by_value<std::string> {
  static bool suits(handle h) { return h.ptr()->k == model::STR || h.ptr()->k == model::BYTES; }
  static std::string load(handle h) {
    if (!suits(h))
      throw cast_error{};
    return std::string(reinterpret_cast<const char *>(h.ptr()->data), h.ptr()->n);
  }
  static model::obj *make(const std::string &s) { return str(s).ptr(); }
};
template<>
struct caster<const char *> : by_value<const char *> {
  static model::obj *make(const char *s) { return str(s).ptr(); }
};
template<std::size_t N>
struct caster<char[N]> {
  static model::obj *make(const char *s) { return str(s).ptr(); }
};
template<typename T>
struct caster<T, std::enable_if_t<std::is_base_of<handle, T>::value>> : by_value<T> {
  template<typename U>
  static auto check(handle h, U *) -> decltype(U::check_(h)) { return U::check_(h); }
  static bool check(handle, handle *) { return true; }
  static bool suits(handle h) { return check(h, static_cast<T *>(nullptr)); }
  static T load(handle h) {
    if (!suits(h))
      throw cast_error{};
    return reinterpret_borrow<T>(h);
  }
  static model::obj *make(const T &x) { return x.ptr(); }
};
template<>
struct caster<accessor> {
  static model::obj *make(const accessor &x) { return x.ptr(); }
};
template<typename T>
struct elements_of {
  static bool suits_all(model::obj *o) {
    if (o->k != model::LIST && o->k != model::TUPLE)
      return false;
    for (std::size_t i = 0; i < o->n; i++)
      if (!caster<T>::suits(handle(o->items[i])))
        return false;
    return true;
  }
};
template<typename T, std::size_t N>
struct caster<std::array<T, N>> : by_value<std::array<T, N>> {
  static bool suits(handle h) { return elements_of<T>::suits_all(h.ptr()) && h.ptr()->n == N; }
  static std::array<T, N> load(handle h) {
    if (!suits(h))
      throw cast_error{};
    std::array<T, N> a;
    for (std::size_t i = 0; i < N; i++)
      a[i] = caster<T>::load(handle(h.ptr()->items[i]));
    return a;
  }
  static model::obj *make(const std::array<T, N> &a) {
    list l(N);
    for (std::size_t i = 0; i < N; i++)
      l.put(i, handle(caster<T>::make(a[i])));
    return l.ptr();
  }
};
template<typename T>
struct caster<std::vector<T>> : by_value<std::vector<T>> {
  static bool suits(handle h) { return elements_of<T>::suits_all(h.ptr()); }
  static std::vector<T> load(handle h) {
    if (!suits(h))
      throw cast_error{};
    std::vector<T> a;
    for (std::size_t i = 0; i < h.ptr()->n; i++)
      a.push_back(caster<T>::load(handle(h.ptr()->items[i])));
    return a;
  }
  static model::obj *make(const std::vector<T> &a) {
    list l(a.size());
    for (std::size_t i = 0; i < a.size(); i++)
      l.put(i, handle(caster<T>::make(a[i])));
    return l.ptr();
  }
};
template<typename R, typename... A>
struct caster<std::function<R(A...)>> : by_value<std::function<R(A...)>> {
  static bool suits(handle h) { return isinstance_any_callable(h); }
  static std::function<R(A...)> load(handle h) {
    if (!suits(h))
      throw cast_error{};
    object f(h.ptr());
    return [f](A... a) -> R {
      object r = f(std::forward<A>(a)...);
      if constexpr (!std::is_void<R>::value)
        return r.template cast<R>();
    };
  }
};
template<typename R, typename... A>
struct caster<R (*)(A...)>; // not modelled

template<typename T>
T handle::cast() const {
  if constexpr (std::is_void<T>::value)
    return;
  else {
    if (!p_)
      throw cast_error{};
    using C = caster<bare<T>>;
    typename C::hold h = C::load(*this);
    if constexpr (std::is_reference<T>::value || std::is_copy_constructible<bare<T>>::value)
      return static_cast<T>(C::get(h));
    else
      return std::move(C::get(h));
  }
}
template<typename T>
object cast(T &&x, return_value_policy, handle) {
  return object(caster<bare<T>>::make(std::forward<T>(x)));
}
template<typename T>
bool isinstance(handle h) {
  if constexpr (std::is_same<T, function>::value)
    return isinstance_any_callable(h);
  else
    return caster<T>::suits(h);
}

// ----------------------------------------------------------------------------------------------------- functions

namespace model {
//! A C++ function seen from Python
template<typename F, typename Sig>
struct bound;
template<typename F, typename R, typename... A>
struct bound<F, R(A...)> : callable {
  F f;
  explicit bound(F g) : f(std::move(g)) {}
  static constexpr bool variadic = sizeof...(A) > 0 && std::is_same<bare<std::tuple_element_t<sizeof...(A), std::tuple<void *, A...>>>, args>::value;
  template<std::size_t... I>
  static bool each(const call_args &v, std::index_sequence<I...>) {
    bool ok = true;
    int d[] = {0, (ok = ok && caster<bare<A>>::suits(handle(v.v[I])), 0)...};
    (void)d;
    return ok;
  }
  bool suits(const call_args &v) override { return v.n == sizeof...(A) && each(v, std::index_sequence_for<A...>{}); }
  template<typename T>
  static T pass(typename caster<bare<T>>::hold &h) {
    if constexpr (std::is_reference<T>::value || std::is_copy_constructible<T>::value)
      return static_cast<T>(caster<bare<T>>::get(h));
    else
      return std::move(caster<bare<T>>::get(h));
  }
  template<std::size_t... I>
  obj *run(const call_args &v, std::index_sequence<I...>) {
    std::tuple<typename caster<bare<A>>::hold...> h{caster<bare<A>>::load(handle(v.v[I]))...};
    (void)h;
    if constexpr (std::is_void<R>::value) {
      f(pass<A>(std::get<I>(h))...);
      return none();
    } else
      return caster<bare<R>>::make(f(pass<A>(std::get<I>(h))...));
  }
  obj *call(const call_args &v) override { return run(v, std::index_sequence_for<A...>{}); }
};
//! Functions of any arguments
template<typename F, typename R>
struct bound<F, R(args)> : callable {
  F f;
  explicit bound(F g) : f(std::move(g)) {}
  bool suits(const call_args &) override { return true; }
  obj *call(const call_args &v) override {
    args t(v.n);
    for (std::size_t i = 0; i < v.n; i++)
      t.put(i, handle(v.v[i]));
    if constexpr (std::is_void<R>::value) {
      f(t);
      return none();
    } else
      return caster<bare<R>>::make(f(t));
  }
};
template<typename Sig, typename F>
obj *make_function(F f) {
  auto *o = new obj(FUNC);
  o->f = new bound<F, Sig>(std::move(f));
  return o;
}
inline obj *call(obj *f, obj **v, std::size_t n) {
  if (f->k == METHOD) {
    obj *w[16];
    if (n + 1 > 16)
      throw type_error{};
    w[0] = f->type;
    for (std::size_t i = 0; i < n; i++)
      w[i + 1] = v[i];
    return call(static_cast<obj *>(f->value), w, n + 1);
  }
  if (f->k == TYPE)
    f = find(f, "__init__");
  if (!f || f->k != FUNC)
    throw type_error{};
  call_args a{v, n};
  for (callable *c = f->f; c; c = c->next)
    if (c->suits(a))
      return c->call(a);
  throw type_error{};
}
//! Define a function; a second definition of the same name is an overload
inline void define(obj *o, const char *name, obj *f) {
  if (obj *g = find(o, name)) {
    if (g->k == FUNC) {
      callable *c = g->f;
      while (c->next)
        c = c->next;
      c->next = f->f;
      return;
    }
  }
  set(o, name, f);
}
} // namespace model

class function : public object {
public:
  static bool check_(handle h) { return isinstance_any_callable(h); }
  function() = default;
  function(const object &o) : object(o) {
    if (!check_(o))
      throw type_error{};
  }
};
class cpp_function : public function {
public:
  template<typename F, typename... X>
  cpp_function(F f, const X &...) { p_ = model::make_function<typename model::signature<F>::type>(std::move(f)); }
};
template<typename D>
template<return_value_policy, typename... A>
object object_api<D>::operator()(A &&...a) const {
  object o[sizeof...(A) + 1] = {pybind11::cast(std::forward<A>(a))...};
  model::obj *v[sizeof...(A) + 1];
  for (std::size_t i = 0; i < sizeof...(A); i++)
    v[i] = o[i].ptr();
  return object(model::call(me(), v, sizeof...(A)));
}

// ------------------------------------------------------------------------------------- modules, classes, enumerations

class module_ : public object {
public:
  module_() = default;
  explicit module_(const char *) : object(new model::obj(model::MODULE)) {}
  template<typename F, typename... X>
  module_ &def(const char *name, F f, const X &...) {
    model::define(ptr(), name, model::make_function<typename model::signature<F>::type>(std::move(f)));
    return *this;
  }
  module_ def_submodule(const char *name, const char * = nullptr) {
    module_ m(name);
    model::set(ptr(), name, m.ptr());
    return m;
  }
};
using module = module_;

template<typename... A>
struct init_t {};
template<typename... A>
init_t<A...> init() { return {}; }
template<typename F>
struct factory_t {
  F f;
};
template<typename F>
factory_t<F> init(F f) { return {std::move(f)}; }

struct arg {
  explicit arg(const char *) {}
  template<typename T>
  arg &operator=(T &&) { return *this; }
  arg &noconvert(bool = true) { return *this; }
};
namespace literals {
inline arg operator""_a(const char *s, std::size_t) { return arg(s); }
} // namespace literals
struct is_method { explicit is_method(handle) {} };
struct arithmetic {};
struct module_local {
  bool value;
  explicit module_local(bool b = true) : value(b) {}
};
namespace model {
template<typename... X>
bool is_local(const X &...x) {
  bool r = false;
  auto one = [&r](const auto &o) {
    if constexpr (std::is_same<bare<decltype(o)>, module_local>::value)
      r = o.value;
    (void)o;
  };
  (one(x), ...);
  return r;
}
} // namespace model
struct doc { explicit doc(const char *) {} };
template<typename... T>
struct call_guard {};
template<std::size_t, std::size_t>
struct keep_alive {};
struct gil_scoped_acquire {};
struct gil_scoped_release {};
struct dynamic_attr {};
struct is_final {};

namespace model {
//! Registers a C++ type: once, under a name which is not taken
template<typename T>
obj *new_type(handle scope, const char *name, bool local) {
  obj *where = local ? scope.ptr() : nullptr;
  for (std::size_t i = 0; i < registry.n; i++)
    if (registry.types[i]->id == &type_tag<T> && registry.types[i]->local == where)
      throw import_error{};
  if (find(scope.ptr(), name))
    throw import_error{};
  auto *t = new obj(TYPE);
  t->local = where;
  t->id = &type_tag<T>;
  if (registry.n == registry_t::MAX)
    throw type_error{};
  registry.types[registry.n++] = t;
  set(scope.ptr(), name, t);
  return t;
}
template<typename T, typename... A>
T *construct(A &&...a) {
  if constexpr (std::is_constructible<T, A...>::value)
    return new T(std::forward<A>(a)...);
  else
    return new T{std::forward<A>(a)...};
}
template<typename T, typename... A>
obj *constructor(init_t<A...>) {
  return make_function<handle(A...)>([](A... a) {
    auto *o = new obj(INSTANCE);
    o->type = find_type<T>();
    o->value = construct<T>(std::forward<A>(a)...);
    return handle(o);
  });
}
template<typename T, typename F, typename R, typename... A>
obj *constructor_of(F f, R (*)(A...)) {
  return make_function<handle(A...)>([f](A... a) {
    auto *o = new obj(INSTANCE);
    o->type = find_type<T>();
    if constexpr (std::is_same<R, T>::value)
      o->value = new T(f(std::forward<A>(a)...));
    else
      o->value = &*f(std::forward<A>(a)...).release();
    return handle(o);
  });
}
} // namespace model

template<typename T, typename... Options>
class class_ : public object {
  template<typename F>
  struct receiver {
    F f;
  };
  template<typename R, typename C, typename... A>
  static model::obj *method(R (C::*f)(A...)) {
    return model::make_function<R(T &, A...)>([f](T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); });
  }
  template<typename R, typename C, typename... A>
  static model::obj *method(R (C::*f)(A...) const) {
    return model::make_function<R(T &, A...)>([f](T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); });
  }
  template<typename R, typename C, typename... A>
  static model::obj *method(R (C::*f)(A...) noexcept) {
    return model::make_function<R(T &, A...)>([f](T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); });
  }
  template<typename R, typename C, typename... A>
  static model::obj *method(R (C::*f)(A...) const noexcept) {
    return model::make_function<R(T &, A...)>([f](T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); });
  }
  template<typename F>
  static model::obj *method(F f) { return model::make_function<typename model::signature<F>::type>(std::move(f)); }

public:
  using type = T;
  template<typename... X>
  class_(handle scope, const char *name, const X &...x) : object(model::new_type<T>(scope, name, model::is_local(x...))) {}
  template<typename F, typename... X>
  class_ &def(const char *name, F f, const X &...) {
    model::define(ptr(), name, method(std::move(f)));
    return *this;
  }
  template<typename... A, typename... X>
  class_ &def(init_t<A...> i, const X &...) {
    model::define(ptr(), "__init__", model::constructor<T>(i));
    return *this;
  }
  template<typename F, typename... X>
  class_ &def(factory_t<F> i, const X &...) {
    using S = typename model::signature<F>::type;
    model::define(ptr(), "__init__", model::constructor_of<T>(i.f, static_cast<S *>(nullptr)));
    return *this;
  }
};

template<typename T>
class enum_ : public object {
  handle scope_;

public:
  template<typename... X>
  enum_(handle scope, const char *name, const X &...x) : object(model::new_type<T>(scope, name, model::is_local(x...))), scope_(scope) {}
  enum_ &value(const char *name, T v, const char * = nullptr) {
    if (model::find(ptr(), name))
      throw value_error{};
    model::set(ptr(), name, caster<T>::make(v));
    return *this;
  }
  enum_ &export_values() {
    for (std::size_t i = 0; i < ptr()->nattr; i++)
      model::set(scope_.ptr(), ptr()->attr[i].name, ptr()->attr[i].value);
    return *this;
  }
};

} // namespace pybind11

#define PYBIND11_MODULE(NAME, VARIABLE, ...) void pystub_init_##NAME(pybind11::module_ &VARIABLE)
namespace py_stub_only {}
