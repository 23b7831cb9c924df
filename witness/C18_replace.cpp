// C18: replacing an action changes that action and no other.
#include "machine.hpp"
using namespace rpc;

//! Replacements of function I: same arguments and result, another tag
template<unsigned I, unsigned Tag, typename Sig>
struct other;
template<unsigned I, unsigned Tag, typename R, typename... Args>
struct other<I, Tag, R(Args...)> {
  static R function(Args... args) {
    rec(I, args...);
    log_.tag = Tag;
    return give(result_of<I, R>::r);
  }
  struct object {
    unsigned *count;
    ~object() { magic = 0; }
    object(unsigned *c) : count(c), magic(0xcafe) {}
    object(object &&o) : count(o.count), magic(o.magic) {}
    R operator()(Args... args) {
      va_eq(magic, 0xcafe, "the callback is alive");
      ++*count;
      return function(static_cast<Args>(args)...);
    }
    unsigned magic;
  };
  struct constant {
    R operator()(Args... args) const { return function(static_cast<Args>(args)...); }
    static const constant self;
  };
};
template<unsigned I, unsigned Tag, typename R, typename... Args>
const typename other<I, Tag, R(Args...)>::constant other<I, Tag, R(Args...)>::constant::self{};

template<unsigned I, unsigned Tag>
using other_t = other<I, Tag, typename fn<I>::type>;
template<unsigned I, unsigned Tag>
using other_h = unevaluated<typename fn<I>::type *, &other_t<I, Tag>::function>;

extern unsigned object_calls;
unsigned object_calls;

//! Replace action I by some callback of tag 1 or 2; returns the tag
template<bool Any>
struct replacing {
  template<unsigned I, bool Few = false, typename D>
  static unsigned run(D &d) {
    if (va_any()) {
      d.template replace<at(I)>(other_h<I, 1>{});
      return 1;
    }
    d.template replace<at(I)>(other_h<I, 2>{});
    return 2;
  }
};
template<>
struct replacing<true> {
  template<unsigned I, bool Few = false, typename D>
  static unsigned run(D &d) {
    if (va_any())
      return replacing<false>::run<I>(d);
    if (va_any()) {
      d.template replace<at(I)>(other_t<I, 3>::function);
      return 3;
    }
    if (!Few && va_any()) {
      d.template replace<at(I)>(&other_t<I, 4>::function);
      return 4;
    }
    if (Few || va_any()) {
      d.template replace<at(I)>(typename other_t<I, 5>::object{&object_calls});
      return 5;
    }
    if (va_any()) {
      typename other_t<I, 6>::object o{&object_calls};
      d.template replace<at(I)>(std::move(o));
      o.magic = 0;
      return 6;
    }
#if __cplusplus < 201703L // clang 18 cannot deduce references in C++17
    using constant = typename other_t<I, 7>::constant;
    d.template replace<at(I)>(unevaluated<const constant &, constant::self>{});
    return 7;
#else
    d.template replace<at(I)>(typename other_t<I, 7>::constant{});
    return 7;
#endif
  }
};
constexpr bool is_any(action_features f) { return f == action_features::ANY; }

template<unsigned I, typename D>
void sizes(D &d) {
  va_eq(d[at(I)].input_size(), fn<I>::in, "the size of requests stays");
  va_eq(d[at(I)].output_size(), fn<I>::out, "the size of responses stays");
}

// Plain dispatchers
template<unsigned I, endianess E, signed_mode S, action_features A>
struct plain {
  using D = dispatcher<ring<E, S>, A>;
  static void run() {
    D d;
    unsigned live = va_live();
    for (unsigned k = 0; k < 2; k++) {
      unsigned tag = replacing<is_any(A)>::template run<I>(d);
      va_eq(va_live(), live, "the previous callback is released");
      sizes<I>(d);
      if (va_any())
        ask<I>(d, tag);
      else if (va_any())
        ask<(I + 1) % COUNT>(d, 0);
      else
        ask<(I + COUNT - 1) % COUNT>(d, 0);
    }
    va_reach("end");
  }
  template<unsigned J>
  static void ask(D &d, unsigned tag) {
    using F = fn<J>;
    request<J, E, S> r;
    r.any(true);
    byte_t in[r.length], out[F::out + 1];
    r.packet(in);
    if (va_any())
      va_eq(d(counting_source{in}, counting_sink{out}), at(J), "the index is returned");
    else
      d[at(J)](counting_source{in + IS}, counting_sink{out});
    r.called();
    va_eq(log_.tag, tag, "the callback in place is called, and no other");
    va_eq(emitted, F::out, "bytes emitted");
    keep(out, r.response, 0, F::out, "the result is emitted");
  }
};

// Buffered dispatchers: replacing between any two packets, however often
template<unsigned I, bool Double, endianess E, signed_mode S, action_features A>
struct buffered {
  static void run() {
    unsigned live0 = va_live();
    {
      machine<Double, E, S, A> m;
      unsigned live = va_live(), tag = 0;
      while (va_more()) {
        request_around<I>(m, tag);
        if (m.from != m.to && va_any())
          m.fetch();
        if (va_any()) {
          tag = replacing<is_any(A)>::template run<I, true>(m.d);
          va_eq(va_live(), live, "the previous callback is released");
          sizes<I>(m.d);
          m.rest();
        }
        while (!m.stale && m.from != m.to)
          m.fetch();
        m.blur();
        object_calls = 0;
      }
    }
    va_eq(va_live(), live0, "every callback is released");
    va_reach("end");
  }
  template<unsigned J, typename M>
  static void request_around(M &m, unsigned tag) {
    if (va_any())
      ask<J>(m, tag);
    else if (va_any())
      ask<(J + 1) % COUNT>(m, 0);
    else if (va_any())
      ask<(J + COUNT - 1) % COUNT>(m, 0);
    else
      m.drop();
  }
  template<unsigned J, typename M>
  static void ask(M &m, unsigned tag) {
    object_calls = 0;
    m.template request_any<J>(true);
    va_eq(log_.tag, tag, "the callback in place is called, and no other");
    va_eq(object_calls, tag == 5 || tag == 6, "the callback in place is called, and no other");
  }
};
#define REPLACE(I)                                                                                                     \
  VA_PROP(plain_##I##__any) { plain<I, spec::FE, spec::FS, action_features::ANY>::run(); }                             \
  VA_PROP(plain_##I##__weak) { plain<I, spec::FE, spec::FS, action_features::WEAK_REFERENCE>::run(); }                 \
  VA_PROP(single_##I##__any) { buffered<I, false, spec::FE, spec::FS, action_features::ANY>::run(); }                  \
  VA_PROP(double_##I##__weak) { buffered<I, true, spec::FE, spec::FS, action_features::WEAK_REFERENCE>::run(); }
#ifndef PART
#define PART 0
#endif
#if PART == 0
REPLACE(0)
REPLACE(1)
REPLACE(2)
#elif PART == 1
REPLACE(3)
REPLACE(4)
#else
REPLACE(5)
REPLACE(6)
#endif
