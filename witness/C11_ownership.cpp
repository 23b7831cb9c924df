// C11: an action owns its own copy of the callback and releases it exactly once.
#include "spec.hpp"
#include <memory>
#include <upd/action.hpp>
#include <upd/buffered_dispatcher.hpp>
#include <upd/dispatcher.hpp>
#include <upd/key.hpp>
#include <upd/keyring.hpp>
using namespace upd;

//! Instances of the callback: how many are alive, how many were called
extern int alive, ever, calls;
extern bool bomb; // throw when copied or moved
int alive, ever, calls;
bool bomb;

//! State of a callback after n calls
inline std::uint16_t after(std::uint16_t s, unsigned n) {
  n &= 15;
  return static_cast<std::uint16_t>(n ? (s << n) | (s >> (16 - n)) : s);
}
inline std::uint16_t answer(std::uint16_t s, std::uint16_t x) { return static_cast<std::uint16_t>((s & 0xff0f) | (x & 0xf0)); }
template<bool Copyable, bool Nothrow>
struct callback {
  std::uint16_t state;
  bool valid;
  unsigned magic;
  explicit callback(std::uint16_t s) : state(s), valid(true), magic(0xcafe) { alive++; }
  callback(const callback &o) : state(o.state), valid(o.valid), magic(0) {
    static_assert(Copyable, "");
    o.check();
    if (!Nothrow && bomb)
      throw 1;
    magic = 0xcafe;
    alive++;
  }
  callback(callback &&o) noexcept(Nothrow) : state(o.state), valid(o.valid), magic(0) {
    o.check();
    if (!Nothrow && bomb)
      throw 2;
    o.valid = false; // moved from
    o.state = 0xdead;
    magic = 0xcafe;
    alive++;
  }
  callback &operator=(const callback &) = delete;
  ~callback() {
    check();
    magic = 0xdead;
    alive--;
  }
  void check() const { va_eq(magic, 0xcafe, "no callback is used before its construction or after its destruction"); }
  std::uint16_t operator()(std::uint16_t x) {
    check();
    va_check(valid, "the callback which is called was not moved away");
    calls++;
    state = after(state, 1);
    return answer(state, x);
  }
};
using plain_t = callback<true, true>;
using moving_t = callback<false, true>;
using risky_t = callback<true, false>;

constexpr auto E = endianess_h<spec::BE>{};
constexpr auto S = signed_mode_h<spec::OC>{};

inline std::uint16_t ask(const action &a, std::uint16_t x) {
  byte_t in[2] = {static_cast<byte_t>(x >> 8), static_cast<byte_t>(x)}, out[2] = {0, 0};
  unsigned i = 0, o = 0;
  a([&]() { return in[i++]; }, [&](byte_t b) { out[o++] = b; });
  va_eq(i * 8 + o, 18, "bytes exchanged");
  return static_cast<std::uint16_t>(out[0] * 256 + out[1]);
}
//! The callback has been called n times, from the state s
inline void expect(const action &a, std::uint16_t s, unsigned n) {
  std::uint16_t x = va_u16();
  int before = calls;
  va_eq(ask(a, x), answer(after(s, n + 1), x), "the state of the callback is kept");
  va_eq(calls, before + 1, "the callback is called once");
}
inline void ask_nothing(const action &a) {
  a([]() { va_unreachable("an action moved away calls nothing"); return byte_t{}; }, [](byte_t) { va_unreachable("an action moved away emits nothing"); });
}
inline void none() {
  va_eq(alive, 0, "every callback is destroyed exactly once");
  va_eq(va_live(), 0, "every allocation is released");
  va_reach("end");
}
template<typename F>
void start() {
  alive = calls = 0;
  bomb = false;
}

template<typename F>
void temporary() {
  start<F>();
  std::uint16_t s = va_u16();
  {
    action a{F{s}, E, S};
    va_eq(alive, 1, "the action owns one callback");
    for (unsigned i = 0; i < 3; i++)
      expect(a, s, i);
    va_eq(a.input_size() * 10 + a.output_size(), 22, "announced sizes");
  }
  none();
}
VA_PROP(temporary__plain) { temporary<plain_t>(); }
VA_PROP(temporary__move_only) { temporary<moving_t>(); }
VA_PROP(temporary__throwing) { temporary<risky_t>(); }

template<typename F>
void moved() {
  start<F>();
  std::uint16_t s = va_u16();
  {
    action a;
    {
      F f{s};
      a = action{std::move(f), E, S};
      va_eq(alive, 2, "the action owns one callback");
      f.state = va_u16();
      expect(a, s, 0);
    }
    va_eq(alive, 1, "the action owns one callback");
    expect(a, s, 1);
    expect(a, s, 2);
  }
  none();
}
VA_PROP(moved__plain) { moved<plain_t>(); }
VA_PROP(moved__move_only) { moved<moving_t>(); }

//! The original is a named object
VA_PROP(named) {
  start<plain_t>();
  std::uint16_t s = va_u16();
  {
    plain_t f{s};
    action a{f, E, S};
    f.state = va_u16();
    std::uint16_t x = va_u16();
    va_eq(ask(a, x), answer(after(s, 1), x), "a named callback is copied");
  }
  none();
}
//! Named objects which change, or disappear, or are constant; copies which throw
template<typename F>
void by_name() {
  start<F>();
  std::uint16_t s = va_u16();
  {
    std::unique_ptr<F> f{new F{s}};
    const F constant{s};
    action a{*f, E, S}, b{*f, E, S}, c{constant, E, S};
    va_eq(alive, 5, "each action owns one callback");
    va_eq(constant.valid && constant.state == s && f->valid && f->state == s, true, "the original is left as it was");
    f->state = va_u16();
    if (va_any())
      f.reset();
    expect(a, s, 0);
    expect(c, s, 0);
    expect(a, s, 1);
    expect(b, s, 0);
    if (f)
      (*f)(1);
    expect(a, s, 2);
    expect(b, s, 1);
  }
  none();
}
VA_PROP(by_name__plain) { by_name<plain_t>(); }
VA_PROP(by_name__risky) { by_name<risky_t>(); }
VA_PROP(by_name_throwing) {
  start<risky_t>();
  std::uint16_t s = va_u16();
  {
    risky_t f{s};
    action a{f, E, S};
    bomb = true;
    bool caught = false;
    try {
      action b{f, E, S};
    } catch (int) {
      caught = true;
    }
    va_check(caught, "the exception reaches the caller");
    va_eq(alive, 2, "nothing is destroyed twice");
    va_eq(va_live(), 1, "the allocation is released");
    expect(a, s, 0);
  }
  none();
}
VA_PROP(named_copy) {
  start<plain_t>();
  std::uint16_t s = va_u16();
  {
    plain_t f{s};
    action a{plain_t(f), E, S};
    f.state = va_u16();
    expect(a, s, 0);
    expect(a, s, 1);
  }
  none();
}

// Moving actions
VA_PROP(move_construct) {
  start<plain_t>();
  std::uint16_t s = va_u16();
  {
    action a{plain_t{s}, E, S};
    expect(a, s, 0);
    action b{std::move(a)};
    va_eq(alive, 1, "the action owns one callback");
    expect(b, s, 1);
    ask_nothing(a);
    {
      action c{std::move(b)};
      expect(c, s, 2);
    }
    va_eq(alive, 0, "the callback is destroyed with its owner");
    ask_nothing(b);
  }
  none();
}
VA_PROP(move_assign) {
  start<plain_t>();
  std::uint16_t s = va_u16(), t = va_u16();
  {
    action a{plain_t{s}, E, S}, b{moving_t{t}, E, S};
    expect(a, s, 0);
    expect(b, t, 0);
    b = std::move(a);
    va_eq(alive, 1, "the previous callback is destroyed");
    expect(b, s, 1);
    ask_nothing(a);
    a = std::move(b);
    expect(a, s, 2);
    ask_nothing(b);
    b = action{plain_t{t}, E, S};
    expect(b, t, 0);
    expect(a, s, 3);
    std::swap(a, b);
    expect(a, t, 1);
    expect(b, s, 4);
    if (va_any())
      b = action{};
    else
      b = std::move(a);
    va_eq(alive, 1, "the previous callback is destroyed");
  }
  none();
}
// Any sequence of replacements and invocations
VA_PROP(history) {
  start<plain_t>();
  {
    action a{plain_t{0}, E, S};
    std::uint8_t n = 0;
    std::uint16_t s = 0;
    while (va_more()) {
      if (va_any()) {
        expect(a, s, n & 1);
        if (n & 1) {
          a = action{plain_t{s}, E, S};
          n = 0;
        } else
          n++;
      } else if (va_any()) {
        a = action{moving_t{s}, E, S};
        n = 0;
      } else {
        action b{std::move(a)};
        a = std::move(b);
      }
      va_eq(alive, 1, "the action owns one callback");
      va_eq(va_live(), 1, "the action owns one allocation");
      calls = 0;
    }
  }
  none();
}

// Exceptions while the callback is copied
VA_PROP(throwing) {
  start<risky_t>();
  std::uint16_t s = va_u16();
  {
    action a{plain_t{s}, E, S};
    risky_t f{s};
    bomb = true;
    bool caught = false;
    try {
      if (va_any())
        a = action{std::move(f), E, S};
      else
        action b{std::move(f), E, S};
    } catch (int) {
      caught = true;
    }
    va_check(caught, "the exception reaches the caller");
    va_eq(alive, 2, "nothing is destroyed twice");
    va_eq(va_live(), 1, "the allocation is released");
    expect(a, s, 0);
  }
  none();
}

// In dispatchers and hooks
std::uint16_t base(std::uint16_t x) { return x; }
std::uint16_t other(std::uint16_t x) { return static_cast<std::uint16_t>(x + 1); }
inline keyring<spec::BE, spec::OC, unevaluated<std::uint16_t (*)(std::uint16_t), &base>, unevaluated<std::uint16_t (*)(std::uint16_t), &other>> ring() {
  return make_keyring(make_flist(UPD_CTREF(base), UPD_CTREF(other)), E, S);
}
template<typename D>
void dispatcher_history() {
  start<plain_t>();
  std::uint16_t s = va_u16();
  {
    D d;
    va_eq(va_live(), 2, "each action owns one allocation");
    d.template replace<1>(plain_t{s});
    expect(d[1], s, 0);
    if (va_any()) {
      d.template replace<1>(moving_t{s});
      expect(d[1], s, 0);
    } else if (va_any())
      d.template replace<1>(base);
    else if (va_any())
      d.template replace<1>(UPD_CTREF(base));
    else if (va_any()) {
      d.template replace<0>(plain_t{s});
      expect(d[0], s, 0);
      expect(d[1], s, 1);
      va_eq(alive, 2, "each action owns one callback");
    } else {
      bomb = true;
      risky_t f{s};
      bool caught = false;
      try {
        d.template replace<1>(std::move(f));
      } catch (int) {
        caught = true;
      }
      va_check(caught, "the exception reaches the caller");
      expect(d[1], s, 1);
      va_eq(alive, 2, "the previous callback stays");
    }
    va_eq(va_live(), 2, "each action owns one allocation");
    if (va_any()) {
      D e{std::move(d)};
      va_eq(va_live(), 2, "each action owns one allocation");
    }
  }
  none();
}
template<typename D>
void dispatcher_by_name() {
  start<plain_t>();
  std::uint16_t s = va_u16();
  {
    D d;
    {
      plain_t f{s};
      const plain_t constant{s};
      d.template replace<1>(f);
      if (va_any())
        d.template replace<0>(f);
      else
        d.template replace<0>(constant);
      f.state = va_u16();
    }
    va_eq(alive, 2, "each action owns one callback");
    va_eq(va_live(), 2, "each action owns one allocation");
    expect(d[1], s, 0);
    expect(d[0], s, 0);
    expect(d[1], s, 1);
  }
  none();
}
using D = dispatcher<decltype(ring()), action_features::ANY>;
VA_PROP(dispatcher) { dispatcher_history<D>(); }
VA_PROP(single_buffered) { dispatcher_history<single_buffered_dispatcher<D>>(); }
VA_PROP(double_buffered) { dispatcher_history<double_buffered_dispatcher<D>>(); }
VA_PROP(dispatcher_named) { dispatcher_by_name<D>(); }
VA_PROP(single_buffered_named) { dispatcher_by_name<single_buffered_dispatcher<D>>(); }
VA_PROP(double_buffered_named) { dispatcher_by_name<double_buffered_dispatcher<D>>(); }

struct hook {
  plain_t f;
  std::uint16_t *into;
  void operator()(std::uint16_t x) { *into = f(x); }
};
VA_PROP(hook) {
  start<plain_t>();
  std::uint16_t s = va_u16(), y = 0, x = va_u16();
  {
    auto k = ring().get(UPD_CTREF(base));
    action a = k.with_hook(hook{plain_t{s}, &y});
    va_eq(alive, 1, "the hook owns one callback");
    byte_t in[2] = {static_cast<byte_t>(x >> 8), static_cast<byte_t>(x)};
    a(&in[0], [](byte_t) {});
    va_eq(y, answer(after(s, 1), x), "the state of the callback is kept");
    a(static_cast<const byte_t *>(in), [](byte_t) {});
    va_eq(y, answer(after(s, 2), x), "the state of the callback is kept");
  }
  none();
}
VA_PROP(hook_named) {
  start<plain_t>();
  std::uint16_t s = va_u16(), y = 0, x = va_u16();
  {
    auto k = ring().get(UPD_CTREF(base));
    std::unique_ptr<hook> h{new hook{plain_t{s}, &y}};
    action a = k.with_hook(*h);
    va_eq(alive, 2, "the hook owns one callback");
    h->f.state = va_u16();
    if (va_any())
      h.reset();
    byte_t in[2] = {static_cast<byte_t>(x >> 8), static_cast<byte_t>(x)};
    a(&in[0], [](byte_t) {});
    va_eq(y, answer(after(s, 1), x), "the state of the callback is kept");
  }
  none();
}
