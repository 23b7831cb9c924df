// va: a static analyser for LLVM IR, specialised for the Unpadded library.
//
// It is a whole-program abstract interpreter: it computes, for client programs ("witnesses") that use the library
// and are compiled together with it, an over-approximation of every behaviour for every value of the inputs.
//
//  * integers      vectors of abstract bits; each abstract bit is 0, 1, "bit i of a*X+c" for an input X, indeterminate
//                  (never written), or unknown; arithmetic goes through the affine form a*X+c, bitwise operators act
//                  bit by bit;
//  * inputs        interval x known-bits; the partition of the input space is refined at tests (trace partitioning);
//  * memory        byte-precise objects with bounds and life time; vtables and function pointers are resolved;
//  * loops         finite loops over constants are unrolled by the constant domain; loops over arbitrary histories
//                  (va_more) are iterated until no abstract state appears which is new modulo renaming of inputs.
//
// There is no path solver. An obligation is PROVED (abstract values coincide), REFUTED (abstract values are exact,
// differ, and the input cell is not empty) or UNKNOWN (the domain lost the information).
#include <llvm/ADT/DenseMap.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <chrono>
#include <cxxabi.h>
#include <cstdio>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <regex>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace llvm;
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

static u64 mask64(unsigned n) { return n >= 64 ? ~0ull : ((1ull << n) - 1); }

// ------------------------------------------------------------------------------------------------ abstract values

struct Form {
  u32 sym;
  u64 a, c;
  bool operator==(const Form &o) const { return sym == o.sym && a == o.a && c == o.c; }
};
struct FormHash {
  size_t operator()(const Form &f) const { return (f.sym * 1000003u) ^ (f.a * 0x9E3779B97F4A7C15ull) ^ (f.c * 0xC2B2AE3D27D4EB4Full); }
};
static std::vector<Form> g_forms;
static std::unordered_map<Form, u32, FormHash> g_formIdx;
static u32 internForm(const Form &f) {
  auto it = g_formIdx.find(f);
  if (it != g_formIdx.end())
    return it->second;
  u32 id = g_forms.size();
  g_forms.push_back(f);
  g_formIdx[f] = id;
  return id;
}

enum BK : u8 { B0 = 0, B1 = 1, BREF = 2, BUNDEF = 3, BTOP = 4 };
struct Bit {
  u8 k = BTOP, i = 0;
  u8 neg = 0;
  u32 f = 0;
  bool operator==(const Bit &o) const {
    if (k != o.k)
      return false;
    return k != BREF || (i == o.i && neg == o.neg && f == o.f);
  }
  bool isc() const { return k <= B1; }
};
static Bit cbit(bool b) {
  Bit r;
  r.k = b ? B1 : B0;
  return r;
}
static Bit kbit(BK k) {
  Bit r;
  r.k = k;
  return r;
}
static Bit notb(Bit b) {
  if (b.k == B0)
    b.k = B1;
  else if (b.k == B1)
    b.k = B0;
  else if (b.k == BREF)
    b.neg ^= 1;
  return b;
}
typedef std::vector<Bit> Bits;

struct Val;
struct Val {
  enum K : u8 { NONE, INT, PTR, AGG, PTRTOP } k = NONE;
  bool isc = false;
  bool und = false; // PTR/aggregate which was never written
  unsigned w = 0;
  u64 c = 0;
  u32 obj = 0;
  i64 off = 0;
  i64 lo = 0, hi = 0; // bounds of the array which the pointer walks through (none if equal)
  std::shared_ptr<Bits> bits;
  std::shared_ptr<std::vector<Val>> agg;
};
static Val vconst(unsigned w, u64 c) {
  Val v;
  v.k = Val::INT;
  v.w = w;
  if (w <= 64) {
    v.isc = true;
    v.c = c & mask64(w);
  } else {
    v.bits = std::make_shared<Bits>();
    for (unsigned i = 0; i < w; i++)
      v.bits->push_back(cbit(i < 64 && (c >> i & 1)));
  }
  return v;
}
static Val vbits(Bits b) {
  Val v;
  v.k = Val::INT;
  v.w = b.size();
  bool c = v.w <= 64;
  u64 x = 0;
  if (c)
    for (unsigned i = 0; i < v.w; i++) {
      if (!b[i].isc()) {
        c = false;
        break;
      }
      if (b[i].k == B1)
        x |= 1ull << i;
    }
  if (c) {
    v.isc = true;
    v.c = x;
  } else
    v.bits = std::make_shared<Bits>(std::move(b));
  return v;
}
static Val vfill(unsigned w, BK k) { return vbits(Bits(w, kbit(k))); }
static Val vptr(u32 obj, i64 off) {
  Val v;
  v.k = Val::PTR;
  v.w = 64;
  v.obj = obj;
  v.off = off;
  return v;
}
static Val vptr(const Val &p, i64 off) { // same provenance, another position
  Val v = vptr(p.obj, off);
  v.lo = p.lo;
  v.hi = p.hi;
  return v;
}
static Val vptrtop() {
  Val v;
  v.k = Val::PTRTOP;
  v.w = 64;
  return v;
}

// ------------------------------------------------------------------------------------------------------- memory

struct MByte {
  enum K : u8 { UNDEF, CONST, BITS, PTR, TOP } k = UNDEF;
  u8 c = 0; // constant or index of the byte in the pointer
  u32 r = 0; // interned bits or interned pointer
  bool operator==(const MByte &o) const { return k == o.k && c == o.c && r == o.r; }
};
struct Bit8 {
  Bit b[8];
  bool operator==(const Bit8 &o) const {
    for (int i = 0; i < 8; i++)
      if (!(b[i] == o.b[i]))
        return false;
    return true;
  }
};
struct Bit8Hash {
  size_t operator()(const Bit8 &x) const {
    size_t h = 0;
    for (auto &b : x.b)
      h = h * 1099511628211ull + (b.k * 7 + b.i * 131 + b.neg * 17 + (b.k == BREF ? b.f * 65599 : 0));
    return h;
  }
};
static std::vector<Bit8> g_b8;
static std::unordered_map<Bit8, u32, Bit8Hash> g_b8Idx;
static u32 internB8(const Bit8 &b) {
  auto it = g_b8Idx.find(b);
  if (it != g_b8Idx.end())
    return it->second;
  u32 id = g_b8.size();
  g_b8.push_back(b);
  g_b8Idx[b] = id;
  return id;
}
typedef std::tuple<u32, i64, i64, i64> PtrKey; // object, position, bounds
static std::vector<PtrKey> g_ptrs;
static std::map<PtrKey, u32> g_ptrIdx;
static Val ptrOf(u32 id) {
  auto &k = g_ptrs[id];
  Val v = vptr(std::get<0>(k), std::get<1>(k));
  v.lo = std::get<2>(k);
  v.hi = std::get<3>(k);
  return v;
}
static u32 internPtr(const Val &v) {
  auto p = PtrKey(v.obj, v.off, v.lo, v.hi);
  auto it = g_ptrIdx.find(p);
  if (it != g_ptrIdx.end())
    return it->second;
  u32 id = g_ptrs.size();
  g_ptrs.push_back(p);
  g_ptrIdx[p] = id;
  return id;
}

struct Obj {
  enum K : u8 { STACK, HEAP, GLOBAL, FUNC, EXC } k = STACK;
  bool live = true, ro = false;
  u8 dead_why = 0; // 1 end of scope, 2 freed
  std::vector<MByte> b;
  const Value *site = nullptr;
  const Function *fn = nullptr;
};

struct Sym {
  unsigned w;
  u64 lo, hi, km, kv;
};

struct Fact { // recorded comparison which the domain could not express
  Bits a, b;
  u8 pred;
  bool res;
};

struct Frame {
  const Function *f = nullptr;
  const BasicBlock *bb = nullptr, *prev = nullptr;
  BasicBlock::const_iterator it;
  DenseMap<const Value *, Val> v;
  std::vector<u32> allocas;
  std::map<const Value *, u32> allocaOf;
};
typedef std::shared_ptr<Frame> FrameP;

struct Touch { // who reads and writes a byte
  const Instruction *r[2] = {nullptr, nullptr}, *w[2] = {nullptr, nullptr};
};

//! Objects by id, shared between states until they are written
class Memory {
  typedef std::shared_ptr<Obj> P;
  enum : u32 { N = 64 };
  typedef std::vector<P> Chunk;
  std::vector<std::shared_ptr<Chunk>> chunks;
  u32 count = 0;

  Chunk &own(u32 c) {
    auto &p = chunks[c];
    if (p.use_count() > 1)
      p = std::make_shared<Chunk>(*p);
    return *p;
  }

public:
  u32 size() const { return count; }
  const P &operator[](u32 id) const { return (*chunks[id / N])[id % N]; }
  void push_back(P o) {
    if (count % N == 0) {
      chunks.push_back(std::make_shared<Chunk>());
      chunks.back()->reserve(N);
    }
    own(count / N).push_back(std::move(o));
    count++;
  }
  Obj &mut(u32 id) {
    auto &p = own(id / N)[id % N];
    if (p.use_count() > 1)
      p = std::make_shared<Obj>(*p);
    return *p;
  }
};

struct State {
  std::vector<FrameP> st;
  Memory mem; // index = object id
  std::vector<Sym> syms;
  std::vector<Fact> facts;
  std::vector<std::pair<u32, u32>> caught; // exception object, typeinfo object
  u32 excObj = 0, excTI = 0;
  u32 nalloc = 0, nfree = 0;
  bool approx = false;
  std::vector<std::pair<const Function *, const DebugLoc *>> dummy;
  std::vector<const Function *> lib; // last library functions entered from the witness
  std::vector<const Instruction *> libsite;
  const Instruction *lastLib = nullptr;
  const Instruction *wrapAt = nullptr;
  // accesses by one of two contexts to the objects which existed when its activity started
  u8 ctx = 0;
  u32 ctxMax = 0;
  std::map<std::pair<u32, u64>, Touch> touched;
  // work done since the start of an operation
  bool metered = false;
  u64 work = 0, stack = 0, workMax = 0, stackMax = 0, stackTop = 0;
};

struct Split { // refinement of the partition of the input space
  u32 sym;
  std::vector<std::pair<u64, u64>> pieces;
};
struct SplitBit { // refinement by one bit of an input
  u32 sym;
  unsigned i;
};
struct Alarm {
  std::string kind, msg;
};
struct Unsupported {
  std::string msg;
};
struct Infeasible {};

struct Oblig {
  std::string entry, id, status, detail;
  u64 proved = 0, refuted = 0, unknown = 0;
  std::string loc;
  std::vector<std::string> path;
};

static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32) {
      char b[8];
      snprintf(b, 8, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  return o;
}

static std::string demang(StringRef n) { return demangle(n.str()); }

// -------------------------------------------------------------------------------------------------- the analyser

struct Analyser {
  Module &M;
  const DataLayout &DL;
  std::string repo;
  std::string entry;
  std::map<std::string, Oblig> ob;
  std::set<const Function *> analysed;
  std::map<const Function *, u64> ninst;
  u64 steps = 0, states = 0, forks = 0, joined = 0;
  u64 maxSteps = 250000000, maxStates = 2000000;
  double maxSecs = 400;
  std::chrono::steady_clock::time_point t0;
  bool incomplete = false;
  std::string incompleteWhy;
  std::unordered_set<std::string> seen;
  DenseMap<const GlobalValue *, u32> gobj;
  State init;
  std::map<const Function *, std::unordered_map<const Instruction *, std::vector<const Value *>>> liveCache;
  std::map<const Function *, unsigned> depthCount;
  std::set<std::string> reached;

  Analyser(Module &m, std::string r) : M(m), DL(m.getDataLayout()), repo(r) {}

  // ---- bits

  Bit mkref(const State &S, u32 sym, u64 a, u64 c, unsigned i, bool neg) {
    u64 m = mask64(i + 1);
    a &= m;
    c &= m;
    if (a == 0)
      return cbit(((c >> i) & 1) ^ neg);
    unsigned s = __builtin_ctzll(a);
    if (s) {
      a >>= s;
      c >>= s;
      i -= s;
      m = mask64(i + 1);
    }
    if (i > 0 && (a >> i & 1)) {
      a = (0 - a) & m;
      c = (0 - c - 1) & m;
      neg = !neg;
    }
    if (c >> i & 1) {
      c ^= 1ull << i;
      neg = !neg;
    }
    const Sym &y = S.syms[sym];
    u128 lo = (u128)a * y.lo + c, hi = (u128)a * y.hi + c;
    if ((lo >> i) == (hi >> i))
      return cbit(((u64)(lo >> i) & 1) ^ neg);
    if (a == 1 && (c & mask64(i)) == 0 && (y.km >> i & 1))
      return cbit((y.kv >> i & 1) ^ neg);
    Bit b;
    b.k = BREF;
    b.i = i;
    b.neg = neg;
    b.f = internForm({sym, a, c});
    return b;
  }
  Bit norm(const State &S, const Bit &b) {
    if (b.k != BREF)
      return b;
    const Form &f = g_forms[b.f];
    return mkref(S, f.sym, f.a, f.c, b.i, b.neg);
  }
  Bits bitsOf(const State &S, const Val &v) {
    Bits r;
    if (v.k != Val::INT)
      return Bits(v.w ? v.w : 64, kbit(v.und ? BUNDEF : BTOP));
    r.reserve(v.w);
    if (v.isc) {
      for (unsigned i = 0; i < v.w; i++)
        r.push_back(cbit(v.c >> i & 1));
      return r;
    }
    for (auto &b : *v.bits)
      r.push_back(norm(S, b));
    return r;
  }
  Val renorm(const State &S, const Val &v) {
    if (v.k != Val::INT || v.isc)
      return v;
    return vbits(bitsOf(S, v));
  }

  // number of values an input may take in this cell (saturated)
  u64 card(const Sym &y) {
    u64 n = y.hi - y.lo;
    return n == ~0ull ? n : n + 1;
  }

  // Affine view of a value: V = A*X + C in Z for X in the current cell (after reduction to the window of V), or
  // only modulo 2^n when exact is false.
  struct Aff {
    bool isconst = false;
    u32 sym = 0;
    i128 A = 0, C = 0;
  };

  static i128 fdiv(i128 a, i128 b) { // floor division, b > 0
    i128 q = a / b, r = a % b;
    return r < 0 ? q - 1 : q;
  }

  // Split the cell of `sym` such that A*X+C stays in one window of size 2^p; returns the window index.
  i128 window(const State &S, u32 sym, i128 A, i128 C, unsigned p) {
    const Sym &y = S.syms[sym];
    i128 W = (i128)1 << p;
    i128 v0 = A * (i128)y.lo + C, v1 = A * (i128)y.hi + C;
    i128 q0 = fdiv(v0, W), q1 = fdiv(v1, W);
    if (q0 == q1)
      return q0;
    i128 n = q1 > q0 ? q1 - q0 : q0 - q1;
    if (n > 8)
      throw 0; // too many windows
    // boundaries
    std::vector<std::pair<u64, u64>> pc;
    u64 start = y.lo;
    i128 q = q0;
    while (q != q1) {
      // largest X with floor((A X + C)/W) == q
      u64 x;
      if (A > 0)
        x = (u64)fdiv((q + 1) * W - 1 - C, A);
      else
        x = (u64)fdiv(C - q * W, -A);
      if (x >= start) {
        pc.push_back({start, x});
        start = x + 1;
      }
      q += A > 0 ? 1 : -1;
    }
    pc.push_back({start, y.hi});
    if (pc.size() < 2)
      throw 0;
    throw Split{sym, pc};
  }

  // V (n bits, unsigned reading) as an affine function of one input; modulo = only modulo 2^n needed
  bool affine(const State &S, const Bits &b, Aff &r, bool modulo) {
    unsigned n = b.size();
    if (n > 64)
      return false;
    int p = -1;
    for (int j = n - 1; j >= 0; j--) {
      if (b[j].k >= BUNDEF)
        return false;
      if (b[j].k == BREF && p < 0)
        p = j;
    }
    u64 K = 0;
    if (p < 0) {
      for (unsigned j = 0; j < n; j++)
        if (b[j].k == B1)
          K |= 1ull << j;
      r.isconst = true;
      r.A = 0;
      r.C = K;
      return true;
    }
    for (unsigned j = p + 1; j < n; j++)
      if (b[j].k == B1)
        K |= 1ull << j;
    const Bit &t = b[p];
    const Form f = g_forms[t.f];
    int s = p - (int)t.i;
    if (s < 0)
      return false;
    u64 low = 0;
    for (int j = 0; j < s; j++) {
      if (!b[j].isc())
        return false;
      if (b[j].k == B1)
        low |= 1ull << j;
    }
    for (int opt = 0; opt < 2; opt++) {
      u64 a, c;
      bool comp = (opt == 0) ? t.neg : !t.neg;
      if (comp) {
        a = 0 - f.a;
        c = 0 - f.c - 1;
        if (opt == 1)
          c += 1ull << t.i;
      } else {
        a = f.a;
        c = f.c;
        if (opt == 1)
          c += 1ull << t.i;
      }
      u64 A = a << s, C = (c << s) | low;
      bool ok = true;
      for (int j = 0; j <= p && ok; j++)
        ok = mkref(S, f.sym, A, C, j, false) == b[j];
      if (!ok)
        continue;
      r.isconst = false;
      r.sym = f.sym;
      unsigned w = p + 1;
      u64 m = mask64(w);
      A &= m;
      C &= m;
      i128 sa = A, sc = C;
      if (w < 64 || true) {
        if (A >> (w - 1) & 1)
          sa = (i128)A - ((i128)1 << w);
      }
      if (modulo && w == n) {
        r.A = sa;
        r.C = sc;
        return true;
      }
      i128 q;
      try {
        q = window(S, f.sym, sa, sc, w);
      } catch (int) {
        continue;
      }
      r.A = sa;
      r.C = sc - q * ((i128)1 << w) + (i128)K;
      return true;
    }
    return false;
  }

  Val fromAff(const State &S, const Aff &f, unsigned n) {
    if (f.isconst)
      return vconst(n, (u64)f.C);
    Bits b(n);
    for (unsigned j = 0; j < n; j++)
      b[j] = mkref(S, f.sym, (u64)f.A, (u64)f.C, j, false);
    return vbits(b);
  }

  // Try to refine the partition because an operator would lose information on these bits.
  void refineOn(const State &S, const Bits &x, const Bits &y) {
    std::set<u32> syms;
    for (auto *bs : {&x, &y})
      for (auto &b : *bs) {
        if (b.k != BREF)
          continue;
        const Form &f = g_forms[b.f];
        syms.insert(f.sym);
      }
    // (1) sign-like bits
    for (auto *bs : {&x, &y})
      for (auto &b : *bs) {
        if (b.k != BREF)
          continue;
        const Form &f = g_forms[b.f];
        if (b.i + 1u == S.syms[f.sym].w || b.i == 63)
          splitOnBit(S, b, 3);
      }
    // (2) small inputs
    for (u32 s : syms) {
      const Sym &y2 = S.syms[s];
      if (card(y2) <= 256)
        singletons(S, s);
    }
  }
  [[noreturn]] void singletons(const State &S, u32 s) {
    const Sym &y = S.syms[s];
    std::vector<std::pair<u64, u64>> pc;
    for (u64 v = y.lo;; v++) {
      if ((v & y.km) == y.kv)
        pc.push_back({v, v});
      if (v == y.hi)
        break;
    }
    throw Split{s, pc};
  }
  void splitOnBit(const State &S, const Bit &b, unsigned maxWin) {
    if (b.k != BREF)
      return;
    const Form &f = g_forms[b.f];
    const Sym &y = S.syms[f.sym];
    i128 lo = (i128)f.a * y.lo + f.c, hi = (i128)f.a * y.hi + f.c;
    i128 q0 = lo >> b.i, q1 = hi >> b.i;
    if (q1 - q0 <= (i128)maxWin) {
      try {
        window(S, f.sym, f.a, f.c, b.i);
      } catch (int) {
      }
    }
  }

  static bool anyUndef(const Bits &b) {
    for (auto &x : b)
      if (x.k == BUNDEF)
        return true;
    return false;
  }
  static bool anyTop(const Bits &b) {
    for (auto &x : b)
      if (x.k == BTOP)
        return true;
    return false;
  }

  // unsigned bounds given by the bits alone
  static void ubounds(const Bits &b, u64 &lo, u64 &hi) {
    lo = hi = 0;
    for (unsigned i = 0; i < b.size() && i < 64; i++) {
      if (b[i].k == B1)
        lo |= 1ull << i;
      if (b[i].k != B0)
        hi |= 1ull << i;
    }
  }

  Val bitwise(const State &S, unsigned op, const Val &x, const Val &y) {
    // the low bit of a pointer to member function tells virtual functions; functions are aligned
    if (op == Instruction::And && x.k == Val::PTR && x.obj && !x.und && S.mem[x.obj]->k == Obj::FUNC && y.k == Val::INT && y.isc && y.c == 1)
      return vconst(y.w, (u64)x.off & 1);
    if (x.k != Val::INT || y.k != Val::INT)
      return vfill(x.w ? x.w : 64, BTOP);
    if (x.isc && y.isc)
      return vconst(x.w, op == Instruction::And ? x.c & y.c : op == Instruction::Or ? x.c | y.c : x.c ^ y.c);
    Bits a = bitsOf(S, x), b = bitsOf(S, y), r(a.size());
    bool lossy = false;
    for (unsigned i = 0; i < a.size(); i++) {
      Bit p = a[i], q = b[i];
      if (q.isc())
        std::swap(p, q);
      if (op == Instruction::And) {
        if (p.k == B0)
          r[i] = p;
        else if (p.k == B1)
          r[i] = q;
        else if (p == q && p.k != BTOP)
          r[i] = p;
        else if (p.k == BREF && notb(p) == q)
          r[i] = cbit(0);
        else
          r[i] = kbit(p.k == BUNDEF || q.k == BUNDEF ? BUNDEF : BTOP), lossy |= p.k == BREF && q.k == BREF;
      } else if (op == Instruction::Or) {
        if (p.k == B1)
          r[i] = p;
        else if (p.k == B0)
          r[i] = q;
        else if (p == q && p.k != BTOP)
          r[i] = p;
        else if (p.k == BREF && notb(p) == q)
          r[i] = cbit(1);
        else
          r[i] = kbit(p.k == BUNDEF || q.k == BUNDEF ? BUNDEF : BTOP), lossy |= p.k == BREF && q.k == BREF;
      } else {
        if (p.k == B0)
          r[i] = q;
        else if (p.k == B1)
          r[i] = q.k == BREF || q.isc() ? notb(q) : q;
        else if (p.k == BREF && p == q)
          r[i] = cbit(0);
        else if (p.k == BREF && notb(p) == q)
          r[i] = cbit(1);
        else
          r[i] = kbit(p.k == BUNDEF || q.k == BUNDEF ? BUNDEF : BTOP), lossy |= p.k == BREF && q.k == BREF;
      }
    }
    if (lossy)
      refineOn(S, a, b);
    return vbits(r);
  }

  static i128 smin(unsigned n) { return -((i128)1 << (n - 1)); }
  static i128 smax(unsigned n) { return ((i128)1 << (n - 1)) - 1; }

  // signed affine reading of V on the cell (splits when the sign is not uniform)
  bool saffine(const State &S, const Bits &b, Aff &r) {
    Bits c = b;
    unsigned n = b.size();
    if (c[n - 1].k == BREF)
      splitOnBit(S, c[n - 1], 8);
    if (!affine(S, c, r, false))
      return false;
    if (c[n - 1].k == B1)
      r.C -= (i128)1 << n;
    else if (c[n - 1].k != B0)
      return false;
    return true;
  }

  Val arith(const State &S, const BinaryOperator *I, unsigned op, const Val &x, const Val &y, bool nsw) {
    unsigned n = x.w;
    if (I && S.wrapAt == I)
      nsw = false; // the overflow has been reported; go on with the wrapped result
    // pointers held in integers
    if (x.k == Val::PTR || y.k == Val::PTR || x.k == Val::PTRTOP || y.k == Val::PTRTOP) {
      if (op == Instruction::Sub && x.k == Val::PTR && y.k == Val::PTR && x.obj == y.obj)
        return vconst(64, (u64)(x.off - y.off));
      if (op == Instruction::Add && x.k == Val::PTR && y.k == Val::INT && y.isc)
        return vptr(x, x.off + (i64)y.c);
      if (op == Instruction::Add && y.k == Val::PTR && x.k == Val::INT && x.isc)
        return vptr(y, y.off + (i64)x.c);
      if (op == Instruction::Sub && x.k == Val::PTR && y.k == Val::INT && y.isc)
        return vptr(x, x.off - (i64)y.c);
      return vfill(n ? n : 64, BTOP);
    }
    if (x.isc && y.isc && n <= 64) {
      u64 r = op == Instruction::Add ? x.c + y.c : op == Instruction::Sub ? x.c - y.c : x.c * y.c;
      if (nsw) {
        i128 sx = (i128)(i64)(x.c << (64 - n)) >> (64 - n), sy = (i128)(i64)(y.c << (64 - n)) >> (64 - n);
        i128 rr = op == Instruction::Add ? sx + sy : op == Instruction::Sub ? sx - sy : sx * sy;
        if (rr < smin(n) || rr > smax(n))
          throw Alarm{"signed-overflow", "signed integer overflow in " + std::to_string(n) + "-bit arithmetic"};
      }
      return vconst(n, r);
    }
    Bits a = bitsOf(S, x), b = bitsOf(S, y);
    if (anyUndef(a) || anyUndef(b)) {
      // low bits below the first indeterminate one are determined
      Bits r(n, kbit(BUNDEF));
      return vbits(r);
    }
    Aff fa, fb;
    if (nsw && n <= 64) {
      Aff sa, sb;
      if (saffine(S, a, sa) && saffine(S, b, sb) && (sa.isconst || sb.isconst || sa.sym == sb.sym) &&
          (op != Instruction::Mul || sa.isconst || sb.isconst)) {
        u32 sym = sa.isconst ? sb.sym : sa.sym;
        i128 A, C;
        if (op == Instruction::Add)
          A = sa.A + sb.A, C = sa.C + sb.C;
        else if (op == Instruction::Sub)
          A = sa.A - sb.A, C = sa.C - sb.C;
        else if (sa.isconst)
          A = sa.C * sb.A, C = sa.C * sb.C;
        else
          A = sb.C * sa.A, C = sb.C * sa.C;
        i128 v0 = C, v1 = C;
        if (!(sa.isconst && sb.isconst)) {
          v0 = A * (i128)S.syms[sym].lo + C;
          v1 = A * (i128)S.syms[sym].hi + C;
        }
        bool o0 = v0 < smin(n) || v0 > smax(n), o1 = v1 < smin(n) || v1 > smax(n);
        if (o0 && o1 && (v0 < 0) == (v1 < 0))
          throw Alarm{"signed-overflow", "signed integer overflow in " + std::to_string(n) + "-bit arithmetic"};
        if (o0 || o1) {
          try {
            window(S, sym, A, C + ((i128)1 << (n - 1)), n);
          } catch (int) {
          }
        }
        Aff r;
        r.isconst = sa.isconst && sb.isconst;
        r.sym = sym;
        r.A = A;
        r.C = C;
        if (A == 0)
          r.isconst = true;
        return fromAff(S, r, n);
      }
    }
    bool ok = affine(S, a, fa, true) && affine(S, b, fb, true);
    if (ok && (fa.isconst || fb.isconst || fa.sym == fb.sym) && (op != Instruction::Mul || fa.isconst || fb.isconst)) {
      Aff r;
      r.isconst = fa.isconst && fb.isconst;
      r.sym = fa.isconst ? fb.sym : fa.sym;
      u64 aA = (u64)fa.A, aC = (u64)fa.C, bA = (u64)fb.A, bC = (u64)fb.C, RA, RC;
      if (op == Instruction::Add)
        RA = aA + bA, RC = aC + bC;
      else if (op == Instruction::Sub)
        RA = aA - bA, RC = aC - bC;
      else if (fa.isconst)
        RA = aC * bA, RC = aC * bC;
      else
        RA = bC * aA, RC = bC * aC;
      r.A = RA;
      r.C = RC;
      if (r.isconst)
        return vconst(n, RC);
      Bits o(n);
      for (unsigned j = 0; j < n; j++)
        o[j] = mkref(S, r.sym, RA, RC, j, false);
      return vbits(o);
    }
    if (op == Instruction::Mul) {
      // power of two
      for (int sw = 0; sw < 2; sw++) {
        const Val &k = sw ? x : y;
        const Bits &o = sw ? b : a;
        if (k.isc && k.c && !(k.c & (k.c - 1))) {
          unsigned s = __builtin_ctzll(k.c);
          Bits r(n, cbit(0));
          for (unsigned j = s; j < n; j++)
            r[j] = o[j - s];
          return vbits(r);
        }
        if (k.isc && k.c == 0)
          return vconst(n, 0);
      }
      refineOn(S, a, b);
      return vfill(n, BTOP);
    }
    // ripple carry; subtraction is a + ~b + 1
    if (op == Instruction::Add || op == Instruction::Sub) {
      Bits r(n);
      bool sub = op == Instruction::Sub;
      Bit cy = cbit(sub);
      bool lossy = false;
      for (unsigned j = 0; j < n; j++) {
        Bit p = a[j], q = sub ? notb(b[j]) : b[j];
        Bit v[3] = {p, q, cy};
        int nc = 0, ones = 0;
        std::vector<Bit> un;
        for (auto &t : v)
          if (t.isc())
            nc++, ones += t.k == B1;
          else
            un.push_back(t);
        if (un.empty()) {
          r[j] = cbit(ones & 1);
          cy = cbit(ones >= 2);
        } else if (un.size() == 1) {
          r[j] = (ones & 1) ? notb(un[0]) : un[0];
          if (un[0].k == BTOP)
            r[j] = kbit(BTOP);
          cy = ones == 0 ? cbit(0) : ones == 2 ? cbit(1) : un[0];
        } else if (un.size() == 2 && un[0].k == BREF && un[0] == un[1]) {
          r[j] = cbit(ones & 1);
          cy = un[0];
        } else if (un.size() == 2 && un[0].k == BREF && notb(un[0]) == un[1]) {
          r[j] = cbit((ones & 1) ^ 1);
          cy = cbit(ones);
        } else {
          r[j] = kbit(BTOP);
          cy = kbit(BTOP);
          lossy = true;
        }
      }
      if (lossy)
        refineOn(S, a, b);
      return vbits(r);
    }
    return vfill(n, BTOP);
  }

  Val divide(State &S, const BinaryOperator *I, unsigned op, const Val &x0, const Val &y0) {
    unsigned n = x0.w;
    if (x0.k != Val::INT || y0.k != Val::INT || n > 64)
      return vfill(n, BTOP);
    Val x = renorm(S, x0), y = renorm(S, y0);
    if (y.isc && y.c == 0)
      throw Alarm{"division-by-zero", "division by zero"};
    if (x.isc && y.isc) {
      i64 sx = (i64)(x.c << (64 - n)) >> (64 - n), sy = (i64)(y.c << (64 - n)) >> (64 - n);
      switch (op) {
      case Instruction::UDiv: return vconst(n, x.c / y.c);
      case Instruction::URem: return vconst(n, x.c % y.c);
      case Instruction::SDiv:
        if (sy == -1 && sx == (i64)smin(n))
          throw Alarm{"signed-overflow", "signed integer overflow in division"};
        return vconst(n, (u64)(sx / sy));
      default: return vconst(n, sy == -1 ? 0 : (u64)(sx % sy));
      }
    }
    Bits a = bitsOf(S, x), b = bitsOf(S, y);
    if (y.isc && !(y.c & (y.c - 1)) && (op == Instruction::UDiv || op == Instruction::URem)) {
      unsigned s = __builtin_ctzll(y.c);
      Bits r(n, cbit(0));
      for (unsigned j = 0; j < n; j++)
        if (op == Instruction::UDiv) {
          if (j + s < n)
            r[j] = a[j + s];
        } else if (j < s)
          r[j] = a[j];
      return vbits(r);
    }
    if (y.isc && (op == Instruction::SDiv || op == Instruction::SRem) && a[n - 1].k == BREF)
      splitOnBit(S, a[n - 1], 8);
    if (y.isc && (op == Instruction::SDiv || op == Instruction::SRem) && a[n - 1].k == B0 && !(y.c >> (n - 1)) &&
        !(y.c & (y.c - 1))) {
      unsigned s = __builtin_ctzll(y.c);
      Bits r(n, cbit(0));
      for (unsigned j = 0; j < n; j++)
        if (op == Instruction::SDiv) {
          if (j + s < n)
            r[j] = a[j + s];
        } else if (j < s)
          r[j] = a[j];
      return vbits(r);
    }
    // a quotient by a constant is constant on a window
    if (y.isc && op == Instruction::UDiv) {
      u64 lo, hi;
      ubounds(a, lo, hi);
      if (lo / y.c == hi / y.c)
        return vconst(n, lo / y.c);
    }
    if (y.isc && op == Instruction::URem) {
      u64 lo, hi;
      ubounds(a, lo, hi);
      if (hi < y.c)
        return x;
    }
    refineOn(S, a, b);
    return vfill(n, BTOP);
  }

  // ---- comparisons: 0 false, 1 true, 2 unknown; may throw Split; `tr` receives known bits for the true branch
  static bool evalPred(unsigned p, u64 a, u64 b, unsigned n) {
    i64 sa = (i64)(a << (64 - n)) >> (64 - n), sb = (i64)(b << (64 - n)) >> (64 - n);
    switch (p) {
    case CmpInst::ICMP_EQ: return a == b;
    case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_UGT: return a > b;
    case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_ULT: return a < b;
    case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_SGT: return sa > sb;
    case CmpInst::ICMP_SGE: return sa >= sb;
    case CmpInst::ICMP_SLT: return sa < sb;
    default: return sa <= sb;
    }
  }

  struct CmpOut {
    int res; // 0, 1, 2
    bool haveTrue = false; // for eq: refinement of the equal branch
    std::vector<std::pair<u32, std::pair<u64, u64>>> known;
  };

  bool inStd(State &S) {
    StringRef n = top(S).f->getName();
    return n.starts_with("_ZNSt") || n.starts_with("_ZNKSt") || n.starts_with("_ZSt");
  }
  unsigned rank(State &S, u32 o) {
    switch (S.mem[o]->k) {
    case Obj::FUNC: return 0;
    case Obj::GLOBAL: return 1;
    case Obj::HEAP: return 2;
    case Obj::EXC: return 3;
    default: return 4;
    }
  }
  CmpOut compare(State &S, unsigned pred, const Val &x, const Val &y) {
    CmpOut o;
    unsigned n = x.w;
    if (x.k == Val::PTRTOP || y.k == Val::PTRTOP) {
      o.res = 2;
      return o;
    }
    if (x.k == Val::PTR || y.k == Val::PTR) {
      if ((x.k == Val::PTR && x.und) || (y.k == Val::PTR && y.und))
        throw Alarm{"indeterminate-value", "comparison of an indeterminate pointer"};
      Val p = x, q = y;
      if (p.k == Val::INT && p.isc && p.c == 0)
        p = vptr(0, 0);
      if (q.k == Val::INT && q.isc && q.c == 0)
        q = vptr(0, 0);
      if (p.k != Val::PTR || q.k != Val::PTR) {
        o.res = 2;
        return o;
      }
      if (p.obj == q.obj) {
        switch (pred) {
        case CmpInst::ICMP_EQ: o.res = p.off == q.off; break;
        case CmpInst::ICMP_NE: o.res = p.off != q.off; break;
        case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: o.res = p.off > q.off; break;
        case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: o.res = p.off >= q.off; break;
        case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: o.res = p.off < q.off; break;
        default: o.res = p.off <= q.off;
        }
        return o;
      }
      if (pred == CmpInst::ICMP_EQ)
        o.res = 0;
      else if (pred == CmpInst::ICMP_NE)
        o.res = 1;
      else if (p.obj == 0 && (pred == CmpInst::ICMP_ULT || pred == CmpInst::ICMP_ULE))
        o.res = 1;
      else if (q.obj == 0 && (pred == CmpInst::ICMP_UGT || pred == CmpInst::ICMP_UGE))
        o.res = 1;
      else if (p.obj && q.obj && inStd(S)) {
        // The standard library orders unrelated pointers to find out whether ranges overlap: any total order of the
        // objects will do
        bool less = std::make_pair(rank(S, p.obj), p.obj) < std::make_pair(rank(S, q.obj), q.obj);
        o.res = less == (pred == CmpInst::ICMP_ULT || pred == CmpInst::ICMP_ULE || pred == CmpInst::ICMP_SLT || pred == CmpInst::ICMP_SLE);
      } else
        o.res = 2;
      return o;
    }
    if (x.isc && y.isc) {
      o.res = evalPred(pred, x.c, y.c, n);
      return o;
    }
    Bits a = bitsOf(S, x), b = bitsOf(S, y);
    bool ne = pred == CmpInst::ICMP_NE;
    if (pred == CmpInst::ICMP_EQ || ne) {
      unsigned ndiff = 0, last = 0;
      bool undef = false, top = false;
      for (unsigned i = 0; i < n; i++) {
        if (a[i].k == BUNDEF || b[i].k == BUNDEF) {
          undef = true;
          continue;
        }
        if (a[i].k == BTOP || b[i].k == BTOP) {
          top = true;
          continue;
        }
        if (a[i] == b[i])
          continue;
        if (notb(a[i]) == b[i]) {
          o.res = ne;
          return o;
        }
        ndiff++;
        last = i;
      }
      if (undef)
        throw Alarm{"indeterminate-value", "the result of a comparison depends on memory that was never written"};
      if (!top && ndiff == 0) {
        o.res = !ne;
        return o;
      }
      if (!top) {
        Aff fa, fb;
        bool ok = false;
        ok = affine(S, a, fa, true) && affine(S, b, fb, true);
        if (ok && (fa.isconst || fb.isconst || fa.sym == fb.sym)) {
          u32 sym = fa.isconst ? fb.sym : fa.sym;
          u64 A = ((u64)fa.A - (u64)fb.A) & mask64(n), C = ((u64)fb.C - (u64)fa.C) & mask64(n); // A X == C mod 2^n
          const Sym &s = S.syms[sym];
          if (A == 0) {
            o.res = (C == 0) ^ ne;
            return o;
          }
          unsigned t = __builtin_ctzll(A);
          if (C & mask64(t)) {
            o.res = ne;
            return o;
          }
          unsigned nn = n - t;
          u64 A1 = A >> t, C1 = C >> t, inv = A1;
          for (int k = 0; k < 6; k++)
            inv *= 2 - A1 * inv;
          u64 x0 = (inv * C1) & mask64(nn);
          // solutions x0 + k 2^nn in [lo,hi]
          std::vector<u64> sol;
          bool many = false;
          if (nn >= 64) {
            if (x0 >= s.lo && x0 <= s.hi)
              sol.push_back(x0);
          } else {
            u128 step = (u128)1 << nn;
            u128 first = x0;
            if (first < s.lo) {
              u128 k = ((u128)s.lo - first + step - 1) / step;
              first += k * step;
            }
            for (u128 v = first; v <= s.hi; v += step) {
              sol.push_back((u64)v);
              if (sol.size() > 16) {
                many = true;
                break;
              }
            }
          }
          if (!many) {
            std::vector<u64> s2;
            for (u64 v : sol)
              if ((v & s.km) == s.kv)
                s2.push_back(v);
            if (s2.empty()) {
              o.res = ne;
              return o;
            }
            std::vector<std::pair<u64, u64>> pc;
            u64 start = s.lo;
            bool full = false;
            for (u64 v : s2) {
              if (v > start)
                pc.push_back({start, v - 1});
              pc.push_back({v, v});
              if (v == s.hi) {
                full = true;
                break;
              }
              start = v + 1;
            }
            if (!full)
              pc.push_back({start, s.hi});
            if (pc.size() > 1)
              throw Split{sym, pc};
            o.res = !ne;
            return o;
          }
        }
        if (ndiff == 1) {
          const Bit &r = a[last].k == BREF ? a[last] : b[last];
          const Bit &q = a[last].k == BREF ? b[last] : a[last];
          if (q.isc())
            splitBit(S, r);
        }
        // equality with constants on plain bits of inputs
        std::map<u32, std::pair<u64, u64>> kn;
        bool plain = true;
        for (unsigned i = 0; i < n && plain; i++) {
          if (a[i] == b[i])
            continue;
          const Bit &r = a[i].k == BREF ? a[i] : b[i];
          const Bit &q = a[i].k == BREF ? b[i] : a[i];
          if (!q.isc()) {
            plain = false;
            break;
          }
          const Form &f = g_forms[r.f];
          if (f.a != 1 || f.c != 0) {
            plain = false;
            break;
          }
          auto &e = kn[f.sym];
          bool bv = (q.k == B1) ^ r.neg;
          if ((e.first >> r.i & 1) && ((e.second >> r.i & 1) != bv)) {
            o.res = ne;
            return o;
          }
          e.first |= 1ull << r.i;
          if (bv)
            e.second |= 1ull << r.i;
        }
        if (plain) {
          o.haveTrue = true;
          for (auto &e : kn)
            o.known.push_back({e.first, e.second});
        } else
          refineOn(S, a, b);
      }
      o.res = 2;
      return o;
    }
    if (anyUndef(a) || anyUndef(b))
      throw Alarm{"indeterminate-value", "the result of a comparison depends on memory that was never written"};
    bool sg = CmpInst::isSigned((CmpInst::Predicate)pred);
    if (sg) { // bias
      a[n - 1] = notb(a[n - 1]);
      b[n - 1] = notb(b[n - 1]);
      if (a[n - 1].k == BTOP || b[n - 1].k == BTOP) {
        o.res = 2;
        return o;
      }
    }
    // V1 < V2 after normalisation
    bool swap = false, strict = false;
    switch (pred) {
    case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: swap = true; strict = true; break;
    case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: swap = true; break;
    case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: strict = true; break;
    default: break;
    }
    Bits &l = swap ? b : a, &r = swap ? a : b;
    u64 l0, l1, r0, r1;
    ubounds(l, l0, l1);
    ubounds(r, r0, r1);
    if (strict ? l1 < r0 : l1 <= r0) {
      o.res = 1;
      return o;
    }
    if (strict ? l0 >= r1 : l0 > r1) {
      o.res = 0;
      return o;
    }
    if (anyTop(a) || anyTop(b)) {
      o.res = 2;
      return o;
    }
    Aff fl, fr;
    if (affine(S, l, fl, false) && affine(S, r, fr, false) && (fl.isconst || fr.isconst || fl.sym == fr.sym)) {
      u32 sym = fl.isconst ? fr.sym : fl.sym;
      const Sym &s = S.syms[sym];
      // D = R - L - (strict?1:0) >= 0
      i128 A = fr.A - fl.A, C = fr.C - fl.C - (strict ? 1 : 0);
      i128 d0 = A * (i128)s.lo + C, d1 = A * (i128)s.hi + C;
      if (d0 >= 0 && d1 >= 0) {
        o.res = 1;
        return o;
      }
      if (d0 < 0 && d1 < 0) {
        o.res = 0;
        return o;
      }
      if (A > 0) { // first X with A X + C >= 0
        u64 x0 = (u64)(-fdiv(C, A));
        throw Split{sym, {{s.lo, x0 - 1}, {x0, s.hi}}};
      } else {
        u64 x0 = (u64)fdiv(C, -A); // last X with D >= 0
        throw Split{sym, {{s.lo, x0}, {x0 + 1, s.hi}}};
      }
    }
    // concatenation of several inputs compared with a constant: refine on the most significant one
    for (int j = n - 1; j >= 0; j--) {
      const Bit &p = l[j].k == BREF ? l[j] : r[j];
      if (l[j] == r[j])
        continue;
      if (p.k != BREF)
        continue;
      u32 sym = g_forms[p.f].sym;
      int k = j;
      while (k >= 0) {
        const Bit &q = l[k].k == BREF ? l[k] : r[k];
        if (q.k == BREF && g_forms[q.f].sym != sym)
          break;
        k--;
      }
      Bits lt(l.begin() + k + 1, l.end()), rt(r.begin() + k + 1, r.end());
      Aff al, ar;
      if (affine(S, lt, al, false) && affine(S, rt, ar, false) && (al.isconst != ar.isconst)) {
        u64 cst = (u64)(al.isconst ? al.C : ar.C);
        Aff &v = al.isconst ? ar : al;
        const Sym &s = S.syms[sym];
        i128 v0 = v.A * (i128)s.lo + v.C, v1 = v.A * (i128)s.hi + v.C;
        if (v.A > 0 && v0 != v1) {
          // pieces: value < cst, == cst, > cst
          i128 xl = fdiv((i128)cst - 1 - v.C, v.A), xe = fdiv((i128)cst - v.C, v.A);
          std::vector<std::pair<u64, u64>> pc;
          auto add = [&](i128 p0, i128 p1) {
            if (p0 < (i128)s.lo)
              p0 = s.lo;
            if (p1 > (i128)s.hi)
              p1 = s.hi;
            if (p0 <= p1)
              pc.push_back({(u64)p0, (u64)p1});
          };
          add(s.lo, xl);
          add(xl + 1, xe);
          add(xe + 1, s.hi);
          if (pc.size() > 1)
            throw Split{sym, pc};
          o.res = (v0 < (i128)cst) == (&v == &al); // the high order bits decide
          return o;
        }
      }
      break;
    }
    refineOn(S, a, b);
    o.res = 2;
    return o;
  }

  void splitBit(State &S, const Bit &r) {
    splitOnBit(S, r, 4);
    const Form &f = g_forms[r.f];
    if (f.a == 1 && f.c == 0)
      throw SplitBit{f.sym, r.i};
    // low bit of a*X+c
    if (r.i == 0)
      throw SplitBit{f.sym, 0};
    if (card(S.syms[f.sym]) <= 256)
      singletons(S, f.sym);
  }

  bool applyKnown(State &S, u32 sym, u64 m, u64 v) {
    Sym &s = S.syms[sym];
    if ((s.kv ^ v) & s.km & m)
      return false;
    s.km |= m;
    s.kv |= v & m;
    return tighten(s);
  }
  bool tighten(Sym &s) {
    if (s.lo > s.hi)
      return false;
    // smallest value >= lo and largest <= hi that agree with the known bits
    u64 full = mask64(s.w);
    if (s.km == 0)
      return true;
    auto up = [&](u64 lo, u64 &res) {
      // smallest x >= lo with (x & km) == kv
      for (int tries = 0; tries < 130; tries++) {
        if ((lo & s.km) == s.kv) {
          res = lo;
          return lo <= full;
        }
        // find highest mismatching known bit
        u64 d = (lo ^ s.kv) & s.km;
        int h = 63 - __builtin_clzll(d);
        if (s.kv >> h & 1) { // need 1, have 0: set it, clear below
          lo = (lo | (1ull << h)) & ~mask64(h);
          lo |= s.kv & mask64(h);
        } else { // need 0, have 1: carry into a higher unknown zero bit
          u64 free = ~s.km & ~lo & ~mask64(h + 1);
          free &= full;
          if (!free)
            return false;
          int g = __builtin_ctzll(free);
          lo = (lo | (1ull << g)) & ~mask64(g);
          lo |= s.kv & mask64(g);
        }
      }
      return false;
    };
    u64 r;
    if (!up(s.lo, r))
      return false;
    s.lo = r;
    // largest: mirror through complement
    Sym m = s;
    u64 hi = s.hi;
    for (int tries = 0;; tries++) {
      if ((hi & s.km) == s.kv)
        break;
      if (tries > 130)
        return s.lo <= s.hi;
      u64 d = (hi ^ s.kv) & s.km;
      int h = 63 - __builtin_clzll(d);
      if (!(s.kv >> h & 1)) { // need 0 have 1: clear, fill ones below
        hi = (hi & ~(1ull << h));
        hi |= mask64(h) & ~s.km;
        hi = (hi & ~(mask64(h) & s.km)) | (s.kv & mask64(h));
      } else { // need 1 have 0: borrow
        u64 one = hi & ~s.km & ~mask64(h + 1);
        if (!one)
          return false;
        int g = __builtin_ctzll(one);
        hi = hi & ~(1ull << g);
        hi |= mask64(g) & ~s.km;
        hi = (hi & ~(mask64(g) & s.km)) | (s.kv & mask64(g));
      }
    }
    s.hi = hi;
    (void)m;
    return s.lo <= s.hi;
  }

  // ---- concretisation of a cell, used to describe a refutation and to make sure that the cell is not empty

  static bool evalBits(const Bits &b, const std::vector<u64> &X, u64 &out) {
    out = 0;
    for (unsigned i = 0; i < b.size() && i < 64; i++) {
      bool v;
      if (b[i].k == B0)
        v = false;
      else if (b[i].k == B1)
        v = true;
      else if (b[i].k == BREF) {
        const Form &f = g_forms[b[i].f];
        v = ((f.a * X[f.sym] + f.c) >> b[i].i & 1) ^ b[i].neg;
      } else
        return false;
      if (v)
        out |= 1ull << i;
    }
    return true;
  }
  template<typename Fn>
  bool findPoint(State &S, Fn ok, std::vector<u64> &X) {
    u64 rng = 0x9E3779B97F4A7C15ull;
    auto rnd = [&]() {
      rng ^= rng << 13;
      rng ^= rng >> 7;
      rng ^= rng << 17;
      return rng;
    };
    for (int t = 0; t < 400; t++) {
      X.assign(S.syms.size(), 0);
      bool good = true;
      for (unsigned i = 0; i < S.syms.size(); i++) {
        Sym s = S.syms[i];
        u64 v;
        if (t == 0)
          v = s.lo;
        else if (t == 1)
          v = s.hi;
        else {
          u64 r = rnd();
          u64 n = card(s);
          v = n == ~0ull ? r : s.lo + r % n;
        }
        v = (v & ~s.km) | s.kv;
        if (v < s.lo || v > s.hi) {
          v = t & 1 ? s.hi : s.lo;
          if ((v & s.km) != s.kv) {
            good = false;
            break;
          }
        }
        X[i] = v;
      }
      if (!good)
        continue;
      for (auto &f : S.facts) {
        u64 p, q;
        if (!evalBits(f.a, X, p) || !evalBits(f.b, X, q) || evalPred(f.pred, p, q, f.a.size()) != f.res) {
          good = false;
          break;
        }
      }
      if (good && ok(X))
        return true;
    }
    return false;
  }

  // ---- memory

  std::string objName(const State &S, u32 id) {
    if (id == 0)
      return "null";
    const Obj &o = *S.mem[id];
    std::string n;
    switch (o.k) {
    case Obj::STACK: n = "local object"; break;
    case Obj::HEAP: n = "heap object"; break;
    case Obj::GLOBAL: n = "global object"; break;
    case Obj::FUNC: n = "function"; break;
    default: n = "exception object";
    }
    if (o.site && o.site->hasName())
      n += " `" + demang(o.site->getName()) + "`";
    n += " of " + std::to_string(o.b.size()) + " byte(s)";
    return n;
  }

  u32 newObj(State &S, Obj::K k, u64 size, const Value *site) {
    if (size > (1u << 22))
      throw Unsupported{"object too large"};
    auto o = std::make_shared<Obj>();
    o->k = k;
    o->b.resize(size);
    o->site = site;
    S.mem.push_back(o);
    return S.mem.size() - 1;
  }
  Obj &mut(State &S, u32 id) {
    return S.mem.mut(id);
  }
  void access(const State &S, u32 obj, i64 off, u64 n, bool write, const char *what) {
    if (n == 0)
      return;
    if (obj == 0)
      throw Alarm{"null-dereference", std::string(what) + " through a null pointer"};
    const Obj &o = *S.mem[obj];
    if (!o.live)
      throw Alarm{o.dead_why == 2 ? "use-after-free" : "use-after-scope",
                  std::string(what) + " of " + objName(S, obj) + " after the end of its life time"};
    if (o.k == Obj::FUNC)
      throw Alarm{"bad-access", std::string(what) + " of a function"};
    if (off < 0 || (u64)off + n > o.b.size())
      throw Alarm{"out-of-bounds", std::string(what) + " of " + std::to_string(n) + " byte(s) at offset " +
                                       std::to_string(off) + " of " + objName(S, obj)};
    if (write && o.ro)
      throw Alarm{"write-to-constant", std::string(what) + " of constant " + objName(S, obj)};
    if (S.ctx && obj < S.ctxMax)
      touch(const_cast<State &>(S), obj, off, n, write);
  }

  const Instruction *current = nullptr;

  //! The value is computed for nothing, in the frame of that rank
  bool unused(State &S, const Instruction *I, unsigned frame, unsigned depth = 0) {
    if (depth > 12)
      return false;
    for (auto *U : I->users()) {
      auto *J = dyn_cast<Instruction>(U);
      if (!J)
        return false;
      if (isa<DbgInfoIntrinsic>(J))
        continue;
      if (auto *St = dyn_cast<StoreInst>(J)) {
        auto *A = dyn_cast<AllocaInst>(St->getPointerOperand());
        if (!A || St->getValueOperand() != I || St->isVolatile())
          return false;
        for (auto *V : A->users())
          if (auto *L = dyn_cast<LoadInst>(V)) {
            if (L->isVolatile() || !unused(S, L, frame, depth + 1))
              return false;
          } else if (!(isa<StoreInst>(V) && cast<StoreInst>(V)->getPointerOperand() == A) && !isa<DbgInfoIntrinsic>(V) &&
                     !(isa<IntrinsicInst>(V) && cast<IntrinsicInst>(V)->isLifetimeStartOrEnd()))
            return false;
        continue;
      }
      if (isa<ReturnInst>(J)) {
        if (frame == 0)
          return false;
        auto &c = *S.st[frame - 1];
        if (c.it == c.bb->begin() || !isa<CallInst>(&*std::prev(c.it)) || isWitness(c.f) ||
            !unused(S, &*std::prev(c.it), frame - 1, depth + 1))
          return false;
        continue;
      }
      if (!(isa<CastInst>(J) || isa<CmpInst>(J) || isa<BinaryOperator>(J) || isa<GetElementPtrInst>(J)) || !unused(S, J, frame, depth + 1))
        return false;
    }
    return true;
  }
  void touch(State &S, u32 obj, u64 off, u64 n, bool write) {
    if (S.st.empty())
      return;
    if (isWitness(S.st.back()->f))
      return;
    const Instruction *I = current;
    if (auto *L = dyn_cast<LoadInst>(I); L && !write && !L->isVolatile() && unused(S, L, S.st.size() - 1))
      return;
    for (u64 k = off; k < off + n; k++) {
      auto &t = S.touched[{obj, k}];
      auto *&slot = write ? t.w[S.ctx - 1] : t.r[S.ctx - 1];
      if (!slot)
        slot = I;
    }
  }

  void access(const State &S, const Val &p, u64 n, bool write, const char *what) {
    access(S, p.obj, p.off, n, write, what);
    if (n && p.lo != p.hi && (p.off < p.lo || p.off + (i64)n > p.hi))
      throw Alarm{"out-of-bounds", std::string(what) + " of " + std::to_string(n) + " byte(s) at offset " +
                                       std::to_string(p.off - p.lo) + " of an array of " + std::to_string(p.hi - p.lo) +
                                       " byte(s) within " + objName(S, p.obj)};
  }
  //! Alignment which the object is sure to have
  u64 alignOf(const Obj &o) {
    if (o.k == Obj::HEAP || o.k == Obj::EXC || !o.site)
      return 16;
    if (auto *A = dyn_cast<AllocaInst>(o.site))
      return A->getAlign().value();
    if (auto *G = dyn_cast<GlobalVariable>(o.site))
      return G->getAlign() ? G->getAlign()->value() : DL.getABITypeAlign(G->getValueType()).value();
    if (auto *A = dyn_cast<Argument>(o.site); A && A->hasByValAttr())
      return std::max<u64>(A->getParamAlign() ? A->getParamAlign()->value() : 1, DL.getABITypeAlign(A->getParamByValType()).value());
    return 16;
  }
  void aligned(const State &S, const Val &p, u64 n, const char *what) {
    if (n < 2)
      return;
    u64 a = alignOf(*S.mem[p.obj]);
    if ((p.off & (i64)(std::min(a, n) - 1)) || a < n)
      throw Alarm{"misaligned", std::string(what) + " of an object which requires an alignment of " + std::to_string(n) + " at offset " + std::to_string(p.off) +
                                    " of " + objName(S, p.obj) + ", whose alignment is " + std::to_string(a)};
  }
  static bool isByteArray(Type *T) {
    auto *A = dyn_cast<ArrayType>(T);
    return A && A->getElementType()->isIntegerTy(8) && A->getNumElements();
  }
  void byteArrays(Type *T, u64 at, std::vector<std::pair<u64, u64>> &out) {
    if (isByteArray(T)) {
      out.push_back({at, T->getArrayNumElements()});
      return;
    }
    if (auto *ST = dyn_cast<StructType>(T)) {
      auto *L = DL.getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); i++)
        byteArrays(ST->getElementType(i), at + (u64)L->getElementOffset(i), out);
    } else if (auto *AT = dyn_cast<ArrayType>(T))
      for (u64 i = 0; i < AT->getNumElements(); i++)
        byteArrays(AT->getElementType(), at + i * DL.getTypeAllocSize(AT->getElementType()), out);
  }

  Bits byteBits(const State &S, const MByte &m) {
    Bits r(8);
    for (int i = 0; i < 8; i++)
      switch (m.k) {
      case MByte::UNDEF: r[i] = kbit(BUNDEF); break;
      case MByte::CONST: r[i] = cbit(m.c >> i & 1); break;
      case MByte::BITS: r[i] = norm(S, g_b8[m.r].b[i]); break;
      default: r[i] = kbit(BTOP);
      }
    return r;
  }
  MByte mkByte(const Bit *b) {
    MByte m;
    bool c = true;
    bool und = true;
    u8 x = 0;
    for (int i = 0; i < 8; i++) {
      if (!b[i].isc())
        c = false;
      else if (b[i].k == B1)
        x |= 1 << i;
      if (b[i].k != BUNDEF)
        und = false;
    }
    if (und)
      return m;
    if (c) {
      m.k = MByte::CONST;
      m.c = x;
      return m;
    }
    Bit8 t;
    for (int i = 0; i < 8; i++)
      t.b[i] = b[i];
    m.k = MByte::BITS;
    m.r = internB8(t);
    return m;
  }

  Val loadTy(State &S, u32 obj, i64 off, Type *T) {
    const Obj &o = *S.mem[obj];
    if (auto *ST = dyn_cast<StructType>(T)) {
      Val v;
      v.k = Val::AGG;
      v.agg = std::make_shared<std::vector<Val>>();
      auto *L = DL.getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); i++)
        v.agg->push_back(loadTy(S, obj, off + (i64)L->getElementOffset(i), ST->getElementType(i)));
      return v;
    }
    if (auto *AT = dyn_cast<ArrayType>(T)) {
      Val v;
      v.k = Val::AGG;
      v.agg = std::make_shared<std::vector<Val>>();
      u64 es = DL.getTypeAllocSize(AT->getElementType());
      for (u64 i = 0; i < AT->getNumElements(); i++)
        v.agg->push_back(loadTy(S, obj, off + (i64)(i * es), AT->getElementType()));
      return v;
    }
    u64 n = DL.getTypeStoreSize(T);
    if (T->isPointerTy()) {
      const MByte &m0 = o.b[off];
      if (m0.k == MByte::PTR && m0.c == 0) {
        bool ok = true;
        for (u64 i = 1; i < n && ok; i++)
          ok = o.b[off + i].k == MByte::PTR && o.b[off + i].r == m0.r && o.b[off + i].c == i;
        if (ok)
          return ptrOf(m0.r);
      }
      bool zero = true, und = true;
      for (u64 i = 0; i < n; i++) {
        zero &= o.b[off + i].k == MByte::CONST && o.b[off + i].c == 0;
        und &= o.b[off + i].k == MByte::UNDEF;
      }
      if (zero)
        return vptr(0, 0);
      Val v = vptrtop();
      if (und) {
        v.k = Val::PTR;
        v.und = true;
      }
      return v;
    }
    // pointer held in an integer
    if (o.b[off].k == MByte::PTR && o.b[off].c == 0 && n == DL.getPointerSize()) {
      bool ok = true;
      for (u64 i = 1; i < n && ok; i++)
        ok = o.b[off + i].k == MByte::PTR && o.b[off + i].r == o.b[off].r && o.b[off + i].c == i;
      if (ok)
        return ptrOf(o.b[off].r);
    }
    unsigned w = DL.getTypeSizeInBits(T);
    Bits r;
    for (u64 i = 0; i < n; i++) {
      u64 idx = DL.isBigEndian() ? n - 1 - i : i;
      Bits b = byteBits(S, o.b[off + idx]);
      r.insert(r.end(), b.begin(), b.end());
    }
    r.resize(w);
    return vbits(r);
  }
  void storeTy(State &S, u32 obj, i64 off, Type *T, const Val &v) {
    Obj &o = mut(S, obj);
    if (auto *ST = dyn_cast<StructType>(T)) {
      auto *L = DL.getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); i++)
        storeTy(S, obj, off + (i64)L->getElementOffset(i), ST->getElementType(i), (*v.agg)[i]);
      return;
    }
    if (auto *AT = dyn_cast<ArrayType>(T)) {
      u64 es = DL.getTypeAllocSize(AT->getElementType());
      for (u64 i = 0; i < AT->getNumElements(); i++)
        storeTy(S, obj, off + (i64)(i * es), AT->getElementType(), (*v.agg)[i]);
      return;
    }
    u64 n = DL.getTypeStoreSize(T);
    if (v.k == Val::PTR && !v.und) {
      if (v.obj == 0 && v.off == 0) {
        for (u64 i = 0; i < n; i++) {
          o.b[off + i] = MByte();
          o.b[off + i].k = MByte::CONST;
        }
        return;
      }
      u32 r = internPtr(v);
      for (u64 i = 0; i < n; i++) {
        MByte m;
        m.k = MByte::PTR;
        m.c = i;
        m.r = r;
        o.b[off + i] = m;
      }
      return;
    }
    if (v.k != Val::INT) {
      for (u64 i = 0; i < n; i++) {
        o.b[off + i] = MByte();
        o.b[off + i].k = v.und ? MByte::UNDEF : MByte::TOP;
      }
      return;
    }
    Bits b = bitsOf(S, v);
    b.resize(n * 8, cbit(0));
    for (u64 i = 0; i < n; i++) {
      u64 idx = DL.isBigEndian() ? n - 1 - i : i;
      o.b[off + idx] = mkByte(&b[i * 8]);
    }
  }

  // ---- constants and globals

  u32 globalObj(State &S, const GlobalValue *G) {
    auto it = gobj.find(G);
    if (it != gobj.end())
      return it->second;
    throw Unsupported{"unknown global " + G->getName().str()};
  }
  Val constVal(State &S, const Constant *C) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
      unsigned w = CI->getBitWidth();
      if (w <= 64)
        return vconst(w, CI->getZExtValue());
      Bits b(w);
      for (unsigned i = 0; i < w; i++)
        b[i] = cbit(CI->getValue()[i]);
      return vbits(b);
    }
    if (auto *CF = dyn_cast<ConstantFP>(C)) {
      APInt a = CF->getValueAPF().bitcastToAPInt();
      Bits b(a.getBitWidth());
      for (unsigned i = 0; i < b.size(); i++)
        b[i] = cbit(a[i]);
      return vbits(b);
    }
    if (isa<ConstantPointerNull>(C))
      return vptr(0, 0);
    if (isa<UndefValue>(C))
      return undefVal(C->getType());
    if (auto *GA = dyn_cast<GlobalAlias>(C))
      return constVal(S, GA->getAliasee());
    if (auto *G = dyn_cast<GlobalValue>(C))
      return vptr(globalObj(S, G), 0);
    if (isa<ConstantAggregateZero>(C))
      return zeroVal(C->getType());
    if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
      Val v;
      v.k = Val::AGG;
      v.agg = std::make_shared<std::vector<Val>>();
      for (unsigned i = 0; i < CA->getNumOperands(); i++)
        v.agg->push_back(constVal(S, CA->getOperand(i)));
      return v;
    }
    if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
      Val v;
      v.k = Val::AGG;
      v.agg = std::make_shared<std::vector<Val>>();
      for (unsigned i = 0; i < CD->getNumElements(); i++)
        v.agg->push_back(constVal(S, CD->getElementAsConstant(i)));
      return v;
    }
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      switch (CE->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto *GO = cast<GEPOperator>(CE);
        APInt off(64, 0);
        if (!GO->accumulateConstantOffset(DL, off))
          throw Unsupported{"constant gep"};
        Val b = constVal(S, cast<Constant>(GO->getPointerOperand()));
        b.off += off.getSExtValue();
        return b;
      }
      case Instruction::PtrToInt:
      case Instruction::IntToPtr:
      case Instruction::BitCast:
      case Instruction::AddrSpaceCast: return constVal(S, CE->getOperand(0));
      case Instruction::Sub:
      case Instruction::Add: {
        Val a = constVal(S, CE->getOperand(0)), b = constVal(S, CE->getOperand(1));
        return arith(S, nullptr, CE->getOpcode(), a, b, false);
      }
      case Instruction::Trunc: {
        Val a = constVal(S, CE->getOperand(0));
        if (a.k == Val::INT && a.isc)
          return vconst(CE->getType()->getIntegerBitWidth(), a.c);
        return vfill(CE->getType()->getIntegerBitWidth(), BTOP);
      }
      case Instruction::ICmp: {
        Val a = constVal(S, CE->getOperand(0)), b = constVal(S, CE->getOperand(1));
        CmpOut o = compare(S, cast<ConstantExpr>(CE)->getPredicate(), a, b);
        return o.res == 2 ? vfill(1, BTOP) : vconst(1, o.res);
      }
      default: break;
      }
    }
    std::string s;
    raw_string_ostream os(s);
    C->print(os);
    throw Unsupported{"constant " + os.str().substr(0, 80)};
  }
  Val undefVal(Type *T) {
    if (T->isStructTy() || T->isArrayTy()) {
      Val v;
      v.k = Val::AGG;
      v.agg = std::make_shared<std::vector<Val>>();
      unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
      for (unsigned i = 0; i < n; i++)
        v.agg->push_back(undefVal(T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType()));
      return v;
    }
    if (T->isPointerTy()) {
      Val v = vptr(0, 0);
      v.und = true;
      return v;
    }
    return vfill(DL.getTypeSizeInBits(T), BUNDEF);
  }
  Val zeroVal(Type *T) {
    if (T->isStructTy() || T->isArrayTy()) {
      Val v;
      v.k = Val::AGG;
      v.agg = std::make_shared<std::vector<Val>>();
      unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
      for (unsigned i = 0; i < n; i++)
        v.agg->push_back(zeroVal(T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType()));
      return v;
    }
    if (T->isPointerTy())
      return vptr(0, 0);
    return vconst(DL.getTypeSizeInBits(T), 0);
  }
  Val topVal(Type *T) {
    if (T->isVoidTy())
      return Val();
    if (T->isPointerTy())
      return vptrtop();
    if (T->isStructTy() || T->isArrayTy()) {
      Val v;
      v.k = Val::AGG;
      v.agg = std::make_shared<std::vector<Val>>();
      unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
      for (unsigned i = 0; i < n; i++)
        v.agg->push_back(topVal(T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType()));
      return v;
    }
    return vfill(DL.getTypeSizeInBits(T), BTOP);
  }

  void setupGlobals() {
    init.mem.push_back(std::make_shared<Obj>()); // null
    for (auto &F : M) {
      u32 id = newObj(init, Obj::FUNC, 1, &F);
      init.mem[id]->fn = &F;
      gobj[&F] = id;
    }
    for (auto &G : M.globals()) {
      u64 sz = G.getValueType()->isSized() ? (u64)DL.getTypeAllocSize(G.getValueType()) : 0;
      if (sz > (1u << 20))
        sz = 1u << 20;
      u32 id = newObj(init, Obj::GLOBAL, sz, &G);
      gobj[&G] = id;
    }
    for (auto &G : M.globals()) {
      if (!G.hasInitializer() || G.getName().starts_with("llvm."))
        continue;
      u32 id = gobj[&G];
      try {
        if (isa<ConstantAggregateZero>(G.getInitializer()) || G.getInitializer()->isNullValue()) {
          for (auto &m : init.mem[id]->b)
            m.k = MByte::CONST, m.c = 0;
        } else {
          // padding is zero
          for (auto &m : init.mem[id]->b)
            m.k = MByte::CONST, m.c = 0;
          storeTy(init, id, 0, G.getValueType(), constVal(init, G.getInitializer()));
        }
      } catch (Unsupported &u) {
        for (auto &m : init.mem[id]->b)
          m.k = MByte::TOP;
      }
      init.mem[id]->ro = G.isConstant();
    }
    for (auto &G : M.globals())
      if (!G.hasInitializer())
        for (auto &m : init.mem[gobj[&G]]->b)
          m.k = MByte::TOP;
  }

  // ---- frames

  Frame &top(State &S) {
    auto &p = S.st.back();
    if (p.use_count() > 1)
      p = std::make_shared<Frame>(*p);
    return *p;
  }
  Val get(State &S, const Value *v) {
    if (auto *C = dyn_cast<Constant>(v))
      return constVal(S, C);
    auto &f = *S.st.back();
    auto it = f.v.find(v);
    if (it == f.v.end())
      throw Unsupported{"value without definition"};
    return it->second;
  }
  void set(State &S, const Value *v, Val x) { top(S).v[v] = std::move(x); }

  bool isLibFile(StringRef f) { return f.contains("/include/upd/") || f.contains("/upd/"); }
  std::map<const Function *, bool> witnessCache;
  bool isWitness(const Function *F) {
    auto it = witnessCache.find(F);
    if (it != witnessCache.end())
      return it->second;
    auto *SP = F->getSubprogram();
    return witnessCache[F] = SP && SP->getFilename().contains("/witness/") && !isLibFile(SP->getFilename());
  }
  bool inLib(const Function *F) {
    auto *SP = F->getSubprogram();
    return SP && isLibFile(SP->getFilename());
  }
  std::string locOf(const Instruction *I) {
    if (!I)
      return "?";
    if (auto &D = I->getDebugLoc()) {
      // innermost scope
      auto *L = D.get();
      return L->getFilename().str() + ":" + std::to_string(L->getLine());
    }
    if (auto *SP = I->getFunction()->getSubprogram())
      return SP->getFilename().str() + ":" + std::to_string(SP->getLine());
    return "?";
  }
  std::string shortFn(const Function *F) {
    std::string d = demang(F->getName());
    if (d.size() > 220)
      d = d.substr(0, 217) + "...";
    return d;
  }

  void enter(State &S, const Function *F, std::vector<Val> args) {
    if (F->isDeclaration())
      throw Unsupported{"call to a function without definition: " + demang(F->getName())};
    if (S.st.size() > 400)
      throw Unsupported{"call depth"};
    if (inLib(F) && !S.st.empty() && !inLib(S.st.back()->f)) {
      if (S.lib.size() >= 6) {
        S.lib.erase(S.lib.begin());
        S.libsite.erase(S.libsite.begin());
      }
      S.lib.push_back(F);
      S.libsite.push_back(&F->getEntryBlock().front());
    }
    auto fr = std::make_shared<Frame>();
    fr->f = F;
    fr->bb = &F->getEntryBlock();
    fr->it = fr->bb->begin();
    unsigned i = 0;
    S.st.push_back(fr);
    if (S.metered)
      grow(S, 32);
    for (auto &A : F->args()) {
      Val a = i < args.size() ? args[i] : undefVal(A.getType());
      if (A.hasByValAttr() && a.k == Val::PTR) {
        u64 n = DL.getTypeAllocSize(A.getParamByValType());
        access(S, a, n, false, "by-value copy");
        u32 o = newObj(S, Obj::STACK, n, &A);
        auto src = S.mem[a.obj];
        for (u64 k = 0; k < n; k++)
          S.mem[o]->b[k] = src->b[a.off + k];
        fr->allocas.push_back(o);
        if (S.metered)
          grow(S, n);
        a = vptr(o, 0);
      }
      fr->v[&A] = a;
      i++;
    }
    if (analysed.insert(F).second)
      ninst[F] = F->getInstructionCount();
  }
  //! The stack in use grows: locals, and a constant for every call
  void grow(State &S, u64 n) {
    S.stack += n;
    S.stackTop = std::max(S.stackTop, S.stack);
    if (S.stackTop > S.stackMax)
      throw Alarm{"unbounded-work", "more than " + std::to_string(S.stackMax) + " bytes of stack are used to process one byte"};
  }
  void popFrame(State &S) {
    if (S.metered) {
      u64 n = 32;
      for (u32 o : S.st.back()->allocas)
        n += S.mem[o]->live ? S.mem[o]->b.size() : 0;
      S.stack -= std::min(S.stack, n);
    }
    for (u32 o : S.st.back()->allocas)
      if (S.mem[o]->live) {
        Obj &x = mut(S, o);
        x.live = false;
        x.dead_why = 1;
        x.b.clear();
      }
    S.st.pop_back();
  }
  void jump(State &S, const BasicBlock *to) {
    Frame &f = top(S);
    f.prev = f.bb;
    f.bb = to;
    f.it = to->begin();
    // phis are evaluated in parallel
    std::vector<std::pair<const Value *, Val>> ph;
    for (auto &I : *to) {
      auto *P = dyn_cast<PHINode>(&I);
      if (!P)
        break;
      ph.push_back({P, get(S, P->getIncomingValueForBlock(f.prev))});
    }
    for (auto &p : ph)
      top(S).v[p.first] = p.second;
    auto &g = top(S);
    g.it = to->getFirstNonPHI()->getIterator();
  }

  // ---- obligations

  Oblig &oblig(const std::string &id) {
    auto &o = ob[id];
    o.entry = entry;
    o.id = id;
    return o;
  }
  std::vector<std::string> pathOf(State &S) {
    std::vector<std::string> p;
    for (unsigned i = 0; i < S.lib.size(); i++) {
      auto *SP = S.lib[i]->getSubprogram();
      p.push_back(shortFn(S.lib[i]) + " @ " + (SP ? SP->getFilename().str() + ":" + std::to_string(SP->getLine()) : ""));
    }
    return p;
  }
  std::vector<std::string> stackOf(State &S, const Instruction *I) {
    std::vector<std::string> p;
    for (int i = (int)S.st.size() - 1; i >= 0; i--) {
      auto &f = *S.st[i];
      const Instruction *J = i == (int)S.st.size() - 1 ? I : nullptr;
      if (!J && f.it != f.bb->begin())
        J = &*std::prev(f.it);
      else if (!J && f.it != f.bb->end())
        J = &*f.it;
      p.push_back(shortFn(f.f) + " @ " + locOf(J));
    }
    return p;
  }
  std::string point(State &S, const std::vector<u64> &X, const Bits *a = nullptr, const Bits *b = nullptr) {
    std::string s;
    unsigned n = 0;
    std::set<u32> used;
    for (auto *p : {a, b})
      if (p)
        for (auto &t : *p)
          if (t.k == BREF)
            used.insert(g_forms[t.f].sym);
    for (unsigned i = 0; i < X.size(); i++) {
      if (!used.empty() && !used.count(i) && X.size() > 8)
        continue;
      if (++n > 16) {
        s += " ...";
        break;
      }
      char buf[64];
      snprintf(buf, sizeof buf, "%sinput%u(u%u)=0x%llx", s.empty() ? "" : " ", i, S.syms[i].w, (unsigned long long)X[i]);
      s += buf;
    }
    return s;
  }

  void raise(State &S, const Alarm &al, const Instruction *I) {
    auto &o = oblig(al.kind == "signed-overflow" ? "arithmetic" : al.kind == "unbounded-work" ? "bounded work" : "safety");
    std::vector<u64> X;
    std::string loc = locOf(I);
    // prefer a location of the library
    if (!isLibFile(loc)) {
      for (int i = (int)S.st.size() - 1; i >= 0; i--)
        if (inLib(S.st[i]->f)) {
          auto &f = *S.st[i];
          loc = locOf(f.it != f.bb->begin() ? &*std::prev(f.it) : &*f.it) + " (reached from the library)";
          break;
        }
    }
    if (!S.approx && findPoint(S, [](const std::vector<u64> &) { return true; }, X)) {
      o.refuted++;
      if (o.refuted == 1) {
        o.detail = al.kind + ": " + al.msg;
        std::string pt = point(S, X);
        if (!pt.empty())
          o.detail += " [" + pt + "]";
        o.loc = loc;
        o.path = stackOf(S, I);
      }
    } else {
      o.unknown++;
      if (o.refuted == 0)
        o.detail = "possible " + al.kind + ": " + al.msg + " at " + loc;
    }
  }

  void checkBits(State &S, const std::string &id, const Bits &a, const Bits &b, const Instruction *I) {
    auto &o = oblig(id);
    bool same = true, exact = true, und = false;
    for (unsigned i = 0; i < a.size(); i++) {
      if (a[i].k == BUNDEF || b[i].k == BUNDEF) {
        und = true;
        same = false;
        continue;
      }
      if (a[i].k == BTOP || b[i].k == BTOP)
        exact = same = false;
      else if (!(a[i] == b[i]))
        same = false;
    }
    if (same) {
      o.proved++;
      return;
    }
    std::vector<u64> X;
    u64 ga = 0, gb = 0;
    bool found = false;
    if (und)
      found = !S.approx && findPoint(S, [](const std::vector<u64> &) { return true; }, X);
    else if (!S.approx) {
      // compare only the exact bits
      Bits ea, eb;
      for (unsigned i = 0; i < a.size(); i++)
        if (a[i].k <= BREF && b[i].k <= BREF)
          ea.push_back(a[i]), eb.push_back(b[i]);
      found = findPoint(
          S,
          [&](const std::vector<u64> &X) {
            u64 p, q;
            return evalBits(ea, X, p) && evalBits(eb, X, q) && p != q;
          },
          X);
      if (found && exact) {
        evalBits(a, X, ga);
        evalBits(b, X, gb);
      }
    }
    if (found) {
      o.refuted++;
      if (o.refuted == 1) {
        char buf[160];
        if (und)
          snprintf(buf, sizeof buf, "value depends on memory that was never written");
        else if (exact)
          snprintf(buf, sizeof buf, "got 0x%llx, expected 0x%llx", (unsigned long long)ga, (unsigned long long)gb);
        else
          snprintf(buf, sizeof buf, "got a value which differs from the expected one in a known bit");
        o.detail = buf;
        std::string pt = point(S, X, &a, &b);
        if (!pt.empty())
          o.detail += " [" + pt + "]";
        o.loc = locOf(I);
        o.path = pathOf(S);
        auto st = stackOf(S, I);
        o.path.insert(o.path.begin(), st.begin(), st.end());
      }
    } else {
      // identical on every sampled point but not syntactically identical, or inexact
      o.unknown++;
      if (!o.refuted)
        o.detail = S.approx ? "path not exact" : exact ? "abstract values differ in form" : "abstract value lost";
    }
  }

  std::string cstr(State &S, const Val &v) {
    std::string s;
    if (v.k != Val::PTR || v.obj == 0)
      return "?";
    auto &o = *S.mem[v.obj];
    for (i64 i = v.off; i < (i64)o.b.size(); i++) {
      if (o.b[i].k != MByte::CONST || o.b[i].c == 0)
        break;
      s += (char)o.b[i].c;
    }
    return s;
  }

  //! A string of which every byte is known
  std::string known(State &S, const Val &v) {
    if (v.k != Val::PTR || v.obj == 0)
      throw Unsupported{"an unknown string"};
    std::string s;
    auto &o = *S.mem[v.obj];
    for (i64 i = v.off; i < (i64)o.b.size(); i++) {
      if (o.b[i].k != MByte::CONST)
        throw Unsupported{"a string with unknown characters"};
      if (o.b[i].c == 0)
        return s;
      s += (char)o.b[i].c;
    }
    throw Alarm{"out-of-bounds", "a string without end"};
  }

  // ---- liveness, canonical form of a state

  const std::vector<const Value *> &liveAt(const Function *F, const Instruction *I) {
    auto &m = liveCache[F];
    auto it = m.find(I);
    if (it != m.end())
      return it->second;
    // block-level liveness
    std::map<const BasicBlock *, std::set<const Value *>> in;
    bool ch = true;
    auto isv = [](const Value *v) { return isa<Instruction>(v) || isa<Argument>(v); };
    auto transfer = [&](const BasicBlock *B, std::set<const Value *> live, const Instruction *stop) {
      for (auto r = B->rbegin(); r != B->rend(); ++r) {
        const Instruction *J = &*r;
        if (J == stop)
          break;
        live.erase(J);
        if (isa<PHINode>(J))
          continue;
        for (auto &op : J->operands())
          if (isv(op))
            live.insert(op);
      }
      return live;
    };
    auto outOf = [&](const BasicBlock *B) {
      std::set<const Value *> out;
      for (auto *Sx : successors(B)) {
        for (auto *v : in[Sx])
          out.insert(v);
        for (auto &J : *Sx) {
          auto *P = dyn_cast<PHINode>(&J);
          if (!P)
            break;
          auto *v = P->getIncomingValueForBlock(B);
          if (isv(v))
            out.insert(v);
        }
      }
      return out;
    };
    while (ch) {
      ch = false;
      for (auto &B : *F) {
        auto n = transfer(&B, outOf(&B), nullptr);
        if (n != in[&B]) {
          in[&B] = n;
          ch = true;
        }
      }
    }
    auto live = transfer(I->getParent(), outOf(I->getParent()), I);
    live.erase(I);
    // deterministic order: order of definition in the function
    std::vector<const Value *> v;
    for (auto &A : F->args())
      if (live.count(&A))
        v.push_back(&A);
    for (auto &B : *F)
      for (auto &J : B)
        if (live.count(&J))
          v.push_back(&J);
    return m[I] = v;
  }

  std::string canon(State &S, const Instruction *cur) {
    std::string out;
    std::unordered_map<u32, u32> sy, ob_;
    std::vector<u32> queue;
    auto put = [&](u64 x) { out.append((const char *)&x, 8); };
    std::vector<u32> symOrder;
    auto symId = [&](u32 s) {
      auto it = sy.find(s);
      if (it != sy.end())
        return it->second;
      u32 n = sy.size();
      sy[s] = n;
      symOrder.push_back(s);
      return n;
    };
    auto objId = [&](u32 o) -> u32 {
      if (o == 0)
        return 0;
      auto k = S.mem[o]->k;
      if (k == Obj::FUNC)
        return o;
      auto it = ob_.find(o);
      if (it != ob_.end())
        return it->second;
      u32 n = 1000000 + ob_.size();
      ob_[o] = n;
      queue.push_back(o);
      return n;
    };
    auto putBit = [&](const Bit &b0) {
      Bit b = norm(S, b0);
      if (b.k != BREF) {
        out += (char)b.k;
        return;
      }
      const Form &f = g_forms[b.f];
      out += (char)(8 | b.neg);
      out += (char)b.i;
      u32 n = symId(f.sym);
      put(n);
      put(f.a);
      put(f.c);
    };
    std::function<void(const Val &)> putVal = [&](const Val &v) {
      out += (char)('a' + v.k);
      if (v.und) {
        out += 'u';
        return;
      }
      if (v.k == Val::INT) {
        if (v.isc)
          put(v.c);
        else
          for (auto &b : *v.bits)
            putBit(b);
      } else if (v.k == Val::PTR) {
        put(objId(v.obj));
        put(v.off);
        put(v.lo);
        put(v.hi);
      } else if (v.k == Val::AGG)
        for (auto &x : *v.agg)
          putVal(x);
    };
    for (unsigned i = 0; i < S.st.size(); i++) {
      auto &f = *S.st[i];
      const Instruction *at = i + 1 == S.st.size() ? cur : &*std::prev(f.it);
      put((u64)(uintptr_t)at);
      for (auto *v : liveAt(f.f, at)) {
        auto it = f.v.find(v);
        if (it == f.v.end()) {
          out += '-';
          continue;
        }
        putVal(it->second);
      }
    }
    // mutable globals
    for (auto &G : M.globals()) {
      if (G.isConstant())
        continue;
      auto it = gobj.find(&G);
      if (it != gobj.end())
        objId(it->second);
    }
    // live stack objects are reached through allocas (pointers are live values); traverse
    for (unsigned q = 0; q < queue.size(); q++) {
      u32 o = queue[q];
      auto &x = *S.mem[o];
      out += 'O';
      out += (char)x.live;
      out += (char)x.k;
      put(x.b.size());
      if (x.ro && x.k == Obj::GLOBAL) {
        put(o);
        continue;
      }
      for (auto &m : x.b) {
        out += (char)m.k;
        if (m.k == MByte::CONST)
          out += (char)m.c;
        else if (m.k == MByte::PTR) {
          out += (char)m.c;
          Val v = ptrOf(m.r);
          put(objId(v.obj));
          put(v.off);
          put(v.lo);
          put(v.hi);
        } else if (m.k == MByte::BITS)
          for (auto &b : g_b8[m.r].b)
            putBit(b);
      }
    }
    for (u32 s : symOrder) {
      auto &y = S.syms[s];
      put(y.w);
      put(y.lo);
      put(y.hi);
      put(y.km);
      put(y.kv);
    }
    // facts over live inputs
    for (auto &f : S.facts) {
      bool all = true;
      for (auto *bs : {&f.a, &f.b})
        for (auto &b : *bs)
          if (b.k == BREF && !sy.count(g_forms[b.f].sym))
            all = false;
      if (!all)
        continue;
      out += 'F';
      out += (char)f.pred;
      out += (char)f.res;
      for (auto *bs : {&f.a, &f.b})
        for (auto &b : *bs)
          putBit(b);
    }
    put(S.nalloc - S.nfree);
    put(S.excObj != 0);
    put(S.approx);
    return out;
  }

  // ---- exceptions

  // unwinds until a landing pad accepts; false when the exception leaves the program
  bool unwind(State &S, const Instruction *I) {
    while (true) {
      popFrame(S);
      if (S.st.empty())
        return false;
      Frame &f = top(S);
      const Instruction *cs = &*std::prev(f.it);
      auto *Iv = dyn_cast<InvokeInst>(cs);
      if (!Iv) {
        auto *CB = cast<CallBase>(cs);
        if (CB->doesNotThrow() && false)
          return false;
        continue;
      }
      if (enterPad(S, Iv->getUnwindDest()))
        return true;
    }
  }
  bool enterPad(State &S, const BasicBlock *bb) {
    const LandingPadInst *LP = bb->getLandingPadInst();
    int sel = 0;
    bool match = LP->isCleanup();
    for (unsigned i = 0; i < LP->getNumClauses(); i++) {
      if (!LP->isCatch(i)) {
        // filter: treat an empty filter as noexcept
        match = true;
        sel = -1;
        break;
      }
      auto *C = LP->getClause(i)->stripPointerCasts();
      if (isa<ConstantPointerNull>(C)) {
        sel = 1;
        match = true;
        break;
      }
      u32 ti = gobj.lookup(cast<GlobalValue>(C));
      if (ti == S.excTI) {
        sel = 2 + ti;
        match = true;
        break;
      }
    }
    if (!match)
      return false;
    jump(S, bb);
    Val v;
    v.k = Val::AGG;
    v.agg = std::make_shared<std::vector<Val>>();
    v.agg->push_back(vptr(S.excObj, 0));
    v.agg->push_back(vconst(32, (u64)sel));
    set(S, LP, v);
    Frame &f = top(S);
    f.it = std::next(LP->getIterator());
    return true;
  }

  // ---- one instruction; new states are appended to `out` (S itself is consumed)

  std::deque<State> work, later;

  enum Res { CONT, DONE };

  void doRet(State &S, Val v) {
    popFrame(S);
    if (S.st.empty())
      return;
    Frame &f = top(S);
    const Instruction *cs = &*std::prev(f.it);
    if (!cs->getType()->isVoidTy())
      f.v[cs] = v;
    if (auto *Iv = dyn_cast<InvokeInst>(cs))
      jump(S, Iv->getNormalDest());
  }
  void retTo(State &S, const CallBase *CB, Val v) { // result of a modelled call
    if (!CB->getType()->isVoidTy())
      set(S, CB, v);
    if (auto *Iv = dyn_cast<InvokeInst>(CB))
      jump(S, Iv->getNormalDest());
  }

  u64 constArg(State &S, const Val &v, const char *what) {
    Val x = concretise(S, v);
    if (x.k == Val::INT && x.isc)
      return x.c;
    throw Unsupported{std::string("unknown ") + what};
  }
  // Splits the partition until the value is constant (small sets only)
  Val concretise(State &S, const Val &v0) {
    Val v = renorm(S, v0);
    if (v.k != Val::INT || v.isc)
      return v;
    Bits b = bitsOf(S, v);
    if (anyUndef(b))
      throw Alarm{"indeterminate-value", "an address or size depends on memory that was never written"};
    for (auto &t : b)
      if (t.k == BREF) {
        u32 s = g_forms[t.f].sym;
        if (card(S.syms[s]) <= 4096)
          singletons(S, s);
      }
    return v;
  }

  void memCopy(State &S, const Val &d, const Val &s, u64 n) {
    if (n == 0)
      return;
    if (d.k != Val::PTR || s.k != Val::PTR)
      throw Unsupported{"copy through an unknown pointer"};
    if (d.und || s.und)
      throw Alarm{"indeterminate-value", "copy through an indeterminate pointer"};
    access(S, s, n, false, "read (copy)");
    access(S, d, n, true, "write (copy)");
    auto src = S.mem[s.obj];
    std::vector<MByte> tmp(src->b.begin() + s.off, src->b.begin() + s.off + n);
    Obj &o = mut(S, d.obj);
    for (u64 i = 0; i < n; i++)
      o.b[d.off + i] = tmp[i];
  }

  bool truth(State &S, const Val &v0, int &res, const Instruction *I) { // i1
    Val v = renorm(S, v0);
    if (v.isc) {
      res = v.c & 1;
      return true;
    }
    Bit b = bitsOf(S, v)[0];
    if (b.k == BUNDEF)
      throw Alarm{"indeterminate-value", "a branch depends on memory that was never written"};
    if (b.k == BREF)
      splitBit(S, b);
    res = 2;
    return false;
  }

  Res modelCall(State &S, const CallBase *CB, const Function *F, std::vector<Val> &a, bool &handled) {
    handled = true;
    StringRef n = F->getName();
    // analysis vocabulary
    if (n.starts_with("va_")) {
      if (n == "va_u8" || n == "va_u16" || n == "va_u32" || n == "va_u64") {
        unsigned w = n == "va_u8" ? 8 : n == "va_u16" ? 16 : n == "va_u32" ? 32 : 64;
        u32 s = S.syms.size();
        S.syms.push_back({w, 0, mask64(w), 0, 0});
        Bits b(w);
        for (unsigned i = 0; i < w; i++)
          b[i] = mkref(S, s, 1, 0, i, false);
        unsigned rw = CB->getType()->getIntegerBitWidth();
        b.resize(rw, cbit(0));
        retTo(S, CB, vbits(b));
        return CONT;
      }
      if (n == "va_any" || n == "va_more") {
        if (n == "va_more") {
          std::string c = canon(S, CB);
          if (!seen.insert(c).second) {
            joined++;
            return DONE;
          }
        }
        State T = S;
        forks++;
        retTo(T, CB, vconst(1, 0));
        retTo(S, CB, vconst(1, 1));
        work.push_back(std::move(T));
        if (n == "va_more") { // histories are explored by increasing length
          later.push_back(std::move(S));
          return DONE;
        }
        return CONT;
      }
      if (n == "va_assume") {
        int r;
        if (truth(S, a[0], r, CB)) {
          if (!r)
            return DONE;
        } else
          S.approx = true;
        retTo(S, CB, Val());
        return CONT;
      }
      if (n == "va_check") {
        Bits x = bitsOf(S, a[0]), y = bitsOf(S, vconst(1, 1));
        if (x[0].k == BREF)
          splitBit(S, x[0]);
        checkBits(S, cstr(S, a[1]), x, y, CB);
        retTo(S, CB, Val());
        return CONT;
      }
      if (n == "va_eq") {
        Val x = a[0], y = a[1];
        std::string id = cstr(S, a[2]);
        Bits p = bitsOf(S, x), q = bitsOf(S, y);
        checkBits(S, id, p, q, CB);
        retTo(S, CB, Val());
        return CONT;
      }
      if (n == "va_reach") {
        auto id = cstr(S, a[0]);
        oblig(id).proved++;
        retTo(S, CB, Val());
        return CONT;
      }
      if (n == "va_unreachable") {
        auto &o = oblig(cstr(S, a[0]));
        std::vector<u64> X;
        if (!S.approx && findPoint(S, [](const std::vector<u64> &) { return true; }, X)) {
          if (++o.refuted == 1) {
            o.detail = "reached [" + point(S, X) + "]";
            o.loc = locOf(CB);
            o.path = pathOf(S);
          }
        } else
          o.unknown++;
        return DONE;
      }
      if (n == "va_allocs") {
        retTo(S, CB, vconst(32, S.nalloc));
        return CONT;
      }
      if (n == "va_live") {
        retTo(S, CB, vconst(32, S.nalloc - S.nfree));
        return CONT;
      }
      if (n == "va_uninit" || n == "va_havoc") {
        u64 k = constArg(S, a[1], "size");
        access(S, a[0], k, true, "write");
        Obj &o = mut(S, a[0].obj);
        for (u64 i = 0; i < k; i++) {
          o.b[a[0].off + i] = MByte();
          o.b[a[0].off + i].k = n == "va_uninit" ? MByte::UNDEF : MByte::TOP;
        }
        retTo(S, CB, Val());
        return CONT;
      }
      if (n == "va_blur") { // generalisation: the byte arrays within n bytes at p hold any bytes
        u64 k = constArg(S, a[1], "size");
        access(S, a[0], k, true, "write");
        Type *T = nullptr;
        if (auto *AI = dyn_cast_or_null<AllocaInst>(S.mem[a[0].obj]->site))
          T = AI->getAllocatedType();
        else if (auto *GV = dyn_cast_or_null<GlobalVariable>(S.mem[a[0].obj]->site))
          T = GV->getValueType();
        if (!T)
          throw Unsupported{"va_blur of an object of unknown type"};
        std::vector<std::pair<u64, u64>> arrays;
        byteArrays(T, 0, arrays);
        Obj &o = mut(S, a[0].obj);
        for (auto &[at, len] : arrays)
          for (u64 i = at; i < at + len; i++)
            if ((i64)i >= a[0].off && i < a[0].off + k && o.b[i].k != MByte::PTR) {
              u32 y = S.syms.size();
              S.syms.push_back({8, 0, mask64(8), 0, 0});
              Bits b(8);
              for (unsigned j = 0; j < 8; j++)
                b[j] = mkref(S, y, 1, 0, j, false);
              o.b[i] = mkByte(&b[0]);
            }
        retTo(S, CB, Val());
        return CONT;
      }
      if (n == "va_undef") { // number of bits never written among n bytes at p
        u64 k = constArg(S, a[1], "size");
        access(S, a[0], k, false, "read");
        u64 cnt = 0;
        for (u64 i = 0; i < k; i++)
          for (auto &t : byteBits(S, S.mem[a[0].obj]->b[a[0].off + i]))
            cnt += t.k == BUNDEF;
        retTo(S, CB, vconst(32, cnt));
        return CONT;
      }
      if (n == "va_context") { // what follows is the activity of context 1 or 2; 0 is none of them; 3 forgets it all
        u64 c = constArg(S, a[0], "context");
        if (c > 2) {
          S.touched.clear();
          S.ctx = S.ctxMax = 0;
          retTo(S, CB, Val());
          return CONT;
        }
        S.ctx = c;
        if (S.ctxMax == 0)
          S.ctxMax = S.mem.size();
        retTo(S, CB, Val());
        return CONT;
      }
      if (n == "va_disjoint") { // neither context writes what the other one reads or writes
        auto &o = oblig(cstr(S, a[0]));
        bool conflict = false;
        for (auto &[k, t] : S.touched)
          for (unsigned c = 0; c < 2 && !conflict; c++)
            if (t.w[c] && (t.r[1 - c] || t.w[1 - c])) {
              conflict = true;
              std::vector<u64> X;
              auto *other = t.w[1 - c] ? t.w[1 - c] : t.r[1 - c];
              if (!S.approx && findPoint(S, [](const std::vector<u64> &) { return true; }, X)) {
                if (++o.refuted == 1) {
                  const char *who[2] = {"the receiving context", "the fetching context"};
                  o.detail = std::string(who[c]) + " writes byte " + std::to_string(k.second) + " of " + objName(S, k.first) + " which " +
                             who[1 - c] + (t.w[1 - c] ? " writes" : " reads") + " at " + locOf(other) + " (" + shortFn(other->getFunction()) + ")";
                  o.loc = locOf(t.w[c]);
                  o.path = {shortFn(t.w[c]->getFunction()) + " @ " + locOf(t.w[c]), shortFn(other->getFunction()) + " @ " + locOf(other)};
                }
              } else
                o.unknown++;
            }
        if (!conflict)
          o.proved++;
        S.touched.clear();
        S.ctxMax = 0;
        retTo(S, CB, Val());
        return CONT;
      }
      if (n == "va_budget") {
        S.workMax = constArg(S, a[0], "budget");
        S.stackMax = constArg(S, a[1], "budget");
        S.work = S.stack = S.stackTop = 0;
        S.metered = true;
        retTo(S, CB, Val());
        return CONT;
      }
      if (n == "va_budget_end") {
        auto id = cstr(S, a[0]);
        S.metered = false;
        oblig(id).proved++;
        auto &m = most[id];
        m.first = std::max(m.first, S.work);
        m.second = std::max(m.second, S.stackTop);
        S.work = S.stack = S.stackTop = 0;
        retTo(S, CB, Val());
        return CONT;
      }
      if (n == "va_readonly") {
        u64 on = constArg(S, a[1], "flag");
        mut(S, a[0].obj).ro = on;
        retTo(S, CB, Val());
        return CONT;
      }
      throw Unsupported{"unknown intrinsic " + n.str()};
    }
    if (F->isIntrinsic()) {
      switch (F->getIntrinsicID()) {
      case Intrinsic::dbg_declare:
      case Intrinsic::dbg_value:
      case Intrinsic::dbg_label:
      case Intrinsic::dbg_assign:
      case Intrinsic::assume:
      case Intrinsic::experimental_noalias_scope_decl:
      case Intrinsic::donothing:
      case Intrinsic::prefetch:
      case Intrinsic::stackrestore:
      case Intrinsic::invariant_end: retTo(S, CB, Val()); return CONT;
      case Intrinsic::stacksave:
      case Intrinsic::invariant_start: retTo(S, CB, vptr(0, 0)); return CONT;
      case Intrinsic::lifetime_start: {
        if (a[1].k == Val::PTR && a[1].obj) {
          Obj &o = mut(S, a[1].obj);
          u64 sz = o.b.size();
          if (auto *AI = dyn_cast_or_null<AllocaInst>(o.site))
            sz = DL.getTypeAllocSize(AI->getAllocatedType());
          o.live = true;
          o.dead_why = 0;
          o.b.assign(sz, MByte());
        }
        retTo(S, CB, Val());
        return CONT;
      }
      case Intrinsic::lifetime_end: {
        if (a[1].k == Val::PTR && a[1].obj) {
          Obj &o = mut(S, a[1].obj);
          o.live = false;
          o.dead_why = 1;
          o.b.clear();
        }
        retTo(S, CB, Val());
        return CONT;
      }
      case Intrinsic::memcpy:
      case Intrinsic::memcpy_inline:
      case Intrinsic::memmove: {
        u64 k = constArg(S, a[2], "copy size");
        memCopy(S, a[0], a[1], k);
        retTo(S, CB, Val());
        return CONT;
      }
      case Intrinsic::memset: {
        u64 k = constArg(S, a[2], "fill size");
        if (k) {
          if (a[0].k != Val::PTR)
            throw Unsupported{"fill through an unknown pointer"};
          access(S, a[0], k, true, "write (fill)");
          Bits b = bitsOf(S, a[1]);
          MByte m = mkByte(&b[0]);
          Obj &o = mut(S, a[0].obj);
          for (u64 i = 0; i < k; i++)
            o.b[a[0].off + i] = m;
        }
        retTo(S, CB, Val());
        return CONT;
      }
      case Intrinsic::expect:
      case Intrinsic::launder_invariant_group:
      case Intrinsic::strip_invariant_group:
      case Intrinsic::ssa_copy: retTo(S, CB, a[0]); return CONT;
      case Intrinsic::trap:
      case Intrinsic::ubsantrap: throw Alarm{"trap", "the program traps"};
      case Intrinsic::is_constant: retTo(S, CB, vconst(1, 0)); return CONT;
      case Intrinsic::objectsize: retTo(S, CB, vconst(CB->getType()->getIntegerBitWidth(), ~0ull)); return CONT;
      case Intrinsic::eh_typeid_for: {
        Val t = a[0];
        retTo(S, CB, vconst(32, t.obj == 0 ? 1 : 2 + t.obj));
        return CONT;
      }
      case Intrinsic::bswap: {
        Bits b = bitsOf(S, a[0]), r(b.size());
        for (unsigned i = 0; i < b.size(); i++)
          r[i] = b[(b.size() / 8 - 1 - i / 8) * 8 + i % 8];
        retTo(S, CB, vbits(r));
        return CONT;
      }
      case Intrinsic::bitreverse: {
        Bits b = bitsOf(S, a[0]), r(b.size());
        for (unsigned i = 0; i < b.size(); i++)
          r[i] = b[b.size() - 1 - i];
        retTo(S, CB, vbits(r));
        return CONT;
      }
      case Intrinsic::fshl:
      case Intrinsic::fshr: {
        unsigned w = a[0].w;
        u64 k = constArg(S, a[2], "shift amount") % w;
        Bits hi = bitsOf(S, a[0]), lo = bitsOf(S, a[1]), cat = lo, r(w);
        cat.insert(cat.end(), hi.begin(), hi.end());
        unsigned sh = F->getIntrinsicID() == Intrinsic::fshl ? w - k : k;
        for (unsigned i = 0; i < w; i++)
          r[i] = cat[i + sh];
        retTo(S, CB, vbits(r));
        return CONT;
      }
      case Intrinsic::abs:
      case Intrinsic::smax:
      case Intrinsic::smin:
      case Intrinsic::umax:
      case Intrinsic::umin: {
        auto id = F->getIntrinsicID();
        Val z = id == Intrinsic::abs ? vconst(a[0].w, 0) : a[1];
        unsigned p = id == Intrinsic::abs || id == Intrinsic::smax   ? CmpInst::ICMP_SGE
                     : id == Intrinsic::smin                         ? CmpInst::ICMP_SLE
                     : id == Intrinsic::umax                         ? CmpInst::ICMP_UGE
                                                                     : CmpInst::ICMP_ULE;
        CmpOut o = compare(S, p, a[0], z);
        if (o.res == 2)
          retTo(S, CB, vfill(a[0].w, BTOP));
        else if (id == Intrinsic::abs)
          retTo(S, CB, o.res ? a[0] : arith(S, nullptr, Instruction::Sub, vconst(a[0].w, 0), a[0], true));
        else
          retTo(S, CB, o.res ? a[0] : a[1]);
        return CONT;
      }
      case Intrinsic::umul_with_overflow:
      case Intrinsic::uadd_with_overflow:
      case Intrinsic::usub_with_overflow:
      case Intrinsic::sadd_with_overflow:
      case Intrinsic::ssub_with_overflow:
      case Intrinsic::smul_with_overflow: {
        Val x = concretise(S, a[0]), y = concretise(S, a[1]);
        Val v;
        v.k = Val::AGG;
        v.agg = std::make_shared<std::vector<Val>>();
        if (x.isc && y.isc) {
          unsigned w = x.w;
          i128 p = x.c, q = y.c, r;
          auto id = F->getIntrinsicID();
          bool sgn = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
          if (sgn) {
            p = (i64)(x.c << (64 - w)) >> (64 - w);
            q = (i64)(y.c << (64 - w)) >> (64 - w);
          }
          if (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow)
            r = p * q;
          else if (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow)
            r = p + q;
          else
            r = p - q;
          bool ov = sgn ? (r < smin(w) || r > smax(w)) : (r < 0 || r > (i128)mask64(w));
          v.agg->push_back(vconst(w, (u64)r));
          v.agg->push_back(vconst(1, ov));
        } else {
          v.agg->push_back(vfill(x.w, BTOP));
          v.agg->push_back(vfill(1, BTOP));
        }
        retTo(S, CB, v);
        return CONT;
      }
      default: throw Unsupported{"intrinsic " + n.str()};
      }
    }
    // run-time library
    if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_Znwj" || n == "_Znaj" || n == "calloc" ||
        n.starts_with("_ZnwmRKSt9nothrow") || n.starts_with("_ZnamRKSt9nothrow") || n.starts_with("_ZnwmSt11align_val_t") ||
        n.starts_with("_ZnamSt11align_val_t")) {
      u64 k = constArg(S, a[0], "allocation size");
      if (n == "calloc")
        k *= constArg(S, a[1], "allocation size");
      u32 o = newObj(S, Obj::HEAP, k, CB);
      if (n == "calloc")
        for (auto &x : mut(S, o).b)
          x.k = MByte::CONST, x.c = 0;
      S.nalloc++;
      retTo(S, CB, vptr(o, 0));
      return CONT;
    }
    if (n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "_ZdaPvm" || n == "free" || n == "_ZdlPvj" ||
        n.starts_with("_ZdlPvSt11align_val_t") || n.starts_with("_ZdlPvmSt11align_val_t") || n.starts_with("_ZdaPvSt11align_val_t") ||
        n.starts_with("_ZdlPvRKSt9nothrow") || n.starts_with("_ZdaPvRKSt9nothrow")) {
      if (a[0].k == Val::PTRTOP)
        throw Unsupported{"free of an unknown pointer"};
      if (a[0].und)
        throw Alarm{"indeterminate-value", "deallocation of an indeterminate pointer"};
      if (a[0].obj) {
        const Obj &o = *S.mem[a[0].obj];
        if (!o.live)
          throw Alarm{"double-free", "deallocation of " + objName(S, a[0].obj) + " twice"};
        if (o.k != Obj::HEAP || a[0].off != 0)
          throw Alarm{"bad-free", "deallocation of something that was not allocated"};
        Obj &m = mut(S, a[0].obj);
        m.live = false;
        m.dead_why = 2;
        m.b.clear();
        S.nfree++;
      }
      retTo(S, CB, Val());
      return CONT;
    }
    if (n == "memcpy" || n == "memmove") {
      memCopy(S, a[0], a[1], constArg(S, a[2], "copy size"));
      retTo(S, CB, a[0]);
      return CONT;
    }
    if (n == "memset") {
      u64 k = constArg(S, a[2], "fill size");
      access(S, a[0], k, true, "write (fill)");
      Bits b = bitsOf(S, a[1]);
      MByte m = mkByte(&b[0]);
      if (k) {
        Obj &o = mut(S, a[0].obj);
        for (u64 i = 0; i < k; i++)
          o.b[a[0].off + i] = m;
      }
      retTo(S, CB, a[0]);
      return CONT;
    }
    if (n == "pystub_demangle") {
      std::string m = known(S, a[0]);
      int st = 0;
      char *d = abi::__cxa_demangle(m.c_str(), nullptr, nullptr, &st);
      access(S, a[1], 4, true, "write");
      {
        Obj &o = mut(S, a[1].obj);
        for (unsigned i = 0; i < 4; i++) {
          o.b[a[1].off + i].k = MByte::CONST;
          o.b[a[1].off + i].c = (u8)(st >> (8 * i));
        }
      }
      if (!d) {
        retTo(S, CB, vptr(0, 0));
        return CONT;
      }
      std::string t = d;
      free(d);
      u32 o = newObj(S, Obj::HEAP, t.size() + 1, CB);
      auto &ob = mut(S, o);
      for (u64 i = 0; i <= t.size(); i++)
        ob.b[i].k = MByte::CONST, ob.b[i].c = i < t.size() ? (u8)t[i] : 0;
      S.nalloc++;
      retTo(S, CB, vptr(o, 0));
      return CONT;
    }
    if (n == "pystub_regex") { // pattern, text, size, whole, icase, groups, max
      std::string pat = known(S, a[0]), txt = known(S, a[1]);
      u64 size = constArg(S, a[2], "size");
      bool whole = constArg(S, a[3], "flag"), icase = constArg(S, a[4], "flag");
      u64 max = constArg(S, a[6], "size"), got = 0;
      if (txt.size() != size)
        throw Unsupported{"a text with a null character"};
      try {
        std::regex re(pat, icase ? std::regex::ECMAScript | std::regex::icase : std::regex::ECMAScript);
        std::smatch m;
        if (whole ? std::regex_match(txt, m, re) : std::regex_search(txt, m, re)) {
          got = m.size();
          if (got > max)
            throw Unsupported{"too many groups"};
          access(S, a[5], 16 * got, true, "write");
          Obj &o = mut(S, a[5].obj);
          for (u64 g = 0; g < got; g++)
            for (unsigned e = 0; e < 2; e++) {
              i64 at = !m[g].matched ? -1 : e ? m[g].second - txt.begin() : m[g].first - txt.begin();
              for (unsigned i = 0; i < 8; i++) {
                auto &mb = o.b[a[5].off + 16 * g + 8 * e + i];
                mb = MByte();
                mb.k = MByte::CONST;
                mb.c = (u8)((u64)at >> (8 * i));
              }
            }
        }
      } catch (const std::regex_error &) {
        throw Alarm{"abnormal-termination", "malformed regular expression"};
      }
      retTo(S, CB, vconst(32, got));
      return CONT;
    }
    // exceptions of the standard library: their message is not modelled
    if (n.starts_with("_ZNSt") && (n.contains("_errorC") || n.contains("_argumentC") || n.contains("_errorD") || n.contains("_argumentD") ||
                                   n.contains("out_of_rangeC") || n.contains("out_of_rangeD") || n.contains("9exceptionD"))) {
      retTo(S, CB, Val());
      return CONT;
    }
    if (n == "strlen") {
      retTo(S, CB, vconst(64, cstr(S, a[0]).size()));
      return CONT;
    }
    if (n == "__cxa_guard_acquire") {
      access(S, a[0], 1, false, "read");
      Bits b = byteBits(S, S.mem[a[0].obj]->b[a[0].off]);
      retTo(S, CB, vconst(32, b[0].k == B0));
      return CONT;
    }
    if (n == "__cxa_guard_release") {
      Obj &o = mut(S, a[0].obj);
      o.b[a[0].off].k = MByte::CONST;
      o.b[a[0].off].c = 1;
      retTo(S, CB, Val());
      return CONT;
    }
    if (n == "__cxa_guard_abort") {
      retTo(S, CB, Val());
      return CONT;
    }
    if (n == "__cxa_atexit" || n == "atexit") {
      retTo(S, CB, vconst(32, 0));
      return CONT;
    }
    if (n == "__cxa_allocate_exception") {
      u32 o = newObj(S, Obj::EXC, constArg(S, a[0], "size"), CB);
      retTo(S, CB, vptr(o, 0));
      return CONT;
    }
    if (n == "__cxa_free_exception") {
      retTo(S, CB, Val());
      return CONT;
    }
    if (n == "__cxa_throw" || n == "__cxa_rethrow" || n == "_Unwind_Resume") {
      if (n == "__cxa_throw") {
        S.excObj = a[0].obj;
        S.excTI = a[1].obj;
      } else if (n == "__cxa_rethrow" && !S.caught.empty()) {
        S.excObj = S.caught.back().first;
        S.excTI = S.caught.back().second;
      }
      // the call itself may be an invoke
      if (auto *Iv = dyn_cast<InvokeInst>(CB))
        if (enterPad(S, Iv->getUnwindDest()))
          return CONT;
      if (!unwind(S, CB))
        return escaped(S);
      return CONT;
    }
    if (n == "__cxa_begin_catch") {
      S.caught.push_back({S.excObj, S.excTI});
      retTo(S, CB, a[0]);
      return CONT;
    }
    if (n == "__cxa_end_catch") {
      if (!S.caught.empty())
        S.caught.pop_back();
      retTo(S, CB, Val());
      return CONT;
    }
    if (n == "_ZSt9terminatev" || n == "abort" || n == "__cxa_pure_virtual" || n == "__assert_fail" ||
        n == "_ZSt21__glibcxx_assert_failPKciS0_S0_" || n == "__clang_call_terminate" || n.starts_with("_ZSt20__throw_") ||
        n.starts_with("_ZSt2") && n.contains("__throw_") || n.starts_with("_ZSt1") && n.contains("__throw_"))
      throw Alarm{"abnormal-termination", "call to " + demang(n)};
    handled = false;
    return CONT;
  }

  Res escaped(State &S) {
    auto &o = oblig("safety");
    o.refuted++;
    if (o.refuted == 1)
      o.detail = "an exception leaves the program";
    return DONE;
  }

  Res stepInst(State &S) {
    Frame &f = top(S);
    const Instruction *I = &*f.it;
    current = I;
    switch (I->getOpcode()) {
    case Instruction::Ret: {
      auto *R = cast<ReturnInst>(I);
      Val v;
      if (R->getReturnValue())
        v = get(S, R->getReturnValue());
      doRet(S, v);
      return S.st.empty() ? DONE : CONT;
    }
    case Instruction::Br: {
      auto *B = cast<BranchInst>(I);
      if (B->isUnconditional()) {
        jump(S, B->getSuccessor(0));
        return CONT;
      }
      int r;
      if (truth(S, get(S, B->getCondition()), r, I)) {
        jump(S, B->getSuccessor(r ? 0 : 1));
        return CONT;
      }
      S.approx = true;
      State T = S;
      forks++;
      jump(T, B->getSuccessor(1));
      work.push_back(std::move(T));
      jump(S, B->getSuccessor(0));
      return CONT;
    }
    case Instruction::Switch: {
      auto *W = cast<SwitchInst>(I);
      Val v = renorm(S, get(S, W->getCondition()));
      for (auto &C : W->cases()) {
        Val k = vconst(v.w, C.getCaseValue()->getZExtValue());
        CmpOut o = compare(S, CmpInst::ICMP_EQ, v, k);
        if (o.res == 1) {
          jump(S, C.getCaseSuccessor());
          return CONT;
        }
        if (o.res == 2) {
          State T = S;
          forks++;
          bool feas = true;
          if (o.haveTrue)
            for (auto &p : o.known)
              feas &= applyKnown(T, p.first, p.second.first, p.second.second);
          else
            T.approx = true, S.approx = true;
          if (feas) {
            jump(T, C.getCaseSuccessor());
            work.push_back(std::move(T));
          }
          S.facts.push_back({bitsOf(S, v), bitsOf(S, k), CmpInst::ICMP_EQ, false});
        }
      }
      jump(S, W->getDefaultDest());
      return CONT;
    }
    case Instruction::Unreachable: throw Alarm{"unreachable", "control reaches a point the compiler may assume unreachable (missing return or undefined behaviour)"};
    case Instruction::Resume: {
      Val v = get(S, I->getOperand(0));
      S.excObj = (*v.agg)[0].obj;
      if (!unwind(S, I))
        return escaped(S);
      return CONT;
    }
    case Instruction::Call:
    case Instruction::Invoke: {
      auto *CB = cast<CallBase>(I);
      std::vector<Val> args;
      const Function *F = CB->getCalledFunction();
      if (F && F->isIntrinsic() && (F->getIntrinsicID() == Intrinsic::dbg_declare || F->getIntrinsicID() == Intrinsic::dbg_value ||
                                    F->getIntrinsicID() == Intrinsic::dbg_label || F->getIntrinsicID() == Intrinsic::dbg_assign)) {
        ++f.it;
        return CONT;
      }
      if (CB->isInlineAsm())
        throw Unsupported{"inline assembly"};
      for (auto &A : CB->args()) {
        if (A->getType()->isMetadataTy()) {
          args.push_back(Val());
          continue;
        }
        args.push_back(get(S, A));
      }
      if (!F) {
        Val c = get(S, CB->getCalledOperand());
        if (c.k == Val::PTR && c.und)
          throw Alarm{"indeterminate-value", "call through an indeterminate pointer"};
        if (c.k != Val::PTR)
          throw Unsupported{"call through an unknown pointer"};
        if (c.obj == 0)
          throw Alarm{"null-dereference", "call through a null pointer"};
        if (S.mem[c.obj]->k != Obj::FUNC)
          throw Alarm{"bad-call", "call through a pointer to " + objName(S, c.obj)};
        F = S.mem[c.obj]->fn;
      }
      // The iterator is advanced first: a return or an unwinding looks at the instruction before it.
      auto at = f.it;
      ++top(S).it;
      bool handled = false;
      try {
        Res r = modelCall(S, CB, F, args, handled);
        if (handled)
          return r;
      } catch (...) {
        if (!S.st.empty())
          top(S).it = at;
        throw;
      }
      if (F->isDeclaration()) {
        top(S).it = at;
        throw Unsupported{"call to a function without definition: " + demang(F->getName())};
      }
      enter(S, F, std::move(args));
      return CONT;
    }
    default: break;
    }
    evalInst(S, I);
    if (!dead)
      ++top(S).it;
    dead = false;
    return CONT;
  }
  bool dead = false;
  std::map<std::string, std::pair<u64, u64>> most; // work and stack measured

  void evalInst(State &S, const Instruction *I) {
    switch (I->getOpcode()) {
    case Instruction::Alloca: {
      auto *A = cast<AllocaInst>(I);
      u64 n = DL.getTypeAllocSize(A->getAllocatedType());
      if (A->isArrayAllocation())
        n *= constArg(S, get(S, A->getArraySize()), "array size");
      u32 o = newObj(S, Obj::STACK, n, A);
      Frame &f = top(S);
      f.allocas.push_back(o);
      f.v[I] = vptr(o, 0);
      if (S.metered)
        grow(S, n);
      return;
    }
    case Instruction::Load: {
      auto *L = cast<LoadInst>(I);
      Val p = get(S, L->getPointerOperand());
      u64 n = DL.getTypeStoreSize(L->getType());
      if (p.k == Val::PTR && p.und)
        throw Alarm{"indeterminate-value", "read through an indeterminate pointer"};
      if (p.k != Val::PTR) {
        set(S, I, topVal(L->getType()));
        return;
      }
      access(S, p, n, false, "read");
      aligned(S, p, L->getAlign().value(), "read");
      Val v = loadTy(S, p.obj, p.off, L->getType());
      if (auto *R = I->getMetadata(LLVMContext::MD_range)) {
        // only the form [lo,hi)
        if (R->getNumOperands() == 2 && v.k == Val::INT) {
          u64 lo = mdconst::extract<ConstantInt>(R->getOperand(0))->getZExtValue();
          u64 hi = mdconst::extract<ConstantInt>(R->getOperand(1))->getZExtValue();
          if (lo == 0) {
            Bits vb = bitsOf(S, v);
            if (!anyUndef(vb) && !anyTop(vb)) {
              CmpOut o = compare(S, CmpInst::ICMP_ULT, v, vconst(v.w, hi));
              if (o.res == 0)
                throw Alarm{"invalid-value", "an object of type bool holds a value which is neither true nor false"};
            }
            if (anyUndef(vb))
              throw Alarm{"indeterminate-value", "an object of type bool is read before it is written"};
          }
        }
      }
      set(S, I, v);
      return;
    }
    case Instruction::Store: {
      auto *T = cast<StoreInst>(I);
      Val p = get(S, T->getPointerOperand()), v = get(S, T->getValueOperand());
      Type *Ty = T->getValueOperand()->getType();
      if (p.k == Val::PTR && p.und)
        throw Alarm{"indeterminate-value", "write through an indeterminate pointer"};
      if (p.k != Val::PTR)
        throw Unsupported{"write through an unknown pointer"};
      access(S, p, DL.getTypeStoreSize(Ty), true, "write");
      aligned(S, p, T->getAlign().value(), "write");
      storeTy(S, p.obj, p.off, Ty, v);
      return;
    }
    case Instruction::GetElementPtr: {
      auto *G = cast<GetElementPtrInst>(I);
      Val p = get(S, G->getPointerOperand());
      if (p.k != Val::PTR) {
        set(S, I, p.k == Val::INT ? vptrtop() : p);
        return;
      }
      i64 off = p.off, lo = p.lo, hi = p.hi;
      Type *within = nullptr;
      for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
        Val ix = get(S, it.getOperand());
        if (within && lo == hi && within->isArrayTy() && within->getArrayNumElements()) {
          lo = off;
          hi = off + (i64)DL.getTypeAllocSize(within);
        }
        within = it.getIndexedType();
        if (StructType *ST = it.getStructTypeOrNull()) {
          off += (i64)DL.getStructLayout(ST)->getElementOffset(ix.c);
          continue;
        }
        ix = concretise(S, ix);
        if (!ix.isc) {
          set(S, I, vptrtop());
          return;
        }
        i64 k = (i64)(ix.c << (64 - ix.w)) >> (64 - ix.w);
        off += k * (i64)DL.getTypeAllocSize(it.getIndexedType());
      }
      Val r = p;
      r.off = off;
      r.lo = lo;
      r.hi = hi;
      set(S, I, r);
      return;
    }
    case Instruction::ICmp: {
      auto *C = cast<ICmpInst>(I);
      Val x = get(S, C->getOperand(0)), y = get(S, C->getOperand(1));
      CmpOut o = compare(S, C->getPredicate(), x, y);
      if (o.res != 2) {
        set(S, I, vconst(1, o.res));
        return;
      }
      if (o.haveTrue) {
        bool ne = C->getPredicate() == CmpInst::ICMP_NE;
        State T = S;
        forks++;
        bool feas = true;
        for (auto &p : o.known)
          feas &= applyKnown(T, p.first, p.second.first, p.second.second);
        if (feas) {
          set(T, I, vconst(1, !ne));
          ++top(T).it;
          work.push_back(std::move(T));
        }
        S.facts.push_back({bitsOf(S, x), bitsOf(S, y), CmpInst::ICMP_EQ, false});
        set(S, I, vconst(1, ne));
        return;
      }
      set(S, I, vfill(1, BTOP));
      return;
    }
    case Instruction::Select: {
      int r;
      Val a = get(S, I->getOperand(1)), b = get(S, I->getOperand(2));
      if (truth(S, get(S, I->getOperand(0)), r, I)) {
        set(S, I, r ? a : b);
        return;
      }
      if (a.k == Val::INT && b.k == Val::INT) {
        Bits x = bitsOf(S, a), y = bitsOf(S, b);
        for (unsigned i = 0; i < x.size(); i++)
          if (!(x[i] == y[i]))
            x[i] = kbit(BTOP);
        set(S, I, vbits(x));
        return;
      }
      // explore both
      State T = S;
      T.approx = S.approx = true;
      set(T, I, b);
      ++top(T).it;
      work.push_back(std::move(T));
      set(S, I, a);
      return;
    }
    case Instruction::Add:
    case Instruction::Sub:
    case Instruction::Mul: {
      auto *B = cast<BinaryOperator>(I);
      set(S, I, arith(S, B, I->getOpcode(), renorm(S, get(S, I->getOperand(0))), renorm(S, get(S, I->getOperand(1))),
                      cast<OverflowingBinaryOperator>(I)->hasNoSignedWrap()));
      return;
    }
    case Instruction::UDiv:
    case Instruction::SDiv:
    case Instruction::URem:
    case Instruction::SRem:
      set(S, I, divide(S, cast<BinaryOperator>(I), I->getOpcode(), get(S, I->getOperand(0)), get(S, I->getOperand(1))));
      return;
    case Instruction::And:
    case Instruction::Or:
    case Instruction::Xor:
      set(S, I, bitwise(S, I->getOpcode(), get(S, I->getOperand(0)), get(S, I->getOperand(1))));
      return;
    case Instruction::Shl:
    case Instruction::LShr:
    case Instruction::AShr: {
      Val x = renorm(S, get(S, I->getOperand(0))), k = concretise(S, get(S, I->getOperand(1)));
      unsigned w = x.w;
      if (x.k != Val::INT || !k.isc) {
        set(S, I, vfill(w, BTOP));
        return;
      }
      if (k.c >= w)
        throw Alarm{"bad-shift", "shift of a " + std::to_string(w) + "-bit value by " + std::to_string(k.c)};
      Bits a = bitsOf(S, x), r(w);
      for (unsigned j = 0; j < w; j++) {
        if (I->getOpcode() == Instruction::Shl)
          r[j] = j >= k.c ? a[j - k.c] : cbit(0);
        else
          r[j] = j + k.c < w ? a[j + k.c] : (I->getOpcode() == Instruction::AShr ? a[w - 1] : cbit(0));
      }
      set(S, I, vbits(r));
      return;
    }
    case Instruction::ZExt:
    case Instruction::SExt:
    case Instruction::Trunc: {
      Val x = get(S, I->getOperand(0));
      unsigned w = I->getType()->getIntegerBitWidth();
      if (x.k != Val::INT) {
        set(S, I, x.k == Val::PTR && w == 64 ? x : vfill(w, BTOP));
        return;
      }
      Bits a = bitsOf(S, x);
      Bit s = I->getOpcode() == Instruction::SExt ? a.back() : cbit(0);
      a.resize(w, s);
      set(S, I, vbits(a));
      return;
    }
    case Instruction::PtrToInt: {
      Val x = get(S, I->getOperand(0));
      unsigned w = I->getType()->getIntegerBitWidth();
      if (x.k == Val::PTR && x.obj == 0 && !x.und)
        set(S, I, vconst(w, (u64)x.off));
      else
        set(S, I, w == DL.getPointerSizeInBits() ? x : vfill(w, BTOP));
      return;
    }
    case Instruction::IntToPtr: {
      Val x = renorm(S, get(S, I->getOperand(0)));
      if (x.k == Val::INT && x.isc)
        set(S, I, vptr(0, (i64)x.c));
      else if (x.k == Val::INT)
        set(S, I, vptrtop());
      else
        set(S, I, x);
      return;
    }
    case Instruction::BitCast:
    case Instruction::AddrSpaceCast:
    case Instruction::Freeze: set(S, I, get(S, I->getOperand(0))); return;
    case Instruction::ExtractValue: {
      auto *E = cast<ExtractValueInst>(I);
      Val v = get(S, E->getAggregateOperand());
      for (unsigned i : E->indices()) {
        Val n = (*v.agg)[i];
        v = n;
      }
      set(S, I, v);
      return;
    }
    case Instruction::InsertValue: {
      auto *E = cast<InsertValueInst>(I);
      Val v = get(S, E->getAggregateOperand()), x = get(S, E->getInsertedValueOperand());
      std::function<void(Val &, unsigned)> ins = [&](Val &t, unsigned d) {
        t.agg = std::make_shared<std::vector<Val>>(*t.agg);
        if (d + 1 == E->getNumIndices())
          (*t.agg)[E->getIndices()[d]] = x;
        else
          ins((*t.agg)[E->getIndices()[d]], d + 1);
      };
      ins(v, 0);
      set(S, I, v);
      return;
    }
    case Instruction::Fence: return;
    case Instruction::AtomicRMW: {
      auto *R = cast<AtomicRMWInst>(I);
      Val p = get(S, R->getPointerOperand()), v = get(S, R->getValOperand());
      if (p.k != Val::PTR)
        throw Unsupported{"atomic operation through an unknown pointer"};
      access(S, p, DL.getTypeStoreSize(v.k == Val::INT ? R->getType() : R->getType()), true, "atomic access");
      Val old = loadTy(S, p.obj, p.off, R->getType()), nv;
      switch (R->getOperation()) {
      case AtomicRMWInst::Xchg: nv = v; break;
      case AtomicRMWInst::Add: nv = arith(S, nullptr, Instruction::Add, old, v, false); break;
      case AtomicRMWInst::Sub: nv = arith(S, nullptr, Instruction::Sub, old, v, false); break;
      default: nv = topVal(R->getType());
      }
      storeTy(S, p.obj, p.off, R->getType(), nv);
      set(S, I, old);
      return;
    }
    case Instruction::FCmp: set(S, I, vfill(1, BTOP)); return;
    case Instruction::FAdd:
    case Instruction::FSub:
    case Instruction::FMul:
    case Instruction::FDiv:
    case Instruction::FNeg:
    case Instruction::FPToUI:
    case Instruction::FPToSI:
    case Instruction::UIToFP:
    case Instruction::SIToFP:
    case Instruction::FPExt:
    case Instruction::FPTrunc: set(S, I, topVal(I->getType())); return;
    default: throw Unsupported{std::string("instruction ") + I->getOpcodeName()};
    }
  }

  void run(State S) {
    work.push_back(std::move(S));
    while (!work.empty() || !later.empty()) {
      if (work.empty()) {
        work.push_back(std::move(later.front()));
        later.pop_front();
      }
      State T = std::move(work.back());
      work.pop_back();
      states++;
      bool go = true;
      while (go) {
        if (++steps > maxSteps || states > maxStates ||
            ((steps & 4095) == 0 &&
             std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > maxSecs)) {
          incomplete = true;
          incompleteWhy = "budget exhausted";
          work.clear();
          later.clear();
          return;
        }
        const Instruction *I = &*T.st.back()->it;
        try {
          if (T.metered && !isWitness(T.st.back()->f) && ++T.work > T.workMax)
            throw Alarm{"unbounded-work", "more than " + std::to_string(T.workMax) + " instructions are executed to process one byte"};
          go = stepInst(T) == CONT;
          T.wrapAt = nullptr;
        } catch (Split &sp) {
          forks++;
          // refine the partition and retry the instruction in each cell
          State base = std::move(T);
          go = false;
          for (unsigned k = sp.pieces.size(); k-- > 0;) {
            State U = base;
            Sym &s = U.syms[sp.sym];
            s.lo = sp.pieces[k].first;
            s.hi = sp.pieces[k].second;
            if (!tighten(s))
              continue;
            work.push_back(std::move(U));
          }
        } catch (SplitBit &sb) {
          forks++;
          State base = std::move(T);
          go = false;
          for (int v = 0; v < 2; v++) {
            State U = base;
            if (applyKnown(U, sb.sym, 1ull << sb.i, (u64)v << sb.i))
              work.push_back(std::move(U));
          }
        } catch (Alarm &al) {
          raise(T, al, I);
          go = false;
          if (al.kind == "signed-overflow" && T.wrapAt != I && isa<BinaryOperator>(I) && I->getOpcode() != Instruction::SDiv &&
              I->getOpcode() != Instruction::SRem) {
            T.wrapAt = I;
            go = true;
            continue;
          }
        } catch (Unsupported &u) {
          if (!incomplete)
            incompleteWhy = u.msg + " at " + locOf(I) + " in " + shortFn(T.st.back()->f);
          incomplete = true;
          go = false;
        }
      }
    }
  }

  void analyse(const Function *F) {
    t0 = std::chrono::steady_clock::now();
    entry = F->getName().str();
    State S = init;
    enter(S, F, {});
    run(std::move(S));
  }
};

int main(int argc, char **argv) {
  std::string file, repo = "/repo", only, prefix = "prop_";
  double secs = 400;
  bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--repo")
      repo = argv[++i];
    else if (a == "--entry")
      only = argv[++i];
    else if (a == "--prefix")
      prefix = argv[++i];
    else if (a == "--secs")
      secs = atof(argv[++i]);
    else if (a == "--list")
      list = true;
    else
      file = a;
  }
  LLVMContext C;
  SMDiagnostic E;
  auto M = parseIRFile(file, E, C);
  if (!M) {
    E.print("va", errs());
    return 2;
  }
  std::vector<const Function *> entries;
  for (auto &F : *M)
    if (!F.isDeclaration() && F.getName().starts_with(prefix) && (only.empty() || F.getName() == only))
      entries.push_back(&F);
  if (list) {
    for (auto *F : entries)
      outs() << F->getName() << "\n";
    return 0;
  }
  // static initialisers
  Analyser base(*M, repo);
  base.setupGlobals();
  if (auto *G = M->getGlobalVariable("llvm.global_ctors")) {
    if (auto *A = dyn_cast<ConstantArray>(G->getInitializer()))
      for (auto &op : A->operands()) {
        auto *f = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts());
        if (!f)
          continue;
        // straight-line initialisers only; the state after them is the initial state of the entries
        State S = base.init;
        base.entry = "static-init";
        base.t0 = std::chrono::steady_clock::now();
        base.enter(S, f, {});
        bool ok = true;
        std::string why;
        try {
          while (!S.st.empty()) {
            if (++base.steps > 5000000)
              throw Unsupported{"static initialiser too long"};
            if (base.stepInst(S) == Analyser::DONE)
              break;
          }
        } catch (Alarm &a) {
          ok = false;
          why = a.msg;
        } catch (Unsupported &u) {
          ok = false;
          why = u.msg;
        } catch (Split &) {
          ok = false;
          why = "split";
        } catch (SplitBit &) {
          ok = false;
          why = "split";
        }
        if (!ok || !base.work.empty()) {
          outs() << "{\"kind\":\"error\",\"msg\":\"static initialiser: " << jesc(why) << "\"}\n";
          return 3;
        }
        base.init = S;
      }
  }
  unsigned exhausted = 0; // after two entries which do not end, the next ones get less time
  for (auto *F : entries) {
    Analyser A(*M, repo);
    A.gobj = base.gobj;
    A.init = base.init;
    A.maxSecs = exhausted < 2 ? secs : std::min(secs, 10.);
    A.analyse(F);
    exhausted += A.incomplete && A.incompleteWhy == "budget exhausted";
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - A.t0).count();
    u64 libf = 0, libi = 0;
    std::string fl;
    for (auto *f : A.analysed)
      if (A.inLib(f)) {
        libf++;
        libi += A.ninst[f];
      }
    for (auto &p : A.most)
      A.ob[p.first].detail = std::to_string(p.second.first) + " instructions and " + std::to_string(p.second.second) + " bytes of stack at most" +
                             (A.ob[p.first].detail.empty() ? "" : "; ") + A.ob[p.first].detail;
    for (auto &p : A.ob) {
      auto &o = p.second;
      const char *st = o.refuted ? "REFUTED" : (o.unknown || A.incomplete) ? "UNKNOWN" : "PROVED";
      outs() << "{\"kind\":\"obligation\",\"entry\":\"" << jesc(o.entry) << "\",\"id\":\"" << jesc(o.id) << "\",\"status\":\"" << st
             << "\",\"proved\":" << o.proved << ",\"refuted\":" << o.refuted << ",\"unknown\":" << o.unknown << ",\"detail\":\""
             << jesc(o.detail) << "\",\"loc\":\"" << jesc(o.loc) << "\",\"path\":[";
      bool first = true;
      for (auto &s : o.path) {
        outs() << (first ? "" : ",") << "\"" << jesc(s) << "\"";
        first = false;
      }
      outs() << "]}\n";
    }
    outs() << "{\"kind\":\"entry\",\"entry\":\"" << jesc(A.entry) << "\",\"states\":" << A.states << ",\"steps\":" << A.steps
           << ",\"forks\":" << A.forks << ",\"joined\":" << A.joined << ",\"functions\":" << A.analysed.size()
           << ",\"lib_functions\":" << libf << ",\"lib_instructions\":" << libi << ",\"incomplete\":" << (A.incomplete ? "true" : "false")
           << ",\"why\":\"" << jesc(A.incompleteWhy) << "\",\"safety\":\""
           << (A.ob.count("safety") ? (A.ob["safety"].refuted ? "REFUTED" : "UNKNOWN") : A.incomplete ? "UNKNOWN" : "PROVED")
           << "\",\"secs\":" << format("%.2f", dt) << ",\"libs\":[";
    bool first = true;
    std::set<std::string> names;
    for (auto *f : A.analysed)
      if (A.inLib(f)) {
        auto *SP = f->getSubprogram();
        StringRef fn = SP->getFilename();
        auto pos = fn.rfind("upd/");
        names.insert((SP->getName() + "@" + (pos == StringRef::npos ? fn : fn.substr(pos)) + ":" + Twine(SP->getLine())).str());
      }
    for (auto &s : names) {
      outs() << (first ? "" : ",") << "\"" << jesc(s) << "\"";
      first = false;
    }
    outs() << "]}\n";
    outs().flush();
    g_forms.shrink_to_fit();
  }
  return 0;
}
