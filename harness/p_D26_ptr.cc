#include "d26.h"
#include <dart/support/ptrs.h>

// The nodes of each family log their destruction and own others of the family.
template <class F> struct Node;
template <class T> struct Fixed { // never allocates
  T v[400]; int n = 0;
  T* begin() { return v; } T* end() { return v + n; } bool empty() const { return !n; } void clear() { n = 0; }
  void push_back(T t) { v[n++] = t; if (n == 400) abort(); }
  void erase(T* at) { std::copy(at + 1, end(), at); n--; }
  bool operator ==(Fixed const& o) const { return std::equal(v, v + n, o.v, o.v + o.n); }
};
template <class F> struct Log { static Fixed<int>& gone() { static Fixed<int> g; return g; } static Fixed<Node<F>*>& live() { static Fixed<Node<F>*> l; return l; } };
template <class F> struct Node {
  int id; typename F::template ptr<Node<F>> next;
  Node(int i) : id(i) { Log<F>::live().push_back(this); }
  virtual ~Node() { Log<F>::gone().push_back(id); auto& l = Log<F>::live(); auto at = std::find(l.begin(), l.end(), this); if (at == l.end()) eng::fail(__FILE__, __LINE__, "lifetime", "a node was destroyed twice"); l.erase(at); id = -1; }
};
template <class F> struct Derived : Node<F> { std::string more; Derived(int i) : Node<F>(i), more(30, 'x') {} ~Derived() { Log<F>::gone().push_back(1000 + this->id); } };
template <class F> struct Del { int tag; template <class T> void operator ()(T* p) { Log<F>::gone().push_back(2000 + tag); delete p; } };
template <class F, class T> static void plain(T* p) { Log<F>::gone().push_back(3000); delete p; }

struct Std { template <class T> using ptr = std::shared_ptr<T>; static constexpr bool counted = true; template <class T> static auto make(int i) { return std::make_shared<T>(i); } static char const* name() { return "standard"; } };
struct Uns { template <class T> using ptr = dart::unsafe_ptr<T>; static constexpr bool counted = true; template <class T> static auto make(int i) { return dart::make_unsafe<T>(i); } static char const* name() { return "unsafe_ptr"; } };
struct Ski { template <class T> using ptr = dart::skinny_ptr<T>; static constexpr bool counted = true; template <class T> static auto make(int i) { return dart::make_skinny<T>(i); } static char const* name() { return "skinny_ptr"; } };
struct ShS { template <class T> using raw = std::shared_ptr<T>; template <class T> using ptr = dart::shareable_ptr<std::shared_ptr<T>>; static constexpr bool counted = false; template <class T> static auto make(int i) { return dart::make_shareable<std::shared_ptr<T>>(i); } static char const* name() { return "shareable_ptr"; } };
struct ShU { template <class T> using raw = dart::unsafe_ptr<T>; template <class T> using ptr = dart::shareable_ptr<dart::unsafe_ptr<T>>; static constexpr bool counted = false; template <class T> static auto make(int i) { return dart::make_shareable<dart::unsafe_ptr<T>>(i); } static char const* name() { return "shareable_ptr of unsafe_ptr"; } };

template <class F, class G> static void pool(Src& s) {
  constexpr bool both_counted = G::counted;
  std::string log;
  { typename F::template ptr<Node<F>> f[4]; typename G::template ptr<Node<G>> g[4];
    Log<F>::gone().clear(); Log<G>::gone().clear();
    int ids = 1;
    unsigned n = 1 + s.draw(12);
    for (unsigned k = 0; k < n; k++) {
      unsigned i = s.draw(4), j = s.draw(4), op = s.draw(27); int id = ids++;
      eng::u64 fault = s.draw(6) == 5 ? 1 : 0;
      std::string a = "ok", b = "ok", ra, rb; char const* name = "";
      auto run = [&](auto f, std::string& out) { if (fault) eng::fault_arm(fault); try { f(); } catch (std::bad_alloc&) { out = "out of memory"; } catch (std::exception const& e) { out = e.what(); } eng::fault_disarm(); };
      auto go = [&](auto fn) { run([&] { fn(f, ra, F()); }, a); run([&] { fn(g, rb, G()); }, b); };
#define OP(n, ...) case n: name = #__VA_ARGS__; go([&](auto& p, std::string& r, auto fam) { using A = decltype(fam); using N = Node<A>; using P = typename A::template ptr<N>; using X = Derived<A>; __VA_ARGS__; }); break;
#define RAW(...) { eng::fault_disarm(); __VA_ARGS__; if (fault) eng::fault_arm(fault); }
      switch (op) {
        OP(0, N* q; RAW(q = new N(id)) p[i] = P(q))
        OP(1, N* q; RAW(q = new N(id)) P t(q, Del<A> {id}); p[i] = t)
        OP(2, N* q; RAW(q = new N(id)) Del<A> d {id}; P t(q, d); p[i] = std::move(t))
        OP(3, N* q; RAW(q = new N(id)) P t(q, &plain<A, N>); p[i] = t)
        OP(4, std::unique_ptr<N> u; RAW(u.reset(new N(id))) try { P t(std::move(u)); p[i] = t; } catch (...) { if (both_counted) r = u ? "kept" : "gone"; u.reset(); throw; } r = u ? "kept" : "gone")
        OP(5, std::unique_ptr<N, Del<A>> u; RAW(u = std::unique_ptr<N, Del<A>>(new N(id), Del<A> {id})) try { p[i] = std::move(u); } catch (...) { if (both_counted) r = u ? "kept" : "gone"; u.reset(); throw; } r = u ? "kept" : "gone")
        OP(6, p[i] = p[j])
        OP(7, if (i != j || s.pos == 0 || true) p[i] = std::move(p[j]))
        OP(8, P t(p[j]); r = std::to_string(t.use_count()))
        OP(9, P t(std::move(p[j])); r = std::to_string(t.use_count()); p[i] = t)
        OP(10, if (p[i]) p[i] = p[i]->next)
        OP(11, if (p[i]) p[i] = std::move(p[i]->next))
        OP(12, if (p[i]) p[i]->next = p[j])
        OP(13, if (p[i]) p[i]->next = std::move(p[j]))
        OP(14, p[i].reset())
        OP(15, std::swap(p[i], p[j]))
        OP(16, p[i] = nullptr)
        OP(17, if (p[i] && p[i]->next) { p[j] = p[i]->next; p[i]->next.reset(); })
        OP(18, eng::fault_disarm(); p[i] = A::template make<N>(id))
        OP(19, N* q = nullptr; P t(q); r = std::to_string(t.use_count()) + (t ? "set" : "null") + (t == p[i] ? "=" : "!"); p[i] = t)
        OP(20, std::unique_ptr<N> u; if constexpr (A::counted && both_counted) { P t(std::move(u)); r = std::to_string(t.use_count()) + (t ? "set" : "null"); p[i] = t; })
        OP(21, if constexpr (A::counted) { N* q; RAW(q = new N(id)) p[i].reset(q); } else { N* q; RAW(q = new N(id)) p[i] = P(q); })
        OP(22, if constexpr (A::counted) { N* q; RAW(q = new N(id)) p[i].reset(q, Del<A> {id}); } else { N* q; RAW(q = new N(id)) p[i] = P(q, Del<A> {id}); })
        OP(23, if constexpr (both_counted) { X* q; RAW(q = new X(id)) typename A::template ptr<X> t(q); p[i] = t; p[j] = std::move(t); r = t ? "kept" : "moved"; } else { N* q; RAW(q = new N(id)) p[i] = P(q); p[j] = p[i]; })
        OP(24, if constexpr (both_counted) { X* q; RAW(q = new X(id)) typename A::template ptr<X> t(q); P u(t); P v(std::move(t)); r = std::to_string(u.use_count()) + (t ? "kept" : "moved"); p[i] = u; } else { N* q; RAW(q = new N(id)) p[i] = P(q); })
        OP(25, if constexpr (both_counted) { std::unique_ptr<X, Del<A>> u; RAW(u = std::unique_ptr<X, Del<A>>(new X(id), Del<A> {id})) p[i] = std::move(u); })
        OP(26, if constexpr (both_counted) { typename A::template ptr<N const> c = p[i]; typename A::template ptr<N const> e; e = p[j]; e = std::move(p[j]); r = std::to_string(c.use_count()) + "," + std::to_string(e.use_count()) + (c == e ? "=" : "!"); } else { P c = p[i]; P e; e = p[j]; p[j] = nullptr; r = std::to_string(c.use_count()) + "," + std::to_string(e.use_count()) + (c == e ? "=" : "!"); })
      }
#undef OP
      log += std::string(name) + " i=" + std::to_string(i) + " j=" + std::to_string(j) + (fault ? " without memory" : "") + "; ";
      auto w = [&] { return std::string(" after ") + log; };
      auto list = [](auto& v) { std::string r; for (int x : v) r += std::to_string(x) + " "; return r; };
      if (a != "ok") s.label("a failing allocation");
      CHECK(a == b, std::string(G::name()) + ": " + b + " and the standard one " + a + w());
      CHECK(ra == rb, std::string(G::name()) + ": result " + rb + " and the standard one's " + ra + w());
      CHECK(Log<F>::gone() == Log<G>::gone(), std::string(G::name()) + ": destroyed " + list(Log<G>::gone()) + " and the standard one " + list(Log<F>::gone()) + w());
      for (int q = 0; q < 4; q++) {
        auto h = [&] { return " of pointer " + std::to_string(q) + w(); };
        CHECK((bool)f[q] == (bool)g[q] && (bool)g[q] == (g[q].get() != nullptr), "null" + h());
        CHECK((int64_t)f[q].use_count() == (int64_t)g[q].use_count(), "use count " + std::to_string(g[q].use_count()) + " want " + std::to_string(f[q].use_count()) + h());
        CHECK(g[q].unique() == (f[q].use_count() == 1), "unique" + h());
        if (f[q]) { CHECK(f[q]->id == g[q]->id && (*g[q]).id == f[q]->id && g[q].get() == &*g[q], "target" + h()); s.nontrivial(); }
        for (int p = 0; p < 4; p++) {
          CHECK((f[q] == f[p]) == (g[q] == g[p]) && (f[q] != f[p]) == (g[q] != g[p]), "equality" + h());
          CHECK((g[q] < g[p]) + (g[q] == g[p]) + (g[q] > g[p]) == 1 && (g[q] <= g[p]) == !(g[q] > g[p]) && (g[q] >= g[p]) == !(g[q] < g[p]), "order" + h());
        }
      }
      if constexpr (!both_counted) { // in and out of the wrapped pointer
        typename G::template raw<Node<G>> raw; auto count = g[i].use_count();
        g[i].share(raw); CHECK(raw.get() == g[i].get() && (int64_t)raw.use_count() == (int64_t)g[i].use_count() && g[i].use_count() == (count ? count + 1 : 0), "share" + w());
        CHECK(g[i].raw().get() == g[i].get(), "raw");
        std::move(g[i]).transfer(raw); CHECK((int64_t)raw.use_count() == count && !g[i], "transfer" + w());
        if (s.flip()) g[i] = raw; else g[i] = std::move(raw);
      }
    }
    NOTE(std::string(G::name()) + ": " + log);
    // Leave in some order, having broken the cycles.
    for (auto* q : Fixed<Node<F>*>(Log<F>::live())) { if (std::count(Log<F>::live().begin(), Log<F>::live().end(), q)) { typename F::template ptr<Node<F>> keep = nullptr; std::swap(keep, q->next); } }
    for (auto* q : Fixed<Node<G>*>(Log<G>::live())) { if (std::count(Log<G>::live().begin(), Log<G>::live().end(), q)) { typename G::template ptr<Node<G>> keep = nullptr; std::swap(keep, q->next); } }
  }
  CHECK(Log<G>::live().empty() && Log<F>::live().empty(), std::string(G::name()) + " leaks after " + log);
}

struct Cnt { static int& live() { static int l = 0; return l; } int v; Cnt() : v(++live()) {} ~Cnt() { live()--; } };

template <template <class> class P> static void arrays(Src& s, P<Cnt[]> (*make)(size_t)) {
  size_t n = s.draw(6);
  { P<Cnt[]> a(new Cnt[n]); CHECK(Cnt::live() == (int)n, "array"); for (size_t i = 0; i < n; i++) CHECK(a[i].v == (int)i + 1 && &a[i] == a.get() + i, "element");
    P<Cnt[]> b = a, c; c = b; CHECK(a.use_count() == 3 && c.get() == a.get() && c == a, "shared"); a.reset(); b = std::move(c); CHECK(b.unique() && !c && Cnt::live() == (int)n, "left");
    std::unique_ptr<Cnt[]> u(new Cnt[1]); P<Cnt[]> d(std::move(u)); CHECK(!u && d.unique(), "from a unique pointer"); b = std::move(d); CHECK(Cnt::live() == 1, "replaced");
    auto m = make(n); CHECK(Cnt::live() == (int)n + 1 && m.unique(), "made");
  }
  CHECK(Cnt::live() == 0, "an array of objects must be released whole");
  s.nontrivial();
}
static dart::unsafe_ptr<Cnt[]> mu(size_t n) { return dart::make_unsafe<Cnt[]>(n); }
static dart::skinny_ptr<Cnt[]> ms(size_t n) { return dart::make_skinny<Cnt[]>(n); }

// Views follow the handle they refer to.
template <template <class> class RC> static void views(Src& s) {
  using VP = typename dart::view_ptr_context<RC>::template view_ptr<int>;
  { RC<int> own[3]; VP v[3]; int at[3] = {-1, -1, -1};
    std::string log;
    for (unsigned k = 1 + s.draw(10); k--;) {
      unsigned i = s.draw(3), j = s.draw(3), op = s.draw(9); log += std::to_string(op) + "," + std::to_string(i) + "," + std::to_string(j) + "; ";
      switch (op) {
        case 0: own[i] = RC<int>(new int(k)); break;
        case 1: own[i] = own[j]; break;
        case 2: own[i].reset(); break;
        case 3: v[i] = own[j]; at[i] = j; break;
        case 4: { VP t(own[j]); v[i] = t; at[i] = j; break; }
        case 5: v[i] = v[j]; at[i] = at[j]; break;
        case 6: v[i] = std::move(v[j]); { int t = at[j]; at[j] = -1; at[i] = t; } break;
        case 7: v[i].reset(); at[i] = -1; break;
        case 8: { VP t(v[j]); VP u(std::move(t)); CHECK(!t && u == v[j], "moved view"); v[i] = u; at[i] = at[j]; break; }
      }
      s.nontrivial();
      for (int q = 0; q < 3; q++) {
        int* want = at[q] < 0 ? nullptr : own[at[q]].get();
        CHECK(v[q].get() == want && (bool)v[q] == (want != nullptr), "view target after " + log);
        if (want) CHECK(&*v[q] == want && v[q].operator ->() == want && &v[q].raw() == &own[at[q]], "view dereference after " + log);
        CHECK(v[q].use_count() == (at[q] < 0 ? 0 : own[at[q]] ? (size_t)own[at[q]].use_count() : 1), "view count after " + log);
        for (int p = 0; p < 3; p++) CHECK((v[q] == v[p]) == (v[q].get() == v[p].get()) && (v[q] < v[p]) == (v[q].get() < v[p].get()) && (v[q] != v[p]) == (v[q].get() != v[p].get()) && (v[q] <= v[p]) == (v[q].get() <= v[p].get()) && (v[q] > v[p]) == (v[q].get() > v[p].get()) && (v[q] >= v[p]) == (v[q].get() >= v[p].get()), "view order after " + log);
      }
    }
    THROWS(std::logic_error, VP((int*)nullptr), "a view of an owning pointer");
  }
}

void d26_ptr(Src& s) {
  switch (s.weigh({3, 2, 3, 2, 1, 1, 1, 1})) {
    case 0: s.label("unsafe_ptr"); return pool<Std, Uns>(s);
    case 1: s.label("skinny_ptr"); return pool<Std, Ski>(s);
    case 2: s.label("shareable_ptr"); return pool<Std, ShS>(s);
    case 3: s.label("shareable unsafe_ptr"); return pool<Std, ShU>(s);
    case 4: s.label("arrays"); return arrays<dart::unsafe_ptr>(s, mu);
    case 5: s.label("arrays"); return arrays<dart::skinny_ptr>(s, ms);
    case 6: s.label("view_ptr"); return views<std::shared_ptr>(s);
    default: s.label("view_ptr"); return views<dart::unsafe_ptr>(s);
  }
}

struct First { int a = 1; virtual ~First() {} };
struct Second { int b = 2; virtual ~Second() {} };
struct Both_ : First, Second { int c = 3; };

// Converting to a base that is not at the start of the object.
template <template <class> class P> static void second_base() {
  Both_* raw = new Both_;
  P<Both_> p(raw); P<Second> q(p);
  CHECK(q.get() == static_cast<Second*>(raw), "a pointer to an object converts to a pointer to its second base");
}
void d26_probe_unsafe() { second_base<dart::unsafe_ptr>(); }
void d26_probe_skinny() { second_base<dart::skinny_ptr>(); }

struct Out { int v; explicit Out(int x) : v(x) {} Out& operator =(int x) { v = x + 1000; return *this; } };

void d26_once() {
  // Assignment from an optional of another type assigns where there is a value, and constructs where there is none.
  { dart::optional<Out> d; std::optional<Out> e; dart::optional<int> x = 4; std::optional<int> y = 4;
    d = x; e = y; CHECK(d->v == e->v, "first"); d = x; e = y; CHECK(d->v == e->v && d->v == 1004, "second"); x = dart::nullopt; d = x; CHECK(!d, "nothing"); }
  { std::shared_ptr<int> p; dart::string_view v; std::ostringstream o; o << v << dart::string_view("ab\0cd", 3); CHECK(o.str() == std::string("ab\0", 3), "text"); }
}
