// C06: random access iterator algebra over every buffer state.
#include <algorithm>
#include <functional>
#include <iterator>
#include <numeric>
#include <string>
#include <vector>

#include "cb_rig.h"

template <class T>
using CB = circular_buffer_adapter<T>;

template <class It>
static It nth_by_steps(It it, long n) {
  while (n-- > 0) ++it;
  return it;
}

template <class T, class It>
static void laws(CB<T> const& b, It first, It last, std::vector<T*> const& elem, const char* kind) {
  const long n = static_cast<long>(elem.size());
  using TT = std::iterator_traits<It>;
  static_assert(std::is_same<typename TT::iterator_category, std::random_access_iterator_tag>::value, "category");
  static_assert(std::is_same<typename TT::value_type, T>::value, "value_type");
  static_assert(std::is_convertible<typename TT::difference_type, long>::value, "difference_type");
  V_CHECK(last - first == n, "distance", "%s: end-begin is %ld, expected %ld", kind, (long)(last - first), n);
  V_CHECK((first == last) == (n == 0), "begin-end", "%s: begin==end wrong at size %ld", kind, n);
  std::vector<It> pos;
  for (long i = 0; i <= n; ++i) {
    It by_plus = first + i;
    It by_minus = last - (n - i);
    It by_npl = i + first;
    It by_eq = first;
    by_eq += i;
    It by_eq2 = last;
    by_eq2 -= (n - i);
    It by_neg = last;
    by_neg += -(n - i);
    It by_neg2 = first;
    by_neg2 -= -i;
    It by_neg3 = last + -(n - i);
    It by_neg4 = first - -i;
    It by_steps = nth_by_steps(first, i);
    It by_down = last;
    for (long k = n; k > i; --k) --by_down;
    It all[] = {by_plus, by_minus, by_npl, by_eq, by_eq2, by_neg, by_neg2, by_neg3, by_neg4, by_steps, by_down};
    const char* nm[] = {"b+i", "e-k", "i+b", "+=", "-=", "+=neg", "-=neg", "e+neg", "b-neg", "++", "--"};
    for (int k = 0; k < 11; ++k) {
      V_CHECK(all[k] == by_plus && !(all[k] != by_plus), "same-position", "%s: %s and b+i differ at position %ld of %ld", kind, nm[k], i, n);
      V_CHECK(all[k] - first == i, "difference", "%s: %s - begin is %ld, expected %ld", kind, nm[k], (long)(all[k] - first), i);
      V_CHECK(last - all[k] == n - i, "difference-end", "%s: end - %s is %ld, expected %ld", kind, nm[k], (long)(last - all[k]), n - i);
      if (i < n) {
        V_CHECK(&*all[k] == elem[static_cast<size_t>(i)], "dereference", "%s: %s at %ld refers to the wrong element", kind, nm[k], i);
        V_CHECK(std::addressof(*(all[k].operator->())) == elem[static_cast<size_t>(i)], "arrow", "%s: -> at %ld refers to the wrong element", kind, i);
      }
    }
    pos.push_back(by_plus);
  }
  for (long i = 0; i <= n; ++i) {
    for (long j = 0; j <= n; ++j) {
      It const& a = pos[static_cast<size_t>(i)];
      It const& c = pos[static_cast<size_t>(j)];
      V_CHECK((a == c) == (i == j) && (a != c) == (i != j), "equality", "%s: == or != wrong for %ld,%ld of %ld", kind, i, j, n);
      V_CHECK((a < c) == (i < j), "less", "%s: < wrong for %ld,%ld of %ld", kind, i, j, n);
      V_CHECK((a > c) == (i > j), "greater", "%s: > wrong for %ld,%ld of %ld", kind, i, j, n);
      V_CHECK((a <= c) == (i <= j), "less-equal", "%s: <= wrong for %ld,%ld of %ld", kind, i, j, n);
      V_CHECK((a >= c) == (i >= j), "greater-equal", "%s: >= wrong for %ld,%ld of %ld", kind, i, j, n);
      V_CHECK(c - a == j - i, "pair-difference", "%s: difference %ld..%ld is %ld", kind, i, j, (long)(c - a));
      It d = a;
      d += j - i;
      V_CHECK(d == c, "pair-advance", "%s: advancing %ld by %ld of %ld", kind, i, j - i, n);
      It e = a + (j - i);
      It f = a - (i - j);
      V_CHECK(e == c && f == c, "pair-plus", "%s: %ld + %ld of %ld", kind, i, j - i, n);
      if (j < n) V_CHECK(&a[j - i] == elem[static_cast<size_t>(j)], "subscript", "%s: it(%ld)[%ld] of %ld wrong", kind, i, j - i, n);
      It g2 = a;
      It h = c;
      std::swap(g2, h);
      V_CHECK(g2 == c && h == a, "swap", "%s: swap of iterators", kind);
      V_COUNT("position_pairs");
    }
    It x = pos[static_cast<size_t>(i)];
    if (i < n) {
      It o = x++;
      V_CHECK(o == pos[static_cast<size_t>(i)] && x == pos[static_cast<size_t>(i) + 1], "post-increment", "%s at %ld of %ld", kind, i, n);
      It& rr = ++(o);
      V_CHECK(&rr == &o && o == x, "pre-increment", "%s at %ld", kind, i);
    }
    x = pos[static_cast<size_t>(i)];
    if (i > 0) {
      It o = x--;
      V_CHECK(o == pos[static_cast<size_t>(i)] && x == pos[static_cast<size_t>(i) - 1], "post-decrement", "%s at %ld of %ld", kind, i, n);
      It& rr = --o;
      V_CHECK(&rr == &o && o == x, "pre-decrement", "%s at %ld", kind, i);
    }
    It cp(pos[static_cast<size_t>(i)]);
    It as;
    as = cp;
    It mv(std::move(cp));
    V_CHECK(as == mv && mv == pos[static_cast<size_t>(i)], "copy", "%s: copy/assign/move of iterators", kind);
    It zero = mv;
    zero += 0;
    zero -= 0;
    V_CHECK(zero == mv && zero + 0 == mv && zero - 0 == mv, "zero", "%s: advancing by zero", kind);
  }
  (void)b;
}

template <class T>
static void one_state(T* mem, size_t cap, size_t first, size_t count) {
  CB<T> b(mem, cap, first, count);
  std::vector<T*> elem, relem;
  for (size_t i = 0; i < count; ++i) elem.push_back(mem + (first + i) % cap);
  relem.assign(elem.rbegin(), elem.rend());
  v::at("%s cap=%zu first=%zu count=%zu", type_name<T>(), cap, first, count);
  laws<T>(b, b.begin(), b.end(), elem, "iterator");
  std::vector<T*> celem = elem;
  {
    // const iterators: same laws through pointers to const
    typename CB<T>::const_iterator cf = b.cbegin(), cl = b.cend();
    const long n = static_cast<long>(count);
    for (long i = 0; i <= n; ++i) {
      auto it = b.begin() + i;
      typename CB<T>::const_iterator ci = it;  // conversion
      auto cj = cf + i;
      V_CHECK(ci == cj && it == cj && cj == it && !(ci != cj) && !(it != cj), "mixed-equality", "position %ld of %ld: converted, const and mutable iterators differ", i, n);
      if (i < n) {
        V_CHECK(&*ci == elem[static_cast<size_t>(i)] && &*cj == elem[static_cast<size_t>(i)] && ci.operator->() == elem[static_cast<size_t>(i)], "const-dereference", "const iterator at %ld", i);
        V_CHECK(b.raw_index(it) == (first + static_cast<size_t>(i)) % cap && b.raw_index(ci) == (first + static_cast<size_t>(i)) % cap, "raw_index", "raw_index of position %ld is %zu, expected %zu", i, (size_t)b.raw_index(it), (first + static_cast<size_t>(i)) % cap);
      }
      V_CHECK(cl - ci == n - i && ci - cf == i, "const-difference", "const difference at %ld", i);
      for (long j = 0; j <= n; ++j) {
        auto jt = b.begin() + j;
        auto cjt = b.cbegin() + j;
        V_CHECK((it < cjt) == (i < j) && (it > cjt) == (i > j) && (it <= cjt) == (i <= j) && (it >= cjt) == (i >= j) && (it == cjt) == (i == j) && (it != cjt) == (i != j), "mixed-comparison", "mutable %ld vs const %ld of %ld", i, j, n);
        V_CHECK((ci < jt) == (i < j) && (ci > jt) == (i > j) && (ci <= jt) == (i <= j) && (ci >= jt) == (i >= j) && (ci == jt) == (i == j) && (ci != jt) == (i != j), "mixed-comparison", "const %ld vs mutable %ld of %ld", i, j, n);
        if (j < n) V_CHECK(&ci[j - i] == elem[static_cast<size_t>(j)], "const-subscript", "const it(%ld)[%ld]", i, j - i);
        auto k = ci;
        k += j - i;
        V_CHECK(k == cjt && ci + (j - i) == cjt && ci - (i - j) == cjt, "const-advance", "const %ld by %ld", i, j - i);
        V_COUNT("mixed_pairs");
      }
      if (i < n) {
        auto x = ci;
        auto o = x++;
        V_CHECK(o == ci && x == cf + (i + 1) && ++o == x, "const-increment", "const ++ at %ld", i);
      }
      if (i > 0) {
        auto x = ci;
        auto o = x--;
        V_CHECK(o == ci && x == cf + (i - 1) && --o == x, "const-decrement", "const -- at %ld", i);
      }
      auto cp = ci;
      cp = cf;
      cp = it;  // assignment from mutable
      V_CHECK(cp == ci, "const-assign", "assigning a mutable to a const iterator");
    }
  }
  laws<T>(b, b.rbegin(), b.rend(), relem, "reverse_iterator");
  {
    auto rf = b.crbegin(), rl = b.crend();
    const long n = static_cast<long>(count);
    V_CHECK(rl - rf == n, "creverse-distance", "const reverse distance");
    for (long i = 0; i < n; ++i) {
      V_CHECK(&rf[i] == relem[static_cast<size_t>(i)] && &*(rf + i) == relem[static_cast<size_t>(i)] && &*(rl - (n - i)) == relem[static_cast<size_t>(i)], "creverse", "const reverse position %ld", i);
      V_CHECK((b.rbegin() + i).base() == b.end() - i, "base", "base of reverse position %ld", i);
    }
  }
  V_COUNT("states");
  v::evaluated();
  v::distinct(v::mix(v::mix(cap * 100 + first, count), sizeof(T)));
}

template <class T>
static void states(const char* section, size_t maxcap) {
  v::Cases c(section, static_cast<int64_t>(maxcap));
  while (c.next()) {
    size_t cap = static_cast<size_t>(c.index()) + 1;
    Mem<T> m(cap);
    for (size_t i = 0; i < cap; ++i) new (static_cast<void*>(m.p + i)) T(Tr<T>::make(i));
    for (size_t first = 0; first <= cap; ++first)
      for (size_t count = 0; count <= cap; ++count) one_state<T>(m.p, cap, first, count);
    for (size_t i = 0; i < cap; ++i) m.p[i].~T();
  }
}

static void algorithms() {
  v::Cases c("algorithms", v::scale(3000, 40000));
  while (c.next()) {
    v::Rng& g = c.rng;
    size_t cap = 1 + g.below(g.chance(1, 3) ? 6 : 60);
    size_t first = g.below(cap + 1), count = g.chance(1, 3) ? cap : g.below(cap + 1);
    std::vector<std::string> mem(cap);
    for (auto& s : mem) s = "element number " + std::to_string(g.below(50));
    CB<std::string> b(mem.data(), cap, first, count);
    std::vector<std::string> ref(b.begin(), b.end());
    std::string hist;
    for (int k = 0; k < 6; ++k) {
      size_t i = g.below(count + 1), j = g.below(count + 1), m2;
      if (i > j) std::swap(i, j);
      m2 = i + g.below(j - i + 1);
      long I = static_cast<long>(i), J = static_cast<long>(j), M = static_cast<long>(m2);
      unsigned a = static_cast<unsigned>(g.below(18));
      v::at("cap=%zu first=%zu count=%zu algorithm %u [%ld,%ld,%ld)", cap, first, count, a, I, M, J);
      hist += std::to_string(a) + " ";
      switch (a) {
      case 0: std::sort(b.begin() + I, b.begin() + J); std::sort(ref.begin() + I, ref.begin() + J); break;
      case 1: std::rotate(b.begin() + I, b.begin() + M, b.begin() + J); std::rotate(ref.begin() + I, ref.begin() + M, ref.begin() + J); break;
      case 2: std::reverse(b.begin() + I, b.begin() + J); std::reverse(ref.begin() + I, ref.begin() + J); break;
      case 3: std::stable_sort(b.begin() + I, b.begin() + J, [](auto& x, auto& y) { return x.back() < y.back(); }); std::stable_sort(ref.begin() + I, ref.begin() + J, [](auto& x, auto& y) { return x.back() < y.back(); }); break;
      case 4: { auto p = [](auto& x) { return x.back() & 1; }; std::stable_partition(b.begin() + I, b.begin() + J, p); std::stable_partition(ref.begin() + I, ref.begin() + J, p); break; }
      case 5: std::copy(b.begin() + M, b.begin() + J, b.begin() + I); std::copy(ref.begin() + M, ref.begin() + J, ref.begin() + I); break;
      case 6: std::copy_backward(b.begin() + I, b.begin() + M, b.begin() + J); std::copy_backward(ref.begin() + I, ref.begin() + M, ref.begin() + J); break;
      case 7: std::sort(b.rbegin() + I, b.rbegin() + J); std::sort(ref.rbegin() + I, ref.rbegin() + J); break;
      case 8: std::rotate(b.rbegin() + I, b.rbegin() + M, b.rbegin() + J); std::rotate(ref.rbegin() + I, ref.rbegin() + M, ref.rbegin() + J); break;
      case 9: std::copy(ref.rbegin() + I, ref.rbegin() + J, b.begin() + I); { auto t = ref; std::copy(t.rbegin() + I, t.rbegin() + J, ref.begin() + I); } break;
      case 10: std::make_heap(b.begin() + I, b.begin() + J); std::sort_heap(b.begin() + I, b.begin() + J); std::sort(ref.begin() + I, ref.begin() + J); break;
      case 11: { auto x = std::partition(b.begin() + I, b.begin() + J, [](auto& s) { return s.back() < '5'; }); long k2 = x - b.begin(); std::vector<std::string> got(b.begin(), b.end()), s1 = got, s2 = ref; std::sort(s1.begin() + I, s1.begin() + J); std::sort(s2.begin() + I, s2.begin() + J); V_CHECK(s1 == s2 && std::is_partitioned(got.begin() + I, got.begin() + J, [](auto& s) { return s.back() < '5'; }) && k2 >= I && k2 <= J, "partition", "partition broke the range"); ref = got; break; }
      case 12: { auto x = std::unique(b.begin() + I, b.begin() + J) - b.begin(); auto y = std::unique(ref.begin() + I, ref.begin() + J) - ref.begin(); V_CHECK(x == y, "unique", "unique ends at %ld, expected %ld", (long)x, (long)y); for (long q = y; q < J; ++q) { b[static_cast<size_t>(q)] = "u"; ref[static_cast<size_t>(q)] = "u"; } break; }
      case 13: std::inplace_merge(b.begin() + I, b.begin() + M, b.begin() + J); std::inplace_merge(ref.begin() + I, ref.begin() + M, ref.begin() + J); break;
      case 14: std::fill(b.begin() + I, b.begin() + J, "filled " + std::to_string(a)); std::fill(ref.begin() + I, ref.begin() + J, "filled " + std::to_string(a)); break;
      case 15: { std::vector<std::string> t(count); std::move(b.begin(), b.end(), t.begin()); V_CHECK(t == ref, "move-out", "std::move out of the buffer"); std::move(t.begin(), t.end(), b.begin()); break; }
      case 16: { if (count) { auto x = std::min_element(b.cbegin(), b.cend()) - b.cbegin(); auto y = std::min_element(ref.begin(), ref.end()) - ref.begin(); V_CHECK(x == y, "min_element", "min_element at %ld, expected %ld", (long)x, (long)y); auto z = std::find(b.crbegin(), b.crend(), ref[0]) - b.crbegin(); auto w = std::find(ref.rbegin(), ref.rend(), ref[0]) - ref.rbegin(); V_CHECK(z == w, "find", "reverse find at %ld, expected %ld", (long)z, (long)w); } break; }
      default: { std::sort(b.begin(), b.end()); std::sort(ref.begin(), ref.end()); std::string key = "element number " + std::to_string(g.below(60)); auto x = std::lower_bound(b.cbegin(), b.cend(), key) - b.cbegin(); auto y = std::lower_bound(ref.begin(), ref.end(), key) - ref.begin(); V_CHECK(x == y, "lower_bound", "lower_bound at %ld, expected %ld", (long)x, (long)y); V_CHECK(std::equal(b.begin(), b.end(), ref.begin()) && std::equal(b.rbegin(), b.rend(), ref.rbegin()), "equal", "std::equal after sort"); break; }
      }
      bool same = std::equal(ref.begin(), ref.end(), b.begin(), b.end());
      V_CHECK(same, "algorithm-result", "algorithm %u on capacity %zu first %zu count %zu differs from the vector", a, cap, first, count);
      V_COUNT("algorithm_runs");
      v::evaluated();
      v::distinct(v::mix(v::mix(cap * 100 + first, count), a + 7000));
      if (!same) break;
    }
    if (c.index() < 2) v::sample(v::fmt("cap=%zu first=%zu count=%zu algorithms ", cap, first, count) + hist);
  }
}

int main(int argc, char** argv) {
  v::init(argc, argv);
  states<int>("states-int", v::thorough() ? 14 : 7);
  states<B3>("states-B3", v::thorough() ? 11 : 5);
  states<std::string>("states-string", v::thorough() ? 9 : 5);
  {
    v::Cases c("states-large", v::scale(6, 60));
    while (c.next()) {
      size_t cap = 15 + c.rng.below(20);
      Mem<B24> m(cap);
      for (size_t i = 0; i < cap; ++i) m.p[i] = Tr<B24>::make(i);
      one_state<B24>(m.p, cap, c.rng.below(cap + 1), c.rng.chance(1, 2) ? cap : c.rng.below(cap + 1));
    }
  }
  algorithms();
  v::require("position_pairs", 10000);
  v::require("mixed_pairs", 5000);
  v::require("algorithm_runs", 5000);
  return v::finish();
}
