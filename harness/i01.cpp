// I01: export of matrices to text, Matlab and binary files and back.
#include <Bembel/IO>
#include <limits>
#include "vf.hpp"
using namespace Bembel;
using vf::cat;
typedef std::complex<double> cd;
typedef std::complex<float> cf;
static std::string file(const std::string &n) { return vf::ctx().scratch + "/" + n; }
static std::string slurp(const std::string &f) {
  std::ifstream in(f, std::ios::binary);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}
struct Quiet {
  std::ostringstream o;
  std::streambuf *b;
  Quiet() { b = std::cout.rdbuf(o.rdbuf()); }
  ~Quiet() { std::cout.rdbuf(b); }
};
// a deterministic supply of awkward and ordinary values
template <typename S>
struct Val {
  static S get(int k) {
    typedef std::numeric_limits<S> L;
    const S v[] = {S(0),      -S(0),       S(1),       S(-1),          S(1) / S(3),   S(-2) / S(7), L::max(), L::lowest(),
                   L::min(),  L::epsilon(), S(1e-9),   S(123456789.125), S(1e10) + S(1) / S(3), S(3.14159265358979), L::denorm_min(), S(-1e-30)};
    return v[((k % 16) + 16) % 16];
  }
};
template <>
struct Val<int> {
  static int get(int k) {
    const int v[] = {0, 1, -1, 7, -13, 2147483647, -2147483647 - 1, 1000000};
    return v[((k % 8) + 8) % 8];
  }
};
template <typename T>
struct Val<std::complex<T>> {
  static std::complex<T> get(int k) { return {Val<T>::get(k), Val<T>::get(5 * k + 3)}; }
};
template <typename S>
Eigen::Matrix<S, -1, -1> make(int r, int c, int o) {
  Eigen::Matrix<S, -1, -1> m(r, c);
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < c; ++j) m(i, j) = Val<S>::get(o + 3 * i + 7 * j + i * j);
  return m;
}
template <typename A, typename B>
bool bits(const A &a, const B &b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j) {
      auto x = a(i, j);
      auto y = b(i, j);
      if (memcmp(&x, &y, sizeof x)) return false;
    }
  return true;
}
////////////////////////////////////////////////////////////////////////// bin
template <typename S, typename W>
void binOne(const W &w, const Eigen::Matrix<S, -1, -1> &ref, const std::string &f) {
  Quiet q;
  if (!vf::ctx().viol.empty() && vf::failed()) return;
  vf::check(IO::print2bin(f, w) == 0, "print2bin failed");
  Eigen::Matrix<S, -1, -1> a;
  vf::check(IO::bin2Mat(f, &a) == 0, "bin2Mat failed");
  vf::check(bits(a, ref), "dense target");
  Eigen::Matrix<S, -1, -1> pre = Eigen::Matrix<S, -1, -1>::Constant(3, 2, Val<S>::get(2));
  vf::check(IO::bin2Mat(f, &pre) == 0 && bits(pre, ref), "dense target with other size before");
  Eigen::Matrix<S, -1, -1, Eigen::RowMajor> b;
  vf::check(IO::bin2Mat(f, &b) == 0 && bits(b, ref), "row major target");
  if (ref.cols() == 1) {
    Eigen::Matrix<S, -1, 1> v;
    vf::check(IO::bin2Mat(f, &v) == 0 && bits(v, ref), "vector target");
  }
  if (ref.rows() == 1) {
    Eigen::Matrix<S, 1, -1> v;
    vf::check(IO::bin2Mat(f, &v) == 0 && bits(v, ref), "row vector target");
  }
  // another scalar size is refused and leaves the target alone
  typedef typename std::conditional<sizeof(S) == 8, float, double>::type O;
  Eigen::Matrix<O, -1, -1> o = Eigen::Matrix<O, -1, -1>::Constant(2, 2, O(5)), o0 = o;
  vf::check(IO::bin2Mat(f, &o) != 0 && bits(o, o0), "file with another scalar size was accepted");
}
template <typename S>
void bin(const std::string &nm, int N) {
  for (int r = 0; r <= N; ++r)
    for (int c = 0; c <= N; ++c)
      for (int o = 0; o < (vf::thorough() ? 16 : 4); ++o) {
        if (!vf::begin(cat("bin/", nm, "/", r, "x", c, "/", o))) continue;
        auto m = make<S>(r, c, 3 * o);
        vf::state(vf::hstr(vf::ctx().id));
        const std::string f = file(vf::cat("m", vf::ctx().shard, ".bin"));
        binOne<S>(m, m, f);
        Eigen::Matrix<S, -1, -1, Eigen::RowMajor> rm = m;
        binOne<S>(rm, m, f);
        Eigen::Matrix<S, -1, -1> t = m.transpose();
        binOne<S>(t.transpose(), m, f);
        Eigen::Matrix<S, -1, -1> big = make<S>(r + 2, c + 3, 1);
        big.block(1, 2, r, c) = m;
        binOne<S>(big.block(1, 2, r, c), m, f);
        if (c == 1) {
          Eigen::Matrix<S, -1, 1> v = m;
          binOne<S>(v, m, f);
          binOne<S>(big.col(2).segment(1, r), m, f);
        }
        if (r == 1) {
          Eigen::Matrix<S, 1, -1> v = m;
          binOne<S>(v, m, f);
        }
        if (r == 3 && c == 3) {
          Eigen::Matrix<S, 3, 3> v = m;
          binOne<S>(v, m, f);
          Eigen::Matrix<S, 3, 3, Eigen::RowMajor> w = m;
          binOne<S>(w, m, f);
        }
        if (r > 0 && c > 0) {
          typename Eigen::Map<const Eigen::Matrix<S, -1, -1>> mp(m.data(), r, c);
          binOne<S>(mp, m, f);
        }
      }
}
//////////////////////////////////////////////////////////////////////// parse
static bool num(const std::string &s, double *x) {
  char *e;
  *x = strtod(s.c_str(), &e);
  return e != s.c_str() && *e == 0;
}
// re, (re,im), re+imi
static bool number(const std::string &s, cd *x) {
  double a, b;
  if (num(s, &a)) {
    *x = a;
    return true;
  }
  if (s.size() > 2 && (s.back() == 'i' || s.back() == 'j'))
    for (size_t k = s.size() - 2; k > 0; --k)
      if ((s[k] == '+' || s[k] == '-') && s[k - 1] != 'e' && s[k - 1] != 'E') {
        if (num(s.substr(0, k), &a) && num(s.substr(k, s.size() - 1 - k), &b)) {
          *x = cd(a, b);
          return true;
        }
        return false;
      }
  return false;
}
static bool asciiNumber(const std::string &s, cd *x) {
  if (s.size() > 4 && s[0] == '(' && s.back() == ')') {
    size_t k = s.find(',');
    double a, b;
    if (k == std::string::npos || !num(s.substr(1, k - 1), &a) || !num(s.substr(k + 1, s.size() - k - 2), &b)) return false;
    *x = cd(a, b);
    return true;
  }
  return number(s, x);
}
static std::vector<std::string> words(const std::string &l) {
  std::istringstream in(l);
  std::vector<std::string> v;
  std::string w;
  while (in >> w) v.push_back(w);
  return v;
}
static std::vector<std::string> lines(const std::string &t) {
  std::istringstream in(t);
  std::vector<std::string> v;
  std::string w;
  while (std::getline(in, w)) v.push_back(w);
  return v;
}
static bool close1(double a, double b, double rel) {
  if (a == b) return true;
  if (std::isinf(a) && std::abs(b) > 1.79e308 && (a > 0) == (b > 0)) return true;  // rounded up when printed
  if (std::isinf(a) || std::isinf(b) || std::isnan(a) || std::isnan(b)) return false;
  return std::abs(a - b) <= rel * std::max(std::abs(a), std::abs(b)) + 5e-324;
}
static bool close(cd a, cd b, double rel) { return close1(a.real(), b.real(), rel) && close1(a.imag(), b.imag(), rel); }
////////////////////////////////////////////////////////////////////////// txt
template <typename S>
void ascii(const std::string &nm, int N) {
  for (int r = 0; r <= N; ++r)
    for (int c = 0; c <= N; ++c)
      for (int o = 0; o < (vf::thorough() ? 16 : 6); ++o) {
        if (!vf::begin(cat("ascii/", nm, "/", r, "x", c, "/", o))) continue;
        vf::state(vf::hstr(vf::ctx().id));
        auto m = make<S>(r, c, o);
        const std::string f = file(vf::cat("m", vf::ctx().shard, ".txt"));
        Eigen::Matrix<S, -1, -1, Eigen::RowMajor> rm = m;
        Eigen::Matrix<S, -1, -1> t = m.transpose();
        for (int k = 0; k < 3; ++k) {
          int ret = k == 0 ? IO::print2ascii(f, m) : k == 1 ? IO::print2ascii(f, rm) : IO::print2ascii(f, t.transpose());
          vf::check(ret == 0, "print2ascii failed");
          auto L = lines(slurp(f));
          while (!L.empty() && words(L.back()).empty() && (int)L.size() > r) L.pop_back();
          vf::check((int)L.size() == r, cat("text file has ", L.size(), " rows"));
          if (vf::failed()) return;
          for (int i = 0; i < r; ++i) {
            auto w = words(L[i]);
            vf::check((int)w.size() == c, cat("row ", i, " has ", w.size(), " entries"));
            if (vf::failed()) return;
            for (int j = 0; j < c; ++j) {
              cd x;
              vf::check(asciiNumber(w[j], &x), "not a number: " + w[j]);
              vf::check(close(x, cd(m(i, j)), 6e-10), cat("entry ", i, ",", j, " reads ", w[j]));
            }
          }
        }
      }
}
///////////////////////////////////////////////////////////////////////// .m
// the subset of the Matlab language the exporter produces
struct Var {
  std::string name;
  int r, c;
  bool sparse;
  std::map<std::pair<int, int>, cd> e;
};
static bool parseM(const std::string &txt, std::vector<Var> *out, std::string *err) {
  std::map<std::string, Var> env;
  size_t p = 0;
  auto ws = [&] {
    while (p < txt.size() && isspace((unsigned char)txt[p])) ++p;
  };
  for (ws(); p < txt.size(); ws()) {
    size_t q = p;
    while (q < txt.size() && (isalnum((unsigned char)txt[q]) || txt[q] == '_')) ++q;
    Var v;
    v.name = txt.substr(p, q - p);
    p = q;
    ws();
    if (v.name.empty() || !isalpha((unsigned char)v.name[0]) || p >= txt.size() || txt[p] != '=') {
      *err = cat("no assignment at offset ", p);
      return false;
    }
    ++p;
    ws();
    size_t e = txt.find(';', p);
    if (e == std::string::npos) {
      *err = "missing ;";
      return false;
    }
    std::string rhs = txt.substr(p, e - p);
    p = e + 1;
    if (rhs[0] == '[') {
      size_t z = rhs.find(']');
      if (z == std::string::npos || words(rhs.substr(z + 1)).size()) {
        *err = "bad matrix";
        return false;
      }
      v.r = v.c = 0;
      v.sparse = false;
      for (auto &l : lines(rhs.substr(1, z - 1))) {
        auto w = words(l);
        if (w.empty()) continue;
        if (v.r && (int)w.size() != v.c) {
          *err = "ragged matrix " + v.name;
          return false;
        }
        v.c = w.size();
        for (int j = 0; j < v.c; ++j)
          if (!number(w[j], &v.e[{v.r, j}])) {
            *err = "not a Matlab number: " + w[j];
            return false;
          }
        ++v.r;
      }
    } else if (rhs.compare(0, 7, "sparse(") == 0 && rhs.back() == ')') {
      std::vector<std::string> a;
      std::string in = rhs.substr(7, rhs.size() - 8);
      std::stringstream s(in);
      std::string x;
      while (std::getline(s, x, ',')) {
        auto w = words(x);
        if (w.size() != 1) {
          *err = "bad argument";
          return false;
        }
        a.push_back(w[0]);
      }
      if (a.size() != 3 && a.size() != 5) {
        *err = "sparse() with wrong number of arguments";
        return false;
      }
      for (int k = 0; k < 3; ++k)
        if (!env.count(a[k])) {
          *err = "unknown variable " + a[k];
          return false;
        }
      Var &R = env[a[0]], &C = env[a[1]], &V = env[a[2]];
      if (R.r != C.r || R.r != V.r || R.c > 1 || C.c > 1 || V.c > 1) {
        *err = "index vectors of different lengths";
        return false;
      }
      v.sparse = true;
      v.r = v.c = 0;
      for (int k = 0; k < R.r; ++k) {
        double i = R.e[{k, 0}].real(), j = C.e[{k, 0}].real();
        if (i != std::floor(i) || j != std::floor(j) || i < 1 || j < 1) {
          *err = "bad index";
          return false;
        }
        if (v.e.count({(int)i - 1, (int)j - 1})) {
          *err = "entry appears twice";
          return false;
        }
        v.e[{(int)i - 1, (int)j - 1}] = V.e[{k, 0}];
        v.r = std::max(v.r, (int)i);
        v.c = std::max(v.c, (int)j);
      }
      if (a.size() == 5) {
        int R5 = atoi(a[3].c_str()), C5 = atoi(a[4].c_str());
        if (R5 < v.r || C5 < v.c) {
          *err = "index exceeds dimension";
          return false;
        }
        v.r = R5;
        v.c = C5;
      }
    } else {
      *err = "unknown expression " + rhs;
      return false;
    }
    env[v.name] = v;
    if (v.name.compare(0, 5, "rows_") && v.name.compare(0, 5, "cols_") && v.name.compare(0, 7, "values_")) out->push_back(v);
  }
  return true;
}
struct Item {
  std::string name;
  bool sparse;
  Eigen::MatrixXcd m;
  std::vector<std::pair<int, int>> pat;
};
static void compareM(const std::string &txt, const std::vector<Item> &ref) {
  std::vector<Var> v;
  std::string err;
  if (!parseM(txt, &v, &err)) {
    vf::fail("file can not be read: " + err);
    return;
  }
  vf::check(v.size() == ref.size(), cat("file defines ", v.size(), " matrices instead of ", ref.size()));
  for (size_t k = 0; k < v.size() && !vf::failed(); ++k) {
    vf::check(v[k].name == ref[k].name, "name " + v[k].name + " instead of " + ref[k].name);
    vf::check(v[k].sparse == ref[k].sparse, "kind");
    bool empty = !v[k].sparse && ref[k].m.size() == 0;  // [] has no shape in the text
    vf::check((empty && v[k].e.empty()) || (v[k].r == ref[k].m.rows() && v[k].c == ref[k].m.cols()),
              cat("matrix ", v[k].name, " reads ", v[k].r, "x", v[k].c, " instead of ", ref[k].m.rows(), "x", ref[k].m.cols()));
    vf::check(v[k].e.size() == (ref[k].sparse ? ref[k].pat.size() : (size_t)ref[k].m.size()), "number of entries");
    if (vf::failed()) return;
    for (auto &e : v[k].e) {
      if (ref[k].sparse) vf::check(std::find(ref[k].pat.begin(), ref[k].pat.end(), e.first) != ref[k].pat.end(), "entry that is not in the pattern");
      vf::check(close(e.second, ref[k].m(e.first.first, e.first.second), 1e-15), cat("entry ", e.first.first, ",", e.first.second, " reads ", e.second));
    }
  }
}
template <typename S>
Eigen::SparseMatrix<S> sparse(int r, int c, unsigned pat, int o, bool compressed, Item *it) {
  Eigen::SparseMatrix<S> s(r, c);
  if (!compressed) s.reserve(Eigen::VectorXi::Constant(c, r + 1));
  it->sparse = true;
  it->m = Eigen::MatrixXcd::Zero(r, c);
  for (int k = 0; k < r * c; ++k)
    if (pat >> k & 1) {
      int i = k % r, j = k / r;
      S v = Val<S>::get(o + k);
      s.insert(i, j) = v;
      it->m(i, j) = cd(v);
      it->pat.push_back({i, j});
    }
  if (compressed) s.makeCompressed();
  return s;
}
template <typename S>
void dense_m(const std::string &nm, int N) {
  for (int r = 0; r <= N; ++r)
    for (int c = 0; c <= N; ++c)
      for (int o = 0; o < 4; ++o) {
        if (!vf::begin(cat("m/", nm, "/", r, "x", c, "/", o))) continue;
        vf::state(vf::hstr(vf::ctx().id));
        auto m = make<S>(r, c, 5 * o);
        Item it{"A", false, m.template cast<cd>(), {}};
        const std::string f = file(vf::cat("m", vf::ctx().shard, ".m"));
        vf::check(IO::print2m(f, "A", m, "w") == 0, "print2m failed");
        compareM(slurp(f), {it});
        Eigen::Matrix<S, -1, -1> t = m.transpose();
        vf::check(IO::print2m(f, "A", t.transpose(), "w") == 0, "print2m failed");
        compareM(slurp(f), {it});
      }
}
template <typename S>
void sparse_m(const std::string &nm, int N) {
  for (int r = 1; r <= N; ++r)
    for (int c = 1; c <= N; ++c)
      for (unsigned pat = 0; pat < (1u << (r * c)); ++pat) {
        if (!vf::begin(cat("sparse/", nm, "/", r, "x", c, "/", pat))) continue;
        vf::state(vf::hstr(vf::ctx().id));
        for (int z = 0; z < 2; ++z) {
          Item it;
          it.name = "B";
          auto s = sparse<S>(r, c, pat, pat % 11, z, &it);
          const std::string f = file(vf::cat("s", vf::ctx().shard, ".m"));
          vf::check(IO::print2m(f, "B", s, "w") == 0, "print2m failed");
          compareM(slurp(f), {it});
        }
      }
}
// all histories of exports to two files
static void histories(int depth) {
  struct Op {
    std::string name;
    std::function<int(const std::string &, std::vector<Item> *)> f;
  };
  std::vector<Op> ops;
  for (std::string mode : {"w", "a", "x"}) {
    auto upd = [mode](std::vector<Item> *st, const Item &it) {
      if (mode == "w") st->clear();
      if (mode != "x") st->push_back(it);
    };
    for (int k = 0; k < 2; ++k)
      ops.push_back({cat("d", k, mode), [=](const std::string &f, std::vector<Item> *st) {
                       auto m = make<double>(2 - k, 3, k);
                       upd(st, Item{cat("D", k), false, m.cast<cd>(), {}});
                       return IO::print2m(f, cat("D", k), m, mode);
                     }});
    ops.push_back({"c" + mode, [=](const std::string &f, std::vector<Item> *st) {
                     auto m = make<cd>(2, 2, 3);
                     upd(st, Item{"C", false, m, {}});
                     return IO::print2m(f, "C", m, mode);
                   }});
    ops.push_back({"s" + mode, [=](const std::string &f, std::vector<Item> *st) {
                     Item it;
                     it.name = "S";
                     auto m = sparse<double>(3, 3, 0x0a5, 2, true, &it);
                     upd(st, it);
                     return IO::print2m(f, "S", m, mode);
                   }});
    ops.push_back({"z" + mode, [=](const std::string &f, std::vector<Item> *st) {
                     Item it;
                     it.name = "Z";
                     auto m = sparse<cd>(2, 3, 0x11, 2, true, &it);
                     upd(st, it);
                     return IO::print2m(f, "Z", m, mode);
                   }});
  }
  const int n = 2 * ops.size();
  std::vector<int> h;
  std::function<void()> rec = [&] {
    if (!h.empty()) {
      std::string id = "history";
      for (int k : h) id += cat("/", ops[k / 2].name, "@", k % 2);
      if (vf::begin(id)) {
        std::string f[2];
        std::vector<Item> st[2];
        bool ex[2] = {false, false};
        uint64_t hs = 1;
        for (int i = 0; i < 2; ++i) {
          f[i] = file(cat("h", vf::ctx().shard, "_", i, ".m"));
          std::remove(f[i].c_str());
        }
        for (int k : h) {
          bool bad = ops[k / 2].name.back() == 'x';
          std::string b = ex[k % 2] ? slurp(f[k % 2]) : "";
          int ret = ops[k / 2].f(f[k % 2], &st[k % 2]);
          vf::step();
          vf::check(bad ? ret != 0 : ret == 0, cat("return value ", ret));
          if (bad) vf::check(slurp(f[k % 2]) == b, "an unknown mode changed the file");
          ex[k % 2] = true;
        }
        for (int i = 0; i < 2; ++i) {
          compareM(slurp(f[i]), st[i]);
          for (auto &it : st[i]) hs = vf::mix(hs, vf::hstr(it.name));
          hs = vf::mix(hs, 77);
        }
        vf::state(hs);
      }
    }
    if ((int)h.size() == depth) return;
    for (int k = 0; k < n; ++k) {
      h.push_back(k);
      rec();
      h.pop_back();
    }
  };
  rec();
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  const int N = vf::thorough() ? 6 : 4;
  bin<double>("double", N);
  bin<float>("float", N);
  bin<int>("int", N);
  bin<cd>("cdouble", N);
  bin<cf>("cfloat", N);
  ascii<double>("double", N);
  ascii<int>("int", N);
  ascii<cd>("cdouble", N);
  dense_m<double>("double", N);
  dense_m<int>("int", N);
  dense_m<cd>("cdouble", N);
  sparse_m<double>("double", 3);
  sparse_m<cd>("cdouble", vf::thorough() ? 3 : 2);
  histories(vf::thorough() ? 4 : 3);
  return vf::finish();
}
