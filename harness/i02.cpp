// I02: loggers write every row to every selected sink, in every history.
#include <Bembel/IO>
#include <memory>
#include "vf.hpp"
using vf::cat;
static std::string slurp(const std::string &f) {
  std::ifstream in(f, std::ios::binary);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}
struct Cell {
  bool isnum;
  double x;
  std::string s;
};
typedef std::vector<Cell> Row;
// split at the separator, strip padding
static bool match(const std::string &text, const std::vector<Row> &ref, const std::string &sep, int prec, std::string *why) {
  std::vector<std::string> L;
  std::istringstream in(text);
  std::string l;
  while (std::getline(in, l)) L.push_back(l);
  if (!text.empty() && text.back() != '\n') {
    *why = "last row is not terminated";
    return false;
  }
  if (L.size() != ref.size()) {
    *why = cat(L.size(), " rows instead of ", ref.size());
    return false;
  }
  for (size_t i = 0; i < L.size(); ++i) {
    std::vector<std::string> w;
    if (sep == " ") {
      std::istringstream s(L[i]);
      std::string x;
      while (s >> x) w.push_back(x);
    } else {
      size_t p = 0;
      for (;;) {
        size_t q = L[i].find(sep, p);
        std::string x = L[i].substr(p, q == std::string::npos ? q : q - p);
        size_t a = x.find_first_not_of(' '), b = x.find_last_not_of(' ');
        w.push_back(a == std::string::npos ? "" : x.substr(a, b - a + 1));
        if (q == std::string::npos) break;
        p = q + sep.size();
      }
    }
    if (w.size() != ref[i].size()) {
      *why = cat("row ", i, " has ", w.size(), " columns instead of ", ref[i].size(), ": ", L[i]);
      return false;
    }
    for (size_t j = 0; j < w.size(); ++j) {
      const Cell &c = ref[i][j];
      bool ok;
      if (c.isnum) {
        char *e;
        double x = strtod(w[j].c_str(), &e);
        ok = e != w[j].c_str() && *e == 0 && std::abs(x - c.x) <= .51 * std::pow(10., 1 - prec) * std::abs(c.x);
      } else {
        ok = w[j] == c.s;
      }
      if (!ok) {
        *why = cat("row ", i, " column ", j, " reads '", w[j], "'");
        return false;
      }
    }
  }
  return true;
}
// the rows that are logged: arguments of all kinds and arities
template <typename F>
void withRow(int k, Row *r, const F &f) {
  auto n = [&](double x) { r->push_back({true, x, ""}); };
  auto s = [&](const std::string &x) { r->push_back({false, 0, x}); };
  switch (k) {
    case 0: n(3), n(.1), s("abc"); return f(3, .1, std::string("abc"));
    case 1: s("h"); return f("h");
    case 2: n(1. / 3), n(-2e-30), n(1e20), n(4); return f(1. / 3, -2e-30, 1e20, 4u);
    case 3: s("a_very_long_label_that_exceeds_the_width"), n(123456789); return f("a_very_long_label_that_exceeds_the_width", 123456789);
    case 4: n(-7); return f(-7);
    default: s("M"), s("P"), n(0), s("x"), n(2.5); return f("M", "P", 0, 'x', 2.5f);
  }
}
struct Spec {
  int file, ctor;  // 0,1: named files, 2: default.log
  bool app;
  std::string sep;
};
template <int N>
std::unique_ptr<Bembel::IO::Logger<N>> create(const Spec &s) {
  typedef Bembel::IO::Logger<N> L;
  std::string nm = s.file == 0 ? "first.log" : "second.log";
  auto mode = s.app ? std::ios_base::app : std::ios_base::trunc;
  switch (s.ctor) {
    case 0: return std::unique_ptr<L>(new L());
    case 1: return std::unique_ptr<L>(new L(nm));
    case 2: return std::unique_ptr<L>(new L(nm, s.sep));
    case 3: return std::unique_ptr<L>(new L(nm, s.sep, mode));
    case 4: return std::unique_ptr<L>(new L(nm, mode));
    case 5: return std::unique_ptr<L>(new L(mode));
    default: return std::unique_ptr<L>(new L(nm, s.sep, std::ios_base::out | mode));
  }
}
static const char *NAMES[3] = {"first.log", "second.log", "default.log"};
// a history is a list of letters: C<spec> open slot, D close, F/T/B log a row
struct Op {
  int kind, slot, arg;
};
template <int N>
struct Run {
  std::vector<Spec> specs;
  std::string tag;
  int slots, rows;
  std::vector<Op> ops;
  void mk() {
    for (int s = 0; s < slots; ++s) {
      for (size_t c = 0; c < specs.size(); ++c) ops.push_back({0, s, (int)c});
      ops.push_back({1, s, 0});
      for (int k = 2; k <= 4; ++k)
        for (int r = 0; r < rows; ++r) ops.push_back({k, s, r});
    }
  }
  std::string name(const Op &o) {
    return cat(o.kind == 0 ? "open" : o.kind == 1 ? "close" : o.kind == 2 ? "file" : o.kind == 3 ? "term" : "both", o.slot, o.kind == 1 ? "" : cat("_", o.arg));
  }
  // abstract state: which slot is open with which spec, did it write, rows in files
  struct St {
    int spec[2] = {-1, -1};
    bool wrote[2] = {false, false};
    bool known[3] = {true, true, true};
    std::vector<Row> f[3];
    std::vector<Row> t;
    std::string sep[3];  // separator in use in the file ("" none)
    std::string tsep;
  };
  bool apply(St *st, const Op &o, Row *row) {
    if (o.kind == 0) {
      if (st->spec[o.slot] >= 0) return false;
      st->spec[o.slot] = o.arg;
      st->wrote[o.slot] = false;
      return true;
    }
    if (st->spec[o.slot] < 0) return false;
    const Spec &sp = specs[st->spec[o.slot]];
    const int oth = 1 - o.slot;
    if (o.kind == 1) {
      if (!st->wrote[o.slot] && !sp.app) return false;  // whether the file was emptied is open
      st->spec[o.slot] = -1;
      return true;
    }
    withRow(o.arg, row, [](auto...) {});
    if (o.kind != 3) {
      // the same file is open for writing elsewhere: only appending is defined
      if (slots > 1 && st->spec[oth] >= 0 && specs[st->spec[oth]].file == sp.file &&
          !(sp.app && specs[st->spec[oth]].app))
        return false;
      if (!st->sep[sp.file].empty() && st->sep[sp.file] != sp.sep && !(!st->wrote[o.slot] && !sp.app)) return false;
      if (!st->wrote[o.slot] && !sp.app) st->f[sp.file].clear();
      st->wrote[o.slot] = true;
      st->f[sp.file].push_back(*row);
      st->sep[sp.file] = sp.sep;
    }
    if (o.kind != 2) {
      if (!st->tsep.empty() && st->tsep != sp.sep) return false;
      st->tsep = sp.sep;
      st->t.push_back(*row);
    }
    return true;
  }
  std::vector<int> h;
  void explore(int depth, const St &st) {
    if (!h.empty()) {
      std::string id = tag;
      for (int k : h) id += "/" + name(ops[k]);
      if (vf::begin(id)) exec(st);
    }
    if ((int)h.size() == depth) return;
    for (size_t k = 0; k < ops.size(); ++k) {
      St n = st;
      Row r;
      if (!apply(&n, ops[k], &r)) continue;
      h.push_back(k);
      explore(depth, n);
      h.pop_back();
    }
  }
  void exec(const St &want) {
    for (auto f : NAMES) std::remove(f);
    std::ostringstream term;
    std::streambuf *old = std::cout.rdbuf(term.rdbuf());
    {
      std::unique_ptr<Bembel::IO::Logger<N>> l[2];
      for (int k : h) {
        vf::step();
        const Op &o = ops[k];
        Row r;
        if (o.kind == 0)
          l[o.slot] = create<N>(specs[o.arg]);
        else if (o.kind == 1)
          l[o.slot].reset();
        else if (o.kind == 2)
          withRow(o.arg, &r, [&](auto... a) { l[o.slot]->file(a...); });
        else if (o.kind == 3)
          withRow(o.arg, &r, [&](auto... a) { l[o.slot]->term(a...); });
        else
          withRow(o.arg, &r, [&](auto... a) { l[o.slot]->both(a...); });
      }
      // rows are on disk while the logger is still open
      check(want, term.str(), true);
    }
    std::cout.rdbuf(old);
    check(want, term.str(), false);
    uint64_t hs = vf::hstr(tag);
    for (int i = 0; i < 2; ++i) hs = vf::hash(hs, want.spec[i] + 1, want.wrote[i]);
    for (int i = 0; i < 3; ++i) hs = vf::mix(hs, want.f[i].size());
    vf::state(vf::mix(hs, want.t.size()));
  }
  void check(const St &want, const std::string &term, bool open) {
    std::string why;
    const std::string when = open ? " (logger open)" : " (logger closed)";
    const bool okt = match(term, want.t, want.tsep.empty() ? " " : want.tsep, N - 4, &why);
    vf::check(okt, "terminal: " + why + when);
    for (int i = 0; i < 3; ++i) {
      bool pending = false;  // opened for writing but not written: content is open
      for (int s = 0; s < slots; ++s) pending |= want.spec[s] >= 0 && specs[want.spec[s]].file == i && !want.wrote[s] && !specs[want.spec[s]].app;
      if (pending) continue;
      const bool ok = match(slurp(NAMES[i]), want.f[i], want.sep[i].empty() ? " " : want.sep[i], N - 4, &why);
      vf::check(ok, cat(NAMES[i], ": ", why, when));
    }
  }
};
template <int N>
void go(const std::string &tag, std::vector<Spec> specs, int slots, int rows, int depth) {
  Run<N> r;
  r.specs = specs;
  r.tag = tag;
  r.slots = slots;
  r.rows = rows;
  r.mk();
  r.explore(depth, typename Run<N>::St());
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  if (chdir(vf::ctx().scratch.c_str())) return 3;
  std::string d = cat("log", vf::ctx().shard);
  mkdir(d.c_str(), 0755);
  if (chdir(d.c_str())) return 3;
  const int T = vf::thorough();
  // every constructor and every kind of row, one logger
  for (std::string sep : {" ", ";", ", ", "\t"}) {
    std::vector<Spec> all = {{2, 0, false, " "}, {0, 1, false, " "},  {0, 2, false, sep}, {0, 3, false, sep}, {0, 3, true, sep},  {0, 4, false, " "},
                             {0, 4, true, " "},  {2, 5, false, " "}, {2, 5, true, " "},  {0, 6, true, sep},  {0, 6, false, sep}};
    go<10>("all" + sep, all, 1, 6, 3);
    go<16>("wide" + sep, all, 1, 6, 2);
  }
  // long histories: truncating and appending loggers on two files, rows of several columns and of one
  go<12>("one", {{0, 4, false, " "}, {0, 4, true, " "}, {1, 4, true, " "}}, 1, 2, 5 + T);
  go<12>("one1", {{0, 4, false, " "}, {0, 4, true, " "}, {1, 4, true, " "}}, 1, 1, 6 + T);
  go<10>("two", {{0, 3, false, ";"}, {0, 3, true, ";"}, {1, 3, true, ";"}}, 2, 2, 4 + T);
  return vf::finish();
}
