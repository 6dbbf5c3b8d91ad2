// I04: visualisation files describe exactly the mesh, points and data given.
#include <Bembel/AnsatzSpace>
#include <Bembel/IO>
#include <memory>
#include "asp.hpp"
#include "geo.hpp"
using namespace Bembel;
using vf::cat;
typedef std::complex<double> cd;
using Eigen::Vector2d;
using Eigen::Vector3cd;
using Eigen::Vector3d;
////////////////////////////////////////////////////////////////// tiny XML reader
struct Node {
  std::string name, text;
  std::map<std::string, std::string> at;
  std::vector<std::unique_ptr<Node>> kids;
  const Node *kid(const std::string &n) const {
    const Node *r = nullptr;
    for (auto &k : kids)
      if (k->name == n) {
        if (r) return nullptr;  // ambiguous
        r = k.get();
      }
    return r;
  }
};
struct Xml {
  std::string t, err;
  size_t p = 0;
  void ws() {
    while (p < t.size() && isspace((unsigned char)t[p])) ++p;
  }
  std::string nm() {
    size_t q = p;
    while (p < t.size() && (isalnum((unsigned char)t[p]) || strchr("_:.-", t[p]))) ++p;
    return t.substr(q, p - q);
  }
  bool bad(const std::string &s) {
    if (err.empty()) err = cat(s, " at offset ", p);
    return false;
  }
  bool element(Node *n) {
    if (p >= t.size() || t[p] != '<') return bad("expected <");
    ++p;
    n->name = nm();
    if (n->name.empty()) return bad("no element name");
    for (;;) {
      ws();
      if (p >= t.size()) return bad("unterminated tag");
      if (t[p] == '>') break;
      if (t[p] == '/' && p + 1 < t.size() && t[p + 1] == '>') {
        p += 2;
        return true;
      }
      std::string a = nm();
      ws();
      if (a.empty() || p >= t.size() || t[p] != '=') return bad("bad attribute");
      ++p;
      ws();
      if (p >= t.size() || (t[p] != '"' && t[p] != '\'')) return bad("attribute is not quoted");
      char q = t[p++];
      size_t e = t.find(q, p);
      if (e == std::string::npos || t.substr(p, e - p).find('<') != std::string::npos) return bad("bad attribute value");
      if (n->at.count(a)) return bad("attribute given twice");
      n->at[a] = t.substr(p, e - p);
      p = e + 1;
    }
    ++p;
    for (;;) {
      size_t e = t.find('<', p);
      if (e == std::string::npos) return bad("element " + n->name + " is not closed");
      n->text += t.substr(p, e - p) + " ";
      p = e;
      if (t[p + 1] == '/') {
        p += 2;
        if (nm() != n->name) return bad("closing tag does not match " + n->name);
        ws();
        if (p >= t.size() || t[p] != '>') return bad("bad closing tag");
        ++p;
        return true;
      }
      n->kids.emplace_back(new Node);
      if (!element(n->kids.back().get())) return false;
    }
  }
  bool document(Node *n) {
    ws();
    if (t.compare(p, 2, "<?") == 0) {
      p = t.find("?>", p);
      if (p == std::string::npos) return bad("bad declaration");
      p += 2;
      ws();
    }
    if (!element(n)) return false;
    ws();
    return p == t.size() || bad("text after the document");
  }
};
static std::string slurp(const std::string &f) {
  std::ifstream in(f, std::ios::binary);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}
static bool numbers(const std::string &s, std::vector<double> *v) {
  std::istringstream in(s);
  std::string w;
  while (in >> w) {
    char *e;
    v->push_back(strtod(w.c_str(), &e));
    if (*e) return false;
  }
  return true;
}
struct Data {
  std::string name;
  int comp;
  std::vector<double> v;
};
static bool array(const Node *n, Data *d) {
  if (!n || n->name != "DataArray") {
    vf::fail("DataArray missing");
    return false;
  }
  auto g = [&](const char *a) { return n->at.count(a) ? n->at.at(a) : std::string(); };
  d->name = g("Name");
  d->comp = g("NumberOfComponents").empty() ? 1 : atoi(g("NumberOfComponents").c_str());
  if (g("format") != "ascii") vf::fail("format is not ascii");
  if (!numbers(n->text, &d->v)) vf::fail("array " + d->name + " contains something that is not a number");
  return !vf::failed();
}
static bool root(const std::string &f, const std::string &type, Node *n, const Node **grid, const Node **piece) {
  Xml x;
  x.t = slurp(f);
  if (!x.document(n)) {
    vf::fail("file is not well formed: " + x.err);
    return false;
  }
  vf::check(n->name == "VTKFile" && n->at["type"] == type, "file type");
  *grid = n->kid(type);
  *piece = *grid ? (*grid)->kid("Piece") : nullptr;
  vf::check(*piece != nullptr, "no piece");
  return !vf::failed();
}
static bool num(double got, double want, double scale) { return std::abs(got - want) <= 1e-5 * std::abs(want) + 1e-7 * scale; }
static void equal(const Data &d, const std::string &name, int comp, const std::vector<double> &v, double scale = 0) {
  vf::check(d.name == name, "array " + d.name + " instead of " + name);
  vf::check(d.comp == comp, "number of components of " + name);
  vf::check(d.v.size() == v.size(), cat("array ", name, " has ", d.v.size(), " entries instead of ", v.size()));
  for (size_t i = 0; i < v.size() && !vf::failed(); ++i) vf::check(num(d.v[i], v[i], scale), cat("array ", name, " entry ", i, " reads ", d.v[i], " instead of ", v[i]));
}
static std::string fname() { return cat(vf::ctx().scratch, "/v", vf::ctx().shard, ".vtk"); }
//////////////////////////////////////////////////////////////////// the functions
static double S1(const Vector3d &x) { return 1 + x(0) + 10 * x(1) + 100 * x(2); }
static double S2(const Vector3d &x) { return 1e-9 * (1 + x(0) - 3 * x(1) * x(2)); }
static double S3(const Vector3d &x) { return -4e12 * (2 + x(0) * x(1) + x(2)); }
static Vector3d V1(const Vector3d &x) { return Vector3d(x(1) - 2, 1e-7 * x(2), x(0) * x(1) * 1e5 + 1); }
static Vector3d V2(const Vector3d &x) { return Vector3d(1 + x(0), 20 + x(1), 300 + x(2)); }
struct Set {  // what a data set consists of
  std::string name;
  int comp;
  std::vector<double> v;
};
template <typename F>
static void push(std::vector<Set> *s, const std::string &n, int comp, const std::vector<Vector3d> &x, const F &f) {
  Set d{n, comp, {}};
  for (auto &p : x) {
    Eigen::VectorXd y = f(p);
    for (int k = 0; k < comp; ++k) d.v.push_back(y(k));
  }
  s->push_back(d);
}
static Eigen::VectorXd w1(double x) { return Eigen::VectorXd::Constant(1, x); }
static void sets(const Node *pd, size_t skip, const std::vector<Set> &want) {
  vf::check(pd->kids.size() == want.size() + skip, cat(pd->kids.size(), " data arrays instead of ", want.size() + skip));
  if (vf::failed()) return;
  for (size_t i = 0; i < want.size(); ++i) {
    Data d;
    if (!array(pd->kids[i + skip].get(), &d)) return;
    equal(d, want[i].name, want[i].comp, want[i].v);
  }
}
/////////////////////////////////////////////////////////////////////////// domain
static Eigen::VectorXd lin(int n, int kind) {
  Eigen::VectorXd v(n);
  for (int i = 0; i < n; ++i) v(i) = kind == 0 ? -1 + i * .7 : kind == 1 ? .5 + i * i * .3 : -2e-3 * i - 1e-4;
  return v;
}
struct Domain {
  Eigen::VectorXd x, y, z;
  std::unique_ptr<VTKDomainExport> w;
  std::vector<Vector3d> p;
  std::vector<Set> d;
  void init(int a, int b, int c) {
    x = lin(a, 0), y = lin(b, 1), z = lin(c, 2);
    p.clear();
    d.clear();
    for (int k = 0; k < c; ++k)
      for (int j = 0; j < b; ++j)
        for (int i = 0; i < a; ++i) p.push_back(Vector3d(x(i), y(j), z(k)));
    if (w)
      w->init_VTKDomainExport(x, y, z);
    else
      w.reset(new VTKDomainExport(x, y, z));
  }
  void verify() {
    Node n;
    const Node *g, *pc;
    if (!root(fname(), "StructuredGrid", &n, &g, &pc)) return;
    std::vector<double> e{0., x.size() - 1., 0., y.size() - 1., 0., z.size() - 1.}, a, b;
    vf::check(g->at.count("WholeExtent") && numbers(g->at.at("WholeExtent"), &a) && a == e, "extent");
    vf::check(pc->at.count("Extent") && numbers(pc->at.at("Extent"), &b) && b == e, "extent of the piece");
    const Node *pt = pc->kid("Points"), *pd = pc->kid("PointData");
    vf::check(pt && pt->kids.size() == 1 && pd, "points or point data missing");
    if (vf::failed()) return;
    Data q;
    if (!array(pt->kids[0].get(), &q)) return;
    std::vector<double> v;
    for (auto &r : p) v.insert(v.end(), {r(0), r(1), r(2)});
    equal(q, q.name, 3, v);
    sets(pd, 0, d);
  }
  static const int OPS = 7;
  static const char *op(int k) {
    const char *s[] = {"s1", "s2", "v1", "s3", "clear", "write", "init"};
    return s[k];
  }
  void run(int k) {
    using F1 = std::function<double(const Vector3d &)>;
    using F3 = std::function<Vector3d(const Vector3d &)>;
    switch (k) {
      case 0: w->addDataSet("s1", F1(S1)), push(&d, "s1", 1, p, [](const Vector3d &x) { return w1(S1(x)); }); break;
      case 1: w->addDataSet("s2", F1(S2)), push(&d, "s2", 1, p, [](const Vector3d &x) { return w1(S2(x)); }); break;
      case 2: w->addDataSet("v1", F3(V1)), push(&d, "v1", 3, p, [](const Vector3d &x) { return Eigen::VectorXd(V1(x)); }); break;
      case 3: w->addDataSet("s3", F1(S3)), push(&d, "s3", 1, p, [](const Vector3d &x) { return w1(S3(x)); }); break;
      case 4: w->clearData(), d.clear(); break;
      case 5: w->writeToFile(fname()), verify(); break;
      case 6: init(2, 1, 3); break;
    }
  }
};
/////////////////////////////////////////////////////////////////////////// points
struct Points {
  Eigen::Matrix<double, -1, 3> P;
  std::unique_ptr<VTKPointExport> w;
  std::vector<Vector3d> p;
  std::vector<Set> d;
  void init(int n, int, int) {
    P.resize(n, 3);
    p.clear();
    d.clear();
    for (int i = 0; i < n; ++i) {
      P.row(i) << i - 1.5, .25 * i * i + 1, (i % 3) * .125 - 2;
      p.push_back(P.row(i).transpose());
    }
    if (w)
      w->init_VTKPointExport(P);
    else
      w.reset(new VTKPointExport(P));
  }
  void verify() {
    Node n;
    const Node *g, *pc;
    if (!root(fname(), "PolyData", &n, &g, &pc)) return;
    std::vector<double> a;
    vf::check(pc->at.count("NumberOfPoints") && numbers(pc->at.at("NumberOfPoints"), &a) && a.size() == 1 && a[0] == P.rows(), "number of points");
    const Node *pt = pc->kid("Points"), *pd = pc->kid("PointData");
    vf::check(pt && pt->kids.size() == 1 && pd, "points or point data missing");
    if (vf::failed()) return;
    Data q, id;
    if (!array(pt->kids[0].get(), &q)) return;
    std::vector<double> v, no;
    for (auto &r : p) v.insert(v.end(), {r(0), r(1), r(2)});
    for (int i = 0; i < P.rows(); ++i) no.push_back(i);
    equal(q, q.name, 3, v);
    vf::check(!pd->kids.empty(), "point numbers missing");
    if (vf::failed() || !array(pd->kids[0].get(), &id)) return;
    equal(id, "number", 1, no);
    sets(pd, 1, d);
  }
  static const int OPS = 8;
  static const char *op(int k) {
    const char *s[] = {"s1", "s2", "v1", "s3", "clear", "write", "init", "cplx"};
    return s[k];
  }
  template <typename F>
  Eigen::MatrixXd mat(int c, const F &f) {
    Eigen::MatrixXd m(p.size(), c);
    for (size_t i = 0; i < p.size(); ++i) m.row(i) = Eigen::VectorXd(f(p[i])).transpose();
    return m;
  }
  void run(int k) {
    auto s1 = [](const Vector3d &x) { return w1(S1(x)); };
    auto s2 = [](const Vector3d &x) { return w1(S2(x)); };
    auto s3 = [](const Vector3d &x) { return w1(S3(x)); };
    auto v1 = [](const Vector3d &x) { return Eigen::VectorXd(V1(x)); };
    auto v2 = [](const Vector3d &x) { return Eigen::VectorXd(V2(x)); };
    switch (k) {
      case 0: w->addDataSet("s1", mat(1, s1)), push(&d, "s1", 1, p, s1); break;
      case 1: w->addDataSet("s2", mat(1, s2)), push(&d, "s2", 1, p, s2); break;
      case 2: w->addDataSet("v1", mat(3, v1)), push(&d, "v1", 3, p, v1); break;
      case 3: w->addDataSet("s3", mat(1, s3)), push(&d, "s3", 1, p, s3); break;
      case 4: w->clearData(), d.clear(); break;
      case 5: w->writeToFile(fname()), verify(); break;
      case 6: init(3, 0, 0); break;
      case 7: {
        Eigen::MatrixXcd m(p.size(), 3);
        m.real() = mat(3, v1);
        m.imag() = mat(3, v2);
        w->addComplexDataSet("c", m);
        push(&d, "c_real", 3, p, v1);
        push(&d, "c_imag", 3, p, v2);
        break;
      }
    }
  }
};
////////////////////////////////////////////////////////////////////////// surface
struct Surface {
  geo::QuadMesh m;
  PatchVector pv;
  Geometry g;
  int M = 0;
  std::unique_ptr<VTKSurfaceExport> w;
  struct Elem {
    int patch, i, j;
    Vector3d mid, nrm, c[4];
    Vector2d xi;
  };
  std::vector<Elem> el;
  // data sets as functions of the element (order of the cells is not prescribed)
  struct FSet {
    std::string name;
    int comp;
    std::function<Eigen::VectorXd(const Elem &)> f;
  };
  std::vector<FSet> d;
  std::shared_ptr<AnsatzSpace<OpD>> ad;
  std::shared_ptr<AnsatzSpace<OpVz>> av;
  Eigen::VectorXd cdv;
  Eigen::VectorXcd cvv;
  std::shared_ptr<FunctionEvaluator<OpD>> ed;
  std::shared_ptr<FunctionEvaluator<OpVz>> evv;
  bool withSpaces = false;
  void init(const geo::QuadMesh &mesh, int level) {
    m = mesh;
    pv = geo::patches(m);
    g = geo::geometry(m);
    setup(level);
  }
  void setup(int level) {
    M = level;
    el.clear();
    d.clear();
    const int n = 1 << M;
    for (int q = 0; q < (int)pv.size(); ++q)
      for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i) {
          Elem e;
          e.patch = q, e.i = i, e.j = j;
          e.xi = Vector2d((i + .5) / n, (j + .5) / n);
          e.mid = pv[q].eval(e.xi);
          e.nrm = pv[q].evalNormal(e.xi).normalized();
          const int X[4] = {0, 1, 1, 0}, Y[4] = {0, 0, 1, 1};
          for (int k = 0; k < 4; ++k) e.c[k] = pv[q].eval(double(i + X[k]) / n, double(j + Y[k]) / n);
          el.push_back(e);
        }
    if (w)
      w->init_VTKSurfaceExport(g, M);
    else
      w.reset(new VTKSurfaceExport(g, M));
  }
  void spaces() {
    withSpaces = true;
    ad = std::make_shared<AnsatzSpace<OpD>>(g, 1, 1);
    av = std::make_shared<AnsatzSpace<OpVz>>(g, 0, 1);
    cdv = Eigen::VectorXd::LinSpaced(ad->get_number_of_dofs(), .1, 3);
    cvv.resize(av->get_number_of_dofs());
    for (int i = 0; i < cvv.size(); ++i) cvv(i) = cd(1 + i, -2 * i + .5);
    ed = std::make_shared<FunctionEvaluator<OpD>>(*ad, cdv);
    evv = std::make_shared<FunctionEvaluator<OpVz>>(*av, cvv);
  }
  void verify() {
    Node n;
    const Node *gr, *pc;
    if (!root(fname(), "PolyData", &n, &gr, &pc)) return;
    std::vector<double> np, nc;
    vf::check(pc->at.count("NumberOfPoints") && numbers(pc->at.at("NumberOfPoints"), &np) && np.size() == 1, "number of points");
    vf::check(pc->at.count("NumberOfPolys") && numbers(pc->at.at("NumberOfPolys"), &nc) && nc.size() == 1 && nc[0] == el.size(), "number of cells");
    const Node *pt = pc->kid("Points"), *cl = pc->kid("CellData"), *po = pc->kid("Polys");
    vf::check(pt && pt->kids.size() == 1 && cl && po && po->kids.size() == 2, "structure");
    if (vf::failed()) return;
    Data q, con, off;
    if (!array(pt->kids[0].get(), &q) || !array(po->kids[0].get(), &con) || !array(po->kids[1].get(), &off)) return;
    vf::check(con.name == "connectivity" && off.name == "offsets", "names of the cell arrays");
    vf::check(q.comp == 3 && q.v.size() == 3 * np[0], cat(q.v.size() / 3., " points instead of ", np[0]));
    vf::check(con.v.size() == 4 * el.size(), "connectivity");
    vf::check(off.v.size() == el.size(), "offsets");
    if (vf::failed()) return;
    for (size_t i = 0; i < el.size(); ++i) vf::check(off.v[i] == 4. * (i + 1), "offset");
    double scale = 0;
    for (double x : q.v) scale = std::max(scale, std::abs(x));
    // every vertex of the mesh exactly once
    std::vector<Vector3d> pts;
    auto same = [&](const Vector3d &a, const Vector3d &b) { return (a - b).cwiseAbs().maxCoeff() <= 2e-5 * (1e-3 + scale); };
    for (size_t i = 0; i < q.v.size(); i += 3) pts.push_back(Vector3d(q.v[i], q.v[i + 1], q.v[i + 2]));
    for (size_t i = 0; i < pts.size(); ++i)
      for (size_t j = 0; j < i; ++j) vf::check(!same(pts[i], pts[j]), cat("points ", j, " and ", i, " coincide"));
    std::vector<bool> used(pts.size(), false);
    // every cell is one element, every element is one cell
    std::vector<int> which(el.size(), -1), hit(el.size(), 0);
    for (size_t c = 0; c < el.size(); ++c) {
      Vector3d v[4];
      for (int k = 0; k < 4; ++k) {
        double x = con.v[4 * c + k];
        vf::check(x == std::floor(x) && x >= 0 && x < pts.size(), "vertex index");
        if (vf::failed()) return;
        used[(int)x] = true;
        v[k] = pts[(int)x];
      }
      for (size_t e = 0; e < el.size(); ++e) {
        bool ok = true;
        for (int k = 0; k < 4 && ok; ++k) ok = same(v[k], el[e].c[k]);
        if (ok) {
          vf::check(which[c] < 0, "cell belongs to two elements");
          which[c] = e;
          ++hit[e];
        }
      }
      vf::check(which[c] >= 0, cat("cell ", c, " is not an element of the mesh"));
      if (vf::failed()) return;
    }
    for (int h : hit) vf::check(h == 1, cat("element is drawn ", h, " times"));
    for (bool u : used) vf::check(u, "point that belongs to no cell");
    if (vf::failed()) return;
    // data
    vf::check(cl->kids.size() == d.size() + 2, cat(cl->kids.size(), " data arrays instead of ", d.size() + 2));
    if (vf::failed()) return;
    std::vector<FSet> all = {{"patch_number", 1, [](const Elem &e) { return w1(e.patch); }}, {"cell_normals", 3, [](const Elem &e) { return Eigen::VectorXd(e.nrm); }}};
    all.insert(all.end(), d.begin(), d.end());
    for (size_t i = 0; i < all.size(); ++i) {
      Data a;
      if (!array(cl->kids[i].get(), &a)) return;
      std::vector<double> v;
      double sc = 0;
      for (size_t c = 0; c < el.size(); ++c) {
        Eigen::VectorXd y = all[i].f(el[which[c]]);
        for (int k = 0; k < all[i].comp; ++k) v.push_back(y(k)), sc = std::max(sc, std::abs(y(k)));
      }
      equal(a, all[i].name, all[i].comp, v, 1e-4 * sc);
    }
  }
  static const int OPS = 14;
  static const char *op(int k) {
    const char *s[] = {"s3", "v3", "c3", "cv3", "s2", "v2", "c2", "cv2", "tiny", "space", "vspace", "clear", "write", "init"};
    return s[k];
  }
  void add(const std::string &n, int c, const std::function<Eigen::VectorXd(const Elem &)> &f) { d.push_back({n, c, f}); }
  void run(int k) {
    auto P1 = [](int p, const Vector2d &x) { return 1 + p * 100 + x(0) * 10 + x(1); };
    auto P3 = [](int p, const Vector2d &x) { return Vector3d(p + 1, 10 * x(0), -x(1) * x(0)); };
    switch (k) {
      case 0: w->addDataSet("s3", std::function<double(const Vector3d &)>(S1)), add("s3", 1, [](const Elem &e) { return w1(S1(e.mid)); }); break;
      case 1: w->addDataSet("v3", std::function<Vector3d(const Vector3d &)>(V1)), add("v3", 3, [](const Elem &e) { return Eigen::VectorXd(V1(e.mid)); }); break;
      case 2:
        w->addDataSet("c3", std::function<cd(const Vector3d &)>([](const Vector3d &x) { return cd(S1(x), S3(x)); }));
        add("c3_real", 1, [](const Elem &e) { return w1(S1(e.mid)); });
        add("c3_imag", 1, [](const Elem &e) { return w1(S3(e.mid)); });
        break;
      case 3:
        w->addDataSet("cv3", std::function<Vector3cd(const Vector3d &)>([](const Vector3d &x) { return Vector3cd(V1(x).cast<cd>() + cd(0, 1) * V2(x).cast<cd>()); }));
        add("cv3_real", 3, [](const Elem &e) { return Eigen::VectorXd(V1(e.mid)); });
        add("cv3_imag", 3, [](const Elem &e) { return Eigen::VectorXd(V2(e.mid)); });
        break;
      case 4: w->addDataSet("s2", std::function<double(int, const Vector2d &)>(P1)), add("s2", 1, [=](const Elem &e) { return w1(P1(e.patch, e.xi)); }); break;
      case 5: w->addDataSet("v2", std::function<Vector3d(int, const Vector2d &)>(P3)), add("v2", 3, [=](const Elem &e) { return Eigen::VectorXd(P3(e.patch, e.xi)); }); break;
      case 6:
        w->addDataSet("c2", std::function<cd(int, const Vector2d &)>([=](int p, const Vector2d &x) { return cd(P1(p, x), 2 - P1(p, x)); }));
        add("c2_real", 1, [=](const Elem &e) { return w1(P1(e.patch, e.xi)); });
        add("c2_imag", 1, [=](const Elem &e) { return w1(2 - P1(e.patch, e.xi)); });
        break;
      case 7:
        w->addDataSet("cv2", std::function<Vector3cd(int, const Vector2d &)>([=](int p, const Vector2d &x) { return Vector3cd(P3(p, x).cast<cd>() * cd(1, -3)); }));
        add("cv2_real", 3, [=](const Elem &e) { return Eigen::VectorXd(P3(e.patch, e.xi)); });
        add("cv2_imag", 3, [=](const Elem &e) { return Eigen::VectorXd(-3 * P3(e.patch, e.xi)); });
        break;
      case 8: w->addDataSet("tiny", std::function<double(const Vector3d &)>(S2)), add("tiny", 1, [](const Elem &e) { return w1(S2(e.mid)); }); break;
      case 9: {
        w->addDataSet("space", *ad, cdv);
        auto ev = ed;
        add("space", 1, [=](const Elem &e) { return w1(ev->evaluateOnPatch(e.patch, e.xi)(0)); });
        break;
      }
      case 10: {
        w->addDataSet("vspace", *av, cvv);
        auto ev = evv;
        add("vspace_real", 3, [=](const Elem &e) { return Eigen::VectorXd(ev->evaluateOnPatch(e.patch, e.xi).real()); });
        add("vspace_imag", 3, [=](const Elem &e) { return Eigen::VectorXd(ev->evaluateOnPatch(e.patch, e.xi).imag()); });
        break;
      }
      case 11: w->clearData(), d.clear(); break;
      case 12: w->writeToFile(fname()), verify(); break;
      case 13: setup(M == 1 ? 2 : 1); break;
    }
  }
};
template <typename W>
void histories(const std::string &tag, const std::function<void(W *)> &start, const std::vector<int> &ops, int depth) {
  std::vector<int> h;
  std::function<void()> rec = [&] {
    std::string id = tag;
    for (int k : h) id += cat("/", W::op(k));
    if (vf::begin(id)) {
      W w;
      start(&w);
      for (int k : h) {
        vf::step();
        w.run(k);
        if (vf::failed()) break;
      }
      if (!vf::failed()) {
        w.w->writeToFile(fname());
        w.verify();
      }
      uint64_t s = vf::hstr(tag);
      for (auto &d : w.d) s = vf::mix(s, vf::hstr(d.name));
      vf::state(s);
    }
    if ((int)h.size() == depth) return;
    for (int k : ops) {
      h.push_back(k);
      rec();
      h.pop_back();
    }
  };
  rec();
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  const int T = vf::thorough();
  const int N = T ? 5 : 3;
  for (int a = 1; a <= N; ++a)
    for (int b = 1; b <= N; ++b)
      for (int c = 1; c <= N; ++c) histories<Domain>(cat("domain", a, b, c), [=](Domain *d) { d->init(a, b, c); }, {0, 2}, 2);
  histories<Domain>("domain", [](Domain *d) { d->init(3, 2, 4); }, {0, 1, 2, 3, 4, 5, 6}, 4 + T);
  for (int n = 1; n <= 12; ++n) histories<Points>(cat("points", n), [=](Points *d) { d->init(n, 0, 0); }, {0, 1, 2, 3, 7}, 2);
  histories<Points>("points", [](Points *d) { d->init(5, 0, 0); }, {0, 1, 2, 4, 5, 6, 7}, 4 + T);
  std::vector<geo::QuadMesh> ms = {geo::square(), geo::skewquad(), geo::strip(2), geo::star(3), geo::star(5), geo::cube(), geo::torus(3, 3), geo::ring(4), geo::apart(), geo::shifted(geo::cube(), geo::V3(5, -7, 9), .01)};
  for (auto &m : ms)
    for (int L = 0; L <= (m.npatch() > 4 ? 2 : 3) + T; ++L)
      histories<Surface>(cat(m.name, "/L", L), [=](Surface *s) { s->init(m, L), s->spaces(); }, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, 1);
  for (auto &m : {geo::strip(2), geo::skewquad()})
    histories<Surface>(m.name + "/history", [=](Surface *s) { s->init(m, 1), s->spaces(); }, {0, 1, 2, 7, 9, 10, 11, 12, 13}, 3 + T);
  return vf::finish();
}
