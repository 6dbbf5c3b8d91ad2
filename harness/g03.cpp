// G03: geometries survive writing and loading; loading works for every path.
#include <Eigen/Dense>
#include <Bembel/Geometry>
#include "geo.hpp"
#include "vf.hpp"
using namespace Bembel;
using vf::cat;
static std::string dirname_;
static bool same(const PatchVector &a, const PatchVector &b, double tol, const std::string &what) {
  vf::check(a.size() == b.size(), cat(what, ": ", b.size(), " patches, expected ", a.size()));
  if (vf::failed()) return false;
  for (size_t p = 0; p < a.size(); ++p)
    for (double u : {0., .21, .5, .83, 1.})
      for (double v : {0., .36, .5, .77, 1.}) {
        double sc = 1 + a[p].eval(u, v).norm();
        vf::near((a[p].eval(u, v) - b[p].eval(u, v)).norm(), 0., tol * sc, cat(what, ": patch ", p, " at ", u, ",", v));
        vf::near((a[p].evalJacobian(u, v) - b[p].evalJacobian(u, v)).norm(), 0., 20 * tol * sc * (1 + a[p].evalJacobian(u, v).norm()),
                 cat(what, ": tangents of patch ", p));
      }
  return !vf::failed();
}
// non-square degrees, weights, order matters
static Patch oddPatch(int ox, int oy, double s) {
  std::vector<double> kx(2 * ox, 0.), ky(2 * oy, 0.);
  for (int i = 0; i < ox; ++i) kx[ox + i] = 1;
  for (int i = 0; i < oy; ++i) ky[oy + i] = 1;
  std::vector<Eigen::MatrixXd> c(4, Eigen::MatrixXd(oy, ox));
  for (int r = 0; r < oy; ++r)
    for (int k = 0; k < ox; ++k) {
      double w = 1 + .3 * std::sin(2. * r + 3. * k + s);
      c[0](r, k) = w * (k + .1 * r + s);
      c[1](r, k) = w * (r - .2 * k);
      c[2](r, k) = w * (-.4 * s + .13 * r * k - .3);
      c[3](r, k) = w;
    }
  return Patch(c, kx, ky);
}
struct Kind {
  std::string name;
  PatchVector g;
};
static std::vector<Kind> kinds() {
  std::vector<Kind> k;
  using namespace geo;
  for (const QuadMesh &m : {square(), strip(3), cube(), curved(weighted(star(4))), weighted(skewquad()), shifted(curved(cube()), V3(-50, 20, 3), .05)})
    k.push_back({m.name, patches(m)});
  for (int ox = 2; ox <= 5; ++ox)
    for (int oy = 2; oy <= 5; ++oy) k.push_back({cat("odd", ox, "x", oy), {oddPatch(ox, oy, .5), oddPatch(oy, ox, -1.25), oddPatch(ox, oy, 2)}});
  k.push_back({"mixed", {oddPatch(2, 5, 0), oddPatch(3, 2, 1), oddPatch(7, 4, 2), patches(square())[0]}});
  return k;
}
static void write(const PatchVector &g, const std::string &f, const std::string &ext, int prec) {
  if (ext == "dat")
    WriteDATFile(g, f);
  else if (prec == 6)
    writeIGSFile(g, f);
  else
    writeIGSFile(g, f, prec);
}
static double tolOf(const std::string &ext, int prec) { return ext == "dat" ? 1e-12 : 20 * std::pow(10., -prec); }
static void mkdirs(const std::string &p) {
  for (size_t i = 1; i < p.size(); ++i)
    if (p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755);
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  const bool th = vf::thorough();
  dirname_ = cat(vf::ctx().scratch, "/g03_", getpid());
  mkdir(dirname_.c_str(), 0755);
  if (chdir(dirname_.c_str())) abort();
  auto ks = kinds();
  // 1. every geometry, format and precision, through the raw loader and Geometry
  for (auto &k : ks)
    for (std::string ext : {"dat", "igs"})
      for (int prec : ext == "dat" ? std::vector<int>{15} : std::vector<int>{6, 10, 15, 17}) {
        if (!vf::begin(cat("kind/", k.name, ".", ext, prec))) continue;
        vf::state(vf::hstr(vf::ctx().id));
        std::string f = cat("k.", ext);
        write(k.g, f, ext, prec);
        PatchVector raw = ext == "dat" ? LoadGeometryFileDAT(f) : LoadGeometryFileIGS(f);
        if (!same(k.g, raw, tolOf(ext, prec), "loader")) continue;
        Geometry g(f);
        vf::check(g.get_number_of_patches() == (int)k.g.size(), "get_number_of_patches");
        same(k.g, g.get_geometry(), tolOf(ext, prec), "Geometry");
        // a second generation is a fixed point up to rounding
        write(g.get_geometry(), f, ext, prec);
        Geometry g2;
        g2.init_Geometry(f);
        same(g.get_geometry(), g2.get_geometry(), tolOf(ext, prec), "second generation");
      }
  // 2. file names and paths
  const std::string longd(60, 'D'), longp(40, 'P');
  const std::vector<std::string> stems = {
      "a", "./a", "../up", "d/a", "./d/a", "d/../d/a", "d.x/a", "d.dat/a", "d.igs/b", "v1.2/m", "a.b", "a.igs", "a.dat", "d.x/a.b.c", "igs", "dat", ".hidden",
      "../../g03_parent.d/x", longd + "/" + longd + "/n", longp + "/" + longd + "/n.m", "sp ace/a b", dirname_ + "/abs", dirname_ + "/abs.d/e"};
  for (auto &st : stems)
    for (std::string ext : {"dat", "igs"}) {
      if (!vf::begin(cat("path/", st.find(dirname_) == 0 ? "ABS" + st.substr(dirname_.size()) : st, ".", ext))) continue;
      vf::state(vf::hstr(vf::ctx().id));
      if (st == "../../g03_parent.d/x") {
        mkdir("sub", 0755);
        mkdir("sub/sub", 0755);
        if (chdir("sub/sub")) abort();
      }
      if (st == "../up") {
        mkdir("sub", 0755);
        if (chdir("sub")) abort();
      }
      std::string f = st + "." + ext;
      mkdirs(f);
      if (st.find("..") == 0) mkdirs(f);
      const PatchVector &g = ks[6].g;
      write(g, f, ext, 15);
      Geometry r(f);
      same(g, r.get_geometry(), tolOf(ext, 15), "path");
      if (chdir(dirname_.c_str())) abort();
    }
  // 3. histories of writes to two files: the last write wins, loads do not interfere
  const int L = th ? 4 : 3;
  const int OPS = 8;  // 4 geometries x 2 files
  const int pick[4] = {0, 2, 9, 3};
  int total = 1;
  for (int i = 0; i < L; ++i) total *= OPS;
  for (std::string ext : {"dat", "igs"})
    for (int w = 0; w < total; ++w) {
      std::string id = "history/" + ext + "/";
      for (int i = 0, x = w; i < L; ++i, x /= OPS) id += char('a' + x % OPS);
      if (!vf::begin(id)) continue;
      vf::state(vf::hstr(id));
      std::string file[2] = {"h0." + ext, "h1." + ext};
      int last[2] = {-1, -1};
      Geometry keep;
      int keepKind = -1;
      for (int i = 0, x = w; i < L; ++i, x /= OPS) {
        int op = x % OPS, kind = op / 2, fi = op % 2;
        write(ks[pick[kind]].g, file[fi], ext, 15);
        last[fi] = pick[kind];
        vf::step();
        if (i == 0) {
          keep.init_Geometry(file[fi]);
          keepKind = pick[kind];
        }
        for (int q = 0; q < 2; ++q)
          if (last[q] >= 0) {
            Geometry r(file[q]);
            same(ks[last[q]].g, r.get_geometry(), tolOf(ext, 15), cat("file ", q, " after ", i + 1, " writes"));
          }
        if (vf::failed()) break;
      }
      same(ks[keepKind].g, keep.get_geometry(), tolOf(ext, 15), "geometry loaded first");
      // re-initialising an existing object replaces it
      keep.init_Geometry(file[last[1] >= 0]);
      same(ks[last[last[1] >= 0]].g, keep.get_geometry(), tolOf(ext, 15), "re-initialised geometry");
      unlink(file[0].c_str());
      unlink(file[1].c_str());
    }
  // 4. patches with inner knots, written with MakeFile / WritePatch
  const std::vector<std::vector<double>> INNER = {{}, {.5}, {.25, .75}, {.3, .3, .6}};
  for (int ox = 2; ox <= 4; ++ox)
    for (int oy = 2; oy <= 4; ++oy)
      for (int a = 0; a < 4; ++a)
        for (int b = 0; b < 4; ++b) {
          if (ox == 2 && a == 3 || oy == 2 && b == 3) continue;
          if (!vf::begin(cat("bspline/o", ox, "x", oy, "k", a, "x", b))) continue;
          vf::state(vf::hstr(vf::ctx().id));
          auto mk = [](int o, const std::vector<double> &in) {
            std::vector<double> U(o, 0.);
            U.insert(U.end(), in.begin(), in.end());
            U.insert(U.end(), o, 1.);
            return U;
          };
          std::vector<double> kx = mk(ox, INNER[a]), ky = mk(oy, INNER[b]);
          PatchVector exp;
          MakeFile("b.dat", 2);
          for (int n = 0; n < 2; ++n) {
            int C = (int)kx.size() - ox, R = (int)ky.size() - oy;
            std::vector<Eigen::MatrixXd> c(4, Eigen::MatrixXd(R, C));
            for (int r = 0; r < R; ++r)
              for (int k = 0; k < C; ++k) {
                double w = 1 + .2 * std::sin(r + 2. * k + n);
                c[0](r, k) = w * (k + .3 * n);
                c[1](r, k) = w * (r + .1 * k);
                c[2](r, k) = w * .2 * (r * k % 3 + n);
                c[3](r, k) = w;
              }
            WritePatch("b.dat", n, c, kx, ky);
            exp.push_back(Patch(c, kx, ky));
          }
          same(exp, LoadGeometryFileDAT("b.dat"), 1e-11, "loader");
          PatchVector chips = PatchShredder(exp);
          Geometry g("b.dat");
          same(chips, g.get_geometry(), 1e-11, "Geometry");
          WriteDATFile(g.get_geometry(), "b2.dat");
          writeIGSFile(g.get_geometry(), "b2.igs", 15);
          same(chips, Geometry("b2.dat").get_geometry(), 1e-11, "rewritten dat");
          same(chips, Geometry("b2.igs").get_geometry(), 1e-11, "rewritten igs");
        }
  // 5. shipped geometries and line endings
  for (auto &n : geo::shipped()) {
    if (!th && (n == "tesla_9_cell" || n == "platewithholes")) continue;
    for (int v = 0; v < 4; ++v) {
      if (!vf::begin(cat("shipped/", n, "/", v))) continue;
      vf::state(vf::hstr(vf::ctx().id));
      Geometry g(cat(REPO_DIR, "/geo/", n, ".dat"));
      if (v == 0) {
        WriteDATFile(g.get_geometry(), "s.dat");
        same(g.get_geometry(), Geometry("s.dat").get_geometry(), 1e-11, "dat");
      } else if (v == 1) {
        writeIGSFile(g.get_geometry(), "s.igs", 15);
        same(g.get_geometry(), Geometry("s.igs").get_geometry(), 1e-11, "igs");
      } else {  // LF only, and LF without trailing blanks
        std::ifstream in(cat(REPO_DIR, "/geo/", n, ".dat"));
        std::ofstream out("t.dat");
        std::string l;
        while (std::getline(in, l)) {
          while (!l.empty() && (l.back() == '\r' || (v == 3 && l.back() == ' '))) l.pop_back();
          out << l << "\n";
        }
        out.close();
        same(g.get_geometry(), Geometry("t.dat").get_geometry(), 1e-13, "line endings");
      }
    }
  }
  if (chdir("/")) abort();
  return vf::finish();
}
