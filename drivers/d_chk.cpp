// P16: checkpoints against a key-value model, with injected I/O failures
#include "util.h"
#include "refatom.h"
#include "refdia.h"
#include <general/checkpoint.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <variant>
using namespace helfem; typedef _Float128 f128;

// ---- file system calls of the process, with faults on the watched file only ----
static char watch_path[4200] = ""; static int fault_mode = 0, fault_at = -1, fault_seen = 0, fault_fired = 0, fault_sticky = 0;
static bool watched(int fd) { if (!watch_path[0]) return false; char l[64], b[4200]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, b, sizeof b - 1); if (n <= 0) return false; b[n] = 0; return !strcmp(b, watch_path); }
enum { F_WRITE = 1, F_SHORT = 2, F_READ = 3, F_TRUNC = 4 };
static bool fire(int mode, int fd) { if (fault_mode != mode || !watched(fd)) return false; int k = fault_seen++; if (k == fault_at || (fault_sticky && k > fault_at && fault_at >= 0)) { fault_fired++; return true; } return false; }
template <class F> static F next(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { static auto f = next<ssize_t (*)(int, const void *, size_t, off64_t)>("pwrite64"); if (fire(F_WRITE, fd)) { errno = ENOSPC; return -1; } if (n > 1 && fire(F_SHORT, fd)) { ssize_t r = f(fd, b, n / 2, o); return r; } return f(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { static auto f = next<ssize_t (*)(int, void *, size_t, off64_t)>("pread64"); if (fire(F_READ, fd)) { errno = EIO; return -1; } return f(fd, b, n, o); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
int ftruncate64(int fd, off64_t n) { static auto f = next<int (*)(int, off64_t)>("ftruncate64"); if (fire(F_TRUNC, fd)) { errno = EIO; return -1; } return f(fd, n); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
}

struct Str { std::string s; }; struct Bool { bool b; };
typedef std::variant<double, long double, f128, int, hsize_t, Bool, Str, Mat<double>, Mat<long double>, Mat<f128>, Vec<double>, Vec<long double>, Vec<f128>, Eigen::MatrixXi, std::vector<double>, std::vector<long double>, std::vector<f128>, std::vector<hsize_t>> Val;
static const char *kind(const Val &v) { static const char *n[] = {"double", "ldouble", "quad", "int", "hsize", "bool", "string", "mat", "matl", "matq", "vec", "vecl", "vecq", "mati", "arr", "arrl", "arrq", "arrh"}; return n[v.index()]; }
template <class T> static bool bits(const T &a, const T &b) { return memcmp(&a, &b, sizeof a) == 0; }
static bool bits(const long double &a, const long double &b) { return memcmp(&a, &b, 10) == 0; }
template <class A, class B> static bool seq(const A &a, const B &b, long n) { for (long i = 0; i < n; i++) if (!bits(a[i], b[i])) return false; return true; }
struct Same { const Val &o;
  template <class T> bool operator()(const T &a) const { return bits(a, std::get<T>(o)); }
  bool operator()(const Bool &a) const { return a.b == std::get<Bool>(o).b; }
  bool operator()(const Str &a) const { return a.s == std::get<Str>(o).s; }
  template <class T, int R, int C> bool operator()(const Eigen::Matrix<T, R, C> &a) const { auto &b = std::get<Eigen::Matrix<T, R, C>>(o); return a.rows() == b.rows() && a.cols() == b.cols() && seq(a.data(), b.data(), a.size()); }
  template <class T> bool operator()(const std::vector<T> &a) const { auto &b = std::get<std::vector<T>>(o); return a.size() == b.size() && seq(a.data(), b.data(), (long)a.size()); } };
static bool same(const Val &a, const Val &b) { return a.index() == b.index() && std::visit(Same{b}, a); }
template <class T> static T number(vf::Rng &g) {
  switch (g.integer(0, 9)) { case 0: return 0; case 1: return -(T)0.0; case 2: return (T)std::numeric_limits<double>::infinity(); case 3: return (T)std::numeric_limits<double>::quiet_NaN(); case 4: return (T)5e-324; case 5: return (T)1.7976931348623157e308; default: break; }
  T x = 0, s = 1; for (int k = 0; k < 3; k++) { x += s * (T)g.uniform(-1, 1); s *= (T)0x1p-50; } for (int k = g.integer(0, 40); k > 0; k--) x *= (T)g.pick({0.1, 10.0}); return x;
}
static int extent(vf::Rng &g) { return g.coin(0.12) ? 0 : g.coin(0.1) ? g.integer(30, 90) : g.integer(1, 7); }
template <class T> static Mat<T> rmat(vf::Rng &g, int r, int c) { Mat<T> m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = number<T>(g); return m; }
template <class T> static std::vector<T> rarr(vf::Rng &g) { std::vector<T> v(extent(g)); for (auto &x : v) x = number<T>(g); return v; }
static Val value(vf::Rng &g, int k = -1) {
  if (k < 0) k = g.integer(0, 17);
  switch (k) { case 0: return number<double>(g); case 1: return number<long double>(g); case 2: return number<f128>(g); case 3: return g.pick({0, 1, -1, INT32_MAX, INT32_MIN, g.integer(-1000, 1000)}); case 4: return (hsize_t)(g.coin() ? g.next() : g.integer(0, 9)); case 5: return Bool{g.coin()};
    case 6: { Str s; int n = g.coin(0.15) ? 0 : g.integer(1, 60); for (int i = 0; i < n; i++) s.s += (char)(g.coin(0.05) ? g.integer(0, 255) : g.integer(32, 126)); return s; }
    case 7: return rmat<double>(g, extent(g), extent(g)); case 8: return rmat<long double>(g, extent(g), extent(g)); case 9: return rmat<f128>(g, extent(g), extent(g));
    case 10: return Vec<double>(rmat<double>(g, extent(g), 1)); case 11: return Vec<long double>(rmat<long double>(g, extent(g), 1)); case 12: return Vec<f128>(rmat<f128>(g, extent(g), 1));
    case 13: { Eigen::MatrixXi m(extent(g), extent(g)); for (int i = 0; i < m.size(); i++) m.data()[i] = (int)g.next(); return m; }
    case 14: return rarr<double>(g); case 15: return rarr<long double>(g); case 16: return rarr<f128>(g); default: { std::vector<hsize_t> v(extent(g)); for (auto &x : v) x = g.next(); return v; } }
}
struct Put { Checkpoint &c; const std::string &n; template <class T> void operator()(const T &v) const { c.write(n, v); } void operator()(const Bool &b) const { c.write(n, b.b); } void operator()(const Str &s) const { c.write(n, s.s); } };
struct Get { Checkpoint &c; const std::string &n; template <class T> Val operator()(const T &) const { T v; junk(v); c.read(n, v); return v; } Val operator()(const Bool &) const { bool b = false; c.read(n, b); return Bool{b}; } Val operator()(const Str &) const { Str s{"previous"}; c.read(n, s.s); return s; }
  template <class T> static std::enable_if_t<std::is_arithmetic<T>::value || std::is_same<T, f128>::value> junk(T &v) { v = (T)77; } template <class T> static std::enable_if_t<!(std::is_arithmetic<T>::value || std::is_same<T, f128>::value)> junk(T &) {} };
static void put(Checkpoint &c, const std::string &n, const Val &v) { std::visit(Put{c, n}, v); }
static Val get(Checkpoint &c, const std::string &n, const Val &like) { return std::visit(Get{c, n}, like); }
static Val blank(int k) { switch (k) { case 0: return 0.0; case 1: return 0.0L; case 2: return (f128)0; case 3: return 0; case 4: return (hsize_t)0; case 5: return Bool{false}; case 6: return Str{}; case 7: return Mat<double>(); case 8: return Mat<long double>(); case 9: return Mat<f128>(); case 10: return Vec<double>(); case 11: return Vec<long double>(); case 12: return Vec<f128>(); case 13: return Eigen::MatrixXi(); case 14: return std::vector<double>(); case 15: return std::vector<long double>(); case 16: return std::vector<f128>(); default: return std::vector<hsize_t>(); } }
// can an entry of kind `have` be read as kind `want`? 1 yes, 0 must be refused, -1 not specified
static int readable(const Val &h, int want) {
  int have = (int)h.index(); auto grp = [](int k) { return k <= 2 ? 0 : k == 3 || k == 4 ? 1 : k == 5 ? 2 : k == 6 ? 3 : k <= 9 ? 4 : k <= 12 ? 5 : k == 13 ? 6 : k <= 16 ? 7 : 8; };
  if (have == want) return 1; int a = grp(have), b = grp(want); if (a == b) return 1;
  if ((a == 4 || a == 5) && (b == 4 || b == 5)) { if (b == 4) return 1; long cols = 0; if (have == 7) cols = std::get<Mat<double>>(h).cols(); else if (have == 8) cols = std::get<Mat<long double>>(h).cols(); else if (have == 9) cols = std::get<Mat<f128>>(h).cols(); else cols = 1; return cols == 1; }
  bool ia = a == 1 || a == 2, ib = b == 1 || b == 2; if (ia && ib) return -1;     // integers and booleans are both scalar integers
  if (a == 3 && b == 8) return -1;                                            // characters are small integers
  return 0;
}
// open files and objects, and identifiers beyond the predefined ones
static long ids() { hsize_t a = 0, b = 0; H5Inmembers(H5I_DATASPACE, &a); H5Inmembers(H5I_DATATYPE, &b); return (long)(a + b); }
static long base_ids = 0; static void warm(vf::Ctx &c) { std::string f = c.scratch + "/warm.chk"; { Checkpoint k(f, true); f128 x = 1; k.write("q", x); k.read("q", x); } unlink(f.c_str()); base_ids = ids(); }
static long handles() { return (long)H5Fget_obj_count((hid_t)H5F_OBJ_ALL, H5F_OBJ_FILE | H5F_OBJ_DATASET | H5F_OBJ_GROUP | H5F_OBJ_ATTR) + ids() - base_ids; }
typedef std::map<std::string, Val> Model;
static std::string slurp(const std::string &f) { FILE *p = fopen(f.c_str(), "rb"); std::string s; char b[65536]; size_t n; if (!p) return s; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p); return s; }
// the whole content through a new handle
static std::string audit(const std::string &file, const Model &m) {
  try { Checkpoint c(file, false); for (auto &k : m) { if (!c.exist(k.first)) return k.first + " is missing"; Val v = get(c, k.first, k.second); if (!same(v, k.second)) return std::string(k.first) + " differs, kind " + kind(k.second); }
    hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); H5G_info_t gi; H5Gget_info(f, &gi); H5Fclose(f); if (gi.nlinks != m.size()) return vf::fmt("%d entries instead of %d", (int)gi.nlinks, (int)m.size()); return ""; }
  catch (std::exception &e) { return e.what(); }
}
VF_SECTION("history") {
  auto &g = c.rng; H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); warm(c);
  for (int it = 0; it < c.n(60, 1500); it++) {
    std::string file = c.scratch + vf::fmt("/h%d.chk", it); c.m.begin(vf::fmt("history %d", it)); Model M; auto cp = std::make_unique<Checkpoint>(file, true, true); bool wr = true, op = false; int steps = g.integer(10, 60); std::vector<std::string> names; for (int i = 0; i < 8; i++) names.push_back(g.pick({std::string("Pa"), std::string("E tot"), std::string("lval"), std::string("x")}) + std::to_string(i) + (g.coin(0.1) ? std::string(g.integer(1, 200), 'n') : ""));
    for (int s = 0; s < steps; s++) {
      std::string n = g.pick(names); int o = g.integer(0, 19); bool has = M.count(n); std::string before;
      auto invariants = [&](const char *what) { c.m.require("state_kept", cp->is_open() == op, what); c.m.require("handles", handles() == (op ? 1 : 0), vf::fmt("%s: %ld open objects", what, handles())); };
      if (o < 8) { Val v = value(g); if (!wr) before = slurp(file); std::string t = vf::thrown([&] { put(*cp, n, v); }); if (wr) { if (c.m.require("write", t.empty(), t)) M[n] = v; } else { c.m.require("readonly_refuses", !t.empty()); c.m.require("readonly_untouched", slurp(file) == before); } c.m.event(std::string("write_") + kind(v)); invariants("write"); }
      else if (o < 12 && has) { Val v = blank(0); std::string t = vf::thrown([&] { v = get(*cp, n, M[n]); }); c.m.require("read", t.empty() && same(v, M[n]), std::string(kind(M[n])) + " " + t); invariants("read"); }
      else if (o < 14) { int k = g.integer(0, 17); Val w = blank(k), v = w; std::string t = vf::thrown([&] { v = get(*cp, n, w); }); if (!has) c.m.require("missing_refused", !t.empty(), n); else { int r = readable(M[n], k); if (r == 0) { c.m.require("type_refused", !t.empty(), std::string(kind(M[n])) + " read as " + kind(w)); c.m.event("wrong_type_reads"); } else if (r == 1) c.m.require("compatible_read", t.empty(), std::string(kind(M[n])) + " read as " + kind(w) + ": " + t); } invariants("read other"); }
      else if (o == 14) { c.m.require("exist", cp->exist(n) == has, n); invariants("exist"); }
      else if (o == 15) { std::string t = vf::thrown([&] { cp->remove(n); }); if (wr) { c.m.require("remove", t.empty(), t); M.erase(n); } else c.m.require("readonly_refuses", !t.empty()); invariants("remove"); }
      else if (o == 16) { std::string t = vf::thrown([&] { cp->open(); }); c.m.require("open", t.empty() == !op, t); op = true; invariants("open"); }
      else if (o == 17) { std::string t = vf::thrown([&] { cp->close(); }); c.m.require("close", t.empty() == op, t); op = false; invariants("close"); }
      else if (o == 18) { cp->flush(); invariants("flush"); }
      else { cp.reset(); op = false; c.m.require("destructor_releases", handles() == 0); c.m.require("audit", audit(file, M).empty(), audit(file, M)); wr = g.coin(0.75); bool trunc = wr && g.coin(0.1); if (wr && trunc) M.clear(); cp = std::make_unique<Checkpoint>(file, wr, trunc); op = !(wr && trunc); if (g.coin() && op) { cp->close(); op = false; } c.m.event("reopened"); invariants("reopen"); }
    }
    cp.reset(); std::string a = audit(file, M); c.m.require("audit", a.empty(), a); c.m.require("destructor_releases", handles() == 0);
    // a different process sees the same
    fflush(stdout); pid_t p = fork(); if (p == 0) { std::string r = audit(file, M); _exit(r.empty() ? 0 : 1); } int st = 0; waitpid(p, &st, 0); c.m.require("other_process", WIFEXITED(st) && WEXITSTATUS(st) == 0); unlink(file.c_str());
  }
}
// other precisions on reading, layout on disk, refused files
template <class A, class B> static long double far(const A &a, const B &b) { f128 x = (f128)a, y = (f128)b, d = x > y ? x - y : y - x, s = x > 0 ? x : -x; return s > 0 ? (long double)(d / s) : (long double)d; }
VF_SECTION("precision") {
  auto &g = c.rng; H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); std::string file = c.scratch + "/p.chk"; Checkpoint cp(file, true);
  for (int it = 0; it < c.n(60, 1000); it++) {
    int r = g.integer(1, 6), k = g.integer(1, 6); c.m.begin(vf::fmt("precision %d %dx%d", it, r, k)); auto num = [&] { f128 x = 0, s = 1; for (int i = 0; i < 3; i++) { x += s * (f128)g.uniform(-1, 1); s *= (f128)0x1p-50; } return x * (f128)g.loguniform(1e-200, 1e200); };
    Mat<f128> q(r, k); for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) q(i, j) = num(); Mat<long double> l = q.cast<long double>(); Mat<double> d = q.cast<double>(); Mat<f128> q2; Mat<long double> l2; Mat<double> d2;
    cp.write("q", q); cp.write("l", l); cp.write("d", d); long double e1 = 0, e2 = 0, e3 = 0; bool up = true;
    cp.read("q", q2); up &= seq(q.data(), q2.data(), q.size()); cp.read("q", l2); for (int i = 0; i < q.size(); i++) e1 = std::max(e1, far(q.data()[i], l2.data()[i])); cp.read("q", d2); for (int i = 0; i < q.size(); i++) e2 = std::max(e2, far(q.data()[i], d2.data()[i])); cp.read("l", d2); for (int i = 0; i < q.size(); i++) e3 = std::max(e3, far(l.data()[i], d2.data()[i]));
    cp.read("l", l2); up &= seq(l.data(), l2.data(), l.size()); cp.read("l", q2); for (int i = 0; i < q.size(); i++) up &= q2.data()[i] == (f128)l.data()[i]; cp.read("d", l2); for (int i = 0; i < q.size(); i++) up &= l2.data()[i] == (long double)d.data()[i]; cp.read("d", q2); for (int i = 0; i < q.size(); i++) up &= q2.data()[i] == (f128)d.data()[i]; cp.read("d", d2); up &= seq(d.data(), d2.data(), d.size());
    c.m.require("widening_exact", up); c.m.small("narrow_quad_ldouble", e1, 1.1e-19L); c.m.small("narrow_quad_double", e2, 2.3e-16L); c.m.small("narrow_ldouble_double", e3, 2.3e-16L);
    // the file as other programs see it: column-major data with the extents exchanged, standard double
    cp.open(); cp.flush(); { hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDWR, H5P_DEFAULT), ds = H5Dopen2(f, "d", H5P_DEFAULT), sp = H5Dget_space(ds), ty = H5Dget_type(ds); hsize_t dm[2] = {0, 0}; H5Sget_simple_extent_dims(sp, dm, nullptr); std::vector<double> b(r * k); H5Dread(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data()); c.m.require("layout", (long)dm[0] == k && (long)dm[1] == r && H5Tequal(ty, H5T_IEEE_F64LE) > 0 && seq(b.data(), d.data(), r * k)); H5Tclose(ty); H5Sclose(sp); H5Dclose(ds); H5Fclose(f); } cp.close();
    f128 sq = num(); cp.write("s", sq); f128 sq2; cp.read("s", sq2); long double sl; cp.read("s", sl); c.m.require("scalar", bits(sq, sq2)); c.m.small("narrow_scalar", far(sq, sl), 1.1e-19L);
    std::vector<f128> vq{num(), num(), num()}, vq2; std::vector<double> vd; cp.write("v", vq); cp.read("v", vq2); cp.read("v", vd); c.m.require("array", vq2.size() == 3 && seq(vq.data(), vq2.data(), 3) && vd.size() == 3); c.m.small("narrow_array", std::max({far(vq[0], vd[0]), far(vq[1], vd[1]), far(vq[2], vd[2])}), 2.3e-16L);
    hsize_t big = g.integer(0, 1 << 30); cp.write("n", big); int sm = 0; cp.read("n", sm); c.m.require("integer_width", (hsize_t)sm == big); cp.write("m", sm); hsize_t b2 = 0; cp.read("m", b2); c.m.require("integer_width", b2 == big);
  }
}
VF_SECTION("refused") {
  auto &g = c.rng; H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); c.m.begin("refused files"); warm(c);
  auto refuse = [&](const char *what, const std::function<void()> &f) { c.m.require(std::string("refused_") + what, !vf::thrown(f).empty(), what); c.m.require("handles", handles() == 0, vf::fmt("%s: %ld", what, handles())); };
  std::string d = c.scratch; refuse("missing", [&] { Checkpoint k(d + "/none.chk", false); }); refuse("directory", [&] { Checkpoint k(d + "/no/such/dir.chk", true); }); c.m.require("nothing_created", access((d + "/none.chk").c_str(), F_OK) != 0);
  for (int it = 0; it < c.n(40, 300); it++) {
    int kind = g.integer(0, 3); c.m.begin(vf::fmt("damaged file %d kind=%d", it, kind)); std::string f = d + "/bad.chk"; { Checkpoint k(f, true); k.write("Pa", Matrix(Matrix::Random(20, 20))); k.write("E", 1.5); } std::string s = slurp(f), t = s;
    if (kind == 0) t = "not a checkpoint file"; else if (kind == 1) t = s.substr(0, g.integer(0, (int)s.size() - 1)); else if (kind == 2) t[g.integer(0, 7)] ^= 0x55; else t = "";
    { FILE *p = fopen(f.c_str(), "wb"); fwrite(t.data(), 1, t.size(), p); fclose(p); }
    refuse("damaged", [&] { Checkpoint k(f, false); Matrix m; k.read("Pa", m); double E; k.read("E", E); }); if (kind < 3) refuse("damaged_append", [&] { Checkpoint k(f, true, false); k.write("x", 1.0); }); if (kind < 3) c.m.require("damaged_untouched", slurp(f) == t);   // an empty file is a new one to HDF5
    { Checkpoint k(f, true, true); k.write("x", 2.0); } c.m.require("truncated_over", audit(f, Model{{"x", 2.0}}).empty()); unlink(f.c_str());
  }
  std::string a = tempname(), b = tempname(); c.m.require("tempname", a != b && !file_exists(a) && !file_exists(b)); c.m.require("file_exists", !file_exists(d + "/none.chk") && file_exists("/proc/self/exe"));
}
VF_SECTION("basis") {
  auto &g = c.rng; H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); warm(c);
  for (int it = 0; it < c.n(24, 300); it++) {
    std::string f = c.scratch + "/b.chk"; Checkpoint k(f, true); if (g.coin()) k.open(); bool op = k.is_open();
    if (it % 2) {
      vfa::Opt o; o.lmax = 2; o.maxang = 4; o.maxel = 3; o.maxn = 4; o.rhi = 10; auto a = vfa::make<double>(g, o); c.m.begin("atomic " + a.desc); int nuc = g.integer(0, 4); double rms = g.uniform(0.001, 0.2); int Z = g.integer(0, 40), Zl = 0, Zr = 0; double Rh = 0; if (nuc == 0 && g.coin(0.4) && a.b.size() > 2) { Zl = g.integer(1, 9); Zr = g.integer(1, 9); Rh = a.b[1]; }
      Eigen::VectorXi l(a.nang()), m(a.nang()); for (int i = 0; i < a.nang(); i++) { l(i) = a.l[i]; m(i) = a.m[i]; } Vector bv = to_vec<double>(a.b);
      atomic::basis::TwoDBasis x(Z, (modelpotential::nuclear_model_t)nuc, rms, make_poly<double>(a.id, a.nn), a.zd, a.nq, bv, l, m, Zl, Zr, Rh), y; k.write(x); c.m.require("state_kept", k.is_open() == op); k.read(y); c.m.require("state_kept", k.is_open() == op);
      c.m.require("atomic_parameters", x.get_Z() == y.get_Z() && x.get_Zl() == y.get_Zl() && x.get_Zr() == y.get_Zr() && x.get_Rhalf() == y.get_Rhalf() && x.get_bval() == y.get_bval() && x.get_nuclear_model() == y.get_nuclear_model() && x.get_nuclear_size() == y.get_nuclear_size() && x.get_nquad() == y.get_nquad() && x.get_poly_id() == y.get_poly_id() && x.get_poly_nnodes() == y.get_poly_nnodes() && x.get_zeroder() == y.get_zeroder() && x.get_lval() == y.get_lval() && x.get_mval() == y.get_mval());
      c.m.require("atomic_matrices", x.overlap() == y.overlap() && x.kinetic() == y.kinetic() && x.nuclear() == y.nuclear() && x.Nbf() == y.Nbf()); diatomic::basis::TwoDBasis z; c.m.require("kind_refused", !vf::thrown([&] { k.read(z); }).empty()); c.m.require("state_kept", k.is_open() == op);
    } else {
      vfd::Opt o; auto a = vfd::make(g, o); c.m.begin("diatomic " + a.desc); auto &x = *a.lib; diatomic::basis::TwoDBasis y; k.write(x); k.read(y); c.m.require("state_kept", k.is_open() == op);
      c.m.require("diatomic_parameters", x.get_Z1() == y.get_Z1() && x.get_Z2() == y.get_Z2() && x.get_Rhalf() == y.get_Rhalf() && x.get_bval() == y.get_bval() && x.get_nquad() == y.get_nquad() && x.get_poly_id() == y.get_poly_id() && x.get_poly_nnodes() == y.get_poly_nnodes() && x.get_lval() == y.get_lval() && x.get_mval() == y.get_mval());
      c.m.require("diatomic_matrices", x.overlap() == y.overlap() && x.kinetic() == y.kinetic() && x.nuclear() == y.nuclear() && x.Nbf() == y.Nbf()); atomic::basis::TwoDBasis z; c.m.require("kind_refused", !vf::thrown([&] { k.read(z); }).empty()); c.m.require("state_kept", k.is_open() == op);
    }
    if (op) k.close(); c.m.require("handles", handles() == 0); unlink(f.c_str());
  }
}
// a failing device: whatever was not reported as failed must be in the file
VF_SECTION("faults") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(12, 120); it++) {
    uint64_t hseed = g.next(); bool keep_open = g.coin(0.35); int mode = g.pick({F_WRITE, F_WRITE, F_SHORT, F_READ, F_TRUNC}), sticky = g.coin(); std::string file = c.scratch + vf::fmt("/f%d.chk", it); c.m.begin(vf::fmt("faults history=%llx open=%d mode=%d sticky=%d", (unsigned long long)hseed, keep_open, mode, sticky));
    int limit = 400, n_points = -1;
    for (int at = -1; at < limit; at++) {
      int fd[2]; if (pipe(fd)) return; unlink(file.c_str()); pid_t p = fork();
      if (p == 0) {   // the history, one scripted failure, then what survived
        H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); alarm(60); vf::Rng r(hseed); Model M; std::string bad; { Checkpoint a(file, true, true); for (int i = 0; i < 3; i++) { Val v = value(r); put(a, "old" + std::to_string(i), v); M["old" + std::to_string(i)] = v; } }
        { char rp[4200]; if (realpath(file.c_str(), rp)) snprintf(watch_path, sizeof watch_path, "%s", rp); }
        // state: per key either known content or unknown after a reported failure
        std::set<std::string> unknown; bool reported = false, any_unclosed = false;
        { fault_mode = mode == F_SHORT ? F_SHORT : mode; fault_seen = 0; fault_at = at; fault_sticky = sticky; fault_fired = 0;
          std::unique_ptr<Checkpoint> k; std::string t = vf::thrown([&] { k = std::make_unique<Checkpoint>(file, true, false); if (!keep_open) k->close(); }); if (!t.empty()) reported = true;
          if (k) {
            for (int i = 0; i < 6; i++) { std::string n = r.coin(0.3) ? "old" + std::to_string(r.integer(0, 2)) : "new" + std::to_string(i); int f0 = fault_fired; int o = r.integer(0, 9);
              if (keep_open && !k->is_open()) break;
              if (o < 7) { Val v = value(r, r.integer(0, 3) ? -1 : 7); t = vf::thrown([&] { put(*k, n, v); }); if (t.empty()) { M[n] = v; if (!keep_open && fault_fired > f0 && mode == F_WRITE) bad = "write of " + n + " returned although a write to the file failed"; } else { reported = true; unknown.insert(n); } }
              else if (M.count(n) && !unknown.count(n)) { Val v = blank(0); t = vf::thrown([&] { v = get(*k, n, M[n]); }); if (!t.empty()) reported = true; else if (!same(v, M[n])) bad = "read of " + n + " returned other content"; }
              if (k->is_open() != keep_open && t.empty()) bad = "open state changed"; }
            if (k->is_open()) { t = vf::thrown([&] { k->close(); }); if (!t.empty()) { reported = true; any_unclosed = true; } }
            if (k->is_open()) bad = "still open after close";
            if (bad.empty() && !reported && fault_fired && mode == F_WRITE) bad = "a failed write to the file was never reported";
            if (bad.empty() && reported && !fault_fired) bad = "failure reported without a fault: " + t;
            k.reset();
          } }
        int seen = fault_seen, fired = fault_fired; fault_mode = 0; watch_path[0] = 0;
        // nothing was reported: a new process must find everything
        if (bad.empty() && !reported) { pid_t q = fork(); if (q == 0) { std::string a = audit(file, M); _exit(a.empty() ? 0 : 1); } int st; waitpid(q, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = "content lost without any report (" + audit(file, M) + ")"; }
        (void)any_unclosed; std::string msg = vf::fmt("%d %d %d %s", seen, fired, (int)reported, bad.c_str()); (void)!write(fd[1], msg.data(), msg.size()); _exit(0);
      }
      close(fd[1]); std::string msg; char b[1024]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) msg.append(b, n); close(fd[0]); int st; waitpid(p, &st, 0); int seen = 0, fired = 0, rep = 0, off = 0;
      c.m.require("survives", WIFEXITED(st) && WEXITSTATUS(st) == 0 && sscanf(msg.c_str(), "%d %d %d %n", &seen, &fired, &rep, &off) == 3, vf::fmt("at=%d status=%d", at, st)); std::string why = msg.substr(std::min((size_t)off, msg.size())); c.m.require("not_silent", why.empty(), vf::fmt("at=%d %s", at, why.c_str()));
      if (fired) c.m.event("faults_injected"); if (fired && rep) c.m.event("faults_reported"); if (at < 0) { n_points = seen; limit = std::min(c.thorough ? 400 : 40, n_points); c.m.event("injection_points", n_points); }
    }
    unlink(file.c_str());
  }
  // a full device for real: the size limit of the process
  for (int it = 0; it < c.n(20, 200); it++) {
    std::string file = c.scratch + "/lim.chk"; int rows = g.integer(5, 60); long lim = g.integer(500, 40000); c.m.begin(vf::fmt("size limit %ld rows=%d", lim, rows)); unlink(file.c_str()); pid_t p = fork();
    if (p == 0) { H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); alarm(60); signal(SIGXFSZ, SIG_IGN); struct rlimit rl = {(rlim_t)lim, RLIM_INFINITY}; setrlimit(RLIMIT_FSIZE, &rl); bool rep = false; Matrix m = Matrix::Constant(rows, rows, 1.25); std::string t = vf::thrown([&] { Checkpoint k(file, true, true); k.write("m", m); k.write("e", 2.5); }); rep = !t.empty(); if (!rep) { rl.rlim_cur = RLIM_INFINITY; setrlimit(RLIMIT_FSIZE, &rl); _exit(audit(file, Model{{"m", Mat<double>(m)}, {"e", 2.5}}).empty() ? 10 : 11); } _exit(12); }
    int st; waitpid(p, &st, 0); int e = WIFEXITED(st) ? WEXITSTATUS(st) : -1; c.m.require("size_limit", e == 10 || e == 12, vf::fmt("exit %d", e)); c.m.event(e == 12 ? "size_limit_reported" : "size_limit_fits"); unlink(file.c_str());
  }
}
VF_MAIN
