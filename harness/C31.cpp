#include "common.hpp"
#include <common_robotics_utilities/math.hpp>
// SRC: math.cpp
using namespace common_robotics_utilities; namespace M = common_robotics_utilities::math;
using V = std::vector<double>; using P = common_robotics_utilities::parallelism::DegreeOfParallelism;
static double num() { switch (H::ri(0, 5)) { case 0: return 0.0; case 1: return -0.0; case 2: return H::ri(-3, 3); case 3: return H::rd(-1, 1) * 1e200; default: return H::rd(-5, 5); } }
static V vec(int n) { V v(n); for (auto& x : v) x = num(); return v; }
static bool eq(double a, double b) { return std::memcmp(&a, &b, 8) == 0 || a == b || (std::isnan(a) && std::isnan(b)); }
template <class F> static bool throws(F f) { try { f(); return false; } catch (const std::invalid_argument&) { return true; } }
template <class F, class G> static void each(const char* nm, const V& a, const V& b, F f, G g)
{
  const auto ctx = H::S(nm, a.size(), b.size()); H::at("elementwise", ctx); if (a.size() != b.size()) { H::check(throws([&] { f(); }), "mismatched lengths accepted", ctx); return; }
  const V r = f(); H::check(r.size() == a.size(), "length", ctx, r.size()); if (r.size() != a.size()) return; for (size_t i = 0; i < r.size(); i++) H::check(eq(r[i], g(a[i], b[i])), "elementwise", ctx, i, a[i], b[i], r[i]);
}
int main(int c, char** v)
{
  H::init(c, v);
  while (H::more(0.4) && H::failed.empty())
  {
    const int n = H::ri(0, 6), m = H::coin(5) ? H::ri(0, 6) : n; const V a = vec(n), b = vec(m); const double s = num(), t = H::coin(4) ? H::ri(-1, 2) : H::rd(-0.3, 1.3), tc = t < 0 ? 0 : t > 1 ? 1 : t; const V sv(n, s);
    each("Abs", a, a, [&] { return M::Abs(a); }, [](double x, double) { return std::abs(x); });
    each("Multiply s", a, sv, [&] { return M::Multiply(a, s); }, [](double x, double y) { return x * y; }); each("Multiply", a, b, [&] { return M::Multiply(a, b); }, [](double x, double y) { return x * y; });
    each("Divide s", a, sv, [&] { return M::Divide(a, s); }, [](double x, double y) { return (1.0 / y) * x; }); each("Divide", a, b, [&] { return M::Divide(a, b); }, [](double x, double y) { return x / y; });
    each("Add s", a, sv, [&] { return M::Add(a, s); }, [](double x, double y) { return x + y; }); each("Add", a, b, [&] { return M::Add(a, b); }, [](double x, double y) { return x + y; });
    each("Sub s", a, sv, [&] { return M::Sub(a, s); }, [](double x, double y) { return x - y; }); each("Sub", a, b, [&] { return M::Sub(a, b); }, [](double x, double y) { return x - y; });
    each("Interpolate", a, b, [&] { return M::Interpolate(a, b, t); }, [&](double x, double y) { return x * (1.0 - tc) + y * tc; });
    { double q = 0, d2 = 0, sm = 0; for (int i = 0; i < n; i++) { q += a[i] * a[i]; sm += a[i]; if (n == m) d2 += (b[i] - a[i]) * (b[i] - a[i]); } auto near = [](double x, double y) { return eq(x, y) || std::abs(x - y) <= 1e-9 * std::abs(y); }; H::check(near(M::SquaredNorm(a), q), "squared norm", H::S(n)); H::check(near(M::Norm(a), std::sqrt(q)), "norm", H::S(n)); H::check(eq(M::Sum(a), sm), "sum", H::S(n));
      if (n != m) H::check(throws([&] { M::SquaredDistance(a, b); }) && throws([&] { M::Distance(a, b); }), "mismatched lengths accepted", H::S(n, m)); else H::check(near(M::SquaredDistance(a, b), d2) && near(M::Distance(a, b), std::sqrt(d2)), "squared distance", H::S(n)); }
    // averages
    const int k = H::ri(0, 5), wk = H::coin(3) ? 0 : H::coin(6) ? H::ri(0, 6) : k; V x(k), w(wk); for (auto& e : x) e = H::rd(-5, 5); for (auto& e : w) e = H::coin(3) ? 0.0 : H::rd(-2, 2); if (H::coin(8)) for (auto& e : w) e = 0.0;
    long double ws = 0, xs = 0; bool mism = wk != 0 && wk != k; if (!mism) for (int i = 0; i < k; i++) { const long double e = wk ? std::fabs(w[i]) : 1.0; ws += e; xs += e * x[i]; }
    const bool bad = k == 0 || mism || ws == 0; std::string wt; for (auto e : w) wt += std::to_string(e) + " "; const auto ctx = H::S(k, "values, weights", wt); H::at("average", ctx); auto avg = [&](auto f) { if (bad) H::check(throws([&] { f(); }), "unusable weights accepted", ctx); else { const double r = f(); H::check(std::fabs(r - xs / ws) <= 1e-9L, "weighted average", ctx, r, (double)(xs / ws)); } };
    avg([&] { return M::AverageStdVectorDouble(x, w); }); M::VectorVector3d v3; M::VectorVector4d v4; std::vector<Eigen::VectorXd> vx; for (double e : x) { v3.push_back({e, -e, 2 * e}); v4.push_back({1, e, 0, -e}); Eigen::VectorXd q(2); q << e, 3 * e; vx.push_back(q); }
    avg([&] { const auto r = M::AverageEigenVector3d(v3, w); H::check(std::abs(r.y() + r.x()) + std::abs(r.z() - 2 * r.x()) < 1e-9, "components averaged apart", ctx); return r.x(); }); avg([&] { const auto r = M::AverageEigenVector4d(v4, w); H::check(std::abs(r(0) - 1) + std::abs(r(3) + r(1)) < 1e-9, "components averaged apart", ctx); return r(1); }); avg([&] { const auto r = M::AverageEigenVectorXd(vx, w); H::check(std::abs(r(1) - 3 * r(0)) < 1e-9, "components averaged apart", ctx); return r(0); });
    if (H::coin(4)) { M::VectorQuaterniond qs; M::VectorIsometry3d is; for (double e : x) { qs.push_back(Eigen::Quaterniond(Eigen::AngleAxisd(0.1 * e, Eigen::Vector3d::UnitZ()))); is.push_back(Eigen::Translation3d(e, 0, 0) * qs.back()); } H::at("quaternion average", ctx);
      if (bad) { H::check(throws([&] { M::AverageEigenQuaterniond(qs, w); }), "unusable quaternion weights accepted", ctx); H::check(throws([&] { M::AverageEigenIsometry3d(is, w); }), "unusable transform weights accepted", ctx); }
      else { auto ang = [](const Eigen::Quaterniond& q) { return 2 * std::atan2(q.z(), q.w()); }; auto in = [&](const Eigen::Quaterniond& q) { double lo = 1e9, hi = -1e9; for (int i = 0; i < k; i++) if (!wk || w[i] != 0) { lo = std::min(lo, 0.1 * x[i]); hi = std::max(hi, 0.1 * x[i]); } double g = std::remainder(ang(q), 2 * M_PI); return std::abs(q.norm() - 1) < 1e-6 && g >= lo - 1e-6 && g <= hi + 1e-6; }; H::check(in(M::AverageEigenQuaterniond(qs, w)), "quaternion average", ctx); const auto r = M::AverageEigenIsometry3d(is, w); H::check(in(Eigen::Quaterniond(r.rotation())) && std::abs(r.translation().x() - (double)(xs / ws)) < 1e-9, "transform average", ctx); } }
    // distance matrices
    if (H::coin(6)) { const P par = H::coin() ? P::None() : P(H::ri(1, 6)); const int p = H::ri(0, 9), q = H::ri(0, 9); std::vector<int> A(p), B(q); for (auto& e : A) e = H::ri(-9, 9); for (auto& e : B) e = H::ri(-9, 9); const auto cx = H::S(p, q); H::at("distance matrix", cx);
      const std::function<double(const int&, const int&)> d = [](const int& e, const int& f) { return std::abs(e - f) * 1.5; }, d2 = [](const int& e, const int& f) { return e * 100.0 + f; };
      const auto X = M::BuildPairwiseDistanceMatrix<int>(A, d, par); H::check(X.rows() == p && X.cols() == p, "matrix shape", cx); for (int i = 0; i < p; i++) for (int j = 0; j < p; j++) H::check(X(i, j) == d(A[i], A[j]), "pair distance", cx, i, j);
      const auto Y = M::BuildPairwiseDistanceMatrix<int, int>(A, B, d2, par); H::check(Y.rows() == p && Y.cols() == q, "matrix shape", cx); for (int i = 0; i < p; i++) for (int j = 0; j < q; j++) H::check(Y(i, j) == d2(A[i], B[j]), "cross pair distance", cx, i, j); }
    H::ev(n > 2);
  }
  return H::done("elementwise operations bit for bit on vectors of 0-6 numbers (lengths matching or not), sums, weighted averages (zero, negative, missing, mismatched weights) of numbers, Eigen vectors, quaternions and transforms, distance matrices at 0-6 threads");
}
