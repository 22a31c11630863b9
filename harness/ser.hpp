// Shared cases of the serialization programs.
#pragma once
#include "common.hpp"
#include <unordered_map>
#include <unordered_set>
#include <common_robotics_utilities/serialization.hpp>
namespace S = common_robotics_utilities::serialization;
using B = std::vector<uint8_t>;
inline bool bits(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }
template<class T> bool eqv(const T& a, const T& b) { return a == b; }
inline bool eqv(const double& a, const double& b) { return bits(a, b); }
inline bool eqv(const float& a, const float& b) { return std::memcmp(&a, &b, sizeof a) == 0; }
template<class T> bool eqv(const std::vector<T>& a, const std::vector<T>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!eqv(a[i], b[i])) return false; return true; }
template<class T, int R, int C> bool eqv(const Eigen::Matrix<T, R, C>& a, const Eigen::Matrix<T, R, C>& b)
{ if (a.rows() != b.rows() || a.cols() != b.cols()) return false; for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) if (!bits(a(i, j), b(i, j))) return false; return true; }
inline bool eqv(const Eigen::Quaterniond& a, const Eigen::Quaterniond& b) { return eqv(Eigen::Vector4d(a.coeffs()), Eigen::Vector4d(b.coeffs())); }
inline bool eqv(const Eigen::Isometry3d& a, const Eigen::Isometry3d& b) { return eqv(Eigen::Matrix4d(a.matrix()), Eigen::Matrix4d(b.matrix())); }
template<class T> struct Case { std::string name; std::function<T()> gen; std::function<uint64_t(const T&, B&)> ser; std::function<S::Deserialized<T>(const B&, uint64_t)> des; std::function<B(const T&)> expect; };
template<class T> T rnd() { uint64_t r = H::r64(); T v; if (H::coin(3)) r = 0; if (H::coin(4)) r >>= 56; std::memcpy(&v, &r, sizeof v); return v; }
template<> inline double rnd<double>() { static const double sp[] = {0.0, -0.0, 1.0, -1.5, INFINITY, -INFINITY, NAN, 5e-324, 1.7976931348623157e308}; return H::coin(3) ? sp[H::ri(0, 8)] : H::rd(-1e6, 1e6); }
template<> inline float rnd<float>() { return (float)H::rd(-1e6, 1e6); }
template<class T> void le(B& b, T v) { for (size_t i = 0; i < sizeof(T); i++) { B x(sizeof v); std::memcpy(x.data(), &v, sizeof v); b.push_back(x[i]); } }
template<class T> void be(B& b, T v) { B x(sizeof v); std::memcpy(x.data(), &v, sizeof v); for (size_t i = sizeof v; i-- > 0;) b.push_back(x[i]); }
template<class T> void put(B& b, T v, bool net) { net ? be(b, v) : le(b, v); }
inline int len() { return H::coin(4) ? 0 : (int)H::ri(1, H::coin(5) ? 300 : 9); }
// Calls fn(Case<T>) for every supported type; net selects the network-order functions.
template<class F> void allcases(bool net, F fn)
{
  auto scalar = [&](auto z, const char* nm) {
    using T = decltype(z);
    fn(Case<T>{H::S("scalar", nm), [] { return rnd<T>(); }, [net](const T& v, B& b) { return net ? S::SerializeNetworkMemcpyable<T>(v, b) : S::SerializeMemcpyable<T>(v, b); },
      [net](const B& b, uint64_t o) { return net ? S::DeserializeNetworkMemcpyable<T>(b, o) : S::DeserializeMemcpyable<T>(b, o); }, [net](const T& v) { B b; put(b, v, net); return b; }});
    if constexpr (!std::is_same<T, bool>::value) fn(Case<std::vector<T>>{H::S("memcpyable-vector", nm), [] { std::vector<T> v(len()); for (auto& x : v) x = rnd<T>(); return v; }, [net](const std::vector<T>& v, B& b) { return net ? S::SerializeNetworkMemcpyableVectorLike<T>(v, b) : S::SerializeMemcpyableVectorLike<T>(v, b); },
      [net](const B& b, uint64_t o) { return net ? S::DeserializeNetworkMemcpyableVectorLike<T>(b, o) : S::DeserializeMemcpyableVectorLike<T>(b, o); }, [net](const std::vector<T>& v) { B b; put<uint64_t>(b, v.size(), net); for (auto x : v) put(b, x, net); return b; }});
    fn(Case<std::vector<T>>{H::S("vector-of", nm), [] { std::vector<T> v(len()); for (size_t i = 0; i < v.size(); i++) v[i] = rnd<T>(); return v; },
      [net](const std::vector<T>& v, B& b) { return net ? S::SerializeNetworkVectorLike<T>(v, b, S::SerializeNetworkMemcpyable<T>) : S::SerializeVectorLike<T>(v, b, S::SerializeMemcpyable<T>); },
      [net](const B& b, uint64_t o) { return net ? S::DeserializeNetworkVectorLike<T>(b, o, S::DeserializeNetworkMemcpyable<T>) : S::DeserializeVectorLike<T>(b, o, S::DeserializeMemcpyable<T>); },
      [net](const std::vector<T>& v) { B b; put<uint64_t>(b, v.size(), net); for (auto x : v) put<T>(b, x, net); return b; }});
  };
  scalar(uint8_t(), "u8"); scalar(int8_t(), "i8"); scalar(uint16_t(), "u16"); scalar(int16_t(), "i16"); scalar(uint32_t(), "u32"); scalar(int32_t(), "i32"); scalar(uint64_t(), "u64"); scalar(int64_t(), "i64"); scalar(float(), "f32"); scalar(double(), "f64");
  auto string = [&](auto z, const char* nm) {
    using C = decltype(z); using T = std::basic_string<C>;
    fn(Case<T>{H::S("string", nm), [] { T s; int n = len(); for (int i = 0; i < n; i++) s.push_back(rnd<C>()); return s; }, [net](const T& v, B& b) -> uint64_t { if constexpr (std::is_same<C, char>::value) return S::SerializeString<C>(v, b); else return net ? S::SerializeNetworkString<C>(v, b) : S::SerializeString<C>(v, b); },
      [net](const B& b, uint64_t o) -> S::Deserialized<T> { if constexpr (std::is_same<C, char>::value) return S::DeserializeString<C>(b, o); else return net ? S::DeserializeNetworkString<C>(b, o) : S::DeserializeString<C>(b, o); },
      [net](const T& v) { B b; put<uint64_t>(b, v.size(), net); for (auto x : v) put(b, x, net); return b; }});
  };
  if (!net) string(char(), "char");
  string(uint16_t(), "u16");
  using M = std::map<int32_t, double>; using UM = std::unordered_map<int32_t, double>; using St = std::set<int16_t>; using US = std::unordered_set<int16_t>; using P = std::pair<int32_t, double>;
  auto sk = net ? S::Serializer<int32_t>(S::SerializeNetworkMemcpyable<int32_t>) : S::Serializer<int32_t>(S::SerializeMemcpyable<int32_t>); auto dk = net ? S::Deserializer<int32_t>(S::DeserializeNetworkMemcpyable<int32_t>) : S::Deserializer<int32_t>(S::DeserializeMemcpyable<int32_t>);
  auto sv = net ? S::Serializer<double>(S::SerializeNetworkMemcpyable<double>) : S::Serializer<double>(S::SerializeMemcpyable<double>); auto dv = net ? S::Deserializer<double>(S::DeserializeNetworkMemcpyable<double>) : S::Deserializer<double>(S::DeserializeMemcpyable<double>);
  auto ss = net ? S::Serializer<int16_t>(S::SerializeNetworkMemcpyable<int16_t>) : S::Serializer<int16_t>(S::SerializeMemcpyable<int16_t>); auto ds = net ? S::Deserializer<int16_t>(S::DeserializeNetworkMemcpyable<int16_t>) : S::Deserializer<int16_t>(S::DeserializeMemcpyable<int16_t>);
  auto mapc = [&](auto z, const char* nm) { using T = decltype(z); fn(Case<T>{nm, [] { T m; int n = len(); for (int i = 0; i < n; i++) m[rnd<int32_t>()] = H::rd(-9, 9); return m; }, [=](const T& v, B& b) { return net ? S::SerializeNetworkMapLike<int32_t, double, T>(v, b, sk, sv) : S::SerializeMapLike<int32_t, double, T>(v, b, sk, sv); },
      [=](const B& b, uint64_t o) { return net ? S::DeserializeNetworkMapLike<int32_t, double, T>(b, o, dk, dv) : S::DeserializeMapLike<int32_t, double, T>(b, o, dk, dv); }, [net](const T& v) { B b; put<uint64_t>(b, v.size(), net); for (auto& x : v) { put(b, x.first, net); put(b, x.second, net); } return b; }}); };
  mapc(M(), "map"); mapc(UM(), "unordered-map");
  auto setc = [&](auto z, const char* nm) { using T = decltype(z); fn(Case<T>{nm, [] { T m; int n = len(); for (int i = 0; i < n; i++) m.insert(rnd<int16_t>()); return m; }, [=](const T& v, B& b) { return net ? S::SerializeNetworkSetLike<int16_t, T>(v, b, ss) : S::SerializeSetLike<int16_t, T>(v, b, ss); },
      [=](const B& b, uint64_t o) { return net ? S::DeserializeNetworkSetLike<int16_t, T>(b, o, ds) : S::DeserializeSetLike<int16_t, T>(b, o, ds); }, [net](const T& v) { B b; put<uint64_t>(b, v.size(), net); for (auto& x : v) put(b, x, net); return b; }}); };
  setc(St(), "set"); setc(US(), "unordered-set");
  // nested: vector of memcpyable vectors (elements of varying byte length)
  using VV = std::vector<std::vector<int16_t>>;
  { auto s1 = net ? S::Serializer<std::vector<int16_t>>([](const std::vector<int16_t>& v, B& b) { return S::SerializeNetworkMemcpyableVectorLike<int16_t>(v, b); }) : S::Serializer<std::vector<int16_t>>([](const std::vector<int16_t>& v, B& b) { return S::SerializeMemcpyableVectorLike<int16_t>(v, b); });
    auto d1 = net ? S::Deserializer<std::vector<int16_t>>([](const B& b, uint64_t o) { return S::DeserializeNetworkMemcpyableVectorLike<int16_t>(b, o); }) : S::Deserializer<std::vector<int16_t>>([](const B& b, uint64_t o) { return S::DeserializeMemcpyableVectorLike<int16_t>(b, o); });
    fn(Case<VV>{"nested-vector", [] { VV m(H::ri(0, 6)); for (auto& v : m) { v.resize(H::ri(0, 4)); for (auto& x : v) x = rnd<int16_t>(); } return m; }, [=](const VV& v, B& b) { return net ? S::SerializeNetworkVectorLike<std::vector<int16_t>>(v, b, s1) : S::SerializeVectorLike<std::vector<int16_t>>(v, b, s1); },
      [=](const B& b, uint64_t o) { return net ? S::DeserializeNetworkVectorLike<std::vector<int16_t>>(b, o, d1) : S::DeserializeVectorLike<std::vector<int16_t>>(b, o, d1); }, [net](const VV& v) { B b; put<uint64_t>(b, v.size(), net); for (auto& w : v) { put<uint64_t>(b, w.size(), net); for (auto x : w) put(b, x, net); } return b; }}); }
  if (net) return;
  fn(Case<P>{"pair", [] { return P(rnd<int32_t>(), H::rd(-9, 9)); }, [=](const P& v, B& b) { return S::SerializePair<int32_t, double>(v, b, sk, sv); }, [=](const B& b, uint64_t o) { return S::DeserializePair<int32_t, double>(b, o, dk, dv); }, [](const P& v) { B b; le(b, v.first); le(b, v.second); return b; }});
  auto flat = [](const auto& m, B b) { for (int j = 0; j < m.cols(); j++) for (int i = 0; i < m.rows(); i++) le<double>(b, m(i, j)); return b; };
  auto fillm = [](auto m) { for (int j = 0; j < m.cols(); j++) for (int i = 0; i < m.rows(); i++) m(i, j) = rnd<double>(); return m; };
#define VEC(N) fn(Case<Eigen::Vector##N##d>{"Vector" #N "d", [=] { return fillm(Eigen::Vector##N##d()); }, S::SerializeVector##N##d, S::DeserializeVector##N##d, [=](const Eigen::Vector##N##d& v) { return flat(v, B()); }});
  VEC(2) VEC(3) VEC(4)
  fn(Case<Eigen::VectorXd>{"VectorXd", [=] { return fillm(Eigen::VectorXd(len())); }, S::SerializeVectorXd, S::DeserializeVectorXd, [=](const Eigen::VectorXd& v) { B b; le<uint64_t>(b, v.size()); return flat(v, b); }});
  fn(Case<Eigen::MatrixXd>{"MatrixXd", [=] { return fillm(Eigen::MatrixXd(H::coin(5) ? 0 : H::ri(1, 7), H::coin(5) ? 0 : H::ri(1, 7))); }, S::SerializeMatrixXd, S::DeserializeMatrixXd, [=](const Eigen::MatrixXd& v) { B b; le<uint64_t>(b, v.rows()); le<uint64_t>(b, v.cols()); return flat(v, b); }});
  fn(Case<Eigen::Quaterniond>{"Quaterniond", [=] { Eigen::Quaterniond q; q.coeffs() = fillm(Eigen::Vector4d()); return q; }, S::SerializeQuaterniond, S::DeserializeQuaterniond, [=](const Eigen::Quaterniond& v) { return flat(v.coeffs(), B()); }});
  fn(Case<Eigen::Isometry3d>{"Isometry3d", [=] { Eigen::Isometry3d q; q.matrix() = fillm(Eigen::Matrix4d()); q.makeAffine(); return q; }, S::SerializeIsometry3d, S::DeserializeIsometry3d, [=](const Eigen::Isometry3d& v) { return flat(v.matrix(), B()); }});
}
// Append to a random prefix, add a random suffix, read back.
struct Round
{
  bool net; bool layout;
  template<class T> void operator()(const Case<T>& c) const
  {
    for (int k = 0; k < 4; k++)
    {
      T v = c.gen(); B pre(H::coin(3) ? 0 : H::ri(1, 40)); for (auto& x : pre) x = (uint8_t)H::r64();
      B b = pre; if (H::coin()) b.reserve(b.size() + H::ri(0, 200)); b.shrink_to_fit();
      std::string what = H::S(net ? "network" : "host", c.name, "prefix", pre.size()); H::at(c.name, what); H::ev(true);
      uint64_t n = 0; int t = H::threw([&] { n = c.ser(v, b); });
      const B want = c.expect(v);
      H::check(t == 0, "serialize-throws " + c.name, what); if (t) continue;
      H::check(b.size() == pre.size() + n, "byte-count " + c.name, what, "reported", n, "appended", b.size() - pre.size());
      H::check(b.size() >= pre.size() && std::equal(pre.begin(), pre.end(), b.begin()), "prefix-changed " + c.name, what);
      if (layout) H::check(B(b.begin() + std::min(pre.size(), b.size()), b.end()) == want, "layout " + c.name, what, "bytes", H::SV(std::vector<int>(b.begin() + pre.size(), b.end())), "expected", H::SV(std::vector<int>(want.begin(), want.end())));
      B tail(H::coin() ? 0 : H::ri(1, 30)); for (auto& x : tail) x = (uint8_t)H::r64(); B full = b; full.insert(full.end(), tail.begin(), tail.end()); full.shrink_to_fit();
      t = H::threw([&] { auto d = c.des(full, pre.size()); H::check(eqv(d.Value(), v), "value " + c.name, what, "bytes", H::SV(std::vector<int>(want.begin(), want.end()))); H::check(d.BytesRead() == n, "bytes-read " + c.name, what, "read", d.BytesRead(), "written", n); });
      H::check(t == 0, "deserialize-throws " + c.name, what);
    }
  }
};
