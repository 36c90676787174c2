// Stand-in for libqi's module registration (libqi is not installed): records what a
// module advertises, by name, in the form of the signatures the geometry module has.
#pragma once
#include <qi/geometry/geometry.hpp>
#include <functional>
#include <map>
#include <string>
#include <type_traits>

namespace qi {
struct AdvertisedMethod {
  typedef geometry::Vector3 V;
  typedef geometry::Quaternion Q;
  typedef geometry::Transform T;
  std::function<V(double, double, double)> v_ddd;
  std::function<Q(double, double, double, double)> q_dddd;
  std::function<Q(double, const V &)> q_dv;
  std::function<T(const Q &, const V &)> t_qv;
  std::function<T(const T &)> t_t;
  std::function<T(const T &, const T &)> t_tt;
  std::function<double(const Q &)> d_q;
  std::function<Q(const Q &)> q_q;
  template <class F, class R, class... A>
  static void set(std::function<R(A...)> &to, const F &f) {
    if constexpr (std::is_invocable_r<R, F, A...>::value) to = f;
  }
  template <class F> explicit AdvertisedMethod(const F &f) {
    set(v_ddd, f);
    set(q_dddd, f);
    set(q_dv, f);
    set(t_qv, f);
    set(t_t, f);
    set(t_tt, f);
    set(d_q, f);
    set(q_q, f);
  }
  AdvertisedMethod() {}
};
struct ModuleBuilder {
  std::map<std::string, AdvertisedMethod> methods;
  template <class F> ModuleBuilder &advertiseMethod(const std::string &name, F f, const std::string & = "", const std::string & = "") {
    methods[name] = AdvertisedMethod(f);
    return *this;
  }
};
}  // namespace qi
#define QI_REGISTER_MODULE(name, fn) \
  std::string verifModuleName() { return name; } \
  void verifRegister(::qi::ModuleBuilder *b) { (*(fn))(b); }
