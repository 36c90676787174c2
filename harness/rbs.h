// Recording rigid body system builders.
#pragma once
#include "urdfgen.h"
#include <almath/scenegraph/rigidbodysystembuilder.h>

namespace rbs {
using namespace ref;
namespace B = AL::RigidBodySystemBuilder;

template <class S>
struct Call {
  bool link;
  B::LinkData<S> l;
  B::StaticFrameData<S> f;
};
template <class S>
struct Recorder : B::Interface<S> {
  B::Config cfg;
  std::vector<Call<S>> calls;
  std::function<bool(const std::string &)> refuse;  // by new body / frame name
  const B::Config &config() const override { return cfg; }
  void addLink(B::LinkData<S> l) override {
    if (refuse && refuse(l.new_body)) throw std::runtime_error("refused by the builder");
    Call<S> c;
    c.link = true;
    c.l = l;
    calls.push_back(c);
  }
  void addStaticFrame(B::StaticFrameData<S> f) override {
    if (refuse && refuse(f.new_static_frame)) throw std::runtime_error("refused by the builder");
    Call<S> c;
    c.link = false;
    c.f = f;
    calls.push_back(c);
  }
};
template <class P>
H poseOf(const P &p) {
  H h;
  for (int i = 0; i < 3; ++i) {
    h.t[i] = p.translation()[i];
    for (int j = 0; j < 3; ++j) h.r.m[i][j] = p.linear()(i, j);
  }
  return h;
}
template <class M>
M3 mat(const M &m) {
  M3 r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r.m[i][j] = m(i, j);
  return r;
}
template <class V>
V3 vec(const V &v) {
  return V3(v[0], v[1], v[2]);
}
}  // namespace rbs
