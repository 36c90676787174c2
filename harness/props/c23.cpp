// C23: decorators and adapters of rigid body system builders.
#include "rbs.h"
using namespace ref;
using namespace rbs;

namespace {
template <class S>
B::LinkData<S> genLink(Src &s, const std::string &parent, const std::string &name, const std::string &joint) {
  B::LinkData<S> l;
  l.parent_body = parent;
  l.new_body = name;
  l.new_joint = joint;
  H h = genH(s, 3);
  M3 r = genRot(s);
  for (int i = 0; i < 3; ++i) {
    l.pose_parent_new.translation()[i] = (S)h.t[i];
    l.body_mass.center_of_mass[i] = (S)genVec(s, 2)[i];
    for (int j = 0; j < 3; ++j) {
      l.pose_parent_new.linear()(i, j) = (S)h.r.m[i][j];
      l.body_mass.rotational_inertia(i, j) = (S)(r.m[i][j] + r.m[j][i]);
    }
  }
  l.body_mass.mass = (S)(s.unit() * 10);
  l.joint_type = s.pick({B::JointType::FreeFlyer, B::JointType::Rx, B::JointType::Ry, B::JointType::Rz});
  return l;
}
template <class S>
B::StaticFrameData<S> genFrame(Src &s, const std::string &parent, const std::string &name, const std::string &joint) {
  B::StaticFrameData<S> l;
  l.parent_frame = parent;
  l.new_static_frame = name;
  l.new_static_transform = joint;
  H h = genH(s, 3);
  for (int i = 0; i < 3; ++i) {
    l.pose_parent_new.translation()[i] = (S)h.t[i];
    for (int j = 0; j < 3; ++j) l.pose_parent_new.linear()(i, j) = (S)h.r.m[i][j];
  }
  return l;
}
template <class A, class C>
bool poseEq(const A &a, const C &b) {
  for (int i = 0; i < 3; ++i) {
    if ((float)a.translation()[i] != (float)b.translation()[i]) return false;
    for (int j = 0; j < 3; ++j)
      if ((float)a.linear()(i, j) != (float)b.linear()(i, j)) return false;
  }
  return true;
}
// equal (after rounding to float, for adapters)
template <class X, class Y>
void sameLink(const B::LinkData<X> &a, const B::LinkData<Y> &b, bool exact, bool inertia, const char *what) {
  CHECK(a.parent_body == b.parent_body && a.new_body == b.new_body && a.new_joint == b.new_joint, what << ": names of " << a.new_body);
  CHECK(a.joint_type == b.joint_type, what << ": joint type of " << a.new_body);
  CHECK(poseEq(a.pose_parent_new, b.pose_parent_new), what << ": pose of " << a.new_body);
  CHECK((float)a.body_mass.mass == (float)b.body_mass.mass, what << ": mass of " << a.new_body);
  for (int i = 0; i < 3; ++i) {
    CHECK((float)a.body_mass.center_of_mass[i] == (float)b.body_mass.center_of_mass[i], what << ": centre of mass of " << a.new_body);
    for (int j = 0; j < 3; ++j)
      CHECK((float)b.body_mass.rotational_inertia(i, j) == (inertia ? (float)a.body_mass.rotational_inertia(i, j) : 0.f),
            what << ": inertia of " << a.new_body);
  }
  if (exact && sizeof(X) == sizeof(Y)) {
    CHECK((double)a.body_mass.mass == (double)b.body_mass.mass, what << ": mass of " << a.new_body);
    for (int i = 0; i < 3; ++i) {
      CHECK((double)a.pose_parent_new.translation()[i] == (double)b.pose_parent_new.translation()[i] &&
                (double)a.body_mass.center_of_mass[i] == (double)b.body_mass.center_of_mass[i], what << ": numbers of " << a.new_body);
      for (int j = 0; j < 3; ++j)
        CHECK((double)a.pose_parent_new.linear()(i, j) == (double)b.pose_parent_new.linear()(i, j) &&
                  (!inertia || (double)a.body_mass.rotational_inertia(i, j) == (double)b.body_mass.rotational_inertia(i, j)),
              what << ": numbers of " << a.new_body);
    }
  }
}
template <class X, class Y>
void sameFrame(const B::StaticFrameData<X> &a, const B::StaticFrameData<Y> &b, const char *what) {
  CHECK(a.parent_frame == b.parent_frame && a.new_static_frame == b.new_static_frame &&
            a.new_static_transform == b.new_static_transform, what << ": names of " << a.new_static_frame);
  CHECK(poseEq(a.pose_parent_new, b.pose_parent_new), what << ": pose of " << a.new_static_frame);
}
const std::vector<std::string> NAMES = {"a", "b", "c", "d", "a_joint", "b_joint", "e", "", "world"};
}  // namespace

// histories of additions through stacks of decorators, against sets of names
PBT_FACET(history, 24000) {
  Recorder<double> recd;
  Recorder<float> recf;
  bool refusing = s.chance(1, 4);
  std::string refused = s.pick(NAMES);
  bool isf = s.coin();  // the last builder is single precision
  if (s.chance(1, 4)) recd.cfg.galilean_frame = recf.cfg.galilean_frame = "world";
  if (s.chance(1, 4)) recd.cfg.no_static_frame = recf.cfg.no_static_frame = true;
  if (s.chance(1, 4)) recd.cfg.joint_name_format = recf.cfg.joint_name_format = s.pick<std::string>({"%1%", "j%1%j"});
  std::function<bool(const std::string &)> ref = [&](const std::string &n) { return refusing && n == refused; };
  recd.refuse = recf.refuse = ref;
  B::Adapter<double, float> adapt(recf);
  B::Interface<double> *back = isf ? (B::Interface<double> *)&adapt : (B::Interface<double> *)&recd;
  std::unique_ptr<B::InertiaEraser<double>> er;
  std::unique_ptr<B::NamesChecker<double>> nc;
  std::unique_ptr<B::Decorator<double>> de;
  bool erase = false, check = false;
  B::Interface<double> *front = back;
  int n = (int)s.draw(4);
  for (int i = 0; i < n; ++i) switch (s.draw(3)) {
      case 0:
        if (!er) er.reset(new B::InertiaEraser<double>(*front)), front = er.get(), erase = true;
        break;
      case 1:
        if (!nc) nc.reset(new B::NamesChecker<double>(*front)), front = nc.get(), check = true;
        break;
      default:
        if (!de) de.reset(new B::Decorator<double>(*front)), front = de.get();
    }
  NOTE("eraser " << erase << " checker " << check << " float " << isf << " galilean '" << recd.cfg.galilean_frame << "'");
  const B::Config &cfg = isf ? recf.cfg : recd.cfg;
  CHECK(&front->config() == &cfg, "configuration");
  std::set<std::string> bodies{cfg.galilean_frame}, joints, frames, transforms;
  std::vector<B::LinkData<double>> links;
  std::vector<B::StaticFrameData<double>> sframes;
  std::vector<int> order;
  int ops = (int)s.range(1, 20), accepted = 0, rejected = 0;
  for (int i = 0; i < ops; ++i) {
    bool link = s.coin(), named = !s.chance(1, 3), direct = s.coin();
    // parents: mostly known names
    std::string parent = s.pick(NAMES), name = s.pick(NAMES), joint;
    if (s.coin() && !bodies.empty()) parent = *std::next(bodies.begin(), s.draw(bodies.size()));
    if (!named) joint = boost::str(boost::format(cfg.joint_name_format) % name);
    else joint = s.pick(NAMES);
    bool ok = true;
    if (check) {
      bool knownFrame = bodies.count(name) || frames.count(name);
      bool knownT = joints.count(joint) || transforms.count(joint);
      bool knownParent = link ? bodies.count(parent) : bodies.count(parent) || frames.count(parent);
      ok = knownParent && !knownFrame && !knownT;
    }
    bool dropped = !link && !direct && cfg.no_static_frame;
    if (dropped) ok = true;
    bool builderRefuses = !dropped && ok && ref(name);
    NOTE((link ? "link " : "frame ") << parent << " -> " << name << " by " << joint << (ok ? "" : " (wrong names)"));
    bool thrown = false;
    B::LinkData<double> l;
    B::StaticFrameData<double> f;
    if (link) l = genLink<double>(s, parent, name, joint);
    else f = genFrame<double>(s, parent, name, joint);
    try {
      if (link) {
        if (direct) front->addLink(l);
        else if (named) front->add(parent, name, l.pose_parent_new, l.joint_type, l.body_mass, joint);
        else front->add(parent, name, l.pose_parent_new, l.joint_type, l.body_mass);
      } else {
        if (direct) front->addStaticFrame(f);
        else if (named) front->add(parent, name, f.pose_parent_new, joint);
        else front->add(parent, name, f.pose_parent_new);
      }
    } catch (const std::runtime_error &) {
      thrown = true;
    }
    CHECK(thrown == (!ok || builderRefuses), (thrown ? "refused" : "accepted") << " step " << i << ": " << parent << " -> "
                                                 << name << " by " << joint);
    if (thrown) {
      ++rejected;
      continue;
    }
    if (dropped) continue;
    ++accepted;
    order.push_back(link);
    if (link) {
      links.push_back(l);
      bodies.insert(name);
      joints.insert(joint);
    } else {
      sframes.push_back(f);
      frames.insert(name);
      transforms.insert(joint);
    }
  }
  size_t il = 0, jf = 0, k = 0, total = isf ? recf.calls.size() : recd.calls.size();
  CHECK(total == order.size(), total << " calls received, " << order.size() << " forwarded");
  for (int o : order) {
    if (isf) {
      CHECK(recf.calls[k].link == (bool)o, "order of the calls");
      if (o) sameLink(links[il++], recf.calls[k].l, false, !erase, "adapter");
      else sameFrame(sframes[jf++], recf.calls[k].f, "adapter");
    } else {
      CHECK(recd.calls[k].link == (bool)o, "order of the calls");
      if (o) sameLink(links[il++], recd.calls[k].l, true, !erase, "decorators");
      else sameFrame(sframes[jf++], recd.calls[k].f, "decorators");
    }
    ++k;
  }
  s.nontrivial(accepted >= 2 && (rejected >= 1 || erase || isf));
}

// casts of bodies
PBT_FACET(casts, 6000) {
  auto l = genLink<double>(s, "p", "n", "j");
  auto f = genFrame<double>(s, "p", "n", "j");
  sameLink(l, l.cast<float>(), false, true, "cast to float");
  sameLink(l, l.cast<double>(), true, true, "cast to double");
  sameFrame(f, f.cast<float>(), "cast to float");
  sameFrame(f, f.cast<double>(), "cast to double");
  auto lf = genLink<float>(s, "p", "n", "j");
  sameLink(lf, lf.cast<double>(), false, true, "cast from float");
  sameLink(lf, lf.cast<double>().cast<float>(), true, true, "there and back");
  auto m = l.body_mass.cast<float>();
  CHECK(m.mass == (float)l.body_mass.mass, "mass");
  Recorder<double> rec;
  B::Adapter<float, double> a(rec);
  a.addLink(lf);
  sameLink(lf, rec.calls.at(0).l, false, true, "adapter from float");
  s.nontrivial();
  B::Config c;
  CHECK(!c.no_static_frame && c.galilean_frame.empty() && c.joint_name("body") == "body_joint", "default configuration");
}
