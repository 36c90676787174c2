// C36: results depend on the arguments only: no hidden state. Calls give the
// same results whatever was called before, and calls from several threads
// (with their own objects, or sharing constant ones) neither race nor
// disturb each other.
#include "rbs.h"
#include "animgen.h"
#include <almath/dsp/digitalfilter.h>
#include <almath/dsp/pidcontroller.h>
#include <almath/geometrics/shapes3d.h>
#include <almath/geometrics/shapes3d_utils.h>
#include <almath/scenegraph/colladascenebuilder.h>
#include <almath/scenegraph/mesh.h>
#include <almath/scenegraph/meshfactory.h>
#include <almath/scenegraph/qianim.h>
#include <almath/scenegraph/urdf.h>
#include <almath/scenegraph/urdfrigidbodysystemtraverser.h>
#include <almath/tools/aldubinscurve.h>
#include <almath/tools/almathio.h>
#include <almath/tools/avoidfootcollision.h>
#include <almath/types/occupancymapparams.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <thread>
using namespace ref;
using namespace ug;
typedef boost::property_tree::ptree tree_t;
namespace urdf = AL::urdf;
namespace qa = AL::qianim;
namespace v2 = AL::qianim::V2;

namespace {
// ---- what a call gives, bit by bit
struct Out {
  std::string b;
  Out &raw(const void *p, size_t n) {
    b.append((const char *)p, n);
    return *this;
  }
};
Out &operator<<(Out &o, float f) { return o.raw(&f, sizeof f); }
Out &operator<<(Out &o, double f) { return o.raw(&f, sizeof f); }
Out &operator<<(Out &o, bool f) { return o.raw(&f, sizeof f); }
Out &operator<<(Out &o, int f) { return o.raw(&f, sizeof f); }
Out &operator<<(Out &o, size_t f) { return o.raw(&f, sizeof f); }
Out &operator<<(Out &o, const std::string &f) {
  o << f.size();
  return o.raw(f.data(), f.size());
}
template <class T>
Out &operator<<(Out &o, const std::vector<T> &v) {
  o << v.size();
  for (auto &x : v) o << x;
  return o;
}
Out &operator<<(Out &o, const am::Position2D &p) { return o << p.x << p.y; }
Out &operator<<(Out &o, const am::Position3D &p) { return o << p.x << p.y << p.z; }
Out &operator<<(Out &o, const am::Position6D &p) { return o << p.x << p.y << p.z << p.wx << p.wy << p.wz; }
Out &operator<<(Out &o, const am::Pose2D &p) { return o << p.x << p.y << p.theta; }
Out &operator<<(Out &o, const am::Velocity3D &p) { return o << p.xd << p.yd << p.zd; }
Out &operator<<(Out &o, const am::Velocity6D &p) { return o << p.xd << p.yd << p.zd << p.wxd << p.wyd << p.wzd; }
Out &operator<<(Out &o, const am::Rotation3D &p) { return o << p.wx << p.wy << p.wz; }
Out &operator<<(Out &o, const am::Quaternion &p) { return o << p.w << p.x << p.y << p.z; }
Out &operator<<(Out &o, const am::Displacement &p) { return o << p.P << p.Q; }
Out &operator<<(Out &o, const am::Rotation &r) {
  return o << r.r1_c1 << r.r1_c2 << r.r1_c3 << r.r2_c1 << r.r2_c2 << r.r2_c3 << r.r3_c1 << r.r3_c2 << r.r3_c3;
}
Out &operator<<(Out &o, const am::Transform &r) {
  return o << r.r1_c1 << r.r1_c2 << r.r1_c3 << r.r1_c4 << r.r2_c1 << r.r2_c2 << r.r2_c3 << r.r2_c4 << r.r3_c1 << r.r3_c2
           << r.r3_c3 << r.r3_c4;
}
Out &operator<<(Out &o, const am::Point2Di &p) { return o << p.x << p.y; }
Out &operator<<(Out &o, const urdf::Pose &p) {
  for (double x : p.xyz()) o << x;
  for (double x : p.rpy()) o << x;
  return o;
}
Out &operator<<(Out &o, const tree_t &p) {
  o << p.data() << p.size();
  for (auto &c : p) o << c.first << c.second;
  return o;
}
Out &operator<<(Out &o, const AL::Mesh &m) {
  return o << m.withTexCoords() << m.positions() << m.normals() << m.texCoords() << m.vertices() << m.polygonVerticesCounts();
}
template <class T>
std::string text(const T &t) {
  std::ostringstream os;
  os << t;
  return os.str();
}
struct Shown : am::Shape3DVisitor {
  mutable Out o;
  void visit(const am::Pill &p) const override { o << 1 << p.getHalfExtent() << p.getRadius(); }
  void visit(const am::Sphere &p) const override { o << 2 << p.getRadius(); }
  void visit(const am::RoundedRectangle &p) const override { o << 3 << p.getHalfExtentX() << p.getHalfExtentY() << p.getRadius(); }
  void visit(const am::Plane &) const override { o << 4; }
  void visit(const am::HalfSpace &) const override { o << 5; }
  void visit(const am::Rectangle &p) const override { o << 6 << p.getHalfExtentX() << p.getHalfExtentY(); }
  void visit(const am::HalfLine &) const override { o << 7; }
};
struct Visited : urdf::JointConstVisitor {
  Out o;
  bool discover(const tree_t &p) override {
    o << 1 << urdf::name(p) << urdf::parent_link(p) << urdf::child_link(p);
    return true;
  }
  void finish(const tree_t &p) override { o << 2 << urdf::name(p); }
};

// ---- the values, and the objects which are shared
const int N = 3;  // of each
struct World {
  am::Transform t[N];
  am::Rotation r[N];
  am::Quaternion q[N];
  am::Position2D p2[N];
  am::Position3D p3[N];
  am::Position3D axis[N];
  am::Position6D p6[N];
  am::Pose2D pose[N];
  am::Rotation3D r3[N];
  am::Velocity3D v3[N];
  am::Velocity6D v6[N];
  float f[N], angle[N], pos[N];
  std::vector<float> w[N], weights[N];
  std::vector<am::Position2D> box[N];
  Model model[N];
  std::string xml[N], anim[N];
};
void fill(Src &s, World &w, bool docs) {
  for (int i = 0; i < N; ++i) {
    w.t[i] = genTransform(s, 2);
    w.r[i] = toR(genRot(s));
    w.q[i] = toAm(genQ(s));
    w.p2[i].x = s.real(-3, 3);
    w.p2[i].y = s.real(-3, 3);
    w.p3[i] = toP(genVec(s, 3));
    w.axis[i] = toP(genDir(s));
    V3 a = genVec(s, 2), b = genVec(s, 2);
    w.p6[i].x = a.x, w.p6[i].y = a.y, w.p6[i].z = a.z, w.p6[i].wx = b.x, w.p6[i].wy = b.y, w.p6[i].wz = b.z;
    w.v6[i].xd = b.x, w.v6[i].yd = b.y, w.v6[i].zd = b.z, w.v6[i].wxd = a.x, w.v6[i].wyd = a.y, w.v6[i].wzd = a.z;
    w.v3[i].xd = a.y, w.v3[i].yd = b.z, w.v3[i].zd = a.x;
    w.r3[i].wx = b.x, w.r3[i].wy = b.y, w.r3[i].wz = a.z;
    w.pose[i].x = s.real(-5, 5);
    w.pose[i].y = s.real(-5, 5);
    w.pose[i].theta = (float)genAngle(s);
    w.f[i] = s.real(-10, 10);
    w.angle[i] = (float)genAngle(s);
    w.pos[i] = 0.05f + (float)s.unit();
    int n = (int)s.range(1, 5);
    for (int k = 0; k < n; ++k) {
      w.w[i].push_back((float)genAngle(s));
      w.weights[i].push_back(0.1f + (float)s.unit());
    }
    float x0 = 0.05f + 0.2f * s.unit(), x1 = -0.05f - 0.2f * s.unit(), y0 = 0.05f + 0.2f * s.unit(), y1 = -0.05f - 0.2f * s.unit();
    w.box[i] = {am::Position2D(x0, y0), am::Position2D(x0, y1), am::Position2D(x1, y1), am::Position2D(x1, y0)};
    if (docs) {
      GenOpt o;
      o.types = {"revolute", "continuous", "prismatic", "fixed", "floating"};
      w.model[i] = genModel(s, o);
      w.xml[i] = toXml(w.model[i], &s);
      ptree c;
      int nk = (int)s.range(1, 5), fr = 0;
      std::ostringstream a;
      a << "<Animation typeVersion='2.0'><ActuatorCurve actuator='A" << i << "' fps='" << s.range(1, 60) << "' unit='radian'>";
      for (int k = 0; k < nk; ++k) {
        fr += (int)s.range(1, 20);
        a << "<Key frame='" << fr << "' value='" << s.real(-5, 5) << "'><Tangent side='left' abscissaParam='" << -s.unit()
          << "' ordinateParam='1'/><Tangent side='right' abscissaParam='" << s.unit() << "' ordinateParam='-1'/></Key>";
      }
      a << "</ActuatorCurve><Labels fps='2'><Label frame='1'>x" << i << "</Label></Labels></Animation>";
      w.anim[i] = a.str();
    }
  }
}
std::unique_ptr<am::Shape3D> shape(int kind, const World &w, int j) {
  switch (kind % 7) {
    case 0: return std::unique_ptr<am::Shape3D>(new am::Sphere(w.pos[j]));
    case 1: return std::unique_ptr<am::Shape3D>(new am::Pill(w.pos[j], w.pos[(j + 1) % N]));
    case 2: return std::unique_ptr<am::Shape3D>(new am::RoundedRectangle(w.pos[j], w.pos[(j + 1) % N], w.pos[(j + 2) % N]));
    case 3: return std::unique_ptr<am::Shape3D>(new am::Plane());
    case 4: return std::unique_ptr<am::Shape3D>(new am::HalfSpace());
    case 5: return std::unique_ptr<am::Shape3D>(new am::Rectangle(w.pos[j], w.pos[(j + 1) % N]));
    default: return std::unique_ptr<am::Shape3D>(new am::HalfLine());
  }
}
// constant objects which several threads use
struct Objects {
  ptree doc[N], anim[N];
  std::unique_ptr<urdf::RobotTree> tree[N];
  AL::Mesh mesh[N];
  std::unique_ptr<AL::ColladaSceneBuilder> scene[N];
  std::unique_ptr<am::Shape3D> shapes[7];
  std::unique_ptr<am::OccupancyMapParams> map[N];
  void make(const World &w, bool docs) {
    for (int i = 0; i < N; ++i) {
      map[i].reset(new am::OccupancyMapParams(100 + 50 * i, 0.05f * (1 + i), w.p2[i]));
      if (!docs) continue;
      doc[i] = parseXml(w.xml[i]);
      tree[i].reset(new urdf::RobotTree(doc[i].get_child("robot")));
      std::istringstream is(w.anim[i]);
      boost::property_tree::read_xml(is, anim[i]);
      mesh[i] = AL::createRoundedBoxMesh(w.pos[0], w.pos[1], w.pos[2], w.pos[i], 2 + i);
      scene[i].reset(new AL::ColladaSceneBuilder());
      scene[i]->add(mesh[i], w.t[i]);
      scene[i]->add(am::Sphere(w.pos[i]), w.t[(i + 1) % N]);
    }
    for (int i = 0; i < 7; ++i) shapes[i] = shape(i, w, i % N);
  }
};

// ---- the calls
struct Ctx {
  const World &w;
  const Objects &o;
  int i, j, k;
  Out out;
};
struct Op {
  const char *name;
  void (*fn)(Ctx &);
  bool docs;
};
#define W c.w
#define I c.i
#define J c.j
#define K c.k
#define OP(...) Op{#__VA_ARGS__, [](Ctx &c) { c.out << __VA_ARGS__; }, false},
#define DO(...) Op{#__VA_ARGS__, [](Ctx &c) { __VA_ARGS__ }, false},
#define DOC(...) Op{#__VA_ARGS__, [](Ctx &c) { __VA_ARGS__ }, true},
template <class F>
void eachJoint(Ctx &c, F f) {
  for (auto &j : W.model[I].joints) f(j.name);
}
ptree copyOf(Ctx &c) { return c.o.doc[I].get_child("robot"); }
const std::string &someJoint(Ctx &c) {
  static const std::string none = "none";
  auto &j = W.model[I].joints;
  return j.empty() ? none : j[(size_t)(J + 3 * K) % j.size()].name;
}

am::Position3D column(const am::Rotation &r, int j) { return toP(col(R(r), j)); }

const Op ops[] = {
    // transforms
    OP(W.t[I] * W.t[J])
    DO(am::Transform t = W.t[I]; t *= W.t[J]; c.out << t;)
    OP((W.t[I] == W.t[J])) OP((W.t[I] != W.t[J])) OP(W.t[I].isNear(W.t[J], W.pos[K])) OP(W.t[I].isTransform())
    OP(W.t[I].norm()) OP(W.t[I].determinant()) OP(W.t[I].inverse()) OP(W.t[I].diff(W.t[J]))
    OP(W.t[I].distance(W.t[J])) OP(W.t[I].distanceSquared(W.t[J])) OP(W.t[I].toVector())
    DO(std::vector<float> v; W.t[I].toVector(v); c.out << v;)
    DO(std::vector<float> v(16); auto it = v.begin(); W.t[I].writeToVector(it); c.out << v;)
    DO(am::Transform t(W.t[I].toVector()); c.out << t;)
    DO(am::Transform t = W.t[I]; t.r1_c1 += 1e-3f; am::normalizeTransform(t); c.out << t;)
    OP(am::Transform::fromRotX(W.angle[I])) OP(am::Transform::fromRotY(W.angle[I])) OP(am::Transform::fromRotZ(W.angle[I]))
    OP(am::Transform::from3DRotation(W.angle[I], W.angle[J], W.angle[K]))
    OP(am::Transform::fromPosition(W.f[I], W.f[J], W.f[K], W.angle[I], W.angle[J], W.angle[K]))
    OP(am::transformFromPosition(W.f[I], W.f[J], W.f[K]))
    DO(am::Transform t = W.t[I]; am::transformPreMultiply(W.t[J], t); c.out << t;)
    DO(am::Transform t; am::transformInverse(W.t[I], t); c.out << t;)
    DO(am::Transform t = W.t[I]; am::transformInvertInPlace(t); c.out << t;)
    OP(am::pinv(W.t[I])) OP(am::transformDiff(W.t[I], W.t[J])) OP(am::determinant(W.t[I].toVector()))
    OP(am::transformLogarithm(W.t[I])) OP(am::velocityExponential(W.v6[I])) OP(am::transformMean(W.t[I], W.t[J], W.pos[K]))
    DO(am::Velocity6D v; am::changeReferenceVelocity6D(W.t[I], W.v6[J], v); c.out << v;)
    DO(am::Velocity6D v; am::changeReferenceTransposeVelocity6D(W.t[I], W.v6[J], v); c.out << v;)
    DO(am::Position6D v; am::changeReferencePosition6D(W.t[I], W.p6[J], v); c.out << v;)
    DO(am::Position6D v; am::changeReferenceTransposePosition6D(W.t[I], W.p6[J], v); c.out << v;)
    DO(am::Position3D v; am::changeReferencePosition3D(W.t[I], W.p3[J], v); c.out << v;)
    DO(am::Position3D v; am::changeReferenceTransposePosition3D(W.t[I], W.p3[J], v); c.out << v;)
    DO(am::Position3D v = W.p3[J]; am::changeReferencePosition3DInPlace(W.t[I], v); c.out << v;)
    DO(am::Position3D v = W.p3[J]; am::changeReferenceTransposePosition3DInPlace(W.t[I], v); c.out << v;)
    DO(am::Transform v; am::changeReferenceTransform(W.t[I], W.t[J], v); c.out << v;)
    DO(am::Transform v; am::changeReferenceTransposeTransform(W.t[I], W.t[J], v); c.out << v;)
    OP(am::transformFromRotationPosition3D(W.r[I], W.p3[J])) OP(am::transformFromPosition3D(W.p3[I]))
    OP(am::transformFromRotation(W.r[I])) OP(am::rotationFromTransform(W.t[I])) OP(am::rotation3DFromRotation(W.r[I]))
    OP(am::rotationFromAxesXY(column(W.r[I], 0), column(W.r[I], 1))) OP(am::rotationFromAxesXZ(column(W.r[I], 2), column(W.r[I], 0)))
    OP(am::rotationFromAxesYZ(column(W.r[I], 1), column(W.r[I], 0)))
    OP(am::rotationFromAxesXYZ(column(W.r[I], 0), column(W.r[I], 1), column(W.r[I], 2)))
    OP(am::position6DFromTransform(W.t[I])) OP(am::transformFromPose2D(W.pose[I])) OP(am::pose2DFromTransform(W.t[I]))
    OP(am::position2DFromTransform(W.t[I])) OP(am::transformFromRotation3D(W.r3[I])) OP(am::transformFromPosition6D(W.p6[I]))
    OP(am::position6DFromTransformDiff(W.t[I], W.t[J])) OP(am::position3DFromTransform(W.t[I])) OP(am::rotation3DFromTransform(W.t[I]))
    OP(am::transformFromRotVec(1 + K, W.angle[I], W.p3[J])) OP(am::transformFromRotVec(W.p3[I]))
    OP(W.t[I] * W.p2[J]) OP(W.t[I] * W.p3[J])
    OP(am::axisRotationProjection(W.axis[I], W.t[J])) OP(am::axisRotationProjection(W.axis[I], W.r[J])) OP(am::orthogonalSpace(W.p3[I]))
    OP(am::transformFromQuaternion(W.q[I])) OP(am::quaternionFromTransform(W.t[I]))
    OP(am::transformFromDisplacement(am::displacementFromTransform(W.t[I]))) OP(am::displacementFromTransform(W.t[I]))
    OP(am::Displacement(W.p3[I], W.q[I]) * am::Displacement(W.p3[J], W.q[J]))
    OP(am::Displacement(W.p3[I], W.q[I]).isNear(am::Displacement(W.p3[J], W.q[J])))
    // rotations
    OP(W.r[I] * W.r[J]) OP(W.r[I] * W.p3[J]) OP(W.r[I] * W.v3[J]) OP(W.r[I].transpose()) OP(W.r[I].determinant()) OP(W.r[I].isRotation())
    OP(W.r[I].isNear(W.r[J], W.pos[K])) OP(W.r[I].toVector())
    DO(am::Rotation r = W.r[I]; r.r2_c1 += 1e-3f; am::normalizeRotation(r); c.out << r;)
    OP(am::Rotation::fromQuaternion(W.q[I].w, W.q[I].x, W.q[I].y, W.q[I].z))
    OP(am::Rotation::fromAngleDirection(W.angle[I], W.axis[J].x, W.axis[J].y, W.axis[J].z))
    OP(am::rotationFromAngleDirection(W.angle[I], W.axis[J]))
    OP(am::Rotation::fromRotX(W.angle[I])) OP(am::Rotation::fromRotY(W.angle[I])) OP(am::Rotation::fromRotZ(W.angle[I]))
    OP(am::Rotation::from3DRotation(W.angle[I], W.angle[J], W.angle[K]))
    DO(am::Position3D p = W.p3[J]; am::applyRotation(W.r[I], p.x, p.y, p.z); c.out << p;)
    // quaternions
    OP(W.q[I] * W.q[J]) OP(W.q[I] * W.p3[J]) OP(W.q[I].inverse()) OP(W.q[I].normalize()) OP(W.q[I].norm()) OP(W.q[I].isNear(W.q[J]))
    OP(W.q[I] * W.f[J]) OP(W.q[I].toVector())
    OP(am::Quaternion::fromAngleAndAxisRotation(W.angle[I], W.axis[J].x, W.axis[J].y, W.axis[J].z))
    OP(am::angleAndAxisRotationFromQuaternion(W.q[I])) OP(am::quaternionFromRotation3D(W.r3[I])) OP(am::rotationFromQuaternion(W.q[I]))
    OP(am::rotation3DFromQuaternion(W.q[I]))
    DO(am::Quaternion q; am::Position3D p; am::quaternionPosition3DFromPosition6D(W.p6[I], q, p); c.out << q << p;)
    // vectors
    OP(W.p2[I] + W.p2[J]) OP(W.p2[I] - W.p2[J]) OP(W.p2[I] * W.f[J]) OP(W.f[J] * W.p2[I]) OP(W.p2[I].norm()) OP(W.p2[I].normalize())
    OP(W.p2[I].dotProduct(W.p2[J])) OP(W.p2[I].crossProduct(W.p2[J])) OP(W.p2[I].getAngle()) OP(W.p2[I].distance(W.p2[J])) OP(W.p2[I].toVector())
    OP(W.p3[I] + W.p3[J]) OP(W.p3[I] - W.p3[J]) OP(W.p3[I] * W.f[J]) OP(W.p3[I] / W.pos[J]) OP(W.p3[I].norm()) OP(am::normalize(W.p3[I]))
    OP(W.p3[I].dotProduct(W.p3[J])) OP(W.p3[I].crossProduct(W.p3[J])) OP(W.p3[I].distance(W.p3[J])) OP(W.p3[I].isOrthogonal(W.p3[J]))
    OP(W.p6[I] + W.p6[J]) OP(W.p6[I] * W.f[J]) OP(W.p6[I].norm()) OP(am::normalize(W.p6[I])) OP(W.p6[I].distance(W.p6[J])) OP(W.p6[I].toVector())
    OP(W.v3[I] + W.v3[J]) OP(W.v3[I].norm()) OP(W.v3[I].normalize()) OP(W.v6[I] + W.v6[J]) OP(W.v6[I].norm()) OP(W.v6[I].normalize())
    OP(W.v6[I] * W.f[J]) OP(W.r3[I] + W.r3[J]) OP(W.r3[I].norm()) OP(W.r3[I].toVector()) OP(W.v6[I].toVector())
    // planar poses
    OP(W.pose[I] * W.pose[J]) OP(W.pose[I] * W.p2[J]) OP(W.pose[I] + W.pose[J]) OP(W.pose[I].inverse()) OP(W.pose[I].diff(W.pose[J]))
    OP(W.pose[I].norm()) OP(W.pose[I].normalize()) OP(W.pose[I].getAngle()) OP(W.pose[I].distance(W.pose[J])) OP(am::pinv(W.pose[I]))
    OP(am::pose2dDiff(W.pose[I], W.pose[J])) OP(W.pose[I].isNear(W.pose[J])) OP(am::Pose2D::fromPolarCoordinates(W.pos[I], W.angle[J]))
    DO(am::Pose2D p = W.pose[I]; p *= W.pose[J]; am::pose2dInvertInPlace(p); c.out << p;)
    DO(am::Pose2D p; am::changeReferencePose2D(W.angle[I], W.pose[J], p); c.out << p;)
    OP(am::position2DFromPose2D(W.pose[I])) OP(am::position6DFromPose2D(W.pose[I])) OP(am::pose2DFromPosition6D(W.p6[I]))
    OP(am::pose2DFromPosition2D(W.p2[I], W.angle[J])) OP(am::position6DFromVelocity6D(W.v6[I])) OP(am::position3DFromPosition6D(W.p6[I]))
    // scalars
    OP(am::modulo2PI(W.f[I] * 10)) OP(am::meanAngle(W.w[I])) OP(am::weightedMeanAngle(W.w[I], W.weights[I]))
    DO(float x = W.f[I]; float lo = -W.pos[J]; bool b = am::clipData(lo, W.pos[K], x); c.out << b << x;)
    DO(std::vector<float> x = W.w[I]; float lo = -W.pos[J]; bool b = am::clipData(lo, W.pos[K], x); c.out << b << x;)
    DO(std::vector<float> v; am::pointMassRotationalInertia(W.pos[I], W.p3[J], v); c.out << v;)
    // planning
    OP(am::getDubinsSolutions(W.pose[I], W.pos[J] / 4))
    DO(am::Pose2D p(W.pose[I].x / 10, W.pose[I].y / 10, W.pose[I].theta); bool b = am::avoidFootCollision(W.box[J], W.box[K], I == 0, p); c.out << b << p;)
    DO(am::Pose2D p = W.pose[I]; bool b = am::clipFootWithEllipse(W.pos[J], W.pos[K], p); c.out << b << p;)
    OP((bool)am::areTwoBoxesInCollision(W.box[I], W.box[J]))
    DO(std::vector<am::Position2D> b(4); am::computeBox(W.box[I], W.pose[J], b); c.out << b;)
    DO(am::Position2D p(0.f, 0.f); bool b = am::intersectionSegment2D(W.p2[I], W.p2[J], W.p2[K], W.box[I][0], p); c.out << b; if (b) c.out << p;)
    OP(c.o.map[I]->getPixelFromPose(W.pose[J])) OP(c.o.map[I]->getPixelFromPosition(W.p2[J]))
    OP(c.o.map[I]->getPositionFromPixel(am::Point2Di(J, K))) OP(c.o.map[I]->getDeltaPixelFromDeltaPosition(W.p2[J]))
    // filters
    DO(AL::Math::DSP::DigitalFilter f; f.configureFilter(W.weights[I], W.weights[J], W.pos[K]); for (float x : W.w[K]) c.out << f.processFilter(x);
       f.resetFilter(); c.out << f.processFilter(W.f[I]);)
    DO(AL::Math::DSP::PIDController p(W.pos[I], W.pos[J], W.pos[K], 0.01f, 0.f, 0.1f); for (float x : W.w[K]) c.out << p.computeFeedback(x, W.f[I]);
       p.initialize(); c.out << p.computeFeedbackAbsolute(W.f[J]);)
    // shapes
    DO(am::Position3D a; am::Position3D b; am::getSphereCentersFromPill(W.pos[I], W.t[J], a, b); c.out << a << b;)
    DO(float h = 0; am::Transform t; am::computePillParameters(W.p3[I], W.p3[J], h, t); c.out << h << t;)
    DO(auto x = shape(I + 3 * K, W, J); Shown v; x->accept(v); c.out << v.o.b;)
    // texts
    OP(text(W.t[I])) OP(text(W.p3[I])) OP(text(W.pose[I])) OP(text(W.q[I])) OP(text(W.r[I])) OP(text(W.p6[I])) OP(text(W.v6[I]))
    OP(text(W.p2[I])) OP(am::toSpaceSeparated(W.p3[I])) OP(am::toSpaceSeparated(W.r3[I]))
    // descriptions of robots
    DOC(c.out << c.o.tree[I]->root_link();)
    DOC(eachJoint(c, [&](const std::string &n) { c.out << c.o.tree[I]->joint(n).size() << c.o.tree[I]->joint(n); });)
    DOC(const urdf::RobotTree &t = *c.o.tree[I]; for (auto &l : W.model[I].links) c.out << t.link(l.name);)
    DOC(Visited v; const urdf::RobotTree &t = *c.o.tree[I]; t.traverse_joints(v); c.out << v.o.b;)
    DOC(c.out << c.o.tree[I]->is_mimic_tree_flat();)
    DOC(const urdf::RobotTree &t = *c.o.tree[I]; eachJoint(c, [&](const std::string &n) {
      urdf::Joint j(t.joint(n));
      c.out << j.name() << (int)j.type() << j.parent_link() << j.child_link() << j.origin();
      for (double x : j.axis()) c.out << x;
      auto l = j.limit_lower_upper();
      c.out << (bool)l;
      if (l) c.out << l->first << l->second;
      auto m = j.mimic();
      c.out << (bool)m;
      if (m) c.out << m->joint() << m->multiplier() << m->offset();
    });)
    DOC(const urdf::RobotTree &t = *c.o.tree[I]; for (auto &l : W.model[I].links) {
      urdf::Link k(t.link(l.name));
      auto n = k.inertial();
      c.out << k.name() << (bool)n;
      if (n) c.out << n->mass() << n->origin() << n->ixx() << n->ixy() << n->ixz() << n->iyy() << n->iyz() << n->izz();
      for (auto v : k.visuals()) c.out << v.origin() << v.geometry().which();
    })
    DOC(std::ostringstream os; urdf::UrdfDotPrinterVisitor v(os); const urdf::RobotTree &t = *c.o.tree[I]; t.traverse_joints(v); c.out << os.str();)
    DOC(tree_t p = copyOf(c); urdf::RobotTree t(p); t.define_as_root_link(W.model[I].links[(size_t)(J + 3 * K) % W.model[I].links.size()].name); c.out << p;)
    DOC(tree_t p = copyOf(c); urdf::RobotTree t(p); c.out << urdf::makeContinuousJointsFixed(t) << p;)
    DOC(tree_t p = copyOf(c); urdf::RobotTree t(p); urdf::makeJointFixed(t, someJoint(c)); c.out << p;)
    DOC(tree_t p = copyOf(c); urdf::RobotTree t(p); urdf::squashFixedJointsMass(t); c.out << p;)
    DOC(tree_t p = copyOf(c); urdf::RobotTree t(p); c.out << urdf::makeMasslessJointsFixed(t) << p;)
    DOC(tree_t p = copyOf(c); urdf::RobotTree t(p);
        c.out << urdf::removeSubTreeIfJoint(t, [&](const tree_t &j) { return urdf::name(j) == someJoint(c); }) << p;)
    DOC(rbs::Recorder<double> r; std::istringstream is(W.xml[I]); AL::buildRigidBodySystemFromUrdf(r, is, J == 1, true); c.out << r.calls.size();
        for (auto &k : r.calls) {
          c.out << k.link << k.l.new_body << k.l.new_joint << k.f.new_static_frame;
          if (k.link) {
            c.out << k.l.body_mass.mass;
            for (int a = 0; a < 3; ++a)
              for (int b = 0; b < 4; ++b) c.out << k.l.pose_parent_new(a, b);
          }
        })
    // animations
    DOC(const tree_t &a = v2::get_animation(c.o.anim[I]); v2::Animation::check_all(a); c.out << true;)
    DOC(const tree_t &a = v2::get_animation(c.o.anim[I]); for (auto &k : v2::Animation::get_actuatorcurves(a)) {
      c.out << v2::ActuatorCurve::get_fps(k) << v2::ActuatorCurve::get_actuator(k) << (int)v2::ActuatorCurve::get_unit(k) << v2::ActuatorCurve::get_mute(k);
      for (auto &y : v2::ActuatorCurve::get_keys(k))
        c.out << v2::Key::get_frame(y) << v2::Key::get_value<double>(y) << v2::Tangent::get_abscissa<float>(v2::Key::get_tangent(y, qa::Side::left));
      c.out << (bool)v2::ActuatorCurve::get_key_optional(k, J);
    })
    DOC(tree_t a = c.o.anim[I]; tree_t &k = v2::Animation::require_actuatorcurve(v2::require_animation(a), J ? "B" : "A0");
        v2::Key::put_tangent<double>(v2::ActuatorCurve::require_key(k, 5), qa::Side::right, 0.25, W.f[J]); c.out << a;)
    // meshes and scenes
    DOC(c.out << c.o.mesh[I];)
    DOC(c.out << AL::createBoxMesh(W.pos[I], W.pos[J], W.pos[K]);)
    DOC(c.out << AL::createRoundedBoxMesh(W.pos[I], W.pos[J], W.pos[K], W.pos[I] / 2, 2 + J);)
    DOC(AL::Mesh m = c.o.mesh[I]; AL::addBoxMesh(W.pos[I], W.pos[J], W.pos[K], m); c.out << m;)
    DOC(c.out << text(*c.o.scene[I]);)
    DOC(AL::ColladaSceneBuilder b(*c.o.scene[I]); b.add(c.o.mesh[J], W.t[K]); c.out << text(b);)
    DOC(AL::ColladaSceneBuilder b; b.add(am::Pill(W.pos[I], W.pos[J]), W.t[K]); b.add(*c.o.shapes[0], W.t[I]); c.out << text(b);)
    DOC(for (auto &x : c.o.shapes) {
      Shown v;
      x->accept(v);
      c.out << v.o.b;
    })
};
const size_t NOPS = sizeof ops / sizeof *ops;
#undef W
#undef I
#undef J
#undef K

struct Call {
  int op, i, j, k;
};
std::string eval(const World &w, const Objects &o, const Call &c) {
  Ctx x{w, o, c.i, c.j, c.k, Out()};
  try {
    ops[c.op].fn(x);
  } catch (const std::exception &e) {
    x.out << std::string("exception ") << std::string(e.what());
  }
  return x.out.b;
}
uint64_t hash(const std::string &b) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : b) h = (h ^ c) * 1099511628211ull;
  return h;
}
std::string name(const Call &c) {
  std::ostringstream os;
  os << "{" << ops[c.op].name << "} with I=" << c.i << " J=" << c.j << " K=" << c.k;
  return os.str();
}
// a few operations, each with several arguments
std::vector<Call> genCalls(Src &s, bool docs, int maxOps, int maxCalls) {
  std::vector<int> pool;
  for (size_t i = 0; i < NOPS; ++i)
    if (ops[i].docs == docs) pool.push_back((int)i);
  std::vector<int> chosen;
  int n = (int)s.range(1, maxOps);
  for (int i = 0; i < n; ++i) chosen.push_back(s.pick(pool));
  std::vector<Call> r;
  int m = (int)s.range(2, maxCalls);
  for (int i = 0; i < m; ++i) r.push_back(Call{s.pick(chosen), (int)s.draw(N), (int)s.draw(N), (int)s.draw(N)});
  return r;
}
std::vector<int> shuffle(Src &s, int n) {
  std::vector<int> r;
  for (int i = 0; i < n; ++i) r.push_back(i);
  for (int i = n - 1; i > 0; --i) std::swap(r[i], r[i - (int)s.draw(i + 1)]);
  return r;
}

// ---- children: each history starts from a fresh process
struct Board {
  uint64_t result[128];
  char msg[2048];
};
Board *board() {
  static Board *b = (Board *)mmap(nullptr, sizeof(Board), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return b;
}
void say(const std::string &m) {
  strncpy(board()->msg, m.c_str(), sizeof(board()->msg) - 1);
}
// what the child's end says ("" if all is well)
template <class F>
std::string child(F f) {
  memset(board(), 0, sizeof(Board));
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = 60;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
    bool ok = false;
    try {
      ok = f();
    } catch (const pbt::Failure &e) {
      say(e.msg);
    } catch (const pbt::Discard &) {
      ok = true;
    } catch (const std::exception &e) {
      say(std::string("unexpected exception ") + e.what());
    }
    _exit(ok ? 0 : 3);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return board()->msg[0] ? board()->msg : "failure";
  std::ostringstream os;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 66)
    os << "report of the sanitizer";
  else if (WIFEXITED(st))
    os << "exit " << WEXITSTATUS(st);
  else
    os << "signal " << WTERMSIG(st);
  return os.str();
}

#ifndef __SANITIZE_THREAD__
void history(Src &s, bool docs) {
  World w;
  fill(s, w, docs);
  std::vector<Call> calls = genCalls(s, docs, docs ? 3 : 4, docs ? 8 : 16);
  std::vector<int> second = shuffle(s, (int)calls.size());
  for (size_t i = 0; i < calls.size(); ++i) NOTE("call " << i << ": " << name(calls[i]));
  NOTE("second order: ");
  for (int i : second) NOTE("  call " << i);
  auto run = [&](const std::vector<int> &order) {
    return child([&] {
      Objects o;
      o.make(w, docs);
      for (int i : order) board()->result[i] = hash(eval(w, o, calls[i]));
      // and once more
      for (int i : order)
        if (board()->result[i] != hash(eval(w, o, calls[i]))) {
          say("a second call with the same arguments gives another result: " + name(calls[i]));
          return false;
        }
      return true;
    });
  };
  std::vector<int> first;
  for (int i = 0; i < (int)calls.size(); ++i) first.push_back(i);
  uint64_t res[128];
  std::string a = run(first);
  memcpy(res, board()->result, sizeof res);
  std::string b = run(second);
  if (!a.empty() || !b.empty()) {
    // does a call end badly in a process of its own?
    for (auto &c : calls) {
      std::string m = child([&] {
        Objects o;
        o.make(w, docs);
        eval(w, o, c);
        return true;
      });
      if (!m.empty()) {
        if (getenv("PBT_DEBUG")) fprintf(stderr, "ALONE %s: %s\n", name(c).c_str(), m.c_str());
        s.label("a call fails on its own");
        return;
      }
    }
  }
  CHECK(a.empty(), a);
  CHECK(b.empty(), b);
  for (size_t i = 0; i < calls.size(); ++i)
    CHECK(res[i] == board()->result[i], "the result depends on the calls before: " << name(calls[i]));
  std::set<std::pair<int, int>> d;
  bool same = false;
  for (auto &c : calls) same |= !d.insert({c.op, c.i}).second || d.count({c.op, (c.i + 1) % N});
  s.nontrivial(same && second != first);
}
}  // namespace

// calls with values: the same results in any order
PBT_FACET(values, 100000) { history(s, false); }
// calls with documents, meshes and scenes
PBT_FACET(documents, 12000) { history(s, true); }

#else
// The C++ library fills a table of characters when they are first looked at
// (ctype::narrow, all the threads write the same values): filled beforehand.
bool warm() {
  for (const std::locale &l : {std::locale(), std::locale::classic()}) {
    auto &f = std::use_facet<std::ctype<char>>(l);
    for (int c = 0; c < 256; ++c) {
      f.narrow((char)c, (char)(c ? 0 : 1));
      f.widen((char)c);
    }
  }
  return true;
}
const bool warmed = warm();
// several threads, which start together
void together(int n, const std::function<void(int)> &f) {
  std::atomic<int> ready(0);
  std::vector<std::thread> th;
  for (int t = 0; t < n; ++t)
    th.emplace_back([&, t] {
      ready.fetch_add(1, std::memory_order_relaxed);  // (no synchronisation which would hide a race)
      while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
      f(t);
    });
  for (auto &x : th) x.join();
}
}  // namespace

// several threads use the same constant objects and values
PBT_FACET(shared, 4000) {
  World w;
  bool docs = s.coin();
  fill(s, w, docs);
  std::vector<Call> calls = genCalls(s, docs, 3, docs ? 5 : 12);
  int n = (int)s.range(2, 3);
  std::vector<std::vector<int>> order;
  for (int t = 0; t < n; ++t) order.push_back(shuffle(s, (int)calls.size()));
  for (size_t i = 0; i < calls.size(); ++i) NOTE("call " << i << ": " << name(calls[i]));
  NOTE("threads: " << n);
  std::string m = child([&] {
    Objects o;
    o.make(w, docs);
    std::vector<std::vector<std::string>> got(n, std::vector<std::string>(calls.size()));
    together(n, [&](int t) {
      for (int r = 0; r < 3; ++r)
        for (int i : order[t]) got[t][i] = eval(w, o, calls[i]);
    });
    for (size_t i = 0; i < calls.size(); ++i) {
      std::string want = eval(w, o, calls[i]);
      for (int t = 0; t < n; ++t)
        if (got[t][i] != want) {
          say("another result in a thread: " + name(calls[i]));
          return false;
        }
    }
    return true;
  });
  if (!m.empty()) {
    std::string alone = child([&] {
      Objects o;
      o.make(w, docs);
      for (auto &c : calls) eval(w, o, c);
      return true;
    });
    if (!alone.empty()) {
      s.label("a call fails on its own");
      return;
    }
  }
  CHECK(m.empty(), m);
  s.nontrivial(calls.size() >= 2);
}

// the histories of the other properties, in several threads at once
PBT_FACET(concurrent, 8000) {
  auto &all = pbt::others();
  static bool sorted = false;
  if (!sorted) {
    // (the few big ones would take most of the time)
    all.erase(std::remove_if(all.begin(), all.end(), [](const pbt::Other &a) { return a.facet.cases > 1 && a.facet.cases < 200; }), all.end());
    std::sort(all.begin(), all.end(), [](const pbt::Other &a, const pbt::Other &b) {
      int c = strcmp(a.prop, b.prop);
      return c ? c < 0 : strcmp(a.facet.name, b.facet.name) < 0;
    });
    sorted = true;
  }
  const pbt::Other &f = all[s.draw(all.size())];
  // sometimes the other threads do something else
  const pbt::Other &g = s.chance(1, 6) ? all[s.draw(all.size())] : f;
  int n = (int)s.range(2, 3);
  uint64_t seed = s.draw(1ull << 32);
  bool twins = s.chance(1, 4);  // the same cases in all the threads
  NOTE(f.prop << " " << f.facet.name << " and " << g.prop << " " << g.facet.name << ", " << n << " threads, seed " << seed
              << (twins ? ", the same cases" : ""));
  struct Result {
    std::string msg;
    bool nontrivial = false;
  };
  auto cases = [&](int t, Result &r) {
    const pbt::Facet &x = t ? g.facet : f.facet;
    uint64_t k = x.cases == 1 ? 1 : std::max<uint64_t>(2, std::min<uint64_t>(60, x.cases / 20000));
    for (uint64_t i = 0; i < k; ++i) {
      pbt::Src q;
      q.mode = pbt::Src::RANDOM;
      q.rng = seed + 0x9e3779b97f4a7c15ull * (i + 1) + (twins ? 0 : 0x632be59bd9b4e019ull * t);
      try {
        x.fn(q);
        r.nontrivial |= q.nontrivial_;
      } catch (const pbt::Failure &e) {
        r.msg = e.msg;
        return;
      } catch (const pbt::Discard &) {
      } catch (const std::exception &e) {
        r.msg = std::string("unexpected exception ") + e.what();
        return;
      }
    }
  };
  timespec t0;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  std::string m = child([&] {
    std::vector<Result> r(n);
    together(n, [&](int t) { cases(t, r[t]); });
    bool nt = true;
    for (auto &x : r) {
      if (!x.msg.empty()) {
        say(x.msg);
        return false;
      }
      nt = nt && x.nontrivial;
    }
    board()->result[0] = nt;
    return true;
  });
  bool nt = board()->result[0];
  if (getenv("PBT_DEBUG")) {
    timespec t1;
    clock_gettime(CLOCK_MONOTONIC, &t1);
    fprintf(stderr, "TIME %s.%s %g\n", f.prop, f.facet.name, (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec));
  }
  if (!m.empty()) {
    // a case which fails on its own is the matter of its property
    for (int t = 0; t < n; ++t) {
      std::string alone = child([&] {
        Result r;
        cases(t, r);
        if (!r.msg.empty()) say(r.msg);
        return r.msg.empty();
      });
      if (!alone.empty()) {
        s.label("a case fails on its own");
        return;
      }
    }
  }
  CHECK(m.empty(), f.prop << " " << f.facet.name << " / " << g.prop << " " << g.facet.name << " in " << n << " threads: " << m);
  s.label(f.prop);
  s.nontrivial(nt);
}
#endif
