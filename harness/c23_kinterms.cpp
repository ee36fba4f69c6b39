// C23: Cartesian pose, Cartesian velocity, joint velocity with time, total time and singularity functions of trajopt.
// Oracle: forward kinematics, pose errors and singular values of its own; Jacobians against differences of the (judged) values.
#include "pose_util.h"
#include <tesseract/visualization/markers/arrow_marker.h>
#include <tesseract/visualization/markers/axis_marker.h>
#include <tesseract/visualization/visualization.h>
#include <trajopt/kinematic_terms.hpp>
using namespace pu;
namespace tv = tesseract::visualization;

namespace
{
struct Recorder : tv::Visualization
{
  std::vector<Isometry3d> axes;
  std::vector<std::pair<Vector3d, Vector3d>> arrows;
  void plotMarker(const tv::Marker& m, std::string) override
  {
    if (const auto* a = dynamic_cast<const tv::AxisMarker*>(&m))
      axes.push_back(a->pose);
    if (const auto* a = dynamic_cast<const tv::ArrowMarker*>(&m))
      arrows.emplace_back(a->from, a->to);
  }
  void plotTrajectory(const tesseract::common::JointTrajectory&, const tesseract::scene_graph::StateSolver&, std::string) override {}
  void clear(std::string) override {}
  void waitForInput(std::string) override {}
};
struct Tolerances
{
  VectorXd lo, hi;
  bool any{ false };
};
Tolerances randTolerances(mon::Rng& r)
{
  Tolerances t;
  if (r.chance(0.4))
    return t;
  t.lo = VectorXd::Zero(6);
  t.hi = VectorXd::Zero(6);
  if (r.chance(0.2))
    return t;
  for (int i = 0; i < 6; ++i)
    if (r.chance(0.7))
    {
      const double w = i < 3 ? 0.6 : 1.2, m = r.chance(0.7) ? 0 : r.unif(-0.4, 0.4);
      t.lo(i) = m - r.unif(0, w);
      t.hi(i) = m + r.unif(0, w);
      t.any = true;
    }
  if ((t.hi - t.lo).maxCoeff() < 1e-3)
    return randTolerances(r);
  return t;
}
VectorXd tolerated(VectorXd e, const Tolerances& t)
{
  if (t.lo.size() == 6)
    for (int i = 0; i < 6; ++i)
      e(i) = e(i) < t.lo(i) ? e(i) - t.lo(i) : (e(i) > t.hi(i) ? e(i) - t.hi(i) : 0);
  return e;
}
Eigen::VectorXi randIndices(mon::Rng& r)
{
  std::vector<int> idx{ 0, 1, 2, 3, 4, 5 };
  if (r.chance(0.6))
  {
    for (std::size_t i = 5; i > 0; --i)
      if (r.chance(0.3))
        std::swap(idx[i], idx[static_cast<std::size_t>(r.range(0, static_cast<int>(i)))]);
    idx.resize(static_cast<std::size_t>(r.range(1, 6)));
  }
  return Eigen::Map<Eigen::VectorXi>(idx.data(), static_cast<Eigen::Index>(idx.size()));
}
template <class Err, class Jac>
void poseCase(mon::Case& c, bool dynamic)
{
  mon::Rng& r = c.rng;
  Pair p = randPair(r);
  while (!dynamic && p.source_active && p.target_active)
    p = randPair(r);
  const auto dof = p.robot->numJoints();
  const Tolerances t = randTolerances(r);
  const Eigen::VectorXi idx = randIndices(r);
  Err err(p.robot, p.source, p.target, p.source_offset, p.target_offset, idx, t.lo, t.hi);
  Jac jac(p.robot, p.source, p.target, p.source_offset, p.target_offset, idx, t.lo, t.hi);
  if (t.any)
    c.event("toleranced");
  const bool from_source = !dynamic && p.target_active;
  for (int step = 0; step < 4; ++step)
  {
    const VectorXd q = cw::randVec(r, dof);
    const Isometry3d S = poseOf(*p.robot, q, p.source) * p.source_offset, T = poseOf(*p.robot, q, p.target) * p.target_offset;
    const VectorXd raw = from_source ? poseError(S, T) : poseError(T, S);
    if (raw.tail(3).norm() > 2.9)
      continue;
    const VectorXd e = tolerated(raw, t);
    const VectorXd v = err(q);
    EXPECT(v.size() == idx.size(), "pose-rows", v.size() << " values for " << idx.size() << " indices");
    for (Eigen::Index i = 0; i < idx.size(); ++i)
      EXPECT(std::fabs(v(i) - e(idx(i))) < 1e-7, "pose-value",
             (dynamic ? "dynamic " : "") << "row " << i << " (component " << idx(i) << ") is " << v(i) << ", the error is " << e(idx(i)) << " (" << raw(idx(i)) << " without tolerance)");
    c.event("pose_value", idx.size());
    if (raw.tail(3).norm() < 2.5)
    {
      int compared = 0;
      const std::string bad = compare(jac(q), differences([&](const VectorXd& y) { return err(y); }, q, 1e-5), 1e-3, compared);
      EXPECT(bad.empty(), "pose-derivative", (dynamic ? "dynamic: " : "") << bad);
      c.event("derivatives", compared);
    }
    if (step == 0)
    {
      auto rec = std::make_shared<Recorder>();
      err.Plot(rec, q);
      EXPECT(rec->axes.size() == 2 && rec->arrows.size() == 1, "plot", rec->axes.size() << " axes and " << rec->arrows.size() << " arrows");
      EXPECT(rec->axes[0].isApprox(S, 1e-9) && rec->axes[1].isApprox(T, 1e-9), "plot", "axes at other poses");
      EXPECT((rec->arrows[0].first - S.translation()).norm() < 1e-9 && (rec->arrows[0].second - T.translation()).norm() < 1e-9, "plot", "the arrow is not from source to target");
      c.event("plotted");
    }
  }
  VectorXd lo = VectorXd::Zero(6), hi = VectorXd::Constant(6, 0.1);
  lo(r.range(0, 5)) = 0.2;
  EXPECT_THROW_STD(Err(p.robot, p.source, p.target, p.source_offset, p.target_offset, idx, lo, hi), "refuse", "inverted tolerances accepted");
  EXPECT_THROW_STD(Jac(p.robot, p.source, p.target, p.source_offset, p.target_offset, idx, lo, hi), "refuse", "inverted tolerances accepted");
  EXPECT_THROW_STD(Err(p.robot, p.source, p.target, p.source_offset, p.target_offset, idx, VectorXd::Zero(r.range(0, 5)), hi), "refuse", "mismatched tolerances accepted");
  EXPECT_THROW_STD(Jac(p.robot, p.source, p.target, p.source_offset, p.target_offset, idx, lo, VectorXd()), "refuse", "mismatched tolerances accepted");
  c.event("refused", 4);
  c.note(dof);
  c.note(p.source_offset.translation());
}
}  // namespace

FAMILY(dynamic_pose, 2500, 60000) { poseCase<trajopt::DynamicCartPoseErrCalculator, trajopt::DynamicCartPoseJacCalculator>(c, true); }
FAMILY(pose, 2500, 60000) { poseCase<trajopt::CartPoseErrCalculator, trajopt::CartPoseJacCalculator>(c, false); }

FAMILY(cartesian_velocity, 1500, 30000)
{
  mon::Rng& r = c.rng;
  const int dof = r.range(1, 5);
  auto rb = cw::randRobot(r, dof, r.chance(0.1));
  rb->logging = false;
  const std::string link = rb->links[static_cast<std::size_t>(r.range(1, dof))];
  const Isometry3d tcp = r.chance(0.3) ? Isometry3d::Identity() : (r.chance(0.1) ? cw::randPose(r, 0) : cw::randPose(r, 0.5));
  const double limit = r.unif(0, 1);
  trajopt::CartVelErrCalculator err(rb, link, limit, tcp);
  trajopt::CartVelJacCalculator jac(rb, link, limit, tcp);
  for (int step = 0; step < 3; ++step)
  {
    const VectorXd q = cw::randVec(r, 2 * dof);
    const Vector3d d = (poseOf(*rb, q.tail(dof), link) * tcp).translation() - (poseOf(*rb, q.head(dof), link) * tcp).translation();
    const VectorXd v = err(q);
    EXPECT(v.size() == 6, "velocity-rows", v.size() << " values");
    for (int i = 0; i < 3; ++i)
      EXPECT(std::fabs(v(i) - (d(i) - limit)) < 1e-9 && std::fabs(v(i + 3) - (-d(i) - limit)) < 1e-9, "velocity-value",
             "the tool moves by " << d.transpose() << " with limit " << limit << ", the errors are " << v.transpose());
    int compared = 0;
    const std::string bad = compare(jac(q), differences([&](const VectorXd& y) { return err(y); }, q, 1e-5), 1e-3, compared);
    EXPECT(bad.empty(), "velocity-derivative", bad);
    c.event("velocity_value");
    c.event("derivatives", compared);
  }
  c.note(dof);
  c.note(tcp.translation());
}

FAMILY(joint_velocity_time, 1500, 30000)
{
  mon::Rng& r = c.rng;
  const int n = r.range(2, 8);
  const double target = r.unif(-1, 1), up = r.unif(0, 1), lo = -r.unif(0, 1);
  trajopt::JointVelErrCalculator err(target, up, lo);
  trajopt::JointVelJacCalculator jac;
  VectorXd x(2 * n);
  for (int i = 0; i < n; ++i)
  {
    x(i) = r.unif(-3, 3);
    x(n + i) = r.unif(0.1, 10);
  }
  const VectorXd v = err(x);
  EXPECT(v.size() == 2 * (n - 1), "joint-velocity-rows", v.size() << " values for " << n << " points");
  for (int i = 0; i + 1 < n; ++i)
  {
    const double vel = (x(i + 1) - x(i)) * x(n + i + 1) - target;
    EXPECT(std::fabs(v(i) - (vel - up)) < 1e-9 && std::fabs(v(n - 1 + i) - (lo - vel)) < 1e-9, "joint-velocity-value",
           "velocity error " << vel << " with tolerances " << lo << " and " << up << ": " << v(i) << ", " << v(n - 1 + i));
  }
  int compared = 0;
  const std::string bad = compare(jac(x), differences([&](const VectorXd& y) { return err(y); }, x, 1e-5), 1e-3, compared);
  EXPECT(bad.empty(), "joint-velocity-derivative", bad);
  c.event("joint_velocity_value", v.size());
  c.event("derivatives", compared);
  // total time
  const double limit = r.unif(0, 5);
  const VectorXd inv = x.tail(n);
  double total = -limit;
  for (int i = 0; i < n; ++i)
    total += 1 / inv(i);
  trajopt::TimeCostCalculator time(limit);
  trajopt::TimeCostJacCalculator tj;
  EXPECT(time(inv).size() == 1 && std::fabs(time(inv)(0) - total) < 1e-9 * (1 + std::fabs(total)), "time-value", time(inv).transpose() << " instead of " << total);
  const MatrixXd J = tj(inv);
  EXPECT(J.rows() == 1 && J.cols() == n, "time-derivative", J.rows() << " by " << J.cols());
  for (int i = 0; i < n; ++i)
    EXPECT(std::fabs(J(0, i) + 1 / (inv(i) * inv(i))) < 1e-9 * (1 + std::fabs(J(0, i))), "time-derivative", "entry " << i << " is " << J(0, i));
  c.event("time_value");
  c.note(x);
}

FAMILY(joint_acceleration_jerk_time, 1500, 30000)
{
  mon::Rng& r = c.rng;
  const int n = r.range(4, 9);
  const double limit = r.chance(0.3) ? 0 : r.unif(-1, 1);
  VectorXd x(2 * n);
  for (int i = 0; i < n; ++i)
  {
    x(i) = r.unif(-3, 3);
    x(n + i) = r.unif(0.2, 5);
  }
  // the same sums, with loops over the points: change of velocity over the mean of two time entries, change of
  // acceleration over the mean of three
  VectorXd vel(n - 1), acc(n - 2), jerk(n - 3);
  for (int i = 0; i + 1 < n; ++i)
    vel(i) = (x(i + 1) - x(i)) * x(n + i + 1);
  for (int i = 0; i + 2 < n; ++i)
    acc(i) = (vel(i + 1) - vel(i)) / ((x(n + i + 1) + x(n + i + 2)) / 2);
  for (int i = 0; i + 3 < n; ++i)
    jerk(i) = (acc(i + 1) - acc(i)) / ((x(n + i + 1) + x(n + i + 2) + x(n + i + 3)) / 3);
  trajopt::JointAccErrCalculator aerr(limit);
  trajopt::JointJerkErrCalculator jerr(limit);
  const VectorXd a = aerr(x), j = jerr(x);
  EXPECT(a.size() == n - 2 && j.size() == n - 3, "joint-acceleration-rows", a.size() << " accelerations and " << j.size() << " jerks for " << n << " points");
  for (int i = 0; i + 2 < n; ++i)
    EXPECT(std::fabs(a(i) - (acc(i) - limit)) < 1e-9 * (1 + std::fabs(acc(i))), "joint-acceleration-value", "entry " << i << " is " << a(i) << " instead of " << acc(i) - limit);
  for (int i = 0; i + 3 < n; ++i)
    EXPECT(std::fabs(j(i) - (jerk(i) - limit)) < 1e-9 * (1 + std::fabs(jerk(i))), "joint-jerk-value", "entry " << i << " is " << j(i) << " instead of " << jerk(i) - limit);
  trajopt::JointAccJacCalculator ajac;
  trajopt::JointJerkJacCalculator jjac;
  int compared = 0;
  std::string bad = compare(ajac(x), differences([&](const VectorXd& y) { return aerr(y); }, x, 1e-5), 1e-3, compared);
  EXPECT(bad.empty(), "joint-acceleration-derivative", bad);
  bad = compare(jjac(x), differences([&](const VectorXd& y) { return jerr(y); }, x, 1e-5), 1e-3, compared);
  EXPECT(bad.empty(), "joint-jerk-derivative", bad);
  c.event("joint_acceleration_value", a.size() + j.size());
  c.event("derivatives", compared);
  c.note(x);
}

namespace
{
/// a robot with joint names of its own
struct Named : cw::Robot
{
  std::vector<std::string> names;
  std::vector<std::string> getJointNames() const override { return names; }
};
std::shared_ptr<Named> named(mon::Rng& r, int dof)
{
  auto rb = cw::randRobot(r, dof, false);
  auto n = std::make_shared<Named>();
  n->joints = rb->joints;
  n->links = rb->links;
  n->logging = false;
  for (auto& j : n->joints)
    j.revolute = true;
  return n;
}
/// smallest singular value, from the eigenvalues of the smaller Gram matrix
VectorXd singularValues(const MatrixXd& J)
{
  const MatrixXd G = J.rows() < J.cols() ? MatrixXd(J * J.transpose()) : MatrixXd(J.transpose() * J);
  return Eigen::SelfAdjointEigenSolver<MatrixXd>(G).eigenvalues().cwiseMax(0).cwiseSqrt();
}
}  // namespace

FAMILY(singularity, 1500, 30000)
{
  mon::Rng& r = c.rng;
  const int dof = r.range(1, 7);
  auto rb = named(r, dof);
  const int at = r.range(1, dof);
  const std::string link = r.chance(0.7) ? rb->links.back() : rb->links[static_cast<std::size_t>(at)];
  const double lambda = r.chance(0.5) ? 1e-3 : r.unif(1e-3, 0.2);
  // the joints of this group within those of a larger one, in any order
  const int more = r.range(1, 3);
  auto super = named(r, dof + more);
  std::vector<int> where(static_cast<std::size_t>(dof + more));
  for (int i = 0; i < dof + more; ++i)
  {
    super->names.push_back("joint" + std::to_string(i));
    where[static_cast<std::size_t>(i)] = i;
  }
  for (std::size_t i = where.size() - 1; i > 0; --i)
    std::swap(where[i], where[static_cast<std::size_t>(r.range(0, static_cast<int>(i)))]);
  for (int i = 0; i < dof; ++i)
    rb->names.push_back(super->names[static_cast<std::size_t>(where[static_cast<std::size_t>(i)])]);
  trajopt::AvoidSingularityErrCalculator err(rb, link, lambda);
  trajopt::AvoidSingularityJacCalculator jac(rb, link, lambda);
  trajopt::AvoidSingularitySubsetErrCalculator serr(rb, super, link, lambda);
  trajopt::AvoidSingularitySubsetJacCalculator sjac(rb, super, link, lambda);
  for (int step = 0; step < 3; ++step)
  {
    const VectorXd Q = cw::randVec(r, dof + more);
    VectorXd q(dof);
    for (int i = 0; i < dof; ++i)
      q(i) = Q(where[static_cast<std::size_t>(i)]);
    const VectorXd sv = singularValues(rb->calcJacobian(q, link));
    const double s = sv(0), ref = 1 / (s + lambda) - 1 / (0.1 + lambda);
    if (s < 0.01)
    {
      c.event("singular");
      EXPECT(err(q).size() == 1 && err(q)(0) >= 1 / (0.011 + lambda) - 1 / (0.1 + lambda), "singularity-value", "no error at a singularity");
      continue;
    }
    const VectorXd v = err(q), sv2 = serr(Q);
    EXPECT(v.size() == 1 && std::fabs(v(0) - ref) < 1e-5 * (1 + 1 / s), "singularity-value", "smallest singular value " << s << ": " << v.transpose() << " instead of " << ref);
    EXPECT(sv2.size() == 1 && std::fabs(sv2(0) - v(0)) < 1e-9 * (1 + 1 / s), "singularity-subset-value", "in a larger group " << sv2.transpose() << " instead of " << v(0));
    c.event("singularity_value");
    const MatrixXd J = jac(q), SJ = sjac(Q);
    EXPECT(J.rows() == 1 && J.cols() == dof && SJ.rows() == 1 && SJ.cols() == dof + more, "singularity-derivative", "another size");
    MatrixXd back = MatrixXd::Zero(1, dof + more);
    for (int i = 0; i < dof; ++i)
      back(0, where[static_cast<std::size_t>(i)]) = J(0, i);
    EXPECT((SJ - back).norm() <= 1e-9 * (1 + back.norm()), "singularity-subset-derivative", "in a larger group " << SJ << " instead of " << back);
    if (s < 0.03 || (sv.size() > 1 && sv(1) - sv(0) < 0.05))
      continue;
    int compared = 0;
    const std::string bad = compare(J, differences([&](const VectorXd& y) { return err(y); }, q, 1e-5), 1e-2, compared);
    EXPECT(bad.empty(), "singularity-derivative", bad);
    c.event("singularity_derivative", compared);
  }
  c.note(dof);
  c.note(lambda);
}
MON_MAIN
