// Serial manipulators with analytic kinematics.
#pragma once
#include "mon.h"
#include <Eigen/Dense>
#include <tesseract/common/types.h>
#include <tesseract/kinematics/kinematic_group.h>
namespace cw
{
using Eigen::Isometry3d;
using Eigen::MatrixXd;
using Eigen::Vector3d;
using Eigen::VectorXd;
namespace tc = tesseract::common;
inline Isometry3d randPose(mon::Rng& r, double spread, bool rotate = true)
{
  Isometry3d T = Isometry3d::Identity();
  T.translation() = Vector3d(r.unif(-spread, spread), r.unif(-spread, spread), r.unif(-spread, spread));
  if (rotate)
  {
    Vector3d a(r.unif(-1, 1), r.unif(-1, 1), r.unif(-1, 1));
    if (a.norm() > 1e-3)
      T.linear() = Eigen::AngleAxisd(r.unif(-3, 3), a.normalized()).toRotationMatrix();
  }
  return T;
}
struct Joint
{
  bool revolute;
  Isometry3d origin;
  Vector3d axis;
};
struct State
{
  VectorXd q;
  std::map<std::string, Isometry3d> active;
};
/// base "l0", joint i between l_i and l_{i+1}
class Robot : public tesseract::kinematics::KinematicGroup
{
public:
  std::vector<Joint> joints;
  std::vector<std::string> links;
  mutable std::vector<State> log;  ///< every state whose kinematics somebody asked for
  bool logging{ true };
  std::vector<Isometry3d> fk(const VectorXd& q) const
  {
    std::vector<Isometry3d> out{ Isometry3d::Identity() };
    Isometry3d T = Isometry3d::Identity();
    for (std::size_t i = 0; i < joints.size(); ++i)
    {
      T = T * joints[i].origin;
      if (joints[i].revolute)
        T.linear() = (T.linear() * Eigen::AngleAxisd(q(static_cast<Eigen::Index>(i)), joints[i].axis).toRotationMatrix()).eval();
      else
        T.translation() = (T.translation() + T.linear() * joints[i].axis * q(static_cast<Eigen::Index>(i))).eval();
      out.push_back(T);
    }
    return out;
  }
  std::size_t index(const std::string& n) const
  {
    auto it = std::find(links.begin(), links.end(), n);
    if (it == links.end())
      throw std::runtime_error("no link " + n);
    return static_cast<std::size_t>(it - links.begin());
  }
  /// derivative of the position (and orientation) of a point given in the world
  MatrixXd jac(const VectorXd& q, std::size_t link, const Vector3d& point) const
  {
    MatrixXd J = MatrixXd::Zero(6, numJoints());
    Isometry3d T = Isometry3d::Identity();
    for (std::size_t i = 0; i < link; ++i)
    {
      T = T * joints[i].origin;
      const Vector3d a = T.linear() * joints[i].axis;
      const auto k = static_cast<Eigen::Index>(i);
      if (joints[i].revolute)
      {
        J.col(k).head(3) = a.cross(point - T.translation());
        J.col(k).tail(3) = a;
        T.linear() = (T.linear() * Eigen::AngleAxisd(q(k), joints[i].axis).toRotationMatrix()).eval();
      }
      else
      {
        J.col(k).head(3) = a;
        T.translation() = (T.translation() + a * q(k)).eval();
      }
    }
    return J;
  }
  using JointGroup::calcFwdKin;
  void calcFwdKin(tc::TransformMap& t, const Eigen::Ref<const VectorXd>& q) const override
  {
    if (q.size() != numJoints())
      throw std::runtime_error("kinematics of " + std::to_string(q.size()) + " values");
    const auto f = fk(q);
    State s;
    s.q = q;
    for (std::size_t i = 0; i < links.size(); ++i)
    {
      t[links[i]] = f[i];
      if (i > 0)
        s.active[links[i]] = f[i];
    }
    if (logging)
      log.push_back(std::move(s));
  }
  MatrixXd calcJacobian(const Eigen::Ref<const VectorXd>& q, const std::string& link) const override
  {
    const std::size_t i = index(link);
    return jac(q, i, fk(q)[i].translation());
  }
  MatrixXd calcJacobian(const Eigen::Ref<const VectorXd>& q, const std::string& link, const Vector3d& p) const override
  {
    const std::size_t i = index(link);
    return jac(q, i, fk(q)[i] * p);
  }
  /// seen from a base link (whose motion does not count if it moves)
  MatrixXd calcJacobian(const Eigen::Ref<const VectorXd>& q, const std::string& base, const std::string& link) const override
  {
    return calcJacobian(q, base, link, Vector3d(Vector3d::Zero()));
  }
  MatrixXd calcJacobian(const Eigen::Ref<const VectorXd>& q, const std::string& base, const std::string& link, const Vector3d& p) const override
  {
    MatrixXd J = calcJacobian(q, link, p);
    tc::jacobianChangeBase(J, fk(q)[index(base)].inverse());
    return J;
  }
  std::string getBaseLinkName() const override { return links.front(); }
  std::vector<std::string> getJointNames() const override
  {
    std::vector<std::string> n;
    for (std::size_t i = 0; i < joints.size(); ++i)
      n.push_back("j" + std::to_string(i));
    return n;
  }
  std::vector<std::string> getActiveLinkNames() const override { return { links.begin() + 1, links.end() }; }
  bool isActiveLinkName(const std::string& n) const override { return std::find(links.begin() + 1, links.end(), n) != links.end(); }
  bool hasLinkName(const std::string& n) const override { return std::find(links.begin(), links.end(), n) != links.end(); }
  MatrixXd limits;  ///< a row per joint
  tc::KinematicLimits getLimits() const override
  {
    tc::KinematicLimits l;
    l.joint_limits = limits;
    return l;
  }
  Eigen::Index numJoints() const override { return static_cast<Eigen::Index>(joints.size()); }
  std::function<tesseract::kinematics::IKSolutions(const tesseract::kinematics::KinGroupIKInputs&, const VectorXd&)> ik;
  tesseract::kinematics::IKSolutions calcInvKin(const tesseract::kinematics::KinGroupIKInputs& in, const Eigen::Ref<const VectorXd>& seed) const override
  {
    return ik ? ik(in, seed) : tesseract::kinematics::IKSolutions();
  }
};
/// `dof` joints; a gantry has prismatic joints only, so that its Jacobian is the same everywhere
inline std::shared_ptr<Robot> randRobot(mon::Rng& r, int dof, bool gantry)
{
  auto rb = std::make_shared<Robot>();
  // the names decide which link of a pair comes first
  const std::string prefix = r.chance(0.5) ? "arm" : "zarm";
  rb->links.push_back(prefix + "_base");
  for (int i = 0; i < dof; ++i)
  {
    Joint j;
    j.revolute = !gantry && r.chance(0.75);
    j.origin = randPose(r, 0.4);
    Vector3d a(r.unif(-1, 1), r.unif(-1, 1), r.unif(-1, 1));
    if (a.norm() < 0.1)
      a = Vector3d::UnitX();
    j.axis = r.chance(0.5) ? Vector3d::Unit(r.range(0, 2)) : Vector3d(a.normalized());
    rb->joints.push_back(j);
    rb->links.push_back(prefix + "_" + std::to_string(r.chance(0.5) ? i : 9 - i) + "_" + std::to_string(i));
  }
  return rb;
}
inline VectorXd randVec(mon::Rng& r, Eigen::Index n, double s = 3)
{
  VectorXd v(n);
  for (Eigen::Index i = 0; i < n; ++i)
    v(i) = r.num(s / 3);
  return v;
}
}  // namespace cw
