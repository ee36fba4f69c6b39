// C23: Cartesian position, Cartesian line and inverse kinematics constraints of trajopt_ifopt.
// Oracle: forward kinematics and pose errors of its own; Jacobians against differences of the (judged) values.
#include "ifopt_util.h"
#include "pose_util.h"
#include <trajopt_ifopt/constraints/cartesian_line_constraint.h>
#include <trajopt_ifopt/constraints/cartesian_position_constraint.h>
#include <trajopt_ifopt/constraints/inverse_kinematics_constraint.h>
#include <trajopt_ifopt/utils/trajopt_utils.h>
#include <tesseract/common/joint_state.h>
using namespace trajopt_ifopt;
using namespace pu;
using ifo::dense;

namespace
{
/// the Jacobian of a constraint without the columns of its variable, and these columns
std::string columns(const MatrixXd& J, Eigen::Index at, Eigen::Index n, MatrixXd& own)
{
  std::ostringstream o;
  if (at + n > J.cols())
  {
    o << J.cols() << " columns";
    return o.str();
  }
  own = J.middleCols(at, n);
  for (Eigen::Index i = 0; i < J.rows(); ++i)
    for (Eigen::Index j = 0; j < J.cols(); ++j)
      if ((j < at || j >= at + n) && J(i, j) != 0)
      {
        o << "derivative by another variable, column " << j;
        return o.str();
      }
  return "";
}
struct Row
{
  int index;
  double coeff;
  double lo, hi;
};
struct PosCase
{
  Pair p;
  std::vector<Row> rows;
  std::shared_ptr<CartPosConstraint> con;
  Eigen::Index at;
  std::size_t node;
};
}  // namespace

FAMILY(cartesian_position, 2500, 60000)
{
  mon::Rng& r = c.rng;
  // one or two constraints on different robots, used in turns
  std::vector<PosCase> cs;
  const Pair first = randPair(r);
  const int dof = static_cast<int>(first.robot->numJoints());
  auto vars = ifo::randVars(c, r.range(1, 3), dof, false);
  const int count = r.range(1, 2);
  for (int k = 0; k < count; ++k)
  {
    PosCase pc;
    pc.p = first;
    if (k > 0)
      do
        pc.p = randPair(r);
      while (pc.p.robot->numJoints() != dof);
    pc.node = static_cast<std::size_t>(r.range(0, static_cast<int>(vars.joints.size()) - 1));
    pc.at = vars.joint_index[pc.node];
    const bool split = r.chance(0.5);
    if (r.chance(0.2))
    {
      pc.con = std::make_shared<CartPosConstraint>(vars.joints[pc.node], pc.p.robot, pc.p.source, pc.p.target, pc.p.source_offset, pc.p.target_offset,
                                                   "pos", split ? RangeBoundHandling::kSplitToTwoInequalities : RangeBoundHandling::kKeepAsIs);
      for (int i = 0; i < 6; ++i)
        pc.rows.push_back({ i, 1, 0, 0 });
    }
    else
    {
      VectorXd co(6);
      std::vector<Bounds> b;
      bool any = false;
      for (int i = 0; i < 6; ++i)
      {
        co(i) = r.chance(0.3) ? 0 : r.unif(0.1, 5) * (r.chance(0.1) ? -1 : 1);
        any = any || co(i) != 0;
        b.push_back(ifo::randBounds(r));
      }
      if (!any)
        co(r.range(0, 5)) = 1;
      for (int i = 0; i < 6; ++i)
        if (co(i) != 0)
        {
          const double lo = b[static_cast<std::size_t>(i)].getLower(), hi = b[static_cast<std::size_t>(i)].getUpper();
          if (split && ifo::refType(lo, hi) == BoundsType::kRangeBound)
          {
            pc.rows.push_back({ i, co(i), lo, INFINITY });
            pc.rows.push_back({ i, co(i), -INFINITY, hi });
            c.event("range_split");
          }
          else
            pc.rows.push_back({ i, co(i), lo, hi });
        }
      pc.con = std::make_shared<CartPosConstraint>(vars.joints[pc.node], co, b, pc.p.robot, pc.p.source, pc.p.target, pc.p.source_offset,
                                                   pc.p.target_offset, "pos", split ? RangeBoundHandling::kSplitToTwoInequalities : RangeBoundHandling::kKeepAsIs);
    }
    pc.con->linkWithVariables(vars.nv);
    cs.push_back(pc);
  }
  for (int step = 0; step < 4; ++step)
  {
    VectorXd x = ifo::randVec(r, vars.x.size());
    vars.nv->setVariables(x);
    auto& pc = cs[static_cast<std::size_t>(r.range(0, count - 1))];
    const VectorXd q = x.segment(pc.at, dof);
    if (r.chance(0.3))
    {
      pc.p.target_offset = cw::randPose(r, 1);
      pc.con->setTargetPose(pc.p.target_offset);
      EXPECT(pc.con->getTargetPose().isApprox(pc.p.target_offset), "target-pose", "another target pose");
    }
    const auto n = static_cast<Eigen::Index>(pc.rows.size());
    EXPECT(pc.con->getRows() == n && pc.con->update() == n, "rows", pc.con->getRows() << " rows for " << n);
    const auto b = pc.con->getBounds();
    const VectorXd co = pc.con->getCoefficients();
    EXPECT(static_cast<Eigen::Index>(b.size()) == n && co.size() == n, "rows", b.size() << " bounds, " << co.size() << " coefficients for " << n);
    const Isometry3d S = poseOf(*pc.p.robot, q, pc.p.source) * pc.p.source_offset, T = poseOf(*pc.p.robot, q, pc.p.target) * pc.p.target_offset;
    EXPECT(pc.con->getCurrentPose().isApprox(S, 1e-9), "current-pose", "another current pose");
    // the error of the moving frame, seen from the one which stands still (the source's, seen from the target, if both move)
    const bool from_source = pc.p.target_active && !pc.p.source_active;
    const VectorXd e = from_source ? poseError(S, T) : poseError(T, S);
    if (e.tail(3).norm() > 2.9)
    {
      c.event("near_half_turn");
      continue;
    }
    const VectorXd v = pc.con->getValues();
    EXPECT(v.size() == n, "rows", v.size() << " values for " << n);
    for (Eigen::Index i = 0; i < n; ++i)
    {
      const auto& row = pc.rows[static_cast<std::size_t>(i)];
      EXPECT(std::fabs(v(i) - e(row.index)) < 1e-7, "position-value", "row " << i << " (component " << row.index << ") is " << v(i) << ", the error is " << e(row.index));
      EXPECT(co(i) == row.coeff, "coefficient", "row " << i << " has " << co(i) << " instead of " << row.coeff);
      const auto& bb = b[static_cast<std::size_t>(i)];
      EXPECT(bb.getLower() == row.lo && bb.getUpper() == row.hi, "bounds",
             "row " << i << " within " << bb.getLower() << ".." << bb.getUpper() << " instead of " << row.lo << ".." << row.hi);
    }
    c.event("position_value", static_cast<std::uint64_t>(n));
    c.event(pc.p.source_active ? (pc.p.target_active ? "both_active" : "source_active") : "target_active");
    EXPECT((pc.con->calcValues(q) - v).norm() < 1e-12, "position-value", "calcValues differs from getValues");
    const MatrixXd J = dense(pc.con->getJacobian());
    EXPECT(J.cols() == x.size() && J.rows() == n, "jacobian-size", J.rows() << " by " << J.cols());
    MatrixXd own;
    const std::string other = columns(J, pc.at, dof, own);
    EXPECT(other.empty(), "jacobian-columns", other);
    EXPECT((pc.con->getValues() - v).norm() < 1e-12, "position-value", "the values changed by computing the Jacobian");
    if (e.tail(3).norm() > 2.5)
      continue;
    int compared = 0;
    const std::string bad = compare(own, differences([&](const VectorXd& y) { return pc.con->calcValues(y); }, q, 1e-5), 1e-3, compared);
    EXPECT(bad.empty(), "position-derivative", bad);
    c.event("derivatives", static_cast<std::uint64_t>(compared));
  }
  c.note(dof);
  c.note(vars.x);
}

FAMILY(cartesian_line, 3000, 60000)
{
  mon::Rng& r = c.rng;
  const Pair p = randPair(r);
  const int dof = static_cast<int>(p.robot->numJoints());
  auto vars = ifo::randVars(c, r.range(1, 2), dof, false);
  const std::size_t node = static_cast<std::size_t>(r.range(0, static_cast<int>(vars.joints.size()) - 1));
  const Eigen::Index at = vars.joint_index[node];
  Isometry3d A = p.target_offset, B = cw::randPose(r, 1);
  if (r.chance(0.3))
    B.linear() = A.linear();
  if (r.chance(0.1))
    B.translation() = A.translation();
  const double length = (B.translation() - A.translation()).norm();
  if ((length > 0 && length < 0.2) || angle(A, B) > 2.8 || A.isApprox(B, 1e-6))
    return;
  std::vector<int> idx{ 0, 1, 2, 3, 4, 5 };
  if (r.chance(0.6))
  {
    for (std::size_t i = 5; i > 0; --i)
      if (r.chance(0.3))
        std::swap(idx[i], idx[static_cast<std::size_t>(r.range(0, static_cast<int>(i)))]);
    idx.resize(static_cast<std::size_t>(r.range(1, 6)));
    if (r.chance(0.7))
      std::sort(idx.begin(), idx.end());
    c.event("some_indices");
  }
  const auto n = static_cast<Eigen::Index>(idx.size());
  Eigen::VectorXi indices(n);
  VectorXd co(n);
  for (Eigen::Index i = 0; i < n; ++i)
  {
    indices(i) = idx[static_cast<std::size_t>(i)];
    co(i) = r.unif(0.1, 4);
  }
  CartLineInfo info(p.robot, p.source, p.target, A, B, p.source_offset, indices);
  EXPECT_THROW_STD(CartLineConstraint(info, vars.joints[node], VectorXd::Ones(n + 1)), "refuse", "another number of coefficients accepted");
  CartLineConstraint con(info, vars.joints[node], co);
  con.linkWithVariables(vars.nv);
  EXPECT(con.getRows() == n && con.getBounds().size() == static_cast<std::size_t>(n) && con.getCoefficients() == co, "rows", "rows, bounds or coefficients");
  for (const auto& b : con.getBounds())
    EXPECT(b.getLower() == 0 && b.getUpper() == 0, "bounds", "bounds other than zero");
  if (r.chance(0.5))
  {
    std::vector<Bounds> b;
    for (Eigen::Index i = 0; i < n; ++i)
      b.push_back(ifo::randBounds(r));
    con.setBounds(b);
    const auto g = con.getBounds();
    EXPECT(g.size() == b.size(), "bounds", "bounds lost");
    for (std::size_t i = 0; i < b.size(); ++i)
      EXPECT(g[i].getLower() == b[i].getLower() && g[i].getUpper() == b[i].getUpper(), "bounds", "another bound");
    c.event("line_bounds");
  }
  EXPECT(con.getLine().first.isApprox(A) && con.getLine().second.isApprox(B), "line", "another line");
  const bool world = p.target == p.robot->links.front();  // the frame of the line is that of the world
  for (int step = 0; step < 4; ++step)
  {
    VectorXd x = ifo::randVec(r, vars.x.size());
    vars.nv->setVariables(x);
    const VectorXd q = x.segment(at, dof);
    const Isometry3d S = poseOf(*p.robot, q, p.source) * p.source_offset, TF = poseOf(*p.robot, q, p.target);
    const Isometry3d T1 = TF * A, T2 = TF * B;
    const Vector3d line = T2.translation() - T1.translation();
    double t = length > 0 ? (S.translation() - T1.translation()).dot(line) / line.squaredNorm() : 0;
    const double raw = t;
    t = std::min(1.0, std::max(0.0, t));
    Isometry3d D = Isometry3d::Identity();
    D.linear() = T1.linear() * Eigen::AngleAxisd(1, Vector3d::UnitX()).toRotationMatrix();
    const Vector3d turn = logR(T1.linear().transpose() * T2.linear());
    D.linear() = T1.linear() * (turn.norm() < 1e-12 ? Eigen::Matrix3d(Eigen::Matrix3d::Identity())
                                                    : Eigen::AngleAxisd(t * turn.norm(), turn.normalized()).toRotationMatrix());
    D.translation() = T1.translation() + t * line;
    const Isometry3d got = con.getLinePoint(S, T1, T2);
    c.event(raw < 0 ? "before_line" : (raw > 1 ? "behind_line" : "on_line"));
    EXPECT((got.linear() - D.linear()).norm() < 1e-6, "line-orientation",
           "at " << raw << " of a line of " << length << " the orientation is off by " << (got.linear() - D.linear()).norm());
    // known finding line-frame: the point is that of a line whose frame were the world's
    const Vector3d as_world = A.translation() + t * (B.translation() - A.translation());
    const bool right = (got.translation() - D.translation()).norm() < 1e-7;
    const bool as_known = !world && (got.translation() - as_world).norm() < 1e-7;
    EXPECT(right || as_known, "line-point",
           "at " << raw << " of a line of " << length << " the nearest point is off by " << (got.translation() - D.translation()).norm());
    if (!right)
      D.translation() = as_world;
    const VectorXd e = poseError(D, S);
    if (e.tail(3).norm() > 2.9)
      continue;
    const VectorXd v = con.getValues();
    EXPECT(v.size() == n && (con.calcValues(q) - v).norm() < 1e-12, "line-value", v.size() << " values for " << n);
    for (Eigen::Index i = 0; i < n; ++i)
      EXPECT(std::fabs(v(i) - e(indices(i))) < 1e-6, "line-value", "row " << i << " (component " << indices(i) << ") is " << v(i) << ", the error is " << e(indices(i)));
    c.event("line_value", static_cast<std::uint64_t>(n));
    const MatrixXd J = dense(con.getJacobian());
    EXPECT(J.cols() == x.size() && J.rows() == n, "jacobian-size", J.rows() << " by " << J.cols());
    MatrixXd own;
    const std::string other = columns(J, at, dof, own);
    EXPECT(other.empty(), "jacobian-columns", other);
    if (e.tail(3).norm() < 2.4)
    {
      int compared = 0;
      const std::string bad = compare(own, differences([&](const VectorXd& y) { return con.calcValues(y); }, q, 1e-5), 2e-3, compared);
      EXPECT(bad.empty(), "line-derivative", bad);
      c.event("derivatives", static_cast<std::uint64_t>(compared));
    }
    if (!right)
      EXPECT(false, "line-frame", "the line is placed as if its frame were the world's: the nearest point is off by " << (as_world - (T1.translation() + t * line)).norm());
  }
  c.note(dof);
  c.note(vars.x);
}

FAMILY(inverse_kinematics, 1500, 30000)
{
  mon::Rng& r = c.rng;
  const int dof = r.range(1, 6);
  auto rb = cw::randRobot(r, dof, false);
  rb->logging = false;
  auto vars = ifo::randVars(c, r.range(2, 4), dof, false);
  const std::size_t a = static_cast<std::size_t>(r.range(0, static_cast<int>(vars.joints.size()) - 1));
  const std::size_t s = static_cast<std::size_t>(r.range(0, static_cast<int>(vars.joints.size()) - 1));
  std::vector<VectorXd> sols;
  Isometry3d asked = Isometry3d::Identity();
  VectorXd seed;
  int calls = 0;
  rb->ik = [&](const tesseract::kinematics::KinGroupIKInputs& in, const VectorXd& sd) {
    ++calls;
    asked = in.at(0).pose;
    seed = sd;
    return sols;
  };
  auto info = std::make_shared<InverseKinematicsInfo>(rb, rb->links.front(), rb->links.back());
  EXPECT_THROW_STD(InverseKinematicsInfo(rb, rb->links.front(), "nothing"), "refuse", "an unknown tip accepted");
  Isometry3d target = cw::randPose(r, 1);
  InverseKinematicsConstraint con(target, info, vars.joints[a], vars.joints[s]);
  con.linkWithVariables(vars.nv);
  EXPECT(con.getRows() == dof, "rows", con.getRows() << " rows");
  EXPECT(con.getCoefficients() == VectorXd::Ones(dof), "coefficient", "coefficients other than one");
  for (int step = 0; step < 4; ++step)
  {
    VectorXd x = ifo::randVec(r, vars.x.size());
    vars.nv->setVariables(x);
    if (r.chance(0.4))
    {
      target = cw::randPose(r, 1);
      con.setTargetPose(target);
    }
    sols.clear();
    for (int k = r.range(1, 4); k > 0; --k)
      sols.push_back(ifo::randVec(r, dof));
    const VectorXd q = x.segment(vars.joint_index[a], dof);
    if (r.chance(0.1))
      sols[static_cast<std::size_t>(r.range(0, static_cast<int>(sols.size()) - 1))] = q;
    const VectorXd* best = nullptr;
    for (const auto& v : sols)
      if (!best || (v - q).norm() < (*best - q).norm())
        best = &v;
    const VectorXd v = con.getValues();
    EXPECT(calls > 0 && asked.isApprox(target), "ik-target", "inverse kinematics of another pose");
    EXPECT(seed == x.segment(vars.joint_index[s], dof), "ik-seed", "another seed");
    EXPECT(v.size() == dof && (v - (*best - q)).norm() < 1e-12, "ik-value", "not the distance to the nearest of " << sols.size() << " solutions");
    const MatrixXd J = dense(con.getJacobian());
    MatrixXd ref = MatrixXd::Zero(dof, x.size());
    for (int i = 0; i < dof; ++i)
      ref(i, vars.joint_index[a] + i) = -1;
    EXPECT(J.rows() == dof && J.cols() == x.size() && (J - ref).norm() == 0, "ik-derivative", "another Jacobian");
    c.event("ik_value");
    c.event("ik_solutions", sols.size());
  }
  std::vector<Bounds> b;
  for (int i = 0; i < dof; ++i)
    b.push_back(ifo::randBounds(r));
  con.setBounds(b);
  for (int i = 0; i < dof; ++i)
    EXPECT(con.getBounds().at(static_cast<std::size_t>(i)).getLower() == b[static_cast<std::size_t>(i)].getLower() &&
               con.getBounds().at(static_cast<std::size_t>(i)).getUpper() == b[static_cast<std::size_t>(i)].getUpper(),
           "bounds", "another bound");
  // whole trajectories
  const auto arr = toTrajArray(vars.joints);
  const auto jt = toJointTrajectory(vars.joints);
  const VectorXd x = vars.nv->getValues();
  EXPECT(arr.rows() == static_cast<Eigen::Index>(vars.joints.size()) && arr.cols() == dof && jt.states.size() == vars.joints.size(), "trajectory", "another size");
  for (std::size_t i = 0; i < vars.joints.size(); ++i)
  {
    const VectorXd q = x.segment(vars.joint_index[i], dof);
    EXPECT(arr.row(static_cast<Eigen::Index>(i)).transpose() == q && jt.states[i].position == q && jt.states[i].joint_names == vars.joints[i]->name(), "trajectory",
           "state " << i << " differs");
  }
  c.event("trajectory");
  EXPECT(toTrajArray({}).size() == 0 && toJointTrajectory({}).states.empty(), "trajectory", "states from nowhere");
  c.note(dof);
  c.note(x);
}

FAMILY(refusals, 300, 3000)
{
  mon::Rng& r = c.rng;
  const Pair p = randPair(r);
  const auto dof = static_cast<int>(p.robot->numJoints());
  auto vars = ifo::randVars(c, 1, dof, false);
  auto v = vars.joints[0];
  const VectorXd ones = VectorXd::Ones(6);
  const std::vector<Bounds> zero(6, BoundZero);
  const Isometry3d I = Isometry3d::Identity();
  EXPECT_THROW_STD(CartPosConstraint(v, ones, zero, p.robot, "nothing", p.target), "refuse", "an unknown source accepted");
  EXPECT_THROW_STD(CartPosConstraint(v, ones, zero, p.robot, p.source, "nothing"), "refuse", "an unknown target accepted");
  EXPECT_THROW_STD(CartPosConstraint(v, ones, zero, p.robot, p.robot->links.front(), p.robot->links.front()), "refuse", "two frames which do not move accepted");
  const int k = r.chance(0.5) ? r.range(0, 5) : r.range(7, 12);
  EXPECT_THROW_STD(CartPosConstraint(v, VectorXd::Ones(k), zero, p.robot, p.source, p.target), "refuse", k << " coefficients accepted");
  EXPECT_THROW_STD(CartPosConstraint(v, ones, std::vector<Bounds>(static_cast<std::size_t>(k), BoundZero), p.robot, p.source, p.target), "refuse", k << " bounds accepted");
  const Isometry3d A = cw::randPose(r, 1), B = cw::randPose(r, 1);
  EXPECT_THROW_STD(CartLineInfo(p.robot, "nothing", p.target, A, B), "refuse", "an unknown source accepted");
  EXPECT_THROW_STD(CartLineInfo(p.robot, p.source, "nothing", A, B), "refuse", "an unknown target accepted");
  EXPECT_THROW_STD(CartLineInfo(p.robot, p.source, p.target, A, A), "refuse", "a line without length accepted");
  EXPECT_THROW_STD(CartLineInfo(p.robot, p.source, p.target, A, B, I, Eigen::VectorXi()), "refuse", "no index accepted");
  EXPECT_THROW_STD(CartLineInfo(p.robot, p.source, p.target, A, B, I, Eigen::VectorXi::Zero(r.range(7, 9))), "refuse", "too many indices accepted");
  c.event("refused", 10);
  c.note(dof);
  c.note(vars.x);
}
MON_MAIN
