// C25: the problem a description is turned into.  Descriptions are made at random, as JSON or as the structures behind it,
// together with what they say; the problem constructed from them is compared with that: variables, bounds, start, fixed
// steps and joints, every cost and constraint, by name and by value at random trajectories.
#include "problem_gen.h"
FAMILY(json, 4000, 100000)
{
  mon::Rng& r = c.rng;
  trajopt::TermInfo::RegisterMaker("sum_of_joints", &SumTerm::create);
  const Described d = describe(r, true);
  const Json::Value v = write(r, d.s);
  const std::string from = " from " + showDescription(d.s, v);
  c.note(static_cast<double>(mon::fnv(from) % 1000003));
  const auto p = build(c, d.s, v, r.chance(0.5));
  judge(c, d, *p, from);
}
FAMILY(direct, 3000, 80000)
{
  mon::Rng& r = c.rng;
  const Described d = describe(r, false);
  const std::string from = " from " + showDescription(d.s, Json::Value());
  c.note(d.s.start(0));
  const bool twice = r.chance(0.3);
  const auto p = build(c, d.s, Json::Value(), twice);
  if (twice)
    c.event("constructed_twice");
  judge(c, d, *p, from);
}
FAMILY(parameters, 100, 3000)
{
  mon::Rng& r = c.rng;
  Described d = describe(r, true);
  d.s.costs.clear();
  d.s.cnts.clear();
  d.s.use_time = d.s.basic_time = false;
  Json::Value v = write(r, d.s);
  auto& o = v["opt_info"] = Json::Value(Json::objectValue);
  sco::BasicTrustRegionSQPParameters e;
  auto num = [&](const char* key, double& x) {
    if (r.chance(0.6))
      o[key] = x = r.unif(0.01, 30);
  };
  num("improve_ratio_threshold", e.improve_ratio_threshold);
  num("min_trust_box_size", e.min_trust_box_size);
  num("min_approx_improve", e.min_approx_improve);
  num("min_approx_improve_frac", e.min_approx_improve_frac);
  if (r.chance(0.6))
    o["max_iter"] = e.max_iter = r.range(1, 300);
  num("trust_shrink_ratio", e.trust_shrink_ratio);
  num("trust_expand_ratio", e.trust_expand_ratio);
  num("cnt_tolerance", e.cnt_tolerance);
  num("max_merit_coeff_increases", e.max_merit_coeff_increases);
  num("merit_coeff_increase_ratio", e.merit_coeff_increase_ratio);
  num("max_time", e.max_time);
  num("initial_merit_error_coeff", e.initial_merit_error_coeff);
  if (r.chance(0.6))
    o["inflate_constraints_individually"] = e.inflate_constraints_individually = r.chance(0.5);
  num("trust_box_size", e.trust_box_size);
  trajopt::ProblemConstructionInfo p(d.s.env);
  try
  {
    Quiet q;
    p.fromJson(v);
  }
  catch (const std::exception& x)
  {
    EXPECT(false, "refused", x.what());
  }
  const auto& g = p.opt_info;
  EXPECT(g.improve_ratio_threshold == e.improve_ratio_threshold && g.min_trust_box_size == e.min_trust_box_size && g.min_approx_improve == e.min_approx_improve &&
             g.min_approx_improve_frac == e.min_approx_improve_frac && g.max_iter == e.max_iter && g.trust_shrink_ratio == e.trust_shrink_ratio &&
             g.trust_expand_ratio == e.trust_expand_ratio && g.cnt_tolerance == e.cnt_tolerance && g.max_merit_coeff_increases == e.max_merit_coeff_increases &&
             g.merit_coeff_increase_ratio == e.merit_coeff_increase_ratio && g.max_time == e.max_time && g.initial_merit_error_coeff == e.initial_merit_error_coeff &&
             g.inflate_constraints_individually == e.inflate_constraints_individually && g.trust_box_size == e.trust_box_size,
         "parameters", "the optimizer's parameters are not those given: " << showDescription(d.s, v));
  c.event("parameters", static_cast<long>(o.size()));
  c.note(static_cast<double>(mon::fnv(showDescription(d.s, v)) % 1000003));
  EXPECT(p.basic_info.n_steps == d.s.n && p.basic_info.manip == d.s.env->manip && p.kin == d.s.env->getJointGroup(d.s.env->manip), "basic", "basic info is not the one given");
}
namespace
{
Json::Value& add(Json::Value& v, mon::Rng& r, const std::string& type, bool use_time = false)
{
  Json::Value e(Json::objectValue);
  e["type"] = type;
  e["params"] = Json::Value(Json::objectValue);
  if (use_time)
    e["use_time"] = true;
  return v[r.chance(0.5) ? "costs" : "constraints"].append(e);
}
Json::Value& joints(Json::Value& v, mon::Rng& r, const Spec& s, int order)
{
  static const char* types[] = { "joint_pos", "joint_vel", "joint_acc", "joint_jerk" };
  auto& p = add(v, r, types[order])["params"];
  p["targets"] = arr(std::vector<double>(static_cast<std::size_t>(s.dof), 0.5));
  return p;
}
Json::Value& collisions(Json::Value& v, mon::Rng& r, int type)
{
  auto& p = add(v, r, "collision")["params"];
  p["coeffs"] = 2.0;
  p["dist_pen"] = 0.1;
  p["evaluator_type"] = type;
  return p;
}
Json::Value& pose(Json::Value& v, mon::Rng& r, const std::string& a, const std::string& b, bool dynamic)
{
  auto& p = add(v, r, dynamic ? "dynamic_cart_pose" : "cart_pose")["params"];
  p["source_frame"] = a;
  p["target_frame"] = b;
  return p;
}
Json::Value& velocity(Json::Value& v, mon::Rng& r, const Spec& s)
{
  auto& p = add(v, r, "cart_vel")["params"];
  p["first_step"] = 0;
  p["last_step"] = s.n - 1;
  p["max_displacement"] = 0.1;
  p["link"] = s.w->robot->links[1];
  return p;
}
struct Fault
{
  const char* name;
  int min_n;
  std::function<void(Json::Value&, mon::Rng&, const Spec&)> apply;
};
const std::vector<Fault>& faults()
{
  using V = Json::Value;
  using R = mon::Rng;
  using S = Spec;
  auto link = [](const S& s) { return s.w->robot->links[1]; };
  auto base = [](const S& s) { return s.w->robot->links[0]; };
  auto vec = [](int n) { return arr(std::vector<double>(static_cast<std::size_t>(n), 0.25)); };
  static const std::vector<Fault> all{
    { "no basic_info", 1, [](V& v, R&, const S&) { v.removeMember("basic_info"); } },
    { "no init_info", 1, [](V& v, R&, const S&) { v.removeMember("init_info"); } },
    { "no n_steps", 1, [](V& v, R&, const S&) { v["basic_info"].removeMember("n_steps"); } },
    { "negative n_steps", 1, [](V& v, R& r, const S&) { v["basic_info"]["n_steps"] = -r.range(1, 9); } },
    { "n_steps a word", 1, [](V& v, R&, const S&) { v["basic_info"]["n_steps"] = "ten"; } },
    { "n_steps a list", 1, [](V& v, R&, const S&) { v["basic_info"]["n_steps"] = arr(std::vector<int>{ 3 }); } },
    { "no manip", 1, [](V& v, R&, const S&) { v["basic_info"].removeMember("manip"); } },
    { "unknown manip", 1, [](V& v, R&, const S& s) { v["basic_info"]["manip"] = s.env->manip + "s"; } },
    { "unknown solver", 1, [](V& v, R&, const S&) { v["basic_info"]["convex_solver"] = "osqp2"; } },
    { "absent solver", 1, [](V& v, R&, const S&) { v["basic_info"]["convex_solver"] = "GUROBI"; } },
    { "dt limit zero", 1, [](V& v, R& r, const S&) { v["basic_info"]["dt_lower_lim"] = r.chance(0.5) ? 0.0 : -1.0; } },
    { "dt limits reversed", 1,
      [](V& v, R&, const S&) {
        v["basic_info"]["dt_lower_lim"] = 2.0;
        v["basic_info"]["dt_upper_lim"] = 1.9;
      } },
    { "fixed step outside", 1, [](V& v, R& r, const S& s) { v["basic_info"]["fixed_timesteps"] = arr(std::vector<int>{ r.pick(std::vector<int>{ s.n, s.n + 1, s.n + 7, -1 }) }); } },
    { "fixed joint outside", 1, [](V& v, R& r, const S& s) { v["basic_info"]["fixed_dofs"] = arr(std::vector<int>{ r.pick(std::vector<int>{ s.dof, s.dof + 1, -1 }) }); } },
    { "use_time without time terms", 1,
      [](V& v, R&, const S&) {
        v.removeMember("costs");
        v.removeMember("constraints");
        v["basic_info"]["use_time"] = true;
      } },
    { "init type unknown", 1, [](V& v, R&, const S&) { v["init_info"]["type"] = "somehow"; } },
    { "init type missing", 1, [](V& v, R&, const S&) { v["init_info"].removeMember("type"); } },
    { "trajectory missing", 1,
      [](V& v, R&, const S&) {
        v["init_info"]["type"] = "given_traj";
        v["init_info"].removeMember("data");
      } },
    { "trajectory of wrong length", 1,
      [=](V& v, R& r, const S& s) {
        v["init_info"]["type"] = "given_traj";
        v["init_info"]["data"] = V(Json::arrayValue);
        for (int k = s.n + (r.chance(0.5) ? 1 : -1); k > 0; --k)
          v["init_info"]["data"].append(vec(s.dof));
      } },
    { "trajectory of wrong width", 1,
      [=](V& v, R& r, const S& s) {
        v["init_info"]["type"] = "given_traj";
        v["init_info"]["data"] = V(Json::arrayValue);
        const int bad = r.range(0, s.n - 1);
        for (int k = 0; k < s.n; ++k)
          v["init_info"]["data"].append(vec(s.dof + (k == bad ? (r.chance(0.5) ? 1 : -1) : 0)));
      } },
    { "endpoint missing", 1,
      [](V& v, R&, const S&) {
        v["init_info"]["type"] = "joint_interpolated";
        v["init_info"].removeMember("endpoint");
      } },
    { "endpoint of wrong size", 1,
      [=](V& v, R& r, const S& s) {
        v["init_info"]["type"] = "joint_interpolated";
        v["init_info"]["endpoint"] = vec(s.dof + (r.chance(0.5) ? 1 : -1));
      } },
    { "term without type", 1, [](V& v, R& r, const S& s) { add(v, r, "joint_pos").removeMember("type"); } },
    { "unknown term", 1, [](V& v, R& r, const S& s) { add(v, r, "joint_snap"); } },
    { "term without parameters", 1,
      [](V& v, R& r, const S& s) {
        add(v, r, r.pick(std::vector<std::string>{ "joint_pos", "joint_vel", "joint_acc", "joint_jerk", "cart_pose", "dynamic_cart_pose", "cart_vel", "collision", "total_time" }))
            .removeMember("params");
      } },
    { "unknown field of a joint term", 5, [](V& v, R& r, const S& s) { joints(v, r, s, r.range(0, 3))["target"] = 1; } },
    { "unknown field of a collision term", 2, [](V& v, R& r, const S& s) { collisions(v, r, r.range(1, 4))["coeff"] = 1; } },
    { "unknown field of a pose term", 1, [=](V& v, R& r, const S& s) { pose(v, r, link(s), r.chance(0.5) ? link(s) : base(s), false)["xyz"] = vec(3); } },
    { "unknown field of a velocity term", 2, [](V& v, R& r, const S& s) { velocity(v, r, s)["distance_limit"] = 1; } },
    { "unknown field of a time term", 2,
      [](V& v, R& r, const S& s) {
        auto& p = add(v, r, "total_time", true)["params"];
        p["max"] = 1;
      } },
    { "no targets", 5, [](V& v, R& r, const S& s) { joints(v, r, s, r.range(0, 3)).removeMember("targets"); } },
    { "wrong number of targets", 5, [=](V& v, R& r, const S& s) { joints(v, r, s, r.range(0, 3))["targets"] = vec(r.chance(0.5) ? s.dof + 1 : 0); } },
    { "targets a word", 5, [=](V& v, R& r, const S& s) { joints(v, r, s, r.range(0, 3))["targets"] = "zero"; } },
    { "a target a word", 5,
      [=](V& v, R& r, const S& s) {
        auto& p = joints(v, r, s, r.range(0, 3));
        p["targets"][0] = "zero";
      } },
    { "wrong number of coefficients", 5,
      [=](V& v, R& r, const S& s) { joints(v, r, s, r.range(0, 3))[r.pick(std::vector<std::string>{ "coeffs", "upper_tols", "lower_tols" })] = vec(s.dof + 1); } },
    { "negative first step", 5,
      [](V& v, R& r, const S& s) {
        auto& p = joints(v, r, s, r.range(0, 3));
        p["first_step"] = -r.range(1, 9);
      } },
    { "too few steps", 1,
      [](V& v, R& r, const S& s) {
        if (s.n <= 3)
          joints(v, r, s, r.range(s.n, 3));
        else
          add(v, r, "joint_snap");
      } },
    { "time term of a single step", 1,
      [](V& v, R& r, const S& s) {
        if (s.n == 1)
        {
          v["costs"] = V(Json::arrayValue);
          v["costs"].append(V(Json::objectValue));
          v["costs"][0]["type"] = "joint_vel";
          v["costs"][0]["use_time"] = true;
          v["costs"][0]["params"]["targets"] = arr(std::vector<double>(static_cast<std::size_t>(s.dof), 0.5));
        }
        else
          add(v, r, "joint_snap");
      } },
    { "time where there is none", 5,
      [=](V& v, R& r, const S& s) {
        V t(Json::objectValue);
        switch (r.range(0, 5))
        {
          case 0: joints(t, r, s, r.range(2, 3)); break;
          case 1: pose(t, r, link(s), base(s), false); break;
          case 2: pose(t, r, link(s), link(s), true); break;
          case 3: velocity(t, r, s); break;
          default: collisions(t, r, r.range(1, 4));
        }
        const auto list = t.getMemberNames()[0];
        t[list][0]["use_time"] = true;
        v[list].append(t[list][0]);
      } },
    { "total time without time", 2,
      [](V& v, R& r, const S& s) {
        v.removeMember("costs");
        v.removeMember("constraints");
        v["basic_info"].removeMember("use_time");
        add(v, r, "total_time");
      } },
    { "pose of an unknown link", 1,
      [=](V& v, R& r, const S& s) {
        const bool d = r.chance(0.5), f = r.chance(0.5);
        pose(v, r, f ? "nowhere" : link(s), f ? link(s) : "nowhere", d);
      } },
    { "pose between links of the same kind", 1,
      [=](V& v, R& r, const S& s) {
        const bool a = r.chance(0.5);
        pose(v, r, a ? link(s) : base(s), a ? link(s) : base(s), false);
      } },
    { "dynamic pose of a static link", 1,
      [=](V& v, R& r, const S& s) {
        const bool a = r.chance(0.5);
        pose(v, r, a ? base(s) : link(s), a && r.chance(0.5) ? link(s) : base(s), true);
      } },
    { "pose at no step", 1,
      [=](V& v, R& r, const S& s) {
        const bool d = r.chance(0.5);
        pose(v, r, link(s), d ? link(s) : base(s), d)["timestep"] = r.pick(std::vector<int>{ s.n, s.n + 3, -1 });
      } },
    { "pose without a frame", 1, [=](V& v, R& r, const S& s) { pose(v, r, link(s), base(s), r.chance(0.5)).removeMember(r.chance(0.5) ? "source_frame" : "target_frame"); } },
    { "pose vectors of wrong size", 1,
      [=](V& v, R& r, const S& s) {
        const bool d = r.chance(0.5);
        auto& p = pose(v, r, link(s), d ? link(s) : base(s), d);
        const auto key = r.pick(std::vector<std::string>{ "pos_coeffs", "rot_coeffs", "source_frame_offset_xyz", "target_frame_offset_xyz", "source_frame_offset_wxyz", "target_frame_offset_wxyz" });
        const int right = key.substr(key.size() - 4) == "wxyz" ? 4 : 3;
        p[key] = vec(right + (r.chance(0.5) ? 1 : -1));
      } },
    { "velocity of no link", 2, [=](V& v, R& r, const S& s) { velocity(v, r, s)["link"] = r.chance(0.5) ? base(s) : "nowhere"; } },
    { "velocity of no steps", 3,
      [=](V& v, R& r, const S& s) {
        auto& p = velocity(v, r, s);
        const int k = r.range(0, 3);
        p["first_step"] = k == 0 ? -1 : (k == 1 ? s.n - 1 : (k == 2 ? s.n : 0));
        p["last_step"] = k < 3 ? s.n - 1 : (r.chance(0.5) ? s.n : 0);
      } },
    { "velocity without a field", 2,
      [=](V& v, R& r, const S& s) { velocity(v, r, s).removeMember(r.pick(std::vector<std::string>{ "first_step", "last_step", "max_displacement", "link" })); } },
    { "collision without a field", 2, [=](V& v, R& r, const S& s) { collisions(v, r, r.range(1, 4)).removeMember(r.chance(0.5) ? "coeffs" : "dist_pen"); } },
    { "collision at no steps", 2,
      [=](V& v, R& r, const S& s) {
        auto& p = collisions(v, r, r.range(1, 4));
        const int k = r.range(0, 3);
        if (k < 3)
          p["first_step"] = k == 0 ? -1 : (k == 1 ? s.n : s.n - 1);
        if (k >= 2)
          p["last_step"] = k == 2 ? s.n - 2 : s.n;
      } },
    { "collision evaluator unknown", 2, [=](V& v, R& r, const S& s) { collisions(v, r, r.pick(std::vector<int>{ 0, -1, 5, 9 })); } },
    { "collision test unknown", 2, [=](V& v, R& r, const S& s) { collisions(v, r, r.range(1, 4))["contact_test_type"] = r.pick(std::vector<int>{ -1, 3, 4 }); } },
    { "collision segment negative", 2, [=](V& v, R& r, const S& s) { collisions(v, r, r.range(1, 4))["longest_valid_segment_length"] = -0.1; } },
    { "collision buffer negative", 2, [=](V& v, R& r, const S& s) { collisions(v, r, r.range(1, 4))["safety_margin_buffer"] = -0.1; } },
    { "collision fixed step outside", 2,
      [=](V& v, R& r, const S& s) {
        auto& p = collisions(v, r, r.range(1, 4));
        p["last_step"] = s.n - 2;
        p["fixed_steps"] = arr(std::vector<int>{ r.chance(0.5) ? s.n - 1 : -1 });
      } },
    { "collision fixed steps adjacent", 2,
      [=](V& v, R& r, const S& s) {
        auto& p = collisions(v, r, r.range(2, 4));
        const int k = r.range(0, s.n - 2);
        p["fixed_steps"] = arr(std::vector<int>{ k, k + 1 });
      } },
    { "collision pairs incomplete", 2,
      [=](V& v, R& r, const S& s) {
        auto& p = collisions(v, r, r.range(1, 4));
        V e(Json::objectValue);
        e["link"] = link(s);
        e["pair"].append(base(s));
        e["coeffs"] = 1.0;
        e["dist_pen"] = 0.2;
        e.removeMember(r.pick(std::vector<std::string>{ "link", "pair", "coeffs", "dist_pen" }));
        if (r.chance(0.2))
        {
          e["link"] = link(s);
          e["pair"] = V(Json::arrayValue);
        }
        p["pairs"].append(e);
      } },
  };
  return all;
}
}  // namespace
FAMILY(faulty, 1500, 40000)
{
  mon::Rng& r = c.rng;
  trajopt::TermInfo::RegisterMaker("sum_of_joints", &SumTerm::create);
  const auto& all = faults();
  const Fault& f = all[static_cast<std::size_t>(c.idx) % all.size()];
  Described d = describe(r, true, f.min_n);
  if (f.min_n == 1 && r.chance(0.4))
  {
    do
      d = describe(r, true);
    while (d.s.n > 2);
  }
  Json::Value v = write(r, d.s);
  f.apply(v, r, d.s);
  c.event("faults");
  c.note(static_cast<double>(mon::fnv(showDescription(d.s, v)) % 1000003));
  bool thrown = false;
  {
    Quiet quiet;
    try
    {
      trajopt::ConstructProblem(v, d.s.env);
    }
    catch (const std::exception&)
    {
      thrown = true;
    }
  }
  EXPECT(thrown, std::string("accepted:") + f.name, "a problem is made although: " << f.name << "; from " << showDescription(d.s, v));
}
FAMILY(faulty_direct, 700, 20000)
{
  mon::Rng& r = c.rng;
  Described d = describe(r, false, 2);
  Spec& s = d.s;
  trajopt::ProblemConstructionInfo p(s.env);
  const int kind = static_cast<int>(c.idx % 9);
  if (kind == 1 || kind == 2 || kind == 7)
    s.use_time = s.basic_time = false;
  if (kind == 1 || kind == 2 || kind == 7)
  {
    s.costs.clear();
    s.cnts.clear();
  }
  fillInfo(r, s, p);
  const bool cost = r.chance(0.5);
  auto put = [&](const std::shared_ptr<TermInfo>& t, TermType extra = TermType::TT_INVALID) {
    t->name = "extra";
    t->term_type = (cost ? TermType::TT_COST : TermType::TT_CNT) | extra;
    auto& l = cost ? p.cost_infos : p.cnt_infos;
    l.insert(l.begin() + r.range(0, static_cast<int>(l.size())), t);
  };
  std::string what;
  const auto link = s.w->robot->links[1];
  const int bad = r.pick(std::vector<int>{ s.n, s.n + 5, -1 });
  switch (kind)
  {
    case 0:
    {
      what = "start of wrong size";
      p.init_info.type = r.chance(0.5) ? trajopt::InitInfo::JOINT_INTERPOLATED : trajopt::InitInfo::GIVEN_TRAJ;
      const int k = r.range(0, 3);
      if (p.init_info.type == trajopt::InitInfo::GIVEN_TRAJ)
        p.init_info.data = TrajArray::Zero(s.n + (k == 0 ? 1 : (k == 1 ? -1 : 0)), s.dof + (k == 2 ? 1 : (k == 3 ? -1 : 0)));
      else
        p.init_info.data = k == 0 ? TrajArray(TrajArray::Zero(s.dof + 1, 1)) :
                                    (k == 1 ? TrajArray(TrajArray::Zero(1, s.dof + 1)) : (k == 2 ? TrajArray() : TrajArray(TrajArray::Zero(2, s.dof + 1))));
      break;
    }
    case 1:
    {
      what = "time term in a problem without time";
      auto t = std::make_shared<trajopt::JointVelTermInfo>();
      t->targets = DblVec(static_cast<std::size_t>(s.dof), 0.0);
      put(t, TermType::TT_USE_TIME);
      break;
    }
    case 2:
      what = "time without time terms";
      p.basic_info.use_time = true;
      break;
    case 3:
    {
      what = "cost among the constraints or the reverse";
      put(std::make_shared<SumTerm>(cost ? TermType::TT_CNT : TermType::TT_COST));
      break;
    }
    case 4:
    {
      what = "a step outside the trajectory";
      const int k = r.range(0, 3);
      if (k == 0)
      {
        auto t = std::make_shared<trajopt::CartPoseTermInfo>();
        t->source_frame = link;
        t->target_frame = s.w->robot->links[0];
        t->timestep = bad;
        put(t);
      }
      else if (k == 1)
      {
        auto t = std::make_shared<trajopt::UserDefinedTermInfo>();
        t->first_step = bad < 0 ? -1 : 0;
        t->last_step = bad < 0 ? 0 : bad;
        t->coeff = VectorXd::Ones(1);
        t->error_function = [](const VectorXd& q) -> VectorXd { return q.head(1); };
        put(t);
      }
      else if (k == 2)
      {
        auto t = std::make_shared<trajopt::AvoidSingularityTermInfo>();
        t->first_step = bad < 0 ? -1 : 0;
        t->last_step = bad < 0 ? 0 : bad;
        t->link = link;
        t->coeffs = { 1 };
        put(t);
      }
      else
      {
        auto t = std::make_shared<trajopt::CollisionTermInfo>();
        t->first_step = bad < 0 ? -1 : 0;
        t->last_step = bad < 0 ? 0 : bad;
        t->config = trajopt_common::TrajOptCollisionConfig(0.1, 1, tcol::ContactRequest(), static_cast<tcol::CollisionEvaluatorType>(r.range(1, 4)), 0.3);
        put(t);
      }
      break;
    }
    case 5:
    {
      what = "wrong number of values";
      const int order = r.range(0, 1);
      auto fill = [&](auto t) {
        t->targets = DblVec(static_cast<std::size_t>(s.dof) + 1, 0.0);
        if (r.chance(0.5))
        {
          t->targets.pop_back();
          t->lower_tols = DblVec(static_cast<std::size_t>(s.dof) + 1, 0.0);
        }
        put(t);
      };
      if (order == 0)
        fill(std::make_shared<trajopt::JointPosTermInfo>());
      else
        fill(std::make_shared<trajopt::JointVelTermInfo>());
      break;
    }
    case 6:
      what = "fixed step or joint outside";
      if (r.chance(0.5))
        p.basic_info.fixed_timesteps.push_back(bad);
      else
        p.basic_info.fixed_dofs.push_back(r.pick(std::vector<int>{ s.dof, s.dof + 2, -1 }));
      break;
    case 7:
    {
      what = "total time in a problem without time";
      put(std::make_shared<trajopt::TotalTimeTermInfo>());
      break;
    }
    default:
    {
      what = "a term which knows no time given time";
      std::shared_ptr<TermInfo> t;
      const int k = r.range(0, 3);
      if (k == 0)
        t = std::make_shared<trajopt::UserDefinedTermInfo>();
      else if (k == 1)
        t = std::make_shared<trajopt::AvoidSingularityTermInfo>();
      else if (k == 2)
        t = std::make_shared<trajopt::CartVelTermInfo>();
      else
        t = std::make_shared<trajopt::CollisionTermInfo>();
      p.basic_info.use_time = true;
      put(t, TermType::TT_USE_TIME);
    }
  }
  c.event("faults");
  c.note(what.size() + s.start(0));
  bool thrown = false;
  {
    Quiet quiet;
    try
    {
      trajopt::ConstructProblem(p);
    }
    catch (const std::exception&)
    {
      thrown = true;
    }
  }
  EXPECT(thrown, "accepted:" + what, "a problem of " << s.n << " steps, " << s.dof << " joints is made although: " << what);
}
namespace
{
struct Screen : tesseract::visualization::Visualization
{
  int cleared{ 0 }, waited{ 0 };
  std::vector<tesseract::common::JointTrajectory> trajectories;
  void plotMarker(const tesseract::visualization::Marker&, std::string) override {}
  void plotTrajectory(const tesseract::common::JointTrajectory& t, const tesseract::scene_graph::StateSolver&, std::string) override { trajectories.push_back(t); }
  void clear(std::string) override { ++cleared; }
  void waitForInput(std::string) override { ++waited; }
};
}  // namespace
FAMILY(optimised, 160, 6000)
{
  mon::Rng& r = c.rng;
  trajopt::TermInfo::RegisterMaker("sum_of_joints", &SumTerm::create);
  Described d;
  // the stand-in for the solver is slow where there are hundreds of contacts
  auto large = [&] {
    int n = 0;
    for (const auto* l : { &d.s.costs, &d.s.cnts })
      for (const auto& t : *l)
        n += t.type == "collision" ? (t.params.get("evaluator_type", 1).asInt() == 1 ? 1 : 2) : 0;
    return n > 1 || d.s.n > 4 || d.s.dof > 3 || d.s.costs.size() + d.s.cnts.size() > 3;
  };
  do
    d = describe(r, true);
  while (large());
  const Spec& s = d.s;
  const Json::Value v = write(r, s);
  const std::string from = " from " + showDescription(s, v);
  const auto p = build(c, s, v, false);
  if (p->getCosts().empty() && p->getConstraints().empty())
    throw mon::AbortCase();
  const TrajArray init = p->GetInitTraj();
  trajopt::TrajOptResult::Ptr res;
  std::string refused;
  const auto screen = r.chance(0.3) ? std::make_shared<Screen>() : nullptr;
  try
  {
    Quiet quiet;
    res = trajopt::OptimizeProblem(p, screen);
  }
  catch (const std::exception& e)
  {
    refused = e.what();
  }
  EXPECT(res != nullptr, "optimise-threw", refused << from);
  EXPECT(res->status == sco::OPT_CONVERGED || res->status == sco::OPT_SCO_ITERATION_LIMIT || res->status == sco::OPT_PENALTY_ITERATION_LIMIT || res->status == sco::OPT_FAILED, "status",
         "status " << static_cast<int>(res->status) << from);
  c.event("status_" + std::to_string(static_cast<int>(res->status)));
  const int cols = s.dof + (s.use_time ? 1 : 0);
  EXPECT(res->traj.rows() == s.n && res->traj.cols() == cols, "result-shape", "the result has " << res->traj.rows() << " rows of " << res->traj.cols() << from);
  const double tol = 1e-3;
  for (int k = 0; k < s.n; ++k)
    for (int j = 0; j < cols; ++j)
    {
      const auto at = static_cast<std::size_t>(k * cols + j);
      const double x = res->traj(k, j);
      EXPECT(x >= p->getLowerBounds()[at] - tol && x <= p->getUpperBounds()[at] + tol, "result-bounds", "step " << k << " variable " << j << " ends at " << x << from);
      if (res->status != sco::OPT_FAILED && j < s.dof && (std::count(s.fixed_steps.begin(), s.fixed_steps.end(), k) + std::count(s.fixed_dofs.begin(), s.fixed_dofs.end(), j)) > 0)
      {
        EXPECT(std::fabs(x - init(k, j)) <= tol, "result-fixed", "step " << k << " joint " << j << " is fixed at " << init(k, j) << " but ends at " << x << from);
        c.event("kept_fixed");
      }
    }
  const DblVec xx = trajopt::trajToDblVec(res->traj);
  const auto costs = p->getCosts();
  const auto cnts = p->getConstraints();
  EXPECT(res->cost_names.size() == costs.size() && res->cnt_names.size() == cnts.size() && res->cost_vals.size() == costs.size() && res->cnt_viols.size() == cnts.size(), "result-size",
         res->cost_names.size() << " costs and " << res->cnt_names.size() << " constraints in the result" << from);
  for (std::size_t i = 0; i < costs.size(); ++i)
  {
    const double y = costs[i]->value(xx);
    EXPECT(res->cost_names[i] == costs[i]->name() && std::fabs(res->cost_vals[i] - y) <= 1e-8 * (1 + std::fabs(y)), "result-cost",
           res->cost_names[i] << " is " << res->cost_vals[i] << " in the result but " << y << from);
  }
  for (std::size_t i = 0; i < cnts.size(); ++i)
  {
    const double y = cnts[i]->violation(xx);
    EXPECT(res->cnt_names[i] == cnts[i]->name() && std::fabs(res->cnt_viols[i] - y) <= 1e-8 * (1 + std::fabs(y)), "result-constraint",
           res->cnt_names[i] << " is " << res->cnt_viols[i] << " in the result but " << y << from);
    if (res->status == sco::OPT_CONVERGED)
      EXPECT(y <= 1e-4 * 1.01, "result-satisfied", "converged, but " << res->cnt_names[i] << " is violated by " << y << from);
  }
  c.event("optimised");
  c.note(xx.empty() ? 0 : xx[0]);
}
MON_MAIN
