// C27: collision coefficients and settings are kept, compared, stored and read faithfully; the errors of a set of contacts
// are ranked by their true maxima.
#include "mon.h"
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/archives/xml.hpp>
#include <trajopt_common/cereal_serialization.h>
#include <trajopt_common/collision_types.h>
#include <trajopt_common/yaml_extensions.h>
using trajopt_common::CollisionCoeffData;
using trajopt_common::GradientResults;
using trajopt_common::GradientResultsSet;
using trajopt_common::LinkMaxError;
using trajopt_common::TrajOptCollisionConfig;
namespace tc = tesseract::collision;
namespace
{
using Pair = std::pair<std::string, std::string>;
Pair ordered(const std::string& a, const std::string& b) { return a <= b ? Pair(a, b) : Pair(b, a); }
/// what the coefficients should be
struct Model
{
  double def{ 1 };
  std::map<Pair, double> pairs;
};
const std::vector<std::string>& names()
{
  static const std::vector<std::string> n{ "base_link", "link_1",      "link_2", "link_10", "Link_1", "tool0",  "a",  "aa",      "b: c",
                                           "x, y",      "[bracketed]", "#1",     "12",      "1e3",    "true",   "-",  "two words", "it's",
                                           "\"quoted\"", "a\\b",       "{map}",  "&x",      "*x",     "!tag",   "%d", "k: v # c", "q<r>&s" };
  return n;
}
const std::string& name(mon::Rng& r, int simple = 8) { return names()[static_cast<std::size_t>(r.range(0, r.chance(0.7) ? simple : static_cast<int>(names().size()) - 1))]; }
double coefficient(mon::Rng& r)
{
  switch (r.range(0, 5))
  {
    case 0:
      return 0.0;
    case 1:
      return static_cast<double>(r.range(1, 20));
    case 2:
      return r.unif(0.01, 0.1);
    case 3:
      return r.unif(100, 1e6);
    default:
      return r.unif(0.1, 20);
  }
}
bool zero(double v) { return std::fabs(v) <= 1e-6; }
std::string wrong(const CollisionCoeffData& d, const Model& m, double tol = 0)
{
  std::ostringstream o;
  auto same = [tol](double a, double b) { return std::fabs(a - b) <= tol * std::max(1.0, std::fabs(b)); };
  if (!same(d.getDefaultCollisionCoeff(), m.def))
    o << "default " << d.getDefaultCollisionCoeff() << " instead of " << m.def << "; ";
  for (const auto& p : m.pairs)
    for (int turned = 0; turned < 2; ++turned)
    {
      const double v = turned ? d.getCollisionCoeff(p.first.second, p.first.first) : d.getCollisionCoeff(p.first.first, p.first.second);
      if (!same(v, p.second))
        o << "(" << p.first.first << ", " << p.first.second << ")" << (turned ? " turned" : "") << ": " << v << " instead of " << p.second << "; ";
    }
  for (const auto& a : names())
    for (const auto& b : names())
      if (m.pairs.count(ordered(a, b)) == 0 && !same(d.getCollisionCoeff(a, b), m.def))
        o << "(" << a << ", " << b << ") was never set: " << d.getCollisionCoeff(a, b) << " instead of the default " << m.def << "; ";
  std::map<Pair, double> listed;
  for (const auto& p : d.getCollisionCoeffPairData())
    listed[ordered(p.first.first, p.first.second)] = p.second;
  if (listed.size() != m.pairs.size() || d.getCollisionCoeffPairData().size() != m.pairs.size())
    o << d.getCollisionCoeffPairData().size() << " pairs instead of " << m.pairs.size() << "; ";
  for (const auto& p : m.pairs)
    if (listed.count(p.first) == 0 || !same(listed[p.first], p.second))
      o << "pair (" << p.first.first << ", " << p.first.second << ") is not listed with " << p.second << "; ";
  std::set<Pair> zeros, expect;
  for (const auto& p : d.getPairsWithZeroCoeff())
    zeros.insert(ordered(p.first, p.second));
  for (const auto& p : m.pairs)
    if (zero(p.second))
      expect.insert(p.first);
  if (zeros != expect || d.getPairsWithZeroCoeff().size() != expect.size())
    o << d.getPairsWithZeroCoeff().size() << " pairs listed as zero instead of " << expect.size() << "; ";
  return o.str();
}
CollisionCoeffData build(mon::Rng& r, const Model& m)
{
  std::vector<std::pair<Pair, double>> v(m.pairs.begin(), m.pairs.end());
  for (std::size_t i = v.size(); i > 1; --i)
    std::swap(v[i - 1], v[static_cast<std::size_t>(r.range(0, static_cast<int>(i) - 1))]);
  CollisionCoeffData d(r.chance(0.5) ? m.def : 7.5);
  for (const auto& p : v)
  {
    if (r.chance(0.3))  // to be overwritten
      d.setCollisionCoeff(p.first.first, p.first.second, coefficient(r));
    if (r.chance(0.5))
      d.setCollisionCoeff(p.first.first, p.first.second, p.second);
    else
      d.setCollisionCoeff(p.first.second, p.first.first, p.second);
  }
  d.setDefaultCollisionCoeff(m.def);
  return d;
}
Model random(mon::Rng& r, int most = 6)
{
  Model m;
  m.def = r.chance(0.2) ? 1 : coefficient(r);
  for (int i = r.range(0, most); i > 0; --i)
    m.pairs[ordered(name(r), name(r))] = coefficient(r);
  return m;
}
TrajOptCollisionConfig config(mon::Rng& r, const Model& m)
{
  TrajOptCollisionConfig g;
  g.enabled = r.chance(0.5);
  if (r.chance(0.7))
    g.contact_manager_config.default_margin = r.unif(0, 0.5);
  g.contact_manager_config.pair_margin_override_type = static_cast<tc::CollisionMarginPairOverrideType>(r.range(0, 2));
  for (int i = r.range(0, 3); i > 0; --i)
    g.contact_manager_config.pair_margin_data.setCollisionMargin(name(r), name(r), r.unif(0, 0.5));
  g.collision_check_config.contact_request.type = static_cast<tc::ContactTestType>(r.range(0, 3));
  g.collision_check_config.contact_request.calculate_distance = r.chance(0.5);
  g.collision_check_config.contact_request.calculate_penetration = r.chance(0.5);
  g.collision_check_config.contact_request.contact_limit = r.range(0, 100);
  g.collision_check_config.type = static_cast<tc::CollisionEvaluatorType>(r.range(0, 4));
  g.collision_check_config.check_program_mode = static_cast<tc::CollisionCheckProgramType>(r.range(0, 5));
  g.collision_check_config.longest_valid_segment_length = r.unif(0.001, 0.5);
  g.collision_coeff_data = build(r, m);
  g.collision_margin_buffer = r.chance(0.2) ? 0 : r.unif(0, 0.2);
  g.max_num_cnt = r.chance(0.2) ? r.range(1, 3) : r.range(1, 1000);
  return g;
}
bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol * std::max(1.0, std::fabs(b)); }
std::string differs(const TrajOptCollisionConfig& a, const TrajOptCollisionConfig& b, const Model& m, double tol)
{
  std::ostringstream o;
  if (a.enabled != b.enabled)
    o << "enabled; ";
  if (a.contact_manager_config.default_margin.has_value() != b.contact_manager_config.default_margin.has_value() ||
      (a.contact_manager_config.default_margin.has_value() &&
       !near(*a.contact_manager_config.default_margin, *b.contact_manager_config.default_margin, tol)))
    o << "default margin; ";
  if (a.contact_manager_config.pair_margin_override_type != b.contact_manager_config.pair_margin_override_type)
    o << "override type; ";
  const auto& pa = a.contact_manager_config.pair_margin_data.getCollisionMargins();
  const auto& pb = b.contact_manager_config.pair_margin_data.getCollisionMargins();
  bool pairs = pa.size() == pb.size();
  for (const auto& p : pb)
    pairs = pairs && pa.count(p.first) != 0 && near(pa.at(p.first), p.second, tol);
  if (!pairs)
    o << "pair margins; ";
  if (!(a.collision_check_config.contact_request == b.collision_check_config.contact_request) || a.collision_check_config.type != b.collision_check_config.type ||
      a.collision_check_config.check_program_mode != b.collision_check_config.check_program_mode ||
      !near(a.collision_check_config.longest_valid_segment_length, b.collision_check_config.longest_valid_segment_length, tol))
    o << "check settings; ";
  if (!near(a.collision_margin_buffer, b.collision_margin_buffer, tol))
    o << "buffer " << a.collision_margin_buffer << " instead of " << b.collision_margin_buffer << "; ";
  if (a.max_num_cnt != b.max_num_cnt)
    o << "max_num_cnt " << a.max_num_cnt << " instead of " << b.max_num_cnt << "; ";
  o << wrong(a.collision_coeff_data, m, tol);
  return o.str();
}
std::string number(double v)
{
  std::ostringstream o;
  o.precision(17);
  o << v;
  return o.str();
}
/// a name as a double-quoted YAML text
std::string quoted(const std::string& s)
{
  std::string o = "\"";
  for (char ch : s)
  {
    if (ch == '"' || ch == '\\')
      o += '\\';
    o += ch;
  }
  return o + "\"";
}
}  // namespace

FAMILY(coefficients, 4000, 100000)
{
  mon::Rng& r = c.rng;
  Model m;
  CollisionCoeffData d;
  if (r.chance(0.5))
  {
    m.def = coefficient(r);
    d = CollisionCoeffData(m.def);
  }
  const int ops = r.range(1, 12);
  std::vector<std::pair<CollisionCoeffData, Model>> kept;
  for (int i = 0; i < ops; ++i)
    switch (r.range(0, 5))
    {
      case 0:
        d.setDefaultCollisionCoeff(m.def = coefficient(r));
        break;
      case 1:
        kept.emplace_back(d, m);
        break;
      case 2:
      {
        // a pair there is, turned or not
        if (m.pairs.empty())
          break;
        auto it = m.pairs.begin();
        std::advance(it, r.range(0, static_cast<int>(m.pairs.size()) - 1));
        it->second = coefficient(r);
        d.setCollisionCoeff(it->first.second, it->first.first, it->second);
        break;
      }
      default:
      {
        const std::string a = name(r), b = name(r);
        const double v = coefficient(r);
        m.pairs[ordered(a, b)] = v;
        d.setCollisionCoeff(a, b, v);
      }
    }
  const std::string bad = wrong(d, m);
  EXPECT(bad.empty(), "coefficients", bad);
  for (const auto& k : kept)
  {
    const std::string kb = wrong(k.first, k.second);
    EXPECT(kb.empty(), "copy", "an earlier copy: " << kb);
  }
  c.event("coefficients", static_cast<long>(m.pairs.size()) + 1);
  // equality does not depend on how it came about
  const CollisionCoeffData e = build(r, m);
  EXPECT(d == e && e == d && !(d != e) && !(e != d), "equal", "two tables with the same coefficients differ");
  c.event("equal");
  Model n = m;
  switch (m.pairs.empty() ? r.range(0, 1) : r.range(0, 3))
  {
    case 0:
      n.def += r.chance(0.5) ? 1e-3 : -2;
      break;
    case 1:
    {
      const Pair p = ordered(name(r), name(r));
      if (n.pairs.count(p) != 0)
        throw mon::AbortCase();
      n.pairs[p] = r.chance(0.3) ? n.def : coefficient(r);  // even with the value it has anyway: it is listed
      break;
    }
    case 2:
      n.pairs.begin()->second += 1e-3;
      break;
    default:
    {
      // another pair takes its place
      const double v = n.pairs.begin()->second;
      n.pairs.erase(n.pairs.begin());
      const Pair p = ordered(name(r), name(r));
      if (m.pairs.count(p) != 0)
        throw mon::AbortCase();
      n.pairs[p] = v;
    }
  }
  const CollisionCoeffData o = build(r, n);
  EXPECT(d != o && o != d && !(d == o) && !(o == d), "different", "two tables with different coefficients are equal");
  c.event("different");
  c.note(m.def);
  for (const auto& p : m.pairs)
  {
    c.note(p.first.first);
    c.note(p.second);
  }
}

FAMILY(equality, 3000, 60000)
{
  mon::Rng& r = c.rng;
  const Model m = random(r);
  const std::uint64_t state = r.s;
  const TrajOptCollisionConfig a = config(r, m);
  r.s = state;
  TrajOptCollisionConfig b = config(r, m);
  EXPECT(a == b && b == a && !(a != b), "equal", "two identical settings differ");
  TrajOptCollisionConfig copy(a);
  EXPECT(copy == a, "equal", "a copy differs");
  c.event("equal", 2);
  const int what = r.range(0, 8);
  switch (what)
  {
    case 0:
      b.enabled = !b.enabled;
      break;
    case 1:
      b.contact_manager_config.default_margin = b.contact_manager_config.default_margin.value_or(0.1) + 0.01;
      break;
    case 2:
      b.contact_manager_config.pair_margin_data.setCollisionMargin("p", "q", 0.02);
      break;
    case 3:
      b.collision_check_config.longest_valid_segment_length *= 2;
      break;
    case 4:
      b.collision_check_config.type = static_cast<tc::CollisionEvaluatorType>((static_cast<int>(b.collision_check_config.type) + r.range(1, 4)) % 5);
      break;
    case 5:
      b.collision_coeff_data.setDefaultCollisionCoeff(m.def + 0.01);
      break;
    case 6:
      b.collision_coeff_data.setCollisionCoeff("p", "q", coefficient(r));
      break;
    case 7:
      b.collision_margin_buffer += 1e-3;
      break;
    default:
      b.max_num_cnt += r.chance(0.5) ? 1 : -1;
  }
  EXPECT(a != b && b != a && !(a == b) && !(b == a), "different", "settings which differ in part " << what << " are equal");
  c.event("different");
  // made at once
  const double margin = r.unif(0, 1), coeff = coefficient(r), len = r.unif(0.001, 1);
  const tc::ContactRequest request(static_cast<tc::ContactTestType>(r.range(0, 3)));
  const auto type = static_cast<tc::CollisionEvaluatorType>(r.range(0, 4));
  const auto mode = static_cast<tc::CollisionCheckProgramType>(r.range(0, 5));
  const TrajOptCollisionConfig g(margin, coeff, request, type, len, mode);
  EXPECT(g.enabled && g.contact_manager_config.default_margin == margin && g.contact_manager_config.pair_margin_data.empty() &&
             g.collision_coeff_data == CollisionCoeffData(coeff) && g.collision_check_config.contact_request == request && g.collision_check_config.type == type &&
             g.collision_check_config.longest_valid_segment_length == len && g.collision_check_config.check_program_mode == mode &&
             g.collision_margin_buffer == TrajOptCollisionConfig().collision_margin_buffer && g.max_num_cnt == TrajOptCollisionConfig().max_num_cnt,
         "made", "settings made from margin " << margin << " and coefficient " << coeff);
  c.event("made");
  c.note(margin);
  c.note(what);
}

FAMILY(yaml, 1500, 30000)
{
  mon::Rng& r = c.rng;
  const Model m = random(r);
  const TrajOptCollisionConfig g = config(r, m);
  // as a node
  {
    const YAML::Node n(g);
    const auto back = n.as<TrajOptCollisionConfig>();
    const std::string bad = differs(back, g, m, 0);
    EXPECT(bad.empty(), "yaml-node", bad);
    EXPECT(back == g, "yaml-node", "the settings differ from those which were turned into a node");
    const YAML::Node k(g.collision_coeff_data);
    const std::string kb = wrong(k.as<CollisionCoeffData>(), m);
    EXPECT(kb.empty(), "yaml-node", kb);
    c.event("yaml_node");
  }
  // as a text
  {
    std::string text;
    if (r.chance(0.5))
    {
      std::ostringstream o;
      o << YAML::Node(g);
      text = o.str();
    }
    else
    {
      YAML::Emitter e;
      if (r.chance(0.5))
        e << YAML::Flow;
      e << YAML::Node(g);
      EXPECT(e.good(), "yaml-text", e.GetLastError());
      text = e.c_str();
    }
    if (c.trace)
      std::printf("%s\n", text.c_str());
    TrajOptCollisionConfig back;
    try
    {
      back = YAML::Load(text).as<TrajOptCollisionConfig>();
    }
    catch (const std::exception& ex)
    {
      EXPECT(false, "yaml-text", ex.what() << " in\n" << text);
    }
    const std::string bad = differs(back, g, m, 1e-14);
    EXPECT(bad.empty(), "yaml-text", bad << "from\n" << text);
    c.event("yaml_text");
  }
  c.note(g.collision_margin_buffer);
  c.note(static_cast<double>(g.max_num_cnt));
}

FAMILY(yaml_by_hand, 3000, 60000)
{
  mon::Rng& r = c.rng;
  TrajOptCollisionConfig want;
  Model m;
  std::vector<std::string> lines;
  auto with = [&](double p) { return r.chance(p); };
  const bool flow = r.chance(0.3);
  if (with(0.5))
  {
    want.enabled = r.chance(0.5);
    lines.push_back(std::string("enabled: ") + (want.enabled ? "true" : "false"));
  }
  const bool margin = with(0.5);
  double margin_value = 0;
  if (margin)
  {
    margin_value = r.unif(0, 0.5);
    lines.push_back("contact_manager_config: {default_margin: " + number(margin_value) + "}");
  }
  if (with(0.5))
  {
    const auto type = static_cast<tc::CollisionEvaluatorType>(r.range(0, 4));
    want.collision_check_config.type = type;
    want.collision_check_config.longest_valid_segment_length = r.unif(0.001, 1);
    lines.push_back(std::string("collision_check_config: {type: ") + YAML::convert<tc::CollisionCheckConfig>::typeName(static_cast<int>(type)) +
                    ", longest_valid_segment_length: " + number(want.collision_check_config.longest_valid_segment_length) + "}");
  }
  if (with(0.6))
  {
    std::vector<std::string> parts;
    if (with(0.6))
    {
      m.def = coefficient(r);
      parts.push_back("default_coeff: " + number(m.def));
    }
    if (with(0.7))
    {
      std::string s = "pair_coeff_data: {";
      const int n = r.range(0, 4);
      for (int i = 0; i < n; ++i)
      {
        const std::string a = name(r), b = name(r);
        if (m.pairs.count(ordered(a, b)) != 0)
          continue;
        const double v = coefficient(r);
        m.pairs[ordered(a, b)] = v;
        if (s.back() != '{')
          s += ", ";
        s += "[" + quoted(a) + ", " + quoted(b) + "]: " + number(v);
      }
      parts.push_back(s + "}");
    }
    std::string s = "collision_coeff_data: {";
    for (std::size_t i = 0; i < parts.size(); ++i)
      s += (i ? ", " : "") + parts[i];
    lines.push_back(s + "}");
  }
  switch (r.range(0, 2))
  {
    case 0:
      want.collision_margin_buffer = r.unif(0, 0.3);
      lines.push_back("collision_margin_buffer: " + number(want.collision_margin_buffer));
      c.event("buffer_by_name");
      break;
    case 1:
      // the alias the reader promises to accept
      want.collision_margin_buffer = r.unif(0, 0.3);
      lines.push_back("buffer: " + number(want.collision_margin_buffer));
      c.event("buffer_by_alias");
      break;
    default:
      break;
  }
  if (with(0.5))
  {
    want.max_num_cnt = r.range(1, 100);
    lines.push_back("max_num_cnt: " + std::to_string(want.max_num_cnt));
  }
  double scale = 1;
  if (with(0.4))
  {
    scale = r.unif(0.1, 3);
    lines.push_back("scale_margins: " + number(scale));
    c.event("margins_scaled", margin);
  }
  if (margin)
    want.contact_manager_config.default_margin = margin_value * scale;
  want.collision_coeff_data = build(r, m);
  if (lines.empty())
    throw mon::AbortCase();
  // the order of the entries does not matter
  for (std::size_t i = lines.size(); i > 1; --i)
    std::swap(lines[i - 1], lines[static_cast<std::size_t>(r.range(0, static_cast<int>(i) - 1))]);
  std::string text = flow ? "{" : "";
  for (std::size_t i = 0; i < lines.size(); ++i)
    text += lines[i] + (flow ? (i + 1 < lines.size() ? ", " : "}") : "\n");
  TrajOptCollisionConfig got;
  try
  {
    got = YAML::Load(text).as<TrajOptCollisionConfig>();
  }
  catch (const std::exception& ex)
  {
    EXPECT(false, "yaml-read", ex.what() << " in\n" << text);
  }
  const std::string bad = differs(got, want, m, 1e-14);
  EXPECT(bad.empty(), "yaml-read", bad << "from\n" << text);
  c.event("yaml_read");
  // what is no such thing is refused
  const std::string broken[] = { "[1, 2]", "3", "{collision_coeff_data: [1]}", "{collision_coeff_data: {pair_coeff_data: {a: 1}}}",
                                 "{collision_coeff_data: {pair_coeff_data: {[a]: 1}}}", "{collision_coeff_data: {pair_coeff_data: {[a, b, c]: 1}}}",
                                 "{collision_coeff_data: {pair_coeff_data: {[a, b]: much}}}", "{collision_coeff_data: {default_coeff: much}}",
                                 "{max_num_cnt: many}", "{collision_margin_buffer: wide}", "{enabled: perhaps}", "{scale_margins: [1]}",
                                 "{collision_coeff_data: 5}", "{contact_manager_config: 5}", "{collision_coeff_data: {pair_coeff_data: {{a: b}: 1}}}" };
  const std::string& t = broken[r.range(0, static_cast<int>(std::size(broken)) - 1)];
  bool refused = false;
  try
  {
    (void)YAML::Load(t).as<TrajOptCollisionConfig>();
  }
  catch (const YAML::Exception&)
  {
    refused = true;
  }
  EXPECT(refused, "yaml-refuse", "read as collision settings: " << t);
  c.event("yaml_refused");
  c.note(text);
}

namespace
{
template <class Out, class In>
std::string through(const TrajOptCollisionConfig& g, const Model& m, TrajOptCollisionConfig into, double tol)
{
  std::stringstream s;
  {
    Out o(s);
    o(cereal::make_nvp("settings", g));
  }
  {
    In i(s);
    i(cereal::make_nvp("settings", into));
  }
  std::string bad = differs(into, g, m, tol);
  if (bad.empty() && !(into == g))
    bad = "read settings are not equal to the stored ones";
  return bad;
}
}  // namespace

FAMILY(archives, 1500, 30000)
{
  mon::Rng& r = c.rng;
  const Model m = random(r);
  const TrajOptCollisionConfig g = config(r, m);
  // read into fresh ones or over others
  const TrajOptCollisionConfig into = r.chance(0.5) ? TrajOptCollisionConfig() : config(r, random(r));
  std::string bad = through<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>(g, m, into, 0);
  EXPECT(bad.empty(), "archive-binary", bad);
  bad = through<cereal::PortableBinaryOutputArchive, cereal::PortableBinaryInputArchive>(g, m, into, 0);
  EXPECT(bad.empty(), "archive-portable", bad);
  bad = through<cereal::JSONOutputArchive, cereal::JSONInputArchive>(g, m, into, 1e-12);
  EXPECT(bad.empty(), "archive-json", bad);
  bad = through<cereal::XMLOutputArchive, cereal::XMLInputArchive>(g, m, into, 1e-12);
  EXPECT(bad.empty(), "archive-xml", bad);
  c.event("archived", 4);
  c.note(g.collision_margin_buffer);
  c.note(m.def);
}

FAMILY(maxima, 6000, 150000)
{
  mon::Rng& r = c.rng;
  using T = tc::ContinuousCollisionType;
  const int n = r.range(0, 6);
  GradientResultsSet s = r.chance(0.5) ? GradientResultsSet() : GradientResultsSet(static_cast<std::size_t>(r.range(0, 8)));
  // [link][0: not at the end, 1: not at the start]
  std::vector<double> err[2][2], buf[2][2];
  std::vector<double> errors;
  const bool negative = r.chance(0.3);
  for (int i = 0; i < n; ++i)
  {
    GradientResults g;
    g.error = negative ? -r.unif(0, 2) : r.unif(-1, 1);
    g.error_with_buffer = g.error + r.unif(0, 0.1);
    for (std::size_t k = 0; k < 2; ++k)
    {
      g.gradients[k].has_gradient = r.chance(0.6);
      g.gradients[k].cc_type = static_cast<T>(r.range(0, 3));
      g.gradients[k].gradient = Eigen::VectorXd::Constant(2, g.error);
      // what belongs to the other end must not count here
      g.cc_gradients[k].has_gradient = r.chance(0.5);
      g.cc_gradients[k].cc_type = static_cast<T>(r.range(0, 3));
      if (!g.gradients[k].has_gradient)
        continue;
      for (int t = 0; t < 2; ++t)
        if (g.gradients[k].cc_type != (t == 0 ? T::CCType_Time1 : T::CCType_Time0))
        {
          err[k][t].push_back(g.error);
          buf[k][t].push_back(g.error_with_buffer);
        }
    }
    errors.push_back(g.error);
    s.add(g);
  }
  EXPECT(s.results.size() == static_cast<std::size_t>(n), "kept", s.results.size() << " results after adding " << n);
  for (int i = 0; i < n; ++i)
    EXPECT(s.results[static_cast<std::size_t>(i)].error == errors[static_cast<std::size_t>(i)], "kept", "result " << i);
  auto most = [](std::initializer_list<const std::vector<double>*> l, double& out) {
    bool any = false;
    for (const auto* v : l)
      for (double x : *v)
      {
        out = any ? std::max(out, x) : x;
        any = true;
      }
    return any;
  };
  auto check = [&](const char* what, bool any, double expect, const std::function<double()>& f) {
    if (!any)
    {
      bool thrown = false;
      try
      {
        (void)f();
      }
      catch (const std::runtime_error&)
      {
        thrown = true;
      }
      EXPECT(thrown, "maximum-of-nothing", what << " of no errors did not throw");
      c.event("nothing_refused");
      return;
    }
    double v = 0;
    try
    {
      v = f();
    }
    catch (const std::exception& e)
    {
      EXPECT(false, "maximum", what << ": " << e.what() << " instead of " << expect);
    }
    EXPECT(v == expect, "maximum", what << " is " << v << " instead of " << expect);
    c.event("maxima");
  };
  for (int b = 0; b < 2; ++b)
  {
    auto& e = b ? buf : err;
    double x = 0;
    bool any = most({ &e[0][0], &e[0][1], &e[1][0], &e[1][1] }, x);
    check(b ? "the largest error with buffer" : "the largest error", any, x, [&] { return b ? s.getMaxErrorWithBuffer() : s.getMaxError(); });
    any = most({ &e[0][0], &e[1][0] }, x);
    check(b ? "the largest error with buffer at the start" : "the largest error at the start", any, x, [&] { return b ? s.getMaxErrorWithBufferT0() : s.getMaxErrorT0(); });
    any = most({ &e[0][1], &e[1][1] }, x);
    check(b ? "the largest error with buffer at the end" : "the largest error at the end", any, x, [&] { return b ? s.getMaxErrorWithBufferT1() : s.getMaxErrorT1(); });
    for (std::size_t k = 0; k < 2; ++k)
    {
      const LinkMaxError& l = s.max_error[k];
      any = most({ &e[k][0], &e[k][1] }, x);
      check(b ? "the largest error with buffer of a link" : "the largest error of a link", any, x, [&] { return b ? l.getMaxErrorWithBuffer() : l.getMaxError(); });
      for (std::size_t t = 0; t < 2; ++t)
      {
        EXPECT(l.has_error[t] == !e[k][t].empty(), "has-error", "link " << k << ", end " << t << ": " << l.has_error[t] << " with " << e[k][t].size() << " errors");
        if (most({ &e[k][t] }, x))
          EXPECT((b ? l.error_with_buffer[t] : l.error[t]) == x, "maximum", "of link " << k << " at end " << t);
      }
    }
  }
  // cleared for the next contact
  if (n > 0)
  {
    GradientResults g = s.results.front();
    g.gradients[0].scale = 0.25;
    g.cc_gradients[1].scale = 0.25;
    g.clear();
    EXPECT(g.error == 0 && g.error_with_buffer == 0, "cleared", "errors " << g.error << ", " << g.error_with_buffer);
    for (const auto& a : { g.gradients, g.cc_gradients })
      for (const auto& l : a)
        EXPECT(!l.has_gradient && l.scale == 1 && l.cc_type == T::CCType_None, "cleared", "a gradient is left");
    c.event("cleared");
  }
  for (double e : errors)
    c.note(e);
}

MON_MAIN
