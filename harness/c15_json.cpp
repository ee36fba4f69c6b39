// C15: reading problem data from JSON yields the data that is there, or an error that says what was expected.
#include "mon.h"
#include <json/json.h>
#include <trajopt/json_marshal.hpp>
#include <cmath>
using namespace json_marshal;

namespace
{
struct Mute
{
  std::ostringstream sink;
  std::streambuf *o, *e;
  Mute() : o(std::cout.rdbuf(sink.rdbuf())), e(std::cerr.rdbuf(sink.rdbuf())) {}
  ~Mute()
  {
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
  }
};
/// numbers a JSON text keeps exactly
double number(mon::Rng& r)
{
  switch (r.range(0, 5))
  {
    case 0: return r.range(-5, 5);
    case 1: return r.range(-100000, 100000) / 64.0;
    case 2: return r.unif(-1, 1);
    case 3: return std::ldexp(r.unif(-1, 1), r.range(-40, 40));
    case 4: return r.pick(std::vector<double>{ 0.0, -0.0, 2147483647.0, -2147483648.0, 2147483648.0, -2147483649.0, 1e300, 4294967296.0 });
    default: return r.range(0, 1000);
  }
}
std::string text(mon::Rng& r)
{
  std::string s;
  for (int n = r.range(0, 8); n > 0; --n)
    s += r.pick(std::vector<std::string>{ "a", "B", "_", "9", " ", "\"", "\\", "/", "\n", "\xc3\xa4", "{", "%s", "%i", "." });
  return s;
}
Json::Value value(mon::Rng& r, int depth)
{
  switch (r.range(0, depth > 0 ? 8 : 5))
  {
    case 0: return Json::Value();
    case 1: return Json::Value(r.chance(0.5));
    case 2: return Json::Value(r.range(-1000, 1000));
    case 3: return Json::Value(number(r));
    case 4: return Json::Value(text(r));
    case 5: return r.chance(0.5) ? Json::Value(Json::Value::Int64(1) << r.range(0, 62)) : Json::Value(Json::Value::UInt64(1) << r.range(0, 63));
    case 6:
    {
      Json::Value o(Json::objectValue);
      for (int n = r.range(0, 3); n > 0; --n)
        o[text(r)] = value(r, depth - 1);
      return o;
    }
    default:
    {
      Json::Value a(Json::arrayValue);
      for (int n = r.range(0, 4); n > 0; --n)
        a.append(value(r, depth - 1));
      return a;
    }
  }
}
/// as it comes from a file
Json::Value parsed(mon::Rng& r, const Json::Value& v)
{
  if (r.chance(0.5))
    return v;
  Json::StreamWriterBuilder w;
  w["precision"] = 17;
  Json::CharReaderBuilder b;
  Json::Value o;
  std::string err;
  std::istringstream in(Json::writeString(w, v));
  if (!Json::parseFromStream(b, in, &o, &err))
    return v;
  return o;
}
enum class Got
{
  value,
  error,
  other
};
template <class T>
Got read(const Json::Value& v, T& out, std::string& what)
{
  Mute quiet;
  try
  {
    fromJson(v, out);
    return Got::value;
  }
  catch (const std::runtime_error& e)
  {
    what = e.what();
    return Got::error;
  }
  catch (const std::exception& e)
  {
    what = std::string("not a runtime_error: ") + e.what();
    return Got::other;
  }
}
bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
/// what a value is as a boolean, an integer, ... (as jsoncpp defines the conversions); false: it is none
bool asBool(const Json::Value& v, bool& o)
{
  switch (v.type())
  {
    case Json::nullValue: o = false; return true;
    case Json::booleanValue: o = v.asBool(); return true;
    case Json::intValue: o = v.asLargestInt() != 0; return true;
    case Json::uintValue: o = v.asLargestUInt() != 0; return true;
    case Json::realValue: o = v.asDouble() != 0; return true;
    default: return false;
  }
}
bool asDouble(const Json::Value& v, double& o)
{
  switch (v.type())
  {
    case Json::nullValue: o = 0; return true;
    case Json::booleanValue: o = v.asBool() ? 1 : 0; return true;
    case Json::intValue: o = static_cast<double>(v.asLargestInt()); return true;
    case Json::uintValue: o = static_cast<double>(v.asLargestUInt()); return true;
    case Json::realValue: o = v.asDouble(); return true;
    default: return false;
  }
}
bool asInt(const Json::Value& v, int& o)
{
  double d = 0;
  if (!asDouble(v, d) || !(d >= -2147483648.0 && d <= 2147483647.0))
    return false;
  o = static_cast<int>(d);
  return true;
}
template <class T, class F>
void judge(mon::Case& c, const Json::Value& v, const char* type, F ref)
{
  T want{}, got{};
  const bool ok = ref(v, want);
  std::string what;
  const Got g = read(v, got, what);
  EXPECT(g != Got::other, "error-kind", "reading " << v.toStyledString() << " as " << type << " throws " << what);
  EXPECT((g == Got::value) == ok, "convertible", "reading " << v.toStyledString() << " as " << type << (ok ? " is refused: " + what : std::string(" is not refused")));
  if (ok)
    EXPECT(got == want, "value", "reading " << v.toStyledString() << " as " << type << " gives " << got << ", it is " << want);
  else
    EXPECT(what.find(type) != std::string::npos, "error-text", "the error does not say what was expected: " << what);
  c.event(ok ? "read" : "refused");
}
struct Item
{
  int a{ 7 };
  std::vector<double> b;
  std::string s;
  void fromJson(const Json::Value& v)
  {
    childFromJson(v, a, "a");
    childFromJson(v, b, "b", std::vector<double>{ 1, 2 });
    childFromJson(v, s, "s", std::string("none"));
  }
};
}  // namespace

FAMILY(scalars, 60000, 1000000)
{
  mon::Rng& r = c.rng;
  const Json::Value v = parsed(r, value(r, 2));
  c.trace << v.toStyledString();
  c.note(v.toStyledString());
  judge<bool>(c, v, "bool", asBool);
  judge<int>(c, v, "int", asInt);
  judge<double>(c, v, "double", asDouble);
  // text
  std::string got, what;
  const Got g = read(v, got, what);
  EXPECT(g != Got::other, "error-kind", "reading " << v.toStyledString() << " as string throws " << what);
  EXPECT((g == Got::error) == (v.isArray() || v.isObject()), "convertible", "reading " << v.toStyledString() << " as string");
  if (v.isString())
    EXPECT(got == v.asString(), "value", "text " << got << " of " << v.asString());
}

FAMILY(arrays, 40000, 600000)
{
  mon::Rng& r = c.rng;
  const int n = r.range(0, 7);
  Json::Value v(Json::arrayValue);
  std::vector<double> want;
  int bad = -1;
  for (int i = 0; i < n; ++i)
  {
    if (r.chance(0.03))
    {
      v.append(r.chance(0.5) ? Json::Value("x") : Json::Value(Json::arrayValue));
      bad = bad < 0 ? i : bad;
      want.push_back(0);
    }
    else
    {
      want.push_back(number(r));
      v.append(want.back());
    }
    c.note(want.back());
  }
  v = parsed(r, v);
  c.note(n);
  std::vector<double> got(static_cast<std::size_t>(r.range(0, 3)), 99.0);  // whatever was there before
  std::string what;
  const Got g = read(v, got, what);
  EXPECT(g == (bad < 0 ? Got::value : Got::error), "array", "reading " << v.toStyledString() << ": " << what);
  auto equal = [](const std::vector<double>& a, const std::vector<double>& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), same); };
  if (bad < 0)
    EXPECT(equal(got, want), "array", "reading " << v.toStyledString() << " gives " << got.size() << " values");
  // of a given length
  const int size = r.chance(0.6) ? n : r.range(-1, 8);
  bool refused = false;
  got.assign(2, 5.0);
  {
    Mute quiet;
    try
    {
      fromJsonArray(v, got, size);
    }
    catch (const std::runtime_error&)
    {
      refused = true;
    }
  }
  EXPECT(refused == (size != n || bad >= 0), "array-size", n << " values read as " << size << (refused ? " are refused" : " are not refused"));
  if (!refused)
    EXPECT(equal(got, want), "array", "reading " << v.toStyledString());
  Eigen::Vector3d v3(7, 7, 7);
  Eigen::Vector4d v4(7, 7, 7, 7);
  const Got g3 = read(v, v3, what);
  EXPECT(g3 == (n == 3 && bad < 0 ? Got::value : Got::error), "vector3", n << " values read as three: " << what);
  if (g3 == Got::value)
    for (int i = 0; i < 3; ++i)
      EXPECT(same(v3(i), want[static_cast<std::size_t>(i)]), "vector3", "value " << i);
  const Got g4 = read(v, v4, what);
  EXPECT(g4 == (n == 4 && bad < 0 ? Got::value : Got::error), "vector4", n << " values read as four: " << what);
  if (g4 == Got::value)
    for (int i = 0; i < 4; ++i)
      EXPECT(same(v4(i), want[static_cast<std::size_t>(i)]), "vector4", "value " << i);
  c.event("array");
}

FAMILY(children, 40000, 600000)
{
  mon::Rng& r = c.rng;
  Json::Value items(Json::arrayValue);
  struct Want
  {
    bool ok{ true };
    int a{ 0 };
    std::vector<double> b{ 1, 2 };
    std::string s{ "none" };
  };
  std::vector<Want> want;
  bool ok = true;
  for (int n = r.range(0, 3); n > 0; --n)
  {
    Json::Value o(Json::objectValue);
    Want w;
    if (r.chance(0.95))
      o["a"] = w.a = r.range(-100, 100);
    else
      w.ok = false;
    if (r.chance(0.5))
    {
      w.b.clear();
      o["b"] = Json::Value(Json::arrayValue);
      for (int k = r.range(0, 3); k > 0; --k)
      {
        w.b.push_back(number(r));
        o["b"].append(w.b.back());
      }
    }
    if (r.chance(0.5))
      o["s"] = w.s = text(r);
    if (r.chance(0.3))
      o[r.pick(std::vector<std::string>{ "A", "aa", "", "other" })] = value(r, 1);
    if (r.chance(0.03))
    {
      o["s"] = Json::Value(Json::arrayValue);
      w.ok = false;
    }
    ok &= w.ok;
    c.note(w.a);
    c.note(w.s);
    items.append(o);
    want.push_back(w);
  }
  items = parsed(r, items);
  std::vector<Item> got(static_cast<std::size_t>(r.range(0, 2)));
  std::string what;
  const Got g = read(items, got, what);
  c.trace << items.toStyledString();
  EXPECT(g == (ok ? Got::value : Got::error), "children", "reading " << items.toStyledString() << (ok ? " is refused: " : " is not refused") << what);
  if (ok)
  {
    EXPECT(got.size() == want.size(), "children", got.size() << " items of " << want.size());
    for (std::size_t i = 0; i < got.size(); ++i)
      EXPECT(got[i].a == want[i].a && got[i].s == want[i].s && got[i].b.size() == want[i].b.size() && std::equal(got[i].b.begin(), got[i].b.end(), want[i].b.begin(), same),
             "children", "item " << i << " of " << items.toStyledString());
  }
  c.event(ok ? "children_read" : "children_refused");
}
MON_MAIN
