// The library built without __int128 (FT_NO_INT128), in a namespace of its own; compared with the normal build by P10 and P11.
#include <json_struct/json_struct.h>
#include <string>
namespace portable
{
struct DF
{
  double d = 77;
  float f = 77;
  JS_OBJ(d, f);
};
std::string text(double d, float f, bool compact)
{
  DF x;
  x.d = d;
  x.f = f;
  return JS::serializeStruct(x, JS::SerializerOptions(compact ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty));
}
int read(const std::string &t, double &d, float &f)
{
  DF x;
  JS::ParseContext pc(t.data(), t.size());
  JS::Error e = pc.parseTo(x);
  d = x.d;
  f = x.f;
  return int(e);
}
} // namespace portable
