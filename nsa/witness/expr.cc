// evaluates an expression the way the boundary conditions do: parsed, copied, or assigned before use
#include "nimble_boundary_condition.h"
#include "nimble_expression_parser.h"
namespace nsa_witness {
using F = ExpressionParsing::BoundaryConditionFunctor;
double use(F& f, double x, double y, double z, double t)
{
  f.x = x;
  f.y = y;
  f.z = z;
  f.t = t;
  return f.eval();
}
double parsed(const std::string& s, double x, double y, double z, double t)
{
  F f(s);
  return use(f, x, y, z, t);
}
double copied(const std::string& s, double x, double y, double z, double t)
{
  F f(s);
  F g(f);
  f.x = 91.0; f.y = 92.0; f.z = 93.0; f.t = 94.0;
  return use(g, x, y, z, t);
}
double assigned(const std::string& s, double x, double y, double z, double t)
{
  F f(s);
  F g("x + 1");
  g = f;
  f.x = 91.0; f.y = 92.0; f.z = 93.0; f.t = 94.0;
  return use(g, x, y, z, t);
}
double passed(const std::string& s, double x, double y, double z, double t)
{
  F f(s);
  return f.eval(x, y, z, t);
}
double called(const std::string& s, double x, double y, double z, double t)
{
  F f(s);
  return f(x, y, z, t);
}
double condition(const nimble::BoundaryCondition& b, double x, double y, double z, double t)
{
  nimble::BoundaryCondition c(b);
  return use(c.expression_, x, y, z, t);
}
}  // namespace nsa_witness
