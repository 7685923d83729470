// instantiates the boundary condition templates for the host view
#include "nimble_boundary_condition_manager.h"
namespace nsa_witness {
using V = nimble::Viewify<2>;
void bc(nimble::BoundaryConditionManager& m, V x, V u, V v)
{
  m.ApplyInitialConditions(x, v);
  m.ApplyKinematicBC(0.0, 0.0, x, u, v);
}
}  // namespace nsa_witness
