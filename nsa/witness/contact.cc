// instantiates the contact templates for arrays and views
#include "nimble_contact_manager.h"
#include "nimble_contact_entity.h"
namespace nsa_witness {
using V = nimble_kokkos::DeviceScalarNodeView;
struct Manager : nimble::ContactManager
{
  using nimble::ContactManager::ContactManager;
  void
  both(nimble::ContactEntity& n, nimble::ContactEntity& f, double g, const double* d, const double* c, V& v, std::vector<double>& w)
  {
    EnforceNodeFaceInteraction(n, f, g, d, c, v);
    EnforceNodeFaceInteraction(n, f, g, d, c, w);
  }
};
struct Interface : nimble::ContactInterface
{
  void
  one(nimble::ContactEntity& n, nimble::ContactEntity& f, int k, double g, const double* d, const double* c)
  {
    EnforceNodeFaceInteraction(n, f, k, g, d, c);
  }
};
void
pack(std::vector<nimble::ContactEntity>& v, std::vector<char>& b)
{
  nimble::SerializeContactFaces<nimble::ContactEntity*>(1, v.data(), b);
  nimble::UnserializeContactFaces<nimble::ContactEntity*>(1, v.data(), b);
}
void
place(nimble::ContactEntity& e, std::vector<double>& w)
{
  e.SetCoordinates<const double*>(w.data());
}
}  // namespace nsa_witness
