// one rank of a parallel run: set up the communicator and reduce fields
#include "nimble_vector_communicator.h"
namespace nsa_witness {
struct Cells
{
  double* p;
  int     w;
  double&
  operator()(int i, int j) const
  {
    return p[i * w + j];
  }
};
void
reduce(int dim, unsigned n, comm_type comm, std::vector<int> const& ids, double* f3, double* f1, double* g3, Cells c, int w, std::vector<int>& nodes, std::vector<int>& mins)
{
  nimble::VectorCommunicator vc(dim, n, comm);
  vc.Initialize(ids);
  vc.VectorReduction(dim, f3);
  vc.VectorReduction(1, f1);
  vc.GetPartitionBoundaryNodeLocalIds(nodes, mins);
  vc.VectorReduction(dim, g3);
  vc.VectorReduction(w, c);
}
}  // namespace nsa_witness
