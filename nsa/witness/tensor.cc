// instantiates the tensor templates of the repository's headers for the analysis
#include "nimble_utils.h"
#include "nimble_view.h"
template void Square_Full33T_Full33<double>(const double*, double*);
template void Square_Full33_Full33T<double>(const double*, double*);
template void Mult_Scalar_Full33<double>(double, const double*, double*);
template void Sum_Full33_Full33<double>(const double*, const double*, double*);
template void Sum_Sym33_Full33<double>(const double*, const double*, double*);
template void Mult_Full33_Full33<double>(const double*, const double*, double*);
template void Mult_Sym33_Full33<double>(const double*, const double*, double*);
template void Mult_Scalar_Full33_Full33<double>(double, const double*, const double*, double*);
template void Mult_Full33_Sym33_ReturnT<double>(const double*, const double*, double*);
template void Rotate_Sym33_Using_Rtranspose_S_R<double>(const double*, const double*, double*);
template void Unrotate_Sym33_Using_R_S_Rtranspose<double>(const double*, const double*, double*);
template void CrossProduct<double>(const double*, const double*, double*);
template double Determinant_Full33<double>(const double*);
template double Norm_Sym33<double>(const double*);
template double Norm_Full33<double>(const double*);
template void Zero_Full33<double>(double*);
template void SetEqual_Full33<double>(const double*, double*);
template void SetEqual_Sym33<double>(const double*, double*);
template void SymPart_Full33<double>(const double*, double*);
template void SkewPart_Full33<double>(const double*, double*);
template double Invert_Full33<double>(const double*, double*);
template void BCH<double>(const double*, const double*, double*);
template void BCH_Sym33_Full33<double>(const double*, const double*, double*);
template void Polar_Decomp<double>(const double*, double*, double*);
template void Polar_Left_LogV_Lame<double>(const double*, double*, double*, double*);
template void Log_Rotation<double>(const double*, double*);
template void Log_Rotation_Pi<double>(const double*, double*);
template double MultiplySign<double>(double, double);
template double Minimum<double>(double, double);
template double if_then<double>(bool, double, double);
template double if_then_else<double>(bool, double, double);
template double if_then_else_zero<double>(bool, double);
template double Cos_Of_Acos_Divided_By_3<double>(double);
template void LU_Decompose<nimble::Viewify<2>>(int, nimble::Viewify<2>&, int*);
template void LU_Solve<nimble::Viewify<2>>(int, const nimble::Viewify<2>&, double*, const int*);
template void LU_SolveSystem<nimble::Viewify<2>>(int, nimble::Viewify<2>&, double*, int*);
double (*nsa_use_invert3x3)(const double[][3], double[][3]) = &Invert3x3;
