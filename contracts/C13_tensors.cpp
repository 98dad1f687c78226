// VCFLAGS: timeout=400
// C13 with the tensor storages: gradients stored as symmetric or full matrices, Hessians as fourth-order tensors with the matching symmetry.
#include "adops.h"
template <class S> static void all(int op) {
    level = 2; int a = (int)vc_choose("left", 0, 2), b = (int)vc_choose("right", 0, 2); static const int kinds[] = {0, 1, 4};
    with<S>(kinds[a], [&](auto x, const Jet& jx) { if (op == 0) unary(x, jx); else if (op == 1) power(x, jx); else with<S>(kinds[b], [&](auto y, const Jet& jy) { binary(x, jx, y, jy); }); });
}
VC(symmetric_2) { all<Sym<2>>((int)vc_choose("op", 0, 2)); }
VC(symmetric_3) { all<Sym<3>>(2); }
VC(symmetric_3_unary) { all<Sym<3>>(0); }
VC(full_2) { all<Full<2>>((int)vc_choose("op", 0, 2)); }
VC(assign_symmetric) { level = 2; assign<Sym<3>>(); }
VC(assign_full) { level = 2; assign<Full<2>>(); }
VC(hypot_symmetric) { level = 2; lengths<Sym<3>, true, true>((int)vc_choose("operands", 1, 2)); }
#ifdef VC_THOROUGH
VC(full_3) { all<Full<3>>(2); }
VC(full_3_unary) { all<Full<3>>(0); }
VC(symmetric_3_power) { all<Sym<3>>(1); }
#endif
