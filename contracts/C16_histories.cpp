// VCFLAGS: timeout=250 iters=600
// C16, histories: the map after any sequence of up to three insertions (each of the four forms, arbitrary real ends, two values) against the
// function it stands for: f(x) = value of an accepted interval that contains x.
#define KEY double
#define ANYKEY(n) vc_real(n, -3, 3)
#include "ivlmap.h"
VC(one) { run((int)vc_choose("n", 0, 1), 3); }
VC(two) { run(2, 3); }
VC(three) { run(3, 3); }
VC(clear_swap) { M m, k; put(m, draw(0)); M was = m; bool e = m.empty(); m.swap(k); vc_check(m.empty() && k.empty() == e, "swap"); k.clear(); vc_check(k.empty() && k.size() == 0 && !k.contains(ANYKEY("key")), "clear"); auto r = k.insert(1, 2, 7); vc_check(r.second && k.size() == 1 && !k.begin().is_left_infinite() && !k.begin().is_right_infinite() && !k.contains(0) && !k.contains(2) && k[1] == 7, "no infinite end survives clear"); vc_cover("clear"); }
VC_NEG(two) { M m; std::vector<Op> acc; Op o = draw(0); if (put(m, o).second) acc.push_back(o); look(m, acc, ANYKEY("key")); vc_check(m.contains(5), "wrong"); }
