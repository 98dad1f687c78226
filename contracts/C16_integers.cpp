// VCFLAGS: timeout=150 iters=600
// C16, histories with integer keys (arbitrary 64-bit integers in a symbolic range), and the text form of a map.
#define KEY long
#define ANYKEY(n) vc_int(n, -1000000, 1000000)
#include "ivlmap.h"
VC(one) { run((int)vc_choose("n", 0, 1), 3); }
VC(two) { run(2, 3); }
struct Num { long operator()(const std::string& s) const { long v = 0; bool neg = false; std::size_t i = 0; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-'; vc_check(i < s.size(), "a number is handed to the parser without surrounding blanks"); for (; i < s.size(); ++i) { vc_check(s[i] >= '0' && s[i] <= '9', "a number is handed to the parser without surrounding blanks"); v = 10 * v + (s[i] - '0'); } return neg ? -v : v; } };
// every text of up to two elements "[a] : [b] -> v" with or without blanks, as the same insertions made directly
VC(text) {
    vc_bounded("two elements, ends -7..12"); int n = (int)vc_choose("elements", 0, 2), sp = (int)vc_choose("blanks", 0, 2), tail = (int)vc_choose("tail", 0, 2); static const char* as[] = {"0", "-7", "+3"}; static const char* bs[] = {"3", "12", "5"}; static const long av[] = {0, -7, 3}, bv[] = {3, 12, 5};
    std::string t, b = sp == 0 ? "" : sp == 1 ? " " : "\t "; M want; std::vector<Op> acc;
    for (int i = 0; i < n; ++i) { Op o; int f = (int)vc_choose("form", 0, 3), k = (int)vc_choose("ends", 0, 2); o.l = f & 1; o.r = f & 2; o.a = o.l ? 0 : av[k]; o.b = o.r ? 0 : bv[k]; o.v = i + 1; if (put(want, o).second) acc.push_back(o);
        t += b + (o.l ? "" : as[k]) + b + ":" + b + (o.r ? "" : bs[k]) + b + "->" + b + std::to_string(i + 1) + b; if (i + 1 < n || tail == 1) t += ";"; if (tail == 2 && i + 1 == n) t += ";" + std::string(" "); }
    M m = parse_interval_map<long, long>(t, 0, std::string::npos, Num(), Num()); for (long x = -9; x <= 14; ++x) look(m, acc, x); vc_check(m.size() == want.size(), "same intervals"); vc_cover("text");
}
VC(text_wrong) { static const char* bad[] = {"1 -> 2", "1 : 2", "1 : 2 -> ", "1 : 2 ; 3", "->", "1:2->;3:4->5"}; int i = (int)vc_choose("which", 0, 5); bool t = false; try { parse_interval_map<long, long>(bad[i], 0, std::string::npos, Num(), Num()); } catch (const std::invalid_argument&) { t = true; } vc_check(t, "a malformed text is reported"); vc_cover("malformed"); }
VC_NEG(two) { M m; std::vector<Op> acc; Op o = draw(0); if (put(m, o).second) acc.push_back(o); look(m, acc, ANYKEY("key")); vc_check(m.contains(5), "wrong"); }
