// The steps of the Miller loop, exposed in pairing.hpp.
#include "drv.hpp"
using namespace drv;
static string co(const std::array<fp2, 3>& c) { return str(c[0]) + str(c[1]) + str(c[2]); }
OP("dblstep") { auto& a = in<g2>(r); g2 p(a); std::array<fp2, 3> c;
    pairing::doubling_step(c, p); return str(p) + " " + co(c); } ENDOP
OP("addstep") { auto& a = in<g2>(r); auto& t = in<g2>(r); g2 p(a); std::array<fp2, 3> c;
    pairing::addition_step(c, p, t); return str(p) + " " + co(c); } ENDOP
OP("precomp") { auto& t = in<g2>(r); std::array<std::array<fp2, 3>, 68> e;
    pairing::pre_compute(e, t);
    string o; for (auto& c : e) { if (!o.empty()) o += ","; o += co(c); } return o; } ENDOP
