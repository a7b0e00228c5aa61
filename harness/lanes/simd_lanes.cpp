#include "simd_lanes.h"
WR(add, R(a)+R(b)) WR(sub, R(a)-R(b)) WR(mul, R(a)*R(b)) WR(div, R(a)/R(b)) WR(neg, -R(a))
WS(adda, auto x=R(a); x+=R(b); x.store(o); ) WS(suba, auto x=R(a); x-=R(b); x.store(o); ) WS(mula, auto x=R(a); x*=R(b); x.store(o); ) WS(diva, auto x=R(a); x/=R(b); x.store(o); )
WR(lt, select(R(a)<R(b),R(c),R(a))) WR(gt, select(R(a)>R(b),R(c),R(a))) WR(le, select(R(a)<=R(b),R(c),R(a))) WR(ge, select(R(a)>=R(b),R(c),R(a))) WR(eq, select(R(a)==R(b),R(c),R(a)))
WR(and, select((R(a)<R(b))&&(R(b)<R(c)),R(c),R(a))) WR(or, select((R(a)<R(b))||(R(b)<R(c)),R(c),R(a)))
#ifndef LANES_ARM
WR(and1, select((R(a)<R(b))&(R(b)<R(c)),R(c),R(a))) WR(or1, select((R(a)<R(b))|(R(b)<R(c)),R(c),R(a))) WR(xor1, select((R(a)<R(b))^(R(b)<R(c)),R(c),R(a))) WR(not, select(!(R(a)<R(b)),R(c),R(a)))
#endif
WR(selt, select(true,R(a),R(b))) WR(self, select(false,R(a),R(b)))
WR(sqrt, sqrt(R(a))) WR(abs, abs(R(a))) WR(sin, sin(R(a))) WR(cos, cos(R(a))) WR(exp, exp(R(a))) WR(log, log(R(a))) WR(tan, tan(R(a))) WR(sincos1, sincos(R(a)).first) WR(sincos2, sincos(R(a)).second) WR(atan2, atan2(R(a),R(b))) WR(fmadd, fmadd(R(a),R(b),R(c))) WR(fmod, fmod(R(a),R(b))) WR(remainder, remainder(R(a),R(b))) WR(sign, sign(R(a)))
WR(bcast, real_v(a[0])) WS(toarr, auto x=R(a).to_array(); for(int i=0;i<4;++i) o[i]=x[i]; ) WS(at, auto x=R(a); for(int i=0;i<4;++i) o[i]=x.at(i); )
#if !defined(LANES_FLOAT) && !defined(LANES_ARM)
WR(conj, conj(R(a))) WR(four, real_v(a[0],a[1],a[2],a[3])) WR(fromarr, real_v(std::array<double,4>{a[0],a[1],a[2],a[3]}))
#endif
WR(gather, gather(a, R(b)))
WC(cadd, C(a)+C(b)) WC(csub, C(a)-C(b)) WC(cmul, C(a)*C(b)) WC(cdiv, C(a)/C(b)) WC(cneg, -C(a))
WS(cadda, auto x=C(a); x+=C(b); x.real().store(o); x.imag().store(o+4); ) WS(csuba, auto x=C(a); x-=C(b); x.real().store(o); x.imag().store(o+4); ) WS(cmula, auto x=C(a); x*=C(b); x.real().store(o); x.imag().store(o+4); ) WS(cdiva, auto x=C(a); x/=C(b); x.real().store(o); x.imag().store(o+4); )
WC(cr_add, C(a)+R(b)) WC(cr_sub, C(a)-R(b)) WC(cr_mul, C(a)*R(b)) WC(cr_div, C(a)/R(b)) WC(rc_add, R(a)+C(b)) WC(rc_sub, R(a)-C(b)) WC(rc_mul, R(a)*C(b)) WC(rc_div, R(a)/C(b))
WC(cs_add, C(a)+b[0]) WC(cs_sub, C(a)-b[0]) WC(cs_mul, C(a)*b[0]) WC(cs_div, C(a)/b[0]) WC(sc_add, a[0]+C(b)) WC(sc_sub, a[0]-C(b)) WC(sc_mul, a[0]*C(b)) WC(sc_div, a[0]/C(b))
WR(creal, real(C(a))) WR(cimag, imag(C(a))) WR(creal_m, C(a).real()) WR(cimag_m, C(a).imag()) WR(cabs, abs(C(a))) WR(cnorm, norm(C(a))) WR(cnorm_m, C(a).norm()) WC(cconj, conj(C(a))) WC(cexp, exp(C(a))) WC(csqrt, sqrt(C(a))) WC(clog, log(C(a)))
WC(csel, select(R(a)<R(b),C(b),C(c))) WC(csel_r, select(R(a)<R(b),R(b),C(c))) WC(csel_l, select(R(a)<R(b),C(c),R(b))) WC(cselt, select(true,C(a),C(b))) WC(cself, select(false,C(a),C(b)))
WC(c_std, complex_v(cd(a[0],a[1]))) WC(c_real, complex_v(R(a))) WC(c_rs, complex_v(R(a),b[0])) 
WS(sum, o[0]=utils::sum_elements(R(a)); ) WS(allof, o[0]=utils::all_of(R(a)<R(b)) ? 1. : 0.; ) WS(get, o[0]=utils::get<0>(R(a)); o[1]=utils::get<1>(R(a)); o[2]=utils::get<2>(R(a)); o[3]=utils::get<3>(R(a)); )
WS(cget, auto x=utils::get<2>(C(a)); o[0]=x.real(); o[1]=x.imag(); auto y=utils::at(C(a),1); o[2]=y.real(); o[3]=y.imag(); ) WS(ustore, utils::store(o,R(a)); ) WS(uat, for(int i=0;i<4;++i) o[i]=utils::at(R(a),i); ) WS(unorm, utils::norm(C(a)).store(o); )
