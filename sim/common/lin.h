// Linear-algebra statements.  Each line is one statement as a user writes it and, as
// a postfix program, what it must compute; the node program compiles the former, the
// reference model interprets the latter.
//   L(name, destination, assignment, expression, postfix)
// Operands: x y Dirac fermions, u v colour matrices, h k half fermions, w r colour
// vectors, p q propagators, s t spin matrices, A C real and complex lattices,
// a b real numbers, c e complex numbers.
#ifndef SIM_LIN_H
#define SIM_LIN_H
#define LIN_BLAS(L) \
  L(cp, F, =, x, "x") \
  L(ax, F, =, a * x, "a x *") \
  L(xa, F, =, x * a, "x a *") \
  L(addxy, F, =, x + y, "x y +") \
  L(subxy, F, =, x - y, "x y -") \
  L(axpy, F, =, a * x + y, "a x * y +") \
  L(axmy, F, =, a * x - y, "a x * y -") \
  L(xapy, F, =, x * a + y, "x a * y +") \
  L(xamy, F, =, x * a - y, "x a * y -") \
  L(ypax, F, =, y + a * x, "y a x * +") \
  L(ymax, F, =, y - a * x, "y a x * -") \
  L(ypxa, F, =, y + x * a, "y x a * +") \
  L(ymxa, F, =, y - x * a, "y x a * -") \
  L(axpby, F, =, a * x + b * y, "a x * b y * +") \
  L(axmby, F, =, a * x - b * y, "a x * b y * -") \
  L(xapby, F, =, x * a + b * y, "x a * b y * +") \
  L(xamby, F, =, x * a - b * y, "x a * b y * -") \
  L(axpyb, F, =, a * x + y * b, "a x * y b * +") \
  L(axmyb, F, =, a * x - y * b, "a x * y b * -") \
  L(xapyb, F, =, x * a + y * b, "x a * y b * +") \
  L(xamyb, F, =, x * a - y * b, "x a * y b * -") \
  L(pe, F, +=, x, "x") \
  L(me, F, -=, x, "x") \
  L(peax, F, +=, a * x, "a x *") \
  L(meax, F, -=, a * x, "a x *") \
  L(pexa, F, +=, x * a, "x a *") \
  L(mexa, F, -=, x * a, "x a *") \
  L(te, F, *=, a, "a") \
  L(de, F, /=, a, "a") \
  L(axpypz, F, =, a * x + y + d, "a x * y + d +") \
  L(negx, F, =, -x, "x neg") \
  L(maxpy, F, =, -(a * x + y), "a x * y + neg")
#define LIN_CBLAS(L) \
  L(cx, F, =, c * x, "c x *") \
  L(xc, F, =, x * c, "x c *") \
  L(tce, F, *=, c, "c") \
  L(cxpy, F, =, c * x + y, "c x * y +") \
  L(cxmy, F, =, c * x - y, "c x * y -") \
  L(xcpy, F, =, x * c + y, "x c * y +") \
  L(xcmy, F, =, x * c - y, "x c * y -") \
  L(ypcx, F, =, y + c * x, "y c x * +") \
  L(ymcx, F, =, y - c * x, "y c x * -") \
  L(ypxc, F, =, y + x * c, "y x c * +") \
  L(ymxc, F, =, y - x * c, "y x c * -") \
  L(cxpey, F, =, c * x + e * y, "c x * e y * +") \
  L(cxmey, F, =, c * x - e * y, "c x * e y * -") \
  L(xcpey, F, =, x * c + e * y, "x c * e y * +") \
  L(xcmey, F, =, x * c - e * y, "x c * e y * -") \
  L(cxpye, F, =, c * x + y * e, "c x * y e * +") \
  L(cxmye, F, =, c * x - y * e, "c x * y e * -") \
  L(xcpye, F, =, x * c + y * e, "x c * y e * +") \
  L(xcmye, F, =, x * c - y * e, "x c * y e * -") \
  L(pecx, F, +=, c * x, "c x *") \
  L(mecx, F, -=, c * x, "c x *") \
  L(pexc, F, +=, x * c, "x c *") \
  L(mexc, F, -=, x * c, "x c *")
#define G5X GammaConst<Ns, Ns * Ns - 1>()
#define LIN_G5(L) \
  L(cpp, F, =, chiralProjectPlus(x), "x chp") \
  L(cpm, F, =, chiralProjectMinus(x), "x chm") \
  L(acpp, F, =, a * chiralProjectPlus(x), "a x chp *") \
  L(acpm, F, =, a * chiralProjectMinus(x), "a x chm *") \
  L(pecpp, F, +=, chiralProjectPlus(x), "x chp") \
  L(pecpm, F, +=, chiralProjectMinus(x), "x chm") \
  L(mecpp, F, -=, chiralProjectPlus(x), "x chp") \
  L(mecpm, F, -=, chiralProjectMinus(x), "x chm") \
  L(peacpp, F, +=, a * chiralProjectPlus(x), "a x chp *") \
  L(peacpm, F, +=, a * chiralProjectMinus(x), "a x chm *") \
  L(meacpp, F, -=, a * chiralProjectPlus(x), "a x chp *") \
  L(meacpm, F, -=, a * chiralProjectMinus(x), "a x chm *") \
  L(xpp, F, =, x + chiralProjectPlus(y), "x y chp +") \
  L(xpm, F, =, x + chiralProjectMinus(y), "x y chm +") \
  L(xmp, F, =, x - chiralProjectPlus(y), "x y chp -") \
  L(xmm, F, =, x - chiralProjectMinus(y), "x y chm -") \
  L(xpap, F, =, x + a * chiralProjectPlus(y), "x a y chp * +") \
  L(xpam, F, =, x + a * chiralProjectMinus(y), "x a y chm * +") \
  L(xmap, F, =, x - a * chiralProjectPlus(y), "x a y chp * -") \
  L(xmam, F, =, x - a * chiralProjectMinus(y), "x a y chm * -") \
  L(axpp, F, =, a * x + chiralProjectPlus(y), "a x * y chp +") \
  L(axpm, F, =, a * x + chiralProjectMinus(y), "a x * y chm +") \
  L(axmp, F, =, a * x - chiralProjectPlus(y), "a x * y chp -") \
  L(axmm, F, =, a * x - chiralProjectMinus(y), "a x * y chm -") \
  L(axpbp, F, =, a * x + b * chiralProjectPlus(y), "a x * b y chp * +") \
  L(axpbm, F, =, a * x + b * chiralProjectMinus(y), "a x * b y chm * +") \
  L(axmbp, F, =, a * x - b * chiralProjectPlus(y), "a x * b y chp * -") \
  L(axmbm, F, =, a * x - b * chiralProjectMinus(y), "a x * b y chm * -") \
  L(ag5x, F, =, a * (G5X * x), "a x g15 *") \
  L(g5x, F, =, G5X * x, "x g15") \
  L(ag5ix, F, =, a * (G5X * timesI(x)), "a x ti g15 *") \
  L(axpbg5y, F, =, a * x + b * (G5X * y), "a x * b y g15 * +") \
  L(axmbg5y, F, =, a * x - b * (G5X * y), "a x * b y g15 * -") \
  L(g5axmby, F, =, G5X * (a * x - b * y), "a x * b y * - g15") \
  L(g5axpby, F, =, G5X * (a * x + b * y), "a x * b y * + g15") \
  L(axpbg5iy, F, =, a * x + b * (G5X * timesI(y)), "a x * b y ti g15 * +") \
  L(axmbg5iy, F, =, a * x - b * (G5X * timesI(y)), "a x * b y ti g15 * -") \
  L(xpag5y, F, =, x + a * (G5X * y), "x a y g15 * +") \
  L(xmag5y, F, =, x - a * (G5X * y), "x a y g15 * -") \
  L(xpag5iy, F, =, x + a * (G5X * timesI(y)), "x a y ti g15 * +") \
  L(xmag5iy, F, =, x - a * (G5X * timesI(y)), "x a y ti g15 * -") \
  L(peag5iy, F, +=, a * (G5X * timesI(y)), "a y ti g15 *") \
  L(meag5iy, F, -=, a * (G5X * timesI(y)), "a y ti g15 *")
#define LIN_MAT(L) \
  L(nn, M, =, u * v, "u v *") \
  L(an, M, =, adj(u) * v, "u adj v *") \
  L(na, M, =, u * adj(v), "u v adj *") \
  L(aa, M, =, adj(u) * adj(v), "u adj v adj *") \
  L(penn, M, +=, u * v, "u v *") \
  L(pean, M, +=, adj(u) * v, "u adj v *") \
  L(pena, M, +=, u * adj(v), "u v adj *") \
  L(peaa, M, +=, adj(u) * adj(v), "u adj v adj *") \
  L(menn, M, -=, u * v, "u v *") \
  L(mena, M, -=, u * adj(v), "u v adj *") \
  L(mean, M, -=, adj(u) * v, "u adj v *") \
  L(meaa, M, -=, adj(u) * adj(v), "u adj v adj *") \
  L(mcp, M, =, u, "u") \
  L(mpe, M, +=, u, "u") \
  L(mme, M, -=, u, "u") \
  L(mte, M, *=, a, "a") \
  L(mau, M, =, a * u, "a u *") \
  L(mua, M, =, u * a, "u a *") \
  L(mpeau, M, +=, a * u, "a u *") \
  L(mpv, M, =, u + v, "u v +") \
  L(madj, M, =, adj(u), "u adj") \
  L(mpeadj, M, +=, adj(u), "u adj") \
  L(mmeadj, M, -=, adj(u), "u adj") \
  L(annn, M, =, a * u * v, "a u * v *") \
  L(nnpe, M, =, u * v + u, "u v * u +") \
  L(nnn, M, =, u * v * u, "u v * u *") \
  L(nnna, M, =, u * v * adj(u), "u v * u adj *") \
  L(anna, M, =, adj(u) * v * u, "u adj v * u *") \
  L(mv, V, =, u * w, "u w *") \
  L(av, V, =, adj(u) * w, "u adj w *") \
  L(pemv, V, +=, u * w, "u w *") \
  L(meav, V, -=, adj(u) * w, "u adj w *") \
  L(axv, V, =, a * w + r, "a w * r +") \
  L(addv, V, =, w + r, "w r +") \
  L(subv, V, =, w - r, "w r -") \
  L(peaxv, V, +=, a * w, "a w *") \
  L(mh, H, =, u * h, "u h *") \
  L(ah, H, =, adj(u) * h, "u adj h *") \
  L(pemh, H, +=, u * h, "u h *") \
  L(meah, H, -=, adj(u) * h, "u adj h *") \
  L(axh, H, =, a * h + k, "a h * k +") \
  L(addh, H, =, h + k, "h k +") \
  L(mf, F, =, u * x, "u x *") \
  L(af, F, =, adj(u) * x, "u adj x *") \
  L(pemf, F, +=, u * x, "u x *") \
  L(meaf, F, -=, adj(u) * x, "u adj x *") \
  L(mfpy, F, =, u * x + y, "u x * y +") \
  L(xmaf, F, =, x - adj(u) * y, "x u adj y * -") \
  L(umf, F, =, u * v * x, "u v * x *")
#define LIN_SPIND_(L, n) \
  L(pj##n, H, =, spinProjectDir##n(x), "x pj" #n) \
  L(pepj##n, H, +=, spinProjectDir##n(x), "x pj" #n) \
  L(upj##n, H, =, u * spinProjectDir##n(x), "u x pj" #n " *") \
  L(apj##n, H, =, adj(u) * spinProjectDir##n(x), "u adj x pj" #n " *") \
  L(rc##n, F, =, spinReconstructDir##n(h), "h rc" #n) \
  L(perc##n, F, +=, spinReconstructDir##n(h), "h rc" #n) \
  L(merc##n, F, -=, spinReconstructDir##n(h), "h rc" #n) \
  L(urc##n, F, =, spinReconstructDir##n(u * h), "u h * rc" #n) \
  L(arc##n, F, =, spinReconstructDir##n(adj(u) * h), "u adj h * rc" #n) \
  L(peurc##n, F, +=, spinReconstructDir##n(u * h), "u h * rc" #n) \
  L(hop##n, F, +=, spinReconstructDir##n(adj(u) * spinProjectDir##n(x)), "u adj x pj" #n " * rc" #n)
#define LIN_SPIN(L) \
  LIN_SPIND_(L, 0Plus) LIN_SPIND_(L, 1Plus) LIN_SPIND_(L, 2Plus) LIN_SPIND_(L, 3Plus) \
  LIN_SPIND_(L, 0Minus) LIN_SPIND_(L, 1Minus) LIN_SPIND_(L, 2Minus) LIN_SPIND_(L, 3Minus) \
  L(2rc, F, =, spinReconstructDir0Plus(u * h) + spinReconstructDir1Minus(adj(v) * k), "u h * rc0Plus v adj k * rc1Minus +") \
  L(3rc, F, =, spinReconstructDir2Plus(h) - a * spinReconstructDir3Minus(k) + x, "h rc2Plus a k rc3Minus * - x +") \
  L(gm, F, =, Gamma(5) * x + Gamma(10) * (y * b), "x g5 y b * g10 +")
// products of other objects, run on generic code
#define LIN_MISC(L) \
  L(up, P, =, u * p, "u p *") \
  L(pu, P, =, p * adj(u), "p u adj *") \
  L(pgs, P, =, p + Gamma(7) * q, "p q g7 +") \
  L(sp, P, =, s * p, "s p *") \
  L(st, S, =, s * t, "s t *") \
  L(sta, S, +=, adj(s) * t, "s adj t *") \
  L(px, F, =, p * x, "p x *") \
  L(Ax, F, =, A * x, "A x *") \
  L(Cx, F, =, C * x + y, "C x * y +") \
  L(tru, C, =, trace(u), "u tr") \
  L(truv, C, =, trace(u * v), "u v * tr") \
  L(trauv, C, =, trace(adj(u) * v), "u adj v * tr") \
  L(truav, C, =, trace(u * adj(v)), "u v adj * tr") \
  L(trpq, C, =, trace(adj(p) * q), "p adj q * tr") \
  L(retru, A, =, real(trace(u * v)), "u v * tr re") \
  L(imtru, A, =, imag(trace(u * adj(v))), "u v adj * tr im") \
  L(rtr, A, =, realTrace(u), "u tr re") \
  L(lip, C, =, localInnerProduct(x, y), "x y lip") \
  L(lipr, A, =, localInnerProductReal(x, y), "x y lip re") \
  L(ln2, A, =, localNorm2(x), "x x lip re") \
  L(ln2u, A, =, localNorm2(u - v), "u v - u v - lip re") \
  L(tcs, S, =, traceColor(p), "p trc") \
  L(tsm, M, =, traceSpin(p), "p trs") \
  L(outer, M, =, outerProduct(w, r), "w r adj *") \
  L(tspm, M, +=, traceSpin(outerProduct(x, y)), "x y adj * trs") \
  L(cnj, M, =, conj(u), "u cj") \
  L(tps, M, =, transpose(u), "u tp") \
  L(cmplx, C, =, cmplx(A, A), "A A i* +") \
  L(timesI, F, =, timesI(x), "x ti") \
  L(timesMI, M, -=, timesMinusI(u), "u ti neg")
#endif
