#include <gismo.h>
#include <gsKLShell/gsKLShell.h>
#include <cstdio>
using namespace gismo;
typedef gsMatrix<real_t> Mx;
static int bad=0;
static void near(double a,double b,double tol,const char*w){ if(!(std::abs(a-b)<=tol)){ printf("%s: %.12g vs %.12g\n",w,a,b); bad=1; } }
static gsMultiPatch<real_t> square(int d,double lx=1,double ly=1){ gsMultiPatch<real_t> m; m.addPatch(gsNurbsCreator<real_t>::BSplineSquare(1)); m.patch(0).coefs().col(0)*=lx; m.patch(0).coefs().col(1)*=ly; m.degreeElevate(1); m.computeTopology(); if(d==3) m.embed(3); return m; }
static gsMultiPatch<real_t> warp(const gsMultiPatch<real_t>&m){ gsMultiPatch<real_t> r(m); for(index_t p=0;p<(index_t)r.nPatches();++p){ Mx&c=r.patch(p).coefs(); for(index_t i=0;i<c.rows();++i){ double x=c(i,0),y=c(i,1); c(i,0)=1.1*x+0.15*y+0.05*x*y; c(i,1)=0.95*y+0.1*x; if(c.cols()==3) c(i,2)+=0.2*x*x-0.1*x*y+0.15*y*y; } } return r; }
