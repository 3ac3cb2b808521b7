/* Independent reference model: surface kinematics on explicit polynomials and
 * plane-stress hyperelasticity by automatic differentiation of the stored energy.
 * Deliberately shares no code with gsKLShell. */
#pragma once
#include <gismo.h>
#include <cmath>
#include <array>
#include <vector>

namespace ref {
typedef double real;
typedef std::array<real,3> V3;
inline V3 operator+(const V3&a,const V3&b){return {{a[0]+b[0],a[1]+b[1],a[2]+b[2]}};}
inline V3 operator-(const V3&a,const V3&b){return {{a[0]-b[0],a[1]-b[1],a[2]-b[2]}};}
inline V3 operator*(real s,const V3&a){return {{s*a[0],s*a[1],s*a[2]}};}
inline real dot(const V3&a,const V3&b){return a[0]*b[0]+a[1]*b[1]+a[2]*b[2];}
inline V3 cross(const V3&a,const V3&b){return {{a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}};}
inline real norm(const V3&a){return std::sqrt(dot(a,a));}
struct M3 { real m[3][3];
    static M3 id(){ M3 r; for(int i=0;i<3;++i)for(int j=0;j<3;++j) r.m[i][j]=(i==j); return r; } };
inline V3 operator*(const M3&A,const V3&x){V3 r;for(int i=0;i<3;++i){r[i]=0;for(int j=0;j<3;++j)r[i]+=A.m[i][j]*x[j];}return r;}
inline M3 operator*(const M3&A,const M3&B){M3 r;for(int i=0;i<3;++i)for(int j=0;j<3;++j){r.m[i][j]=0;for(int k=0;k<3;++k)r.m[i][j]+=A.m[i][k]*B.m[k][j];}return r;}
inline M3 rot(V3 ax, real ang){ real n=norm(ax); ax=(1/n)*ax; real c=cos(ang),s=sin(ang),t=1-c; M3 r;
    real x=ax[0],y=ax[1],z=ax[2];
    real a[3][3]={{t*x*x+c,t*x*y-s*z,t*x*z+s*y},{t*x*y+s*z,t*y*y+c,t*y*z-s*x},{t*x*z-s*y,t*y*z+s*x,t*z*z+c}};
    memcpy(r.m,a,sizeof(a)); return r; }
inline M3 mat(real a,real b,real c,real d,real e,real f,real g,real h,real i){ M3 r; real x[3][3]={{a,b,c},{d,e,f},{g,h,i}}; memcpy(r.m,x,sizeof(x)); return r; }
inline M3 diag(real a,real b,real c){ return mat(a,0,0,0,b,0,0,0,c); }

/// Polynomial surface of degree <=2 per direction
struct Poly
{
    V3 c[3][3];
    Poly(){ for(auto&r:c) for(auto&x:r) x={{0,0,0}}; }
    static real mono(int i,real x,int d){ // d-th derivative of x^i
        if (d>i) return 0; real f=1; for(int k=0;k<d;++k) f*=(i-k); return f*std::pow(x,i-d); }
    V3 d(real x,real y,int dx,int dy) const
    { V3 r={{0,0,0}}; for(int i=0;i<3;++i)for(int j=0;j<3;++j) r=r+(mono(i,x,dx)*mono(j,y,dy))*c[i][j]; return r; }
    Poly lin(const M3&A, V3 t={{0,0,0}}) const { Poly p; for(int i=0;i<3;++i)for(int j=0;j<3;++j) p.c[i][j]=A*c[i][j]; p.c[0][0]=p.c[0][0]+t; return p; }
    Poly add(const Poly&q) const { Poly p; for(int i=0;i<3;++i)for(int j=0;j<3;++j) p.c[i][j]=c[i][j]+q.c[i][j]; return p; }
    /// reparametrise by the affine map (x,y)->(a+b x+c y, ...) with separate directions only (keeps degrees): swap / scale / flip
    Poly reparam(bool swap, bool fx, bool fy) const
    { Poly p; for(int i=0;i<3;++i)for(int j=0;j<3;++j){ // x^i -> (1-x)^i if flipped
            V3 v=c[i][j];
            for(int k=0;k<=i;++k) for(int l=0;l<=j;++l){
                real bi=(i==k)?1:(i==2&&k==1?2:1), bj=(j==l)?1:(j==2&&l==1?2:1);
                real fi= fx ? bi*((k%2)?-1:1) : (k==i), fj= fy ? bj*((l%2)?-1:1) : (l==j);
                V3 w=(fi*fj)*v; if(swap) p.c[l][k]=p.c[l][k]+w; else p.c[k][l]=p.c[k][l]+w; } }
        return p; }
    /// restrict to the sub-rectangle [x0,x1]x[y0,y1], reparametrised to the unit square
    Poly restrict_(real x0,real x1,real y0,real y1) const
    { Poly p; for(int i=0;i<3;++i)for(int j=0;j<3;++j) for(int k=0;k<=i;++k) for(int l=0;l<=j;++l){
            real bi=(i==2&&k==1)?2:1, bj=(j==2&&l==1)?2:1;
            p.c[k][l]=p.c[k][l]+(bi*std::pow(x0,i-k)*std::pow(x1-x0,k)*bj*std::pow(y0,j-l)*std::pow(y1-y0,l))*c[i][j]; }
        return p; }
    template<int d_> gismo::gsTensorBSpline<2,real> spline() const
    {
        gismo::gsKnotVector<real> kv(0,1,0,3);
        gismo::gsTensorBSplineBasis<2,real> tb(kv,kv);
        gismo::gsMatrix<real> coefs(9,d_);
        // power -> Bernstein (degree 2) conversion, exact
        static const real Mb[3][3]={{1,0,0},{1,0.5,0},{1,1,1}}; // b_k = sum_i Mb[k][i] c_i
        for(int l=0;l<3;++l) for(int k=0;k<3;++k){
            V3 v={{0,0,0}}; for(int i=0;i<3;++i) for(int j=0;j<3;++j) v=v+(Mb[k][i]*Mb[l][j])*c[i][j];
            for(int q=0;q<d_;++q) coefs(l*3+k,q)=v[q]; }
        return gismo::gsTensorBSpline<2,real>(tb,coefs);
    }
};

/// kinematic quantities of a surface at a parametric point
struct Geo
{
    V3 x,a1,a2,a11,a12,a22,n,n1,n2; real aa[3], bb[3], nn[3]; // (11,22,12)
    bool flat2;
    Geo() : flat2(false) {}
    Geo(const Poly&p,real u,real v,bool planar=false) : flat2(planar)
    {
        x=p.d(u,v,0,0); a1=p.d(u,v,1,0); a2=p.d(u,v,0,1); a11=p.d(u,v,2,0); a12=p.d(u,v,1,1); a22=p.d(u,v,0,2);
        finish(planar);
    }
    Geo(V3 x_,V3 a1_,V3 a2_,V3 a11_,V3 a22_,V3 a12_,bool planar=false) : x(x_),a1(a1_),a2(a2_),a11(a11_),a12(a12_),a22(a22_),flat2(planar) { finish(planar); }
    real area() const { return norm(cross(a1,a2)); }
    void finish(bool planar)
    {
        V3 m=cross(a1,a2); real J=norm(m); n=(1/J)*m;
        V3 m1=cross(a11,a2)+cross(a1,a12), m2=cross(a12,a2)+cross(a1,a22);
        n1=(1/J)*(m1-dot(n,m1)*n); n2=(1/J)*(m2-dot(n,m2)*n);
        aa[0]=dot(a1,a1); aa[1]=dot(a2,a2); aa[2]=dot(a1,a2);
        bb[0]=dot(a11,n); bb[1]=dot(a22,n); bb[2]=dot(a12,n);
        nn[0]=dot(n1,n1); nn[1]=dot(n2,n2); nn[2]=dot(n1,n2);
        if (planar) for(int i=0;i<3;++i) bb[i]=nn[i]=0;
    }
    /// metric of the parallel surface at height z (11,22,12)
    void metric(real z, real g[3]) const { for(int i=0;i<3;++i) g[i]=aa[i]-2*z*bb[i]+z*z*nn[i]; }
    /// covariant basis at height z
    void basis(real z, V3&g1, V3&g2) const { if (flat2) {g1=a1;g2=a2;} else { g1=a1+z*n1; g2=a2+z*n2; } }
};

/// second-order forward differentiation in 4 variables
struct D2
{
    static const int N=4; real v; real g[N]; real h[N][N];
    D2(real x=0):v(x){ memset(g,0,sizeof(g)); memset(h,0,sizeof(h)); }
    static D2 var(real x,int i){ D2 r(x); r.g[i]=1; return r; }
    static D2 chain(const D2&a,real f,real f1,real f2){ D2 r(f); for(int i=0;i<N;++i){ r.g[i]=f1*a.g[i]; for(int j=0;j<N;++j) r.h[i][j]=f1*a.h[i][j]+f2*a.g[i]*a.g[j]; } return r; }
};
inline D2 operator+(const D2&a,const D2&b){D2 r(a.v+b.v);for(int i=0;i<4;++i){r.g[i]=a.g[i]+b.g[i];for(int j=0;j<4;++j)r.h[i][j]=a.h[i][j]+b.h[i][j];}return r;}
inline D2 operator-(const D2&a){ return D2::chain(a,-a.v,-1,0); }
inline D2 operator-(const D2&a,const D2&b){ return a+(-b); }
inline D2 operator*(const D2&a,const D2&b){D2 r(a.v*b.v);for(int i=0;i<4;++i){r.g[i]=a.g[i]*b.v+a.v*b.g[i];for(int j=0;j<4;++j)r.h[i][j]=a.h[i][j]*b.v+a.v*b.h[i][j]+a.g[i]*b.g[j]+a.g[j]*b.g[i];}return r;}
inline D2 pow(const D2&a,real p){ return D2::chain(a,std::pow(a.v,p),p*std::pow(a.v,p-1),p*(p-1)*std::pow(a.v,p-2)); }
inline D2 log(const D2&a){ return D2::chain(a,std::log(a.v),1/a.v,-1/(a.v*a.v)); }
inline D2 operator/(const D2&a,const D2&b){ return a*pow(b,-1); }
inline real pow(real a,real p){ return std::pow(a,p); }
inline real log(real a){ return std::log(a); }
inline real val(const D2&a){return a.v;}
inline real val(real a){return a;}

enum Law { SvK=0, NH=1, NHe=2, MR=3, OG=4 };
struct Mat { Law law; bool comp; std::vector<real> p; }; // p: E,nu,[ratio]|[mu_i,alpha_i]*

/// lambda1^a+lambda2^a with lambda^2 the eigenvalues of a 2x2 with trace tr, determinant de
template<class S> S powsum(const S&tr,const S&de,real a)
{
    S m=0.5*tr; S dl2=m*m-de; // (difference/2)^2
    real r; { S q=dl2/(m*m); r=val(q); }
    real s=a/2;
    if (r<1e-3) { // smooth even series
        S q=dl2/(m*m); auto bin=[&](int k){ real b=1; for(int i=0;i<k;++i) b*=(s-i)/(i+1); return b; };
        return 2.0*pow(m,s)*(S(1.0)+bin(2)*q+bin(4)*q*q+bin(6)*q*q*q+bin(8)*q*q*q*q);
    }
    S dl=pow(dl2,0.5);
    return pow(m+dl,s)+pow(m-dl,s);
}

/// stored energy per undeformed volume; c=(C11,C22,C12,C33) covariant, G undeformed metric (11,22,12)
template<class S> S energy(const Mat&M,const real G[3],const S&c11,const S&c22,const S&c12,const S&c33)
{
    real dG=G[0]*G[1]-G[2]*G[2]; real g11=G[1]/dG,g22=G[0]/dG,g12=-G[2]/dG;
    S tr=g11*c11+g22*c22+2.0*g12*c12; S de=(1/dG)*(c11*c22-c12*c12);
    real E=M.p[0],nu=M.p[1],mu=E/(2*(1+nu));
    S I1=tr+c33, I2=c33*tr+de, J2=de*c33;
    if (!M.comp) {
        if (M.law==NH) return 0.5*mu*(I1-3.0);
        if (M.law==MR) { real c2=mu/(M.p[2]+1), c1=M.p[2]*c2; return 0.5*c1*(I1-3.0)+0.5*c2*(I2-3.0); }
        S r=S(0.0); for(size_t k=2;k+1<M.p.size();k+=2) r=r+(M.p[k]/M.p[k+1])*(powsum(tr,de,M.p[k+1])+pow(c33,M.p[k+1]/2)-3.0);
        return r;
    }
    real K=E/(3-6*nu), la=E*nu/((1+nu)*(1-2*nu));
    S lnJ=0.5*log(J2);
    if (M.law==NHe) return 0.5*mu*(I1-3.0-2.0*lnJ)+0.25*la*(J2-1.0-2.0*lnJ);
    S vol=0.25*K*(J2-1.0-2.0*lnJ);
    if (M.law==NH) return 0.5*mu*(pow(J2,-1./3)*I1-3.0)+vol;
    if (M.law==MR) { real c2=mu/(M.p[2]+1), c1=M.p[2]*c2; return 0.5*c1*(pow(J2,-1./3)*I1-3.0)+0.5*c2*(pow(J2,-2./3)*I2-3.0)+vol; }
    S r=vol; for(size_t k=2;k+1<M.p.size();k+=2) r=r+(M.p[k]/M.p[k+1])*(pow(J2,-M.p[k+1]/6)*(powsum(tr,de,M.p[k+1])+pow(c33,M.p[k+1]/2))-3.0);
    return r;
}

struct Resp { real S[3]; real C[3][3]; real C33, J; };
/// plane-stress response: S^{ab} (11,22,12), C^{abcd} in the (11,22,12) layout, thickness C33
inline Resp respond(const Mat&M,const real G[3],const real g[3])
{
    Resp R; real dG=G[0]*G[1]-G[2]*G[2], dg=g[0]*g[1]-g[2]*g[2];
    if (M.law==SvK) { // linear law with plane-stress condition; C33 not part of the law
        real E=M.p[0],nu=M.p[1]; real a[3]={G[1]/dG,G[0]/dG,-G[2]/dG}; real A[2][2]={{a[0],a[2]},{a[2],a[1]}};
        int I[3]={0,1,0},Jx[3]={0,1,1}; real lb=E*nu/(1-nu*nu), mu=E/(2*(1+nu));
        for(int p=0;p<3;++p)for(int q=0;q<3;++q){ int i=I[p],j=Jx[p],k=I[q],l=Jx[q]; R.C[p][q]=lb*A[i][j]*A[k][l]+mu*(A[i][k]*A[j][l]+A[i][l]*A[j][k]); }
        real e[3]={0.5*(g[0]-G[0]),0.5*(g[1]-G[1]),(g[2]-G[2])};
        for(int p=0;p<3;++p){R.S[p]=0;for(int q=0;q<3;++q)R.S[p]+=R.C[p][q]*e[q];}
        R.C33=dG/dg; R.J=std::sqrt(dg/dG); return R; }
    D2 c11=D2::var(g[0],0),c22=D2::var(g[1],1),c12=D2::var(g[2],2);
    D2 W;
    real H[3][3],gr[3];
    if (!M.comp) { D2 c33=D2(dG)/(c11*c22-c12*c12); W=energy(M,G,c11,c22,c12,c33); R.C33=c33.v; R.J=1;
        for(int i=0;i<3;++i){gr[i]=W.g[i];for(int j=0;j<3;++j)H[i][j]=W.h[i][j];} }
    else {
        real x=dG/dg; x=std::sqrt(x); // start
        for(int it=0;it<200;++it){ D2 c33=D2::var(x,3); W=energy(M,G,c11,c22,c12,c33); real dx=-W.g[3]/W.h[3][3];
            while (x+dx<=0.05*x) dx*=0.5; if (W.h[3][3]<=0) dx=(W.g[3]>0?-0.1:0.1)*x; x+=dx; if (std::abs(dx)<1e-15*x) break; }
        D2 c33=D2::var(x,3); W=energy(M,G,c11,c22,c12,c33); R.C33=x; R.J=std::sqrt(dg/dG*x);
        for(int i=0;i<3;++i){gr[i]=W.g[i];for(int j=0;j<3;++j)H[i][j]=W.h[i][j]-W.h[i][3]*W.h[3][j]/W.h[3][3];} }
    real w[3]={2,2,1};
    for(int i=0;i<3;++i){R.S[i]=w[i]*gr[i];for(int j=0;j<3;++j)R.C[i][j]=w[i]*w[j]*H[i][j];}
    return R;
}
/// eigenvalues of the mixed 2x2 tensor (metric G, form c): ascending
inline void eig2(const real G[3],const real c[3],real e[2])
{ real dG=G[0]*G[1]-G[2]*G[2]; real a=(G[1]*c[0]-G[2]*c[2])/dG,b=(G[0]*c[1]-G[2]*c[2])/dG,p=(G[1]*c[2]-G[2]*c[1])/dG,q=(G[0]*c[2]-G[2]*c[0])/dG; real m=(a+b)/2,h=(a-b)/2,d=std::sqrt(std::max(0.0,h*h+p*q)); e[0]=m-d;e[1]=m+d; }
} // namespace ref
