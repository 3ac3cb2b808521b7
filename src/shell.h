/* Shell scenes (geometry, materials, supports, loads) and an independent reference
 * of the discretised Kirchhoff-Love equations: own kinematics, own variations, own
 * material response, own thickness and surface quadrature. The trusted base of the
 * reference is the core library's basis evaluation and its dof mapper. */
#pragma once
#include "lam.h"
#include <memory>
using ref::V3; using ref::M3; using ref::Geo; using ref::operator+; using ref::operator-; using ref::operator*;
typedef gsEigen::MatrixXd EM; typedef gsEigen::VectorXd EV;
typedef gsMultiPatch<real_t> MP;
typedef gsThinShellAssemblerBase<real_t> Asm;
typedef ThinShellAssemblerStatus St;
static const St OK_=St::Success;

// ---------------------------------------------------------------- materials
struct Moments { double N[3],M[3],A[3][3],B[3][3],D[3][3]; };
struct MatSpec { std::string name; bool lam; LawDef L; std::string t, rho; std::vector<lam::Ply> plies; };
inline std::vector<MatSpec> matSpecs()
{
    std::vector<MatSpec> r; auto ls=laws(false,1); auto get=[&](const std::string&n){ for(auto&l:ls) if(l.name==n) return l; throw std::runtime_error("no law "+n); };
    r.push_back({"SvK",false,get("SvK-imp1-p0"),"0.1","2.5",{}});
    r.push_back({"SvKt",false,get("SvK-imp1-p0"),"0.1+0.03*x-0.02*y","1.5+x",{}});
    r.push_back({"NHi",false,get("NH-inc-imp1-p0"),"0.08","1.2",{}});
    r.push_back({"NHct",false,get("NH-comp-imp1-p0"),"0.12+0.02*y","0.7+0.1*y",{}});
    r.push_back({"MRc",false,get("MR-comp-imp1-p0"),"0.1","3",{}});
    r.push_back({"OGi",false,get("OG-inc-imp3-p0"),"0.1","1",{}});
    auto al=lam::alphabet(false);
    r.push_back({"LAM",true,LawDef(),"","",{al[3],al[0],al[7]}});
    return r;
}
inline MatSpec matSpec(const std::string&n){ for(auto&m:matSpecs()) if(m.name==n) return m; throw std::runtime_error("no material "+n); }

template<int d> struct MatObj
{
    MatSpec s; std::unique_ptr<MatBox<d>> box; std::unique_ptr<lam::Stack<d>> st; std::unique_ptr<gsMaterialMatrixComposite<d,real_t>> comp; std::unique_ptr<gsFunctionExpr<real_t>> tf,rf; gsMatrix<real_t> tv;
    MatObj(const MatSpec&m,const MP&mp) : s(m)
    {
        if (m.lam) { st.reset(new lam::Stack<d>(m.plies)); comp.reset(new gsMaterialMatrixComposite<d,real_t>(mp,st->T,st->G,st->A,st->R)); }
        else { box.reset(new MatBox<d>(m.L,mp,m.t,m.rho)); tf.reset(new gsFunctionExpr<real_t>(m.t,d)); rf.reset(new gsFunctionExpr<real_t>(m.rho,d)); }
    }
    gsMaterialMatrixBase<real_t>* get() { return s.lam ? (gsMaterialMatrixBase<real_t>*)comp.get() : box->mat.get(); }
    double at(gsFunctionExpr<real_t>&f,const V3&x) { Mx u(d,1),r; for(int i=0;i<d;++i) u(i,0)=x[i]; f.eval_into(u,r); return r(0,0); }
    double thick(const Geo&o) { if (s.lam) return lam::model(s.plies,o).t; return at(*tf,o.x); }
    double arealMass(const Geo&o) { if (s.lam) return lam::model(s.plies,o).rho; return at(*tf,o.x)*at(*rf,o.x); }
    /// forces, moments and stiffness moments
    Moments mom(const Geo&o,const Geo&g)
    {
        Moments r; memset(&r,0,sizeof(r));
        double e[3],k[3]; for(int i=0;i<3;++i){ double f=i==2?1:0.5; e[i]=f*(g.aa[i]-o.aa[i]); k[i]=(i==2?2:1)*(o.bb[i]-g.bb[i]); }
        if (s.lam) { lam::Lam l=lam::model(s.plies,o); for(int i=0;i<3;++i)for(int j=0;j<3;++j){ r.A[i][j]=l.A(i,j); r.B[i][j]=l.B(i,j); r.D[i][j]=l.D(i,j); } }
        else { double t=thick(o); ref::Mat M=s.L.r();
            if (M.law==ref::SvK) { ref::Resp R=ref::respond(M,o.aa,o.aa); for(int i=0;i<3;++i)for(int j=0;j<3;++j){ r.A[i][j]=t*R.C[i][j]; r.D[i][j]=t*t*t/12*R.C[i][j]; } }
            else { static const double X[4]={-0.861136311594052575,-0.339981043584856265,0.339981043584856265,0.861136311594052575},W[4]={0.347854845137453857,0.652145154862546143,0.652145154862546143,0.347854845137453857};
                for(int q=0;q<4;++q){ double z=0.5*t*X[q],w=0.5*t*W[q],G[3],h[3]; o.metric(z,G); g.metric(z,h); ref::Resp R=ref::respond(M,G,h);
                    for(int i=0;i<3;++i){ r.N[i]+=w*R.S[i]; r.M[i]+=w*z*R.S[i]; for(int j=0;j<3;++j){ r.A[i][j]+=w*R.C[i][j]; r.B[i][j]+=w*z*R.C[i][j]; r.D[i][j]+=w*z*z*R.C[i][j]; } } }
                return r; } }
        for(int i=0;i<3;++i) for(int j=0;j<3;++j){ r.N[i]+=r.A[i][j]*e[j]+r.B[i][j]*k[j]; r.M[i]+=r.B[i][j]*e[j]+r.D[i][j]*k[j]; }
        return r;
    }
};

// ---------------------------------------------------------------- geometries
/// control-point displacement: a smooth vector function of the undeformed control point
struct Move { std::string name; std::function<V3(const V3&)> u; };
inline Move rigid(const M3&R,const V3&t,const std::string&n="rigid"){ return {n,[=](const V3&x){ return R*x+t-x; }}; }
inline std::vector<Move> moves(int d)
{
    std::vector<Move> r; auto fix=[d](V3 v){ if(d==2) v[2]=0; return v; };
    r.push_back({"id",[](const V3&){ return V3{{0,0,0}}; }});
    r.push_back({"stretch",[=](const V3&x){ return fix({{0.15*x[0]+0.1*x[1]+0.1*x[2],-0.08*x[1]+0.05*x[2],0.05*x[0]+0.1*x[2]}}); }});
    r.push_back({"gen",[=](const V3&x){ return fix({{0.12*x[0]*x[0]-0.1*x[1]+0.05*x[2]*x[0],0.2*x[0]+0.1*x[1]*x[1]*x[0],0.3*x[0]*x[0]-0.25*x[0]*x[1]+0.15*x[1]}}); }});
    if (d==3) { r.push_back({"bend",[=](const V3&x){ return V3{{0,0,0.35*x[0]*x[0]-0.2*x[1]*x[1]+0.1*x[0]*x[1]}}; }});
        Move g=r[2]; M3 R=ref::rot({{0.5,-1,0.7}},2.0); r.push_back({"genrot",[=](const V3&x){ V3 y=x+g.u(x); return R*y+V3{{1,2,-3}}-x; }}); }
    return r;
}
inline Move moveOf(int d,const std::string&n){ for(auto&m:moves(d)) if(m.name==n) return m; throw std::runtime_error("no move "+n); }
inline MP displaced(const MP&mp,const std::function<V3(const V3&)>&u)
{
    MP r=mp; for(size_t p=0;p<mp.nPatches();++p){ auto&c=r.patch(p).coefs(); for(index_t i=0;i<c.rows();++i){ V3 x={{0,0,0}}; for(index_t k=0;k<c.cols();++k) x[k]=c(i,k); V3 v=u(x); for(index_t k=0;k<c.cols();++k) c(i,k)+=v[k]; } }
    return r;
}
/// embed a planar geometry, or drop the third coordinate
template<int d> std::vector<std::string> geoNames(){ std::vector<std::string> r={"sq","quad","quad2","nurbs","two","three"}; if (d==3) for(auto s:{"curv","curv2","twoC","twoR","fold"}) r.push_back(s); return r; }
template<int d> MP geometry(const std::string&n)
{
    MP mp; auto U=undeformed(3); auto get=[&](const std::string&s){ for(auto&u:U) if(u.first==s) return u.second; throw std::runtime_error("surface "+s); };
    auto add=[&](const ref::Poly&p){ mp.addPatch(p.template spline<d>()); };
    if (n=="sq") { add(get("unit")); mp.uniformRefine(); }
    else if (n=="quad") add(get("quad"));
    else if (n=="quad2") { add(get("quad")); mp.uniformRefine(); }
    else if (n=="quad3") { add(get("quad")); mp.degreeElevate(); mp.uniformRefine(); }
    else if (n=="nurbs") { auto s=get("quad").template spline<d>(); gsMatrix<real_t> w(9,1); w<<1,0.8,1,0.9,1.2,0.85,1,0.95,1.1; gsKnotVector<real_t> kv(0,1,0,3); gsTensorNurbs<2,real_t> g(kv,kv,s.coefs(),w); g.uniformRefine(); mp.addPatch(g); }
    else if (n=="curv") add(get("curved"));
    else if (n=="curv2") { add(get("curvedrot")); mp.uniformRefine(); }
    else if (n=="curv3") { add(get("curved")); mp.degreeElevate(); mp.uniformRefine(); }
    else if (n=="two") { auto p=get("quad"); add(p.restrict_(0,0.4,0,1)); add(p.restrict_(0.4,1,0,1)); }
    else if (n=="twoC") { auto p=get("curved"); add(p.restrict_(0,1,0,0.55)); add(p.restrict_(0,1,0.55,1)); mp.uniformRefine(); }
    else if (n=="twoR") { auto p=get("curved"); add(p.restrict_(0,0.4,0,1)); add(p.restrict_(0.4,1,0,1).reparam(true,true,false)); }
    else if (n=="fold") { auto p=get("skew"); add(p); auto q=p; // second patch hinged on the side x=1 of the first
        V3 e=p.d(1,0,0,0), t=p.d(1,0,0,1); ref::Poly r; r.c[0][0]=e; r.c[1][0]={{0.5,0.1,0.8}}; r.c[0][1]=t; r.c[1][1]={{0.1,0,0.1}}; r.c[2][0]={{0.1,0,0.1}}; add(r); }
    else if (n=="three") { auto p=get("quad"); add(p.restrict_(0,0.5,0,0.6)); add(p.restrict_(0.5,1,0,0.6)); add(p.restrict_(0,0.5,0.6,1)); }
    else throw std::runtime_error("no geometry "+n);
    mp.computeTopology(); return mp;
}

// ---------------------------------------------------------------- scenes
struct BcDef { int patch; boundary::side side; condition_type::type type; int comp; std::vector<std::string> f; }; // f in physical coordinates
struct CornerDef { int patch; boundary::corner c; double value; int comp; };
struct Loads { std::string name; std::vector<std::string> force; bool parametric; std::string press; std::vector<std::string> found; std::vector<BcDef> neu; struct PL{ int patch; std::vector<double> pt,val; bool par; }; std::vector<PL> pts; };

template<int d> struct Scene
{
    MP ori; gsMultiBasis<real_t> mb; gsBoundaryConditions<real_t> bc; std::vector<BcDef> bcd; std::vector<CornerDef> corners; std::vector<std::shared_ptr<gsFunctionExpr<real_t>>> keep;
    std::vector<std::shared_ptr<MatObj<d>>> mats; // one per patch (may be shared)
    std::shared_ptr<gsFunctionExpr<real_t>> force,press,found; gsPointLoads<real_t> pl; std::vector<std::pair<BcDef,gsFunctionExpr<real_t>*>> neu;
    bool bending=true; int continuity=-1; double quA=1; int quB=1; bool oneMat=false;
    Scene(const MP&g) : ori(g), mb(g) { bc.setGeoMap(ori); }
    Scene(const Scene&)=delete;
    gsFunctionExpr<real_t>* fun(const std::vector<std::string>&e,int dim) { keep.emplace_back(new gsFunctionExpr<real_t>(e,dim)); return keep.back().get(); }
    void materials(const std::vector<std::string>&names) { std::vector<std::shared_ptr<MatObj<d>>> ms; for(auto&n:names) ms.emplace_back(new MatObj<d>(matSpec(n),ori)); mats.clear(); for(size_t p=0;p<ori.nPatches();++p) mats.push_back(ms[p%ms.size()]); oneMat=names.size()==1; }
    void support(const BcDef&b) { bcd.push_back(b); if (b.f.empty()) bc.addCondition(b.patch,b.side,b.type,(gsFunctionSet<real_t>*)nullptr,0,false,b.comp); else bc.addCondition(b.patch,b.side,b.type,fun(b.f,d),0,false,b.comp); }
    void corner(const CornerDef&q) { corners.push_back(q); bc.addCornerValue(q.c,q.value,q.patch,0,q.comp); }
    void loads(const Loads&L)
    {
        std::vector<std::string> z(d,"0");
        force.reset(new gsFunctionExpr<real_t>(L.force.empty()?z:L.force,L.parametric?2:d));
        if (!L.press.empty()) press.reset(new gsFunctionExpr<real_t>(L.press,d));
        if (!L.found.empty()) found.reset(new gsFunctionExpr<real_t>(L.found,d));
        for(auto b:L.neu){ auto*f=fun(b.f,d); bc.addCondition(b.patch,b.side,condition_type::neumann,f); neu.push_back({b,f}); }
        for(auto&q:L.pts){ gsVector<real_t> x(q.pt.size()),v(q.val.size()); for(size_t i=0;i<q.pt.size();++i) x[i]=q.pt[i]; for(size_t i=0;i<q.val.size();++i) v[i]=q.val[i];
            if (!q.par) { // physical point: image of a parametric one
                Mx y; ori.patch(q.patch).eval_into(x,y); gsVector<real_t> yy=y; pl.addLoad(yy,v,q.patch,false); }
            else pl.addLoad(x,v,q.patch,true); }
    }
    void bcGeo() { bc.setGeoMap(ori); }
    template<bool b> Asm* mk() { if (oneMat) return new gsThinShellAssembler<d,real_t,b>(ori,mb,bc,*force,mats[0]->get()); gsMaterialMatrixContainer<real_t> c(ori.nPatches()); for(size_t p=0;p<ori.nPatches();++p) c.set(p,mats[p]->get()); return new gsThinShellAssembler<d,real_t,b>(ori,mb,bc,*force,c); }
    template<int dd> typename std::enable_if<dd==3,Asm*>::type create(){ return bending?mk<true>():mk<false>(); }
    template<int dd> typename std::enable_if<dd==2,Asm*>::type create(){ return mk<false>(); }
    void configure(Asm&a) { a.options().setReal("ExprAssembler.quA",quA); a.options().setInt("ExprAssembler.quB",quB); a.options().setInt("Continuity",continuity); }
    std::unique_ptr<Asm> make() { std::unique_ptr<Asm> a(create<d>()); gsOptionList o=a->options(); o.setReal("ExprAssembler.quA",quA); o.setInt("ExprAssembler.quB",quB); o.setInt("Continuity",continuity); a->setOptions(o);
        if (press) a->setPressure(*press); if (found) a->setFoundation(*found); if (pl.numLoads()) a->setPointLoads(pl); return a; }
    bool planar() const { return d==2; }
};

// ---------------------------------------------------------------- reference assembly
struct BAt { std::vector<int> act; std::vector<double> N,N1,N2,N11,N22,N12; };
inline BAt basisAt(const gsBasis<real_t>&b,double u,double v)
{
    Mx x(2,1); x<<u,v; gsMatrix<index_t> a; b.active_into(x,a); std::vector<Mx> r; b.evalAllDers_into(x,2,r); BAt o; int n=a.rows();
    for(int i=0;i<n;++i){ o.act.push_back(a(i,0)); o.N.push_back(r[0](i,0)); o.N1.push_back(r[1](2*i,0)); o.N2.push_back(r[1](2*i+1,0)); o.N11.push_back(r[2](3*i,0)); o.N22.push_back(r[2](3*i+1,0)); o.N12.push_back(r[2](3*i+2,0)); }
    return o;
}
inline V3 comb(const BAt&b,const std::vector<double>&w,const Mx&c){ V3 r={{0,0,0}}; for(size_t i=0;i<b.act.size();++i) for(index_t k=0;k<c.cols();++k) r[k]+=w[i]*c(b.act[i],k); return r; }
inline Geo geoAt(const BAt&b,const Mx&c){ return Geo(comb(b,b.N,c),comb(b,b.N1,c),comb(b,b.N2,c),comb(b,b.N11,c),comb(b,b.N22,c),comb(b,b.N12,c),c.cols()==2); }
inline std::vector<double> breaks(const gsBasis<real_t>&b,int i)
{
    if (auto*t=dynamic_cast<const gsTensorBSplineBasis<2,real_t>*>(&b)) return t->knots(i).unique();
    if (auto*t=dynamic_cast<const gsTensorNurbsBasis<2,real_t>*>(&b)) return t->source().knots(i).unique();
    throw std::runtime_error("basis kind");
}
struct QP { double u,v,w; int elem; };
inline std::vector<QP> quad2(const gsBasis<real_t>&b,double quA,int quB,int fixdir=-1,double fixval=0)
{
    std::vector<QP> r; gsVector<index_t> n(2); for(int i=0;i<2;++i) n[i]=(i==fixdir)?1:(index_t)(quA*b.degree(i)+quB+0.5);
    gsGaussRule<real_t> rule(n); gsMatrix<real_t> x; gsVector<real_t> w; int e=0;
    std::vector<std::vector<double>> kn(2); for(int i=0;i<2;++i) kn[i]=breaks(b,i);
    gsVector<real_t> lo(2),up(2);
    for(size_t ey=0;ey+1<kn[1].size();++ey) for(size_t ex=0;ex+1<kn[0].size();++ex,++e){ lo<<kn[0][ex],kn[1][ey]; up<<kn[0][ex+1],kn[1][ey+1];
        if (fixdir>=0) { bool touch= (fixval==0? lo[fixdir]==0 : up[fixdir]==1); if (!touch) continue; int o=1-fixdir; gsVector<index_t> n1(1); n1[0]=n[o]; gsGaussRule<real_t> r1(n1); gsVector<real_t> l1(1),u1(1); l1[0]=lo[o]; u1[0]=up[o]; r1.mapTo(l1,u1,x,w); for(index_t i=0;i<w.size();++i){ QP q; (fixdir==0?q.u:q.v)=fixval; (fixdir==0?q.v:q.u)=x(0,i); q.w=w[i]; q.elem=e; r.push_back(q); } continue; }
        rule.mapTo(lo,up,x,w); for(index_t i=0;i<w.size();++i) r.push_back({x(0,i),x(1,i),w[i],e}); }
    return r;
}
inline Mx evalF(const gsFunction<real_t>&f,const V3&x){ Mx u(f.domainDim(),1),r; for(int i=0;i<f.domainDim();++i) u(i,0)=x[i]; f.eval_into(u,r); return r; }

/// variation data of one point: first variations of the strains for all local dofs
struct Var
{
    int n,d; std::vector<V3> e1,e2,e11,e22,e12,m,dn; V3 nn; double J; const Geo*g; EM dE,dK; // n x 3
    Var(const BAt&b,const Geo&G,int d_,bool bending) : d(d_), g(&G)
    {
        int na=b.act.size(); n=na*d; dE.setZero(n,3); dK.setZero(n,3); V3 mm=ref::cross(G.a1,G.a2); J=ref::norm(mm); nn=(1/J)*mm;
        for(int i=0;i<na;++i) for(int c=0;c<d;++c){ V3 e={{0,0,0}}; e[c]=1; V3 x1=b.N1[i]*e,x2=b.N2[i]*e,x11=b.N11[i]*e,x22=b.N22[i]*e,x12=b.N12[i]*e; int r=i*d+c;
            dE(r,0)=ref::dot(G.a1,x1); dE(r,1)=ref::dot(G.a2,x2); dE(r,2)=ref::dot(G.a1,x2)+ref::dot(G.a2,x1);
            e1.push_back(x1); e2.push_back(x2); e11.push_back(x11); e22.push_back(x22); e12.push_back(x12);
            V3 k=ref::cross(x1,G.a2)+ref::cross(G.a1,x2); m.push_back(k); dn.push_back((1/J)*(k-ref::dot(nn,k)*nn));
            if (bending) { dK(r,0)=-(ref::dot(x11,nn)+ref::dot(G.a11,dn[r])); dK(r,1)=-(ref::dot(x22,nn)+ref::dot(G.a22,dn[r])); dK(r,2)=-2*(ref::dot(x12,nn)+ref::dot(G.a12,dn[r])); } }
    }
    V3 d2n(int r,int s) const { V3 mrs=ref::cross(e1[r],e2[s])+ref::cross(e1[s],e2[r]); V3 a=(1/J)*(mrs-ref::dot(nn,mrs)*nn); a=a-(1/J)*(ref::dot(nn,m[r])*dn[s]+ref::dot(dn[s],m[r])*nn); a=a-(ref::dot(nn,m[s])/J)*dn[r]; return a; }
    double d2E(int r,int s,const double N[3]) const { return N[0]*ref::dot(e1[r],e1[s])+N[1]*ref::dot(e2[r],e2[s])+N[2]*(ref::dot(e1[r],e2[s])+ref::dot(e2[r],e1[s])); }
    double d2K(int r,int s,const double M[3]) const { V3 q=d2n(r,s); auto f=[&](const std::vector<V3>&a,const V3&A){ return -(ref::dot(a[r],dn[s])+ref::dot(a[s],dn[r])+ref::dot(A,q)); }; return M[0]*f(e11,g->a11)+M[1]*f(e22,g->a22)+2*M[2]*f(e12,g->a12); }
};
struct Sys { EV R,F; EM K; double W=0, area=0, mass=0; }; // R: external - internal (all dofs), F: external only
enum { INT=1, EXT=2, TAN=4, LINEAR=8 };
/// numbering: free dofs as in the assembler's mapper, then the eliminated ones
struct Numb { gsDofMapper m; int nf,nt; Numb(const gsDofMapper&mm) : m(mm) { nf=m.freeSize(); nt=nf+m.boundarySize(); } int id(int i,int p,int c) const { index_t g=m.index(i,p,c); return m.is_free_index(g)?(int)g:nf+(int)m.global_to_bindex(g); } };
template<int d> Sys reference(Scene<d>&s,const MP&def,const Numb&nb,int what)
{
    Sys r; r.R.setZero(nb.nt); r.F.setZero(nb.nt); if (what&TAN) r.K.setZero(nb.nt,nb.nt);
    bool bend=s.bending&&d==3;
    for(size_t p=0;p<s.ori.nPatches();++p){ const gsBasis<real_t>&B=s.mb.basis(p); const Mx&co=s.ori.patch(p).coefs(),&cd=def.patch(p).coefs();
        for(auto&q:quad2(B,s.quA,s.quB)){ BAt b=basisAt(B,q.u,q.v); Geo o=geoAt(b,co),g=geoAt(b,cd); double w=q.w*o.area(); r.area+=w; Var v(b,g,d,bend); int n=v.n; std::vector<int> id(n); for(int i=0;i<n;++i) id[i]=nb.id(b.act[i/d],p,i%d);
            Moments M=s.mats[p]->mom(o,g); r.mass+=w*s.mats[p]->arealMass(o);
            gsEigen::Vector3d N(M.N[0],M.N[1],M.N[2]),Mo(M.M[0],M.M[1],M.M[2]);
            if (what&INT) { EV f=v.dE*N; if(bend) f+=v.dK*Mo; for(int i=0;i<n;++i) r.R[id[i]]-=w*f[i];
                for(int i=0;i<3;++i){ double e=(i==2?1:0.5)*(g.aa[i]-o.aa[i]),k=(i==2?2:1)*(o.bb[i]-g.bb[i]); r.W+=0.5*w*(M.N[i]*e+(bend?M.M[i]*k:0)); } }
            if (what&TAN) { gsEigen::Matrix3d A,Bm,D; for(int i=0;i<3;++i)for(int j=0;j<3;++j){A(i,j)=M.A[i][j];Bm(i,j)=M.B[i][j];D(i,j)=M.D[i][j];}
                EM K=v.dE*A*v.dE.transpose(); if (bend) { EM X=v.dE*Bm*v.dK.transpose(); K+=X+X.transpose()+v.dK*D*v.dK.transpose(); }
                for(int i=0;i<n;++i)for(int j=0;j<n;++j){ if (!(what&LINEAR)) { K(i,j)+=v.d2E(i,j,M.N); if(bend) K(i,j)+=v.d2K(i,j,M.M); } r.K(id[i],id[j])+=w*K(i,j); } }
            if (what&EXT) {
                Mx f= s.force->domainDim()==2 ? evalF(*s.force,{{q.u,q.v,0}}) : evalF(*s.force,o.x);
                for(int i=0;i<n;++i) r.F[id[i]]+=w*b.N[i/d]*f(i%d,0);
                if (d==3 && s.press) { double pr=evalF(*s.press,o.x)(0,0); for(int i=0;i<n;++i) r.F[id[i]]+=w*pr*b.N[i/d]*g.n[i%d]; if ((what&TAN)&&!(what&LINEAR)) for(int i=0;i<n;++i)for(int j=0;j<n;++j) r.K(id[i],id[j])-=w*pr*b.N[i/d]*v.dn[j][i%d]; }
                if (d==3 && s.found) { Mx k=evalF(*s.found,o.x); for(int i=0;i<n;++i) r.F[id[i]]-=w*b.N[i/d]*k(i%d,0)*(g.x[i%d]-o.x[i%d]); if (what&TAN) for(int i=0;i<n;++i)for(int j=0;j<n;++j) if (i%d==j%d) r.K(id[i],id[j])+=w*k(i%d,0)*b.N[i/d]*b.N[j/d]; }
            } } }
    if (what&EXT) {
        for(auto&nq:s.neu){ boxSide sd(nq.first.side); int p=nq.first.patch; const gsBasis<real_t>&B=s.mb.basis(p);
            for(auto&q:quad2(B,s.quA,s.quB,sd.direction(),sd.parameter()?1.0:0.0)){ BAt b=basisAt(B,q.u,q.v); Geo o=geoAt(b,s.ori.patch(p).coefs()); double w=q.w*ref::norm(sd.direction()==0?o.a2:o.a1); Mx f=evalF(*nq.second,o.x);
                for(size_t i=0;i<b.act.size();++i) for(int c=0;c<d;++c) r.F[nb.id(b.act[i],p,c)]+=w*b.N[i]*f(c,0); } }
        for(size_t k=0;k<s.pl.numLoads();++k){ auto L=s.pl[k]; Mx u=L.point; if (!L.parametric) { Mx y=L.point; // the scenes only use images of known parametric points: search on a fine grid, then Newton
                double best=1e99; for(int i=0;i<=20;++i)for(int j=0;j<=20;++j){ BAt b=basisAt(s.mb.basis(L.patch),i/20.,j/20.); Geo o=geoAt(b,s.ori.patch(L.patch).coefs()); double e=0; for(int c=0;c<d;++c) e+=(o.x[c]-y(c,0))*(o.x[c]-y(c,0)); if(e<best){best=e; u.resize(2,1); u<<i/20.,j/20.;} }
                for(int it=0;it<30;++it){ BAt b=basisAt(s.mb.basis(L.patch),u(0,0),u(1,0)); Geo o=geoAt(b,s.ori.patch(L.patch).coefs()); V3 x={{0,0,0}}; for(int c=0;c<d;++c)x[c]=y(c,0)-o.x[c]; double b1=ref::dot(x,o.a1),b2=ref::dot(x,o.a2),det=o.aa[0]*o.aa[1]-o.aa[2]*o.aa[2]; u(0,0)=std::min(1.,std::max(0.,u(0,0)+(o.aa[1]*b1-o.aa[2]*b2)/det)); u(1,0)=std::min(1.,std::max(0.,u(1,0)+(o.aa[0]*b2-o.aa[2]*b1)/det)); } }
            BAt b=basisAt(s.mb.basis(L.patch),u(0,0),u(1,0)); for(size_t i=0;i<b.act.size();++i) for(int c=0;c<d;++c) r.F[nb.id(b.act[i],L.patch,c)]+=b.N[i]*L.value[c]; }
        r.R+=r.F; }
    return r;
}
inline EM dense(const gsSparseMatrix<real_t>&m){ return EM(m); }

// ---------------------------------------------------------------- load and support alphabets
template<int d> std::vector<Loads> loadCases()
{
    std::vector<Loads> r; Loads n; n.parametric=(d==2); n.name="none"; r.push_back(n);
    std::vector<std::string> fp={"0.3+x*y","-0.2+y*y","1.1-0.4*x*x+0.2*y"},fc={"0.3","-0.7","0.45"}; fp.resize(d); fc.resize(d);
    if (d==3) { Loads l=n; l.name="force"; l.force={"0.3+x*y","-0.2+z","1.1-0.4*x*x+0.2*z*y"}; r.push_back(l); }
    { Loads l=n; l.name="pforce"; l.parametric=true; l.force=fp; r.push_back(l); }
    if (d==3) { Loads l=n; l.name="press"; l.press="0.8+0.3*x-0.2*y*z"; r.push_back(l); l=n; l.name="found"; l.found={"0.4+x","0.9","1.3-0.2*y"}; r.push_back(l); }
    { Loads l=n; l.name="neu"; std::vector<std::string> f={"0.5-x","0.2*y+1","0.3+x*y"}; f.resize(d); l.neu.push_back({0,boundary::north,condition_type::neumann,-1,f}); std::vector<std::string> g={"y","-0.3","0.7*x"}; g.resize(d); l.neu.push_back({-1,boundary::east,condition_type::neumann,-1,g}); r.push_back(l); }
    auto v=[&](double a,double b,double c){ std::vector<double> q={a,b,c}; q.resize(d); return q; };
    { Loads l=n; l.name="point"; l.pts.push_back({0,{0.3,0.7},v(0.5,-1,2),true}); l.pts.push_back({-1,{1,0},v(0,0.25,-0.5),true}); r.push_back(l); l.pts.push_back({-1,{0.35,0.6},v(-0.6,0.2,1),false}); l.name="pointphys"; r.push_back(l); }
    { Loads l=n; l.name="all"; for(auto&x:r){ if(!x.force.empty()&&x.name!="pforce"||d==2&&!x.force.empty()){ l.force=x.force; l.parametric=x.parametric; } if(!x.press.empty()) l.press=x.press; if(!x.found.empty()) l.found=x.found; if(!x.neu.empty()) l.neu=x.neu; if(x.name=="point") l.pts=x.pts; } r.push_back(l); }
    return r;
}
template<int d> Loads loadCase(const std::string&n,size_t npatches){ for(auto l:loadCases<d>()) if(l.name==n){ for(auto&b:l.neu) if(b.patch<0) b.patch=npatches-1; for(auto&q:l.pts) if(q.patch<0) q.patch=npatches-1; return l; } throw std::runtime_error("no load "+n); }
