/* Explorer for representations (C22): deformed geometries given as splines on other spaces, sums of functions or general functions; mapped discretisation spaces; sums of functions themselves. */
#include "scene.h"
#include <gsKLShell/src/gsFunctionSum.h>
#include <gsMSplines/gsMappedBasis.h>
using namespace mc;
typedef gsFunctionSet<real_t> FS; typedef gsFunctionSum<real_t> Sum;

// ------------------------------------------------------------------ a geometry that is nothing but functions
struct Plain : public gsFunction<real_t>
{
    const gsGeometry<real_t>*g; explicit Plain(const gsGeometry<real_t>&x) : g(&x) {}
    GISMO_CLONE_FUNCTION(Plain)
    short_t domainDim() const { return g->domainDim(); } short_t targetDim() const { return g->targetDim(); } Mx support() const { return g->support(); }
    void eval_into(const Mx&u,Mx&r) const { g->eval_into(u,r); } void deriv_into(const Mx&u,Mx&r) const { g->deriv_into(u,r); } void deriv2_into(const Mx&u,Mx&r) const { g->deriv2_into(u,r); }
    std::ostream&print(std::ostream&o) const { return o; }
};
struct PlainSet : public FS
{
    MP m; std::vector<Plain> p; explicit PlainSet(const MP&x) : m(x) { for(size_t i=0;i<m.nPatches();++i) p.emplace_back(m.patch(i)); } PlainSet(const PlainSet&o) : m(o.m) { for(size_t i=0;i<m.nPatches();++i) p.emplace_back(m.patch(i)); }
    GISMO_CLONE_FUNCTION(PlainSet)
    short_t domainDim() const { return 2; } short_t targetDim() const { return m.targetDim(); } index_t nPieces() const { return p.size(); } index_t size() const { return p.size(); } const gsFunction<real_t>&piece(const index_t k) const { return p[k]; } const gsFunction<real_t>&function(const index_t k) const { return p[k]; }
    std::ostream&print(std::ostream&o) const { return o; }
};
inline MP minusMP(MP a,const MP&b){ for(size_t p=0;p<a.nPatches();++p) a.patch(p).coefs()-=b.patch(p).coefs(); return a; }
inline MP scaled(MP a,double s){ for(size_t p=0;p<a.nPatches();++p) a.patch(p).coefs()*=s; return a; }
/// ways to hand over one and the same geometry
struct Repr { std::vector<std::shared_ptr<MP>> keep; std::vector<std::shared_ptr<FS>> sets; const FS*f=nullptr; MP*add(const MP&m){ keep.emplace_back(new MP(m)); return keep.back().get(); } template<class T> T*own(T*s){ sets.emplace_back(s); return s; } };
static const char*KINDS[]={"same","refined","elevated","sum2","sum3","sumcopy","functions","sumfun"}; static const int NK=8;
inline Repr repr(int k,const MP&ori,const MP&def)
{
    Repr r; MP u=minusMP(def,ori);
    switch(k){ case 0: r.f=r.add(def); break; case 1: { MP m=def; m.uniformRefine(); r.f=r.add(m); break; } case 2: { MP m=def; m.degreeElevate(1); r.f=r.add(m); break; }
    case 3: r.f=r.own(new Sum(r.add(ori),r.add(u))); break; case 4: { MP v=scaled(u,0.25),w=scaled(u,0.75); w.uniformRefine(); r.f=r.own(new Sum(std::vector<const FS*>{r.add(ori),r.add(v),r.add(w)})); break; }
    case 5: { Sum*a=new Sum(r.add(ori),r.add(u)); Sum*b=r.own(new Sum(*a)); delete a; r.f=b; break; }
    case 6: r.f=r.own(new PlainSet(def)); break; default: r.f=r.own(new Sum(r.own(new PlainSet(ori)),r.add(u))); }
    return r;
}
// ------------------------------------------------------------------ sums of functions
inline Mx points(){ Mx x(2,5); x<<0,0.3,0.55,0.9,1, 0.2,1,0.5,0.05,0; return x; }
inline void judge(Ctx&c,const Sum&s,const std::vector<const FS*>&fs,const std::string&w)
{
    c.ok(s.nPieces()==fs[0]->nPieces()&&s.size()==fs[0]->nPieces(),"number of pieces"+w); c.ok(s.domainDim()==2&&s.targetDim()==fs[0]->targetDim()&&s.funcSize()==(index_t)fs.size(),"dimensions"+w);
    for(index_t p=0;p<fs[0]->nPieces();++p){ c.state(); auto&f=s.piece(p); auto cl=f.clone(); Mx u=points(); c.ok(f.domainDim()==2&&f.targetDim()==fs[0]->targetDim(),"dimensions of a piece"+w); Mx sp=f.support(); Mx one(2,2); one<<0,1,0,1; c.ok(sp.rows()==2&&sp.cols()==2&&sp==one,"support of a piece"+w);
        Mx v[3]; std::vector<Mx> all; for(int k=0;k<3;++k) for(size_t i=0;i<fs.size();++i){ Mx t; auto&g=fs[i]->piece(p); if (k==0) g.eval_into(u,t); else if (k==1) g.deriv_into(u,t); else g.deriv2_into(u,t); if (i==0) v[k]=t; else v[k]+=t; }
        for(int n=0;n<2;++n){ const gsFunction<real_t>&g=n?*cl:(const gsFunction<real_t>&)f; std::string z=(n?", cloned piece":"")+w; Mx t; g.eval_into(u,t); c.closeM(t,v[0],1e-12,"values"+z); g.deriv_into(u,t); c.closeM(t,v[1],1e-12,"first derivatives"+z); g.deriv2_into(u,t); c.closeM(t,v[2],1e-12,"second derivatives"+z);
            for(int m=0;m<3;++m){ g.evalAllDers_into(u,m,all); c.op(); if (c.ok((int)all.size()==m+1,"number of derivatives"+z)) for(int k=0;k<=m;++k) c.closeM(all[k],v[k],1e-12,"all derivatives up to "+std::to_string(m)+z); }
            for(index_t j=0;j<u.cols();++j){ Mx x=u.col(j); g.eval_into(x,t); c.closeM(t,Mx(v[0].col(j)),1e-12,"value at a single point"+z); } } }
}
template<int d> void sums(Check&ck)
{
    std::vector<std::string> geos={"sq","quad","nurbs","two","three"}; if (d==3) { geos.push_back("curv2"); geos.push_back("twoC"); }
    // all words over the function alphabet up to length 3
    for(auto&g:geos) for(int n=1;n<=3;++n) for(int code=0;code<(n==1?4:n==2?16:64);++code) ck.add("sum;d="+std::to_string(d)+";geo="+g+";n="+std::to_string(n)+";code="+std::to_string(code),[=](Ctx&c){
        MP o=geometry<d>(g); MP a=minusMP(displaced(o,moveOf(d,"gen").u),o),b=o; b.uniformRefine(); PlainSet q(displaced(o,moveOf(d,"stretch").u)); MP e=a; e.degreeElevate(1); const FS*al[4]={&a,&b,&q,&e}; std::vector<const FS*> w,z; int k=code; for(int i=0;i<n;++i){ w.push_back(al[k%4]); z.push_back(al[(k+1)%4]); k/=4; }
        alignas(Sum) char mem[sizeof(Sum)]; Sum*s=new(mem) Sum(w); judge(c,*s,w,""); c.op(); if (n==2) { Sum t(w[0],w[1]); judge(c,t,w,", two-function constructor"); }
        Sum cp(*s); judge(c,cp,w,", copy"); judge(c,*s,w,", after copying"); s->~Sum(); s=new(mem) Sum(z); judge(c,cp,w,", copy that outlives the original"); Sum cc(cp); judge(c,cc,w,", copy of a copy"); judge(c,*s,z,", another sum"); s->~Sum(); });
}
// ------------------------------------------------------------------ representations of the deformed geometry
struct Seen { std::vector<std::pair<std::string,Mx>> v; void put(const std::string&n,const Mx&m){ v.push_back({n,m}); } void num1(const std::string&n,double x){ Mx m(1,1); m(0,0)=x; put(n,m); } };
template<int d> Seen look(Ctx&c,Scene<d>&s,const FS&def,const FS&prev,bool weak)
{
    Seen o; auto a=s.make(); if (weak) { gsBoxTopology::ifContainer I=s.ori.interfaces(); a->addWeakC0(I); a->addWeakC1(I); } auto ok=[&](St st,const char*w){ c.op(); c.ok(st==OK_,std::string("success of ")+w); }; size_t np=s.ori.nPatches();
    ok(a->assembleMatrix(def),"assembleMatrix"); o.put("tangent",dense(a->matrix())); ok(a->assembleVector(def),"assembleVector"); o.put("residual",a->rhs()); ok(a->assemble(def),"assemble"); o.put("tangent, full assembly",dense(a->matrix())); o.put("residual, full assembly",a->rhs());
    if (d==3&&s.bending) { Mx um=Mx::Constant(a->numDofs(),1,0.01); ok(a->assembleMatrix(def,prev,um),"assembleMatrix with previous"); o.put("tangent with extrapolated stresses",dense(a->matrix())); }
    if (d==3) { ok(a->assemblePressureVector(0.7,def),"assemblePressureVector"); o.put("pressure vector",a->rhs()); ok(a->assemblePressureMatrix(0.7,def),"assemblePressureMatrix"); o.put("pressure matrix",dense(a->matrix())); }
    o.num1("area",a->getArea(def)); o.num1("displacement norm",a->getDisplacementNorm(def)); c.op(2); if (np>1) { o.num1("C0 gap",a->interfaceErrorC0(def)); if (d==3) { o.num1("G1 gap",a->interfaceErrorG1(def)); o.num1("normal gap",a->interfaceErrorNormal(def)); o.num1("Gauss curvature gap",a->interfaceErrorGaussCurvature(def)); o.num1("mean curvature gap",a->interfaceErrorMeanCurvature(def)); } }
    for(size_t p=0;p<np;++p) for(int sd=1;sd<=4;++sd){ o.put("reaction",a->boundaryForce(def,patchSide(p,boxSide(sd)))); c.op(); }
    Mx u=points(); std::vector<stress_type::type> ty={stress_type::displacement,stress_type::membrane,stress_type::membrane_strain,stress_type::principal_stretch,stress_type::principal_membrane_strain,stress_type::principal_stress_membrane}; if (d==3) { ty.push_back(stress_type::flexural); ty.push_back(stress_type::flexural_strain); ty.push_back(stress_type::membrane_force); }
    for(auto t:ty){ gsPiecewiseFunction<real_t> f; a->constructStress(def,f,t); for(size_t p=0;p<np;++p){ Mx r; f.piece(p).eval_into(u,r); o.put("field "+std::to_string((int)t),r); c.op(); } }
    o.put("principal stretches",a->computePrincipalStretches(u,def)); c.op();
    for(size_t p=0;p<np;++p){ gsMaterialMatrixBase<real_t>*m=s.mats[p]->get(); gsMaterialMatrixIntegrate<real_t,MaterialOutput::VectorN> N(m,&s.ori,&def); gsMaterialMatrixIntegrate<real_t,MaterialOutput::MatrixD> D(m,&s.ori,&def); Mx r; N.piece(p).eval_into(u,r); o.put("membrane force",r); D.piece(p).eval_into(u,r); o.put("bending stiffness",r); c.op(2); }
    return o;
}
template<int d> void reprs(Check&ck)
{
    std::vector<bool> types={true,false}; if (d==2) types={false}; std::vector<std::string> geos={"quad","nurbs","two","twoR"}; if (d==3) { geos.push_back("curv2"); geos.push_back("twoC"); } if (ck.thorough()) { geos.push_back("quad2"); geos.push_back("three"); }
    for(auto&g:geos) for(bool b:types) for(std::string m:{"SvKt","NHct"}) for(auto&mv:moves(d)) for(std::string bc:{"left","mix"}) for(int k=1;k<NK;++k) if (g!="nurbs"||k!=1&&k!=4) for(int weak=0;weak<2;++weak) { bool multi=geometry<d>(g).nPatches()>1; if (weak&&(!multi||d==2)) continue; if (!ck.thorough()&&bc=="mix"&&mv.name!="gen") continue; Conf f={g,{m},mv.name,"all",bc,b,1,1,multi&&!weak?0:-1};
        ck.add("repr;kind="+std::string(KINDS[k])+(weak?";weak;":";")+f.key(d),[=](Ctx&c){ auto s=scene<d>(f); MP def=displaced(s->ori,mv.u),prev=displaced(s->ori,moveOf(d,"stretch").u); Repr r=repr(k,s->ori,def),q=repr((k+1)%NK,s->ori,prev); c.state(); Seen e=look<d>(c,*s,def,prev,weak),x=look<d>(c,*s,*r.f,*q.f,weak); double sc=0; for(auto&y:e.v) if (y.first=="tangent") sc=y.second.cwiseAbs().maxCoeff();
            for(size_t i=0;i<e.v.size();++i){ bool force=e.v[i].first.find("residual")==0||e.v[i].first=="pressure vector"||e.v[i].first=="reaction"; double gap=e.v[i].first.find(" gap")!=std::string::npos?1:1e-3; if (c.ok(x.v[i].second.rows()==e.v[i].second.rows()&&x.v[i].second.cols()==e.v[i].second.cols(),"size of "+e.v[i].first)) c.closeM(x.v[i].second,e.v[i].second,1e-8,e.v[i].first,force?sc*0.1:gap); } });
    }
}
// ------------------------------------------------------------------ mapped spaces
template<int d> gsSparseMatrix<real_t> mapOf(const std::string&n,const Scene<d>&s)
{
    std::vector<int> off(1,0); for(size_t p=0;p<s.ori.nPatches();++p) off.push_back(off.back()+s.mb.basis(p).size()); int N=off.back(); EM A=EM::Identity(N,N);
    if (n=="band") for(int i=0;i+1<N;++i){ bool same=false; for(size_t p=0;p<s.ori.nPatches();++p) same=same||(i>=off[p]&&i+1<off[p+1]); if (same) A(i,i+1)=0.3; }
    if (n=="pairs") { EM B=EM::Zero(N,0); for(size_t p=0;p<s.ori.nPatches();++p) for(int i=off[p];i<off[p+1];i+=2){ B.conservativeResize(N,B.cols()+1); B.col(B.cols()-1).setZero(); B(i,B.cols()-1)=0.6; if (i+1<off[p+1]) B(i+1,B.cols()-1)=0.4; } A=B; }
    if (n=="glue") { std::vector<int> id(N); for(int i=0;i<N;++i) id[i]=i; for(auto&f:s.ori.interfaces()){ gsMatrix<index_t> a,b; s.mb.basis(f.first().patch).matchWith(f,s.mb.basis(f.second().patch),a,b); for(index_t k=0;k<a.size();++k){ int x=off[f.first().patch]+a.at(k),y=off[f.second().patch]+b.at(k); int lo=std::min(id[x],id[y]),hi=std::max(id[x],id[y]); for(auto&q:id) if (q==hi) q=lo; } } std::map<int,int> nw; for(int q:id) if (!nw.count(q)) { int k=nw.size(); nw[q]=k; } A.setZero(N,nw.size()); for(int i=0;i<N;++i) A(i,nw[id[i]])=1; }
    gsSparseMatrix<real_t> S(A.rows(),A.cols()); for(int i=0;i<A.rows();++i) for(int j=0;j<A.cols();++j) if (A(i,j)!=0) S.coeffRef(i,j)=A(i,j); S.makeCompressed(); return S;
}
template<int d> void mapped(Check&ck)
{
    std::vector<bool> types={true,false}; if (d==2) types={false}; std::vector<std::string> geos={"quad","nurbs","two"}; if (d==3) { geos.push_back("curv2"); geos.push_back("twoC"); geos.push_back("twoR"); }
    for(auto&g:geos) for(bool b:types) for(std::string m:{"SvKt","NHct"}) for(auto&mv:moves(d)) for(std::string load:{"all","point"}) for(std::string mp:{"id","band","pairs","glue"}) for(std::string bc:{"free","left"}) { bool multi=geometry<d>(g).nPatches()>1; if (mp=="glue"&&!multi) continue; if (bc=="left"&&(mp=="band"||mp=="pairs")) continue; if (!ck.thorough()&&load=="point"&&mv.name!="gen") continue; Conf f={g,{m},mv.name,load,bc,b,1,1,-1};
        ck.add("mapped;map="+mp+";"+f.key(d),[=](Ctx&c){
            auto s=scene<d>(f); Conf f0=f; f0.bc="free"; auto s0=scene<d>(f0); MP def=displaced(s->ori,mv.u); auto a0=s0->make(); Numb nb(a0->getMapper()); gsSparseMatrix<real_t> S=mapOf<d>(mp,*s); gsMappedBasis<2,real_t> sb(s->mb,S); EM A=dense(S); std::vector<int> off(1,0); for(size_t p=0;p<s->ori.nPatches();++p) off.push_back(off.back()+s->mb.basis(p).size());
            gsPointLoads<real_t> pm; gsVector<real_t> x(2),v(1); x<<0.3,0.6; v<<2.5; pm.addLoad(x,v,0,true); x<<0.8,0.2; v<<0.7; pm.addLoad(x,v,(int)s->ori.nPatches()-1,true);
            auto a=s->make(); a->setPointMass(pm); a0->setPointMass(pm); a->setSpaceBasis(sb); const gsDofMapper&M=a->getMapper(); int G=A.cols(),n=M.freeSize(); c.ok(a->numDofs()==n,"number of unknowns"); 
            // columns of the change of unknowns: free unknowns of the mapped space in terms of the unknowns of the patches
            EM T=EM::Zero(nb.nt,n); int elim=0; for(int i=0;i<G;++i) for(int k=0;k<d;++k){ int gi=M.index(i,0,k); bool onb=false; if (bc=="left") { gsMatrix<index_t> ix=s->mb.basis(0).boundary(boundary::west); for(index_t q=0;q<ix.rows();++q) if (A(ix(q,0),i)!=0) onb=true; } c.ok(M.is_free_index(gi)!=onb,"supported functions are eliminated"); if (!M.is_free_index(gi)) { elim++; continue; } for(size_t p=0;p<s->ori.nPatches();++p) for(int q=off[p];q<off[p+1];++q) if (A(q,i)!=0) T(nb.id(q-off[p],p,k),gi)=A(q,i); }
            c.ok(n==d*G-elim,"every function carries one unknown per component"); c.state(n); auto P=[&](const EM&K){ return EM(T.transpose()*K*T); }; auto q=[&](const EM&r){ return EM(T.transpose()*r); };
            auto run=[&](Asm&z,int k,EM&K,EM&r){ St st=OK_; if (k==0) { st=z.assemble(); K=dense(z.matrix()); r=z.rhs(); } else if (k==1) { st=z.assembleMatrix(def); K=dense(z.matrix()); St t2=z.assembleVector(def); r=z.rhs(); if (t2!=OK_) st=t2; } else if (k==2) { st=z.assembleMass(false); K=dense(z.massMatrix()); r=EM::Zero(K.rows(),1); } c.op(); c.ok(st==OK_,"assembly succeeds"); };
            const char*nm[3]={"linear system","nonlinear system","mass"}; for(int rep=0;rep<2;++rep) for(int k=0;k<3;++k){ EM K0,r0,K,r; run(*a0,k,K0,r0); run(*a,k,K,r); double sc=K0.cwiseAbs().maxCoeff(); c.closeM(K,P(K0),1e-9,std::string(nm[k])+": matrix",sc*1e-3); c.closeM(r,q(r0),1e-9,std::string(nm[k])+": vector",k==1?sc*0.1:1e-3*(1e-9+r0.cwiseAbs().maxCoeff())); if (k==2&&bc=="free"&&(mp=="id"||mp=="glue")) { a->assembleMass(true); c.op(); EM L=dense(a->massMatrix()),E=EM(EV(K.rowwise().sum()).asDiagonal()); c.closeM(L,E,1e-9,"lumped mass"); } }
            // conversions: the displacement of a vector is the combination of the mapped functions
            for(int k=-1;k<n;k+=(k<0?1:std::max(1,n/12))){ Mx w(n,1); if (k<0) for(int i=0;i<n;++i) w(i,0)=0.01*((i*7)%11-5); else { w.setZero(); w(k,0)=1; } MP u=a->constructDisplacement(w),y=a->constructSolution(w); c.op(2); EM e=T*w; for(size_t p=0;p<s->ori.nPatches();++p){ Mx E(off[p+1]-off[p],d); for(index_t i=0;i<E.rows();++i) for(int z=0;z<d;++z) E(i,z)=e(nb.id(i,p,z),0); c.closeM(u.patch(p).coefs(),E,1e-10,"displacement of a vector"); c.closeM(y.patch(p).coefs(),Mx(E+s->ori.patch(p).coefs()),1e-10,"geometry of a vector"); } }
            { Mx w(n,1); for(int i=0;i<n;++i) w(i,0)=0.004*((i*7)%11-5); MP y=a->constructSolution(w); St s1=a->assemble(w); EM K=dense(a->matrix()),r=a->rhs(); St s2=a->assemble(y); c.op(2); c.ok(s1==OK_&&s2==OK_,"assembly of a vector succeeds"); c.closeM(K,dense(a->matrix()),1e-12,"tangent of a vector"); c.closeM(r,EM(a->rhs()),1e-12,"residual of a vector"); }
            // the plain space again
            { a->setSpaceBasis(a->basis()); auto z=s->make(); z->setPointMass(pm); for(int k=0;k<3;++k){ EM K0,r0,K,r; run(*z,k,K0,r0); run(*a,k,K,r); if (c.ok(K.rows()==K0.rows(),"size after returning to the plain space")) { c.closeM(K,K0,1e-12,"matrix after returning to the plain space"); c.closeM(r,r0,1e-12,"vector after returning to the plain space"); } } }
        });
    }
}
int main(int argc,char**argv)
{
    Check ck(argc,argv,"C22"); sums<3>(ck); sums<2>(ck); reprs<3>(ck); reprs<2>(ck); mapped<3>(ck); mapped<2>(ck);
    ck.bound("all sums of 1 to 3 functions over an alphabet of 4 (splines on the same, a refined, an elevated space; general functions), their copies and clones; 8 representations of the deformed (and previous) geometry x geometries x element kinds x materials x deformations x supports x couplings x all assembly and evaluation entry points; 4 maps (identity, banded, pairs, glued patches) of the discretisation space x geometries x element kinds x materials x deformations x loads x supports");
    ck.assume("representations on refined spaces only for polynomial splines (the core evaluates a rational geometry with the functions active at the first quadrature point of an element); supports of mapped spaces without prescribed values");
    return ck.run();
}
