/* Explorer for patch layouts (C18): the same shell cut into patches that are numbered and oriented in every way. */
#include "scene.h"
using namespace mc;

struct Cell { double x0,x1,y0,y1; };
struct Layout { std::string name; std::vector<Cell> cells; };
inline std::vector<Layout> layouts(bool th)
{
    std::vector<Layout> r={{"2x1",{{0,0.4,0,1},{0.4,1,0,1}}},{"1x2",{{0,1,0,0.55},{0,1,0.55,1}}},{"2x2",{{0,0.4,0,0.55},{0.4,1,0,0.55},{0,0.4,0.55,1},{0.4,1,0.55,1}}}};
    if (th) { r.push_back({"3x1",{{0,0.3,0,1},{0.3,0.7,0,1},{0.7,1,0,1}}}); }
    return r;
}
struct Variant { std::vector<int> orient,order; std::string name() const { std::string s; for(size_t i=0;i<order.size();++i) s+=(i?",":"")+std::to_string(order[i])+"o"+std::to_string(orient[order[i]]); return s; } }; // order[p] = cell of patch p
inline std::vector<Variant> variants(int n,bool th)
{
    std::vector<Variant> r; std::vector<int> id(n); for(int i=0;i<n;++i) id[i]=i;
    std::vector<std::vector<int>> perms; { auto q=id; do perms.push_back(q); while(std::next_permutation(q.begin(),q.end())); }
    if (n==2) { for(int a=0;a<8;++a)for(int b=0;b<8;++b)for(auto&p:perms) r.push_back({{a,b},p}); return r; }
    // more cells: all numberings with a common orientation; every pair of cells in every pair of orientations
    for(int a=0;a<8;++a) for(auto&p:perms) r.push_back({std::vector<int>(n,a),p});
    for(int i=0;i<n;++i)for(int j=i+1;j<n;++j)for(int a=0;a<8;++a)for(int b=0;b<8;++b){ if (!th&&(a+3*b+i+j)%4) continue; std::vector<int> o(n,0); o[i]=a; o[j]=b; r.push_back({o,id}); r.push_back({o,perms[perms.size()-1]}); }
    return r;
}
static const boundary::side SIDES[4]={boundary::west,boundary::east,boundary::south,boundary::north};
/// the side of a patch whose corners lie on the given edge of the whole shell (0 west,1 east,2 south,3 north), -1 if none
template<class F> int sideOn(const gsGeometry<real_t>&g,F on)
{
    for(int k=0;k<4;++k){ Mx uv(2,2); if (k==0) uv<<0,0,0,1; if (k==1) uv<<1,1,0,1; if (k==2) uv<<0,1,0,0; if (k==3) uv<<0,1,1,1; Mx x; g.eval_into(uv,x); if (on(x.col(0))&&on(x.col(1))) return k; } return -1;
}
template<int d> struct Built
{
    std::unique_ptr<Scene<d>> s; std::unique_ptr<Asm> a; std::vector<int> cell; // cell of each patch
    MP def; std::map<std::pair<int,std::vector<long>>,std::vector<int>> key; int nf;
};
inline std::vector<long> posKey(const Mx&c,int i){ std::vector<long> r; for(index_t k=0;k<c.cols();++k) r.push_back(std::lround(c(i,k)*1e7)); return r; }
struct LConf { std::string geo,lay; Variant v; bool bending; std::string mode; std::string mats; bool press; };

template<int d> std::vector<std::string> matsOf(const LConf&f,int n){ std::vector<std::string> all; if (f.mats=="het") all={"SvKt","NHi","SvK","MRc"}; else all=std::vector<std::string>(4,f.mats); all.resize(n); return all; }
/// modes: strong (C0 by shared unknowns), open (no coupling), weak (penalty C0 and C1, gaps in the deformed state)
template<int d> Built<d> buildLayout(const LConf&f,const Layout&L,const ref::Poly&P,const ref::Poly*smooth)
{
    Built<d> b; int n=L.cells.size(); MP mp; std::vector<ref::Poly> pieces,dp;
    for(int p=0;p<n;++p){ int q=f.v.order[p],o=f.v.orient[q]; const Cell&c=L.cells[q]; ref::Poly w=P.restrict_(c.x0,c.x1,c.y0,c.y1).reparam(o&1,o&2,o&4); mp.addPatch(w.template spline<d>()); b.cell.push_back(q); if (smooth) dp.push_back(smooth->restrict_(c.x0,c.x1,c.y0,c.y1).reparam(o&1,o&2,o&4)); }
    mp.computeTopology(); b.s.reset(new Scene<d>(mp)); auto&s=*b.s; s.bending=f.bending; s.continuity=f.mode=="strong"?0:-1;
    // materials by cell
    auto names=matsOf<d>(f,n); std::vector<std::shared_ptr<MatObj<d>>> ms(n); for(int p=0;p<n;++p) ms[p].reset(new MatObj<d>(matSpec(names[b.cell[p]]),s.ori)); s.mats=ms; s.oneMat=false;
    // supports and edge loads by position: west edge x=0, east edge x=1, north edge y=1 of the whole shell
    auto corner=[&](double u,double v){ return P.d(u,v,0,0); };
    for(int p=0;p<n;++p) { const Cell&c=L.cells[b.cell[p]];
        auto edge=[&](int e){ V3 A,B; if (e==0) { if (c.x0!=0) return -1; A=corner(0,c.y0); B=corner(0,c.y1); } if (e==1) { if (c.x1!=1) return -1; A=corner(1,c.y0); B=corner(1,c.y1); } if (e==2) { if (c.y0!=0) return -1; A=corner(c.x0,0); B=corner(c.x1,0); } if (e==3) { if (c.y1!=1) return -1; A=corner(c.x0,1); B=corner(c.x1,1); }
            auto on=[&](const Mx&x){ double q=0,w=0; for(int k=0;k<d;++k){ q+=std::abs(x(k,0)-A[k]); w+=std::abs(x(k,0)-B[k]); } return q<1e-9||w<1e-9; }; return sideOn(s.ori.patch(p),on); };
        std::vector<std::string> aff={"0.1+0.2*x-0.1*y","0.05*x+0.3*y","0.2-0.1*x"}; aff.resize(d);
        int w=edge(0); if (w>=0) { if (f.mode=="weak") { s.bc.addCondition(p,SIDES[w],condition_type::weak_dirichlet,s.fun(aff,d)); if (d==3) s.bc.addCondition(p,SIDES[w],condition_type::weak_clamped,s.fun(std::vector<std::string>(d,"0"),d)); } else s.support({p,SIDES[w],condition_type::dirichlet,-1,aff}); }
        int so=edge(2); if (so>=0) s.support({p,SIDES[so],condition_type::dirichlet,0,{aff[0]}});
        int no=edge(3); if (no>=0) { std::vector<std::string> g={"0.5-x","0.2*y+1","0.3+x*y"}; g.resize(d); auto*F=s.fun(g,d); s.bc.addCondition(p,SIDES[no],condition_type::neumann,F); }
    }
    std::vector<std::string> fo={"0.3+x*y","-0.2+y","1.1-0.4*x*x+0.2*y"}; if (d==2) fo={"0.3","-0.7"}; s.force.reset(new gsFunctionExpr<real_t>(fo,d)); if (d==3) { s.found.reset(new gsFunctionExpr<real_t>("0.4+x","0.9","1.3-0.2*y",3)); if (f.press) s.press.reset(new gsFunctionExpr<real_t>("0.8+0.3*x-0.2*y",3)); }
    // a point load in the interior of the last cell
    for(int p=0;p<n;++p) if (b.cell[p]==n-1) { int o=f.v.orient[n-1]; double x=0.3,y=0.6; if (o&2) x=1-x; if (o&4) y=1-y; gsVector<real_t> u(2),v(d); if (o&1) u<<y,x; else u<<x,y; for(int k=0;k<d;++k) v[k]=0.5-0.7*k; s.pl.addLoad(u,v,p,true); }
    b.a=s.make(); if (f.mode=="weak") { gsOptionList o=b.a->options(); o.setReal("IfcPenalty",37); o.setReal("WeakDirichlet",21); o.setReal("WeakClamped",55); b.a->setOptions(o); b.a->addWeakC0(s.ori.interfaces()); b.a->addWeakC1(s.ori.interfaces()); }
    if (smooth) { b.def=s.ori; for(int p=0;p<n;++p) b.def.patch(p).coefs()=dp[p].template spline<d>().coefs(); }
    else b.def=displaced(s.ori,moveOf(d,"gen").u);
    if (f.mode!="strong"&&!smooth) for(int p=0;p<n;++p){ auto&c=b.def.patch(p).coefs(); const Mx&x=s.ori.patch(p).coefs(); for(index_t i=0;i<c.rows();++i)for(int k=0;k<d;++k) c(i,k)+=0.02*b.cell[p]*std::sin(3*x(i,0)+5*x(i,1)+k); }
    // names of the unknowns: component and position, with the cell unless the patches share their unknowns
    Numb nb(b.a->getMapper()); b.nf=nb.nf; for(int p=0;p<n;++p) for(index_t i=0;i<s.ori.patch(p).coefs().rows();++i) for(int k=0;k<d;++k){ int g=nb.id(i,p,k); if (g>=nb.nf) continue; b.key[{(f.mode=="strong"?0:100*b.cell[p])+k,posKey(s.ori.patch(p).coefs(),i)}].push_back(g); }
    return b;
}
struct Obs { EM KL,K,M,ML; EV FL,R; double area; };
template<int d> Obs observe(Ctx&c,Built<d>&b)
{
    Obs o; Asm&a=*b.a; c.ok(a.assemble()==OK_,"linear assembly succeeds"); o.KL=dense(a.matrix()); o.FL=a.rhs().col(0); c.ok(a.assemble(b.def)==OK_,"nonlinear assembly succeeds"); o.K=dense(a.matrix()); o.R=a.rhs().col(0); a.assembleMass(false); o.M=dense(a.massMatrix()); a.assembleMass(true); o.ML=dense(a.massMatrix()); o.area=a.getArea(b.def); c.op(5); return o;
}
template<int d> bool matchUp(Ctx&c,const Built<d>&x,const Built<d>&y,std::vector<int>&to)
{
    if (!c.ok(x.nf==y.nf,"number of unknowns",std::to_string(x.nf)+" vs "+std::to_string(y.nf))) return false; to.assign(x.nf,-1);
    for(auto&k:x.key){ auto it=y.key.find(k.first); if (!c.ok(it!=y.key.end(),"unknown exists in both layouts")) return false; std::set<int> q(k.second.begin(),k.second.end()),w(it->second.begin(),it->second.end()); if (!c.ok(q.size()==1&&w.size()==1,"one unknown per position")) return false; to[*q.begin()]=*w.begin(); }
    for(int i:to) if (!c.ok(i>=0,"every unknown has a position")) return false; return true;
}
inline EM permM(const EM&A,const std::vector<int>&to){ EM r(to.size(),to.size()); for(size_t i=0;i<to.size();++i)for(size_t j=0;j<to.size();++j) r(i,j)=A(to[i],to[j]); return r; }
inline EV permV(const EV&A,const std::vector<int>&to){ EV r(to.size()); for(size_t i=0;i<to.size();++i) r[i]=A[to[i]]; return r; }
inline void same(Ctx&c,const Obs&x,const Obs&y,const std::vector<int>&to,const std::string&w)
{
    double f=1e-3*std::max(x.R.cwiseAbs().maxCoeff(),x.FL.cwiseAbs().maxCoeff());
    c.closeM(permM(y.KL,to),x.KL,1e-9,w+"linear stiffness"); c.closeM(permV(y.FL,to),x.FL,1e-8,w+"linear load",f); c.closeM(permM(y.K,to),x.K,1e-8,w+"tangent"); c.closeM(permV(y.R,to),x.R,1e-8,w+"residual",f); c.closeM(permM(y.M,to),x.M,1e-9,w+"mass"); c.closeM(permM(y.ML,to),x.ML,1e-9,w+"lumped mass"); c.close(y.area,x.area,x.area,1e-10,w+"area");
}
template<int d> void c18(Check&ck)
{
    bool th=ck.thorough(); std::vector<bool> types; if (d==3) types={true,false}; else types={false};
    std::vector<std::string> geos={"quad"}; if (d==3) geos={"quad","curvedrot"};
    auto poly=[](const std::string&n){ for(auto&u:undeformed(3)) if(u.first==n) return u.second; throw std::runtime_error("surface"); };
    for(auto&L:layouts(th)) for(auto&v:variants(L.cells.size(),th)) for(bool bend:types) for(auto&g:geos) for(std::string mode:{"strong","open","weak"}) for(std::string m:{"het","SvKt"}) {
        if (mode=="weak"&&m=="het") continue; if (!th && L.cells.size()>2 && (m!="het"||mode=="open") && mode!="weak") continue; if (!th && d==3 && !bend && (mode=="open"||g=="quad")) continue;
        // pressure follows the normal: only for orientation-preserving parametrisations
        bool pos=true; for(int o:v.orient) if (__builtin_popcount(o)%2) pos=false;
        LConf f{g,L.name,v,bend,mode,m,pos};
        ck.add(std::string("d=")+std::to_string(d)+(d==3?(bend?",shell":",membrane"):",planar")+";geo="+g+";layout="+L.name+";patches="+v.name()+";coupling="+mode+";mat="+m,[f,L,poly](Ctx&c){
            int n=L.cells.size(); ref::Poly P=poly(f.geo); static std::map<std::string,std::pair<std::shared_ptr<Built<d>>,Obs>> cache; LConf base=f; base.v.orient.assign(n,0); base.v.order.clear(); for(int i=0;i<n;++i) base.v.order.push_back(i);
            std::string id=f.geo+f.lay+(f.bending?"b":"m")+f.mode+f.mats+(f.press?"p":""); if (!cache.count(id)) { std::shared_ptr<Built<d>> B(new Built<d>(buildLayout<d>(base,L,P,nullptr))); Obs o=observe<d>(c,*B); cache[id]={B,o}; }
            auto&B=cache[id]; Built<d> V=buildLayout<d>(f,L,P,nullptr); c.state(V.nf); Obs o=observe<d>(c,V); std::vector<int> to; if (matchUp<d>(c,*B.first,V,to)) same(c,B.second,o,to,"");
            // coupling of patches that move together smoothly is not felt
            if (f.mode=="weak") { ref::Poly D=P; if (d==3) { D=P.lin(ref::rot(V3{{0.3,1,0.2}},0.7)); D.c[2][0]=D.c[2][0]+V3{{0.02,0.03,0.2}}; D.c[1][1]=D.c[1][1]+V3{{0.05,-0.03,0.1}}; } else { D.c[2][0]=D.c[2][0]+V3{{0.1,0.03,0}}; D.c[1][1]=D.c[1][1]+V3{{0.05,-0.03,0}}; }
                Built<d> S=buildLayout<d>(f,L,P,&D); auto run=[&](bool on){ if (on) { S.a->addWeakC0(S.s->ori.interfaces()); S.a->addWeakC1(S.s->ori.interfaces()); } else { S.a->addWeakC0(gsBoxTopology::ifContainer()); S.a->addWeakC1(gsBoxTopology::ifContainer()); } S.a->assembleVector(S.def); c.op(); return EV(S.a->rhs().col(0)); };
                EV r1=run(true),r0=run(false); c.closeM(r1,r0,1e-9,"coupling has no force on a smooth deformation",1.0); }
        });
    }
    // one patch with a C0 line in its basis is the same shell as two patches
    for(bool bend:types) for(auto&g:geos) for(auto m:{"SvK","SvKt","NHi","NHct","MRc","OGi"}) for(auto&L:layouts(true)) { std::string mm=m; ck.add(std::string("d=")+std::to_string(d)+(d==3?(bend?",shell":",membrane"):",planar")+";geo="+g+";layout="+L.name+";single patch with C0 lines;mat="+m,[=](Ctx&c){
        ref::Poly P=poly(g); int n=L.cells.size(); Variant v; v.orient.assign(n,0); for(int i=0;i<n;++i) v.order.push_back(i); LConf f{g,L.name,v,bend,"strong",mm,true}; Built<d> B=buildLayout<d>(f,L,P,nullptr); c.state(B.nf); Obs o=observe<d>(c,B);
        Layout one{"1x1",{{0,1,0,1}}}; Variant v1; v1.orient={0}; v1.order={0}; LConf f1{g,"1x1",v1,bend,"strong",mm,true};
        // the same control net: insert each cut twice
        Built<d> S; { MP mp; gsTensorBSpline<2,real_t> sp=P.template spline<d>(); std::set<double> cx,cy; for(auto&q:L.cells){ if(q.x1<1) cx.insert(q.x1); if(q.y1<1) cy.insert(q.y1); } for(double x:cx) sp.insertKnot(x,0,2); for(double y:cy) sp.insertKnot(y,1,2); mp.addPatch(sp); mp.computeTopology();
            S.s.reset(new Scene<d>(mp)); auto&s=*S.s; s.bending=bend; s.continuity=0; s.materials({mm}); std::vector<std::string> aff={"0.1+0.2*x-0.1*y","0.05*x+0.3*y","0.2-0.1*x"}; aff.resize(d); s.support({0,boundary::west,condition_type::dirichlet,-1,aff}); s.support({0,boundary::south,condition_type::dirichlet,0,{aff[0]}}); std::vector<std::string> gg={"0.5-x","0.2*y+1","0.3+x*y"}; gg.resize(d); s.bc.addCondition(0,boundary::north,condition_type::neumann,s.fun(gg,d));
            std::vector<std::string> fo={"0.3+x*y","-0.2+y","1.1-0.4*x*x+0.2*y"}; if (d==2) fo={"0.3","-0.7"}; s.force.reset(new gsFunctionExpr<real_t>(fo,d)); if (d==3) { s.found.reset(new gsFunctionExpr<real_t>("0.4+x","0.9","1.3-0.2*y",3)); s.press.reset(new gsFunctionExpr<real_t>("0.8+0.3*x-0.2*y",3)); }
            const Cell&q=L.cells[n-1]; gsVector<real_t> u(2),w(d); u<<q.x0+0.3*(q.x1-q.x0),q.y0+0.6*(q.y1-q.y0); for(int k=0;k<d;++k) w[k]=0.5-0.7*k; s.pl.addLoad(u,w,0,true); S.a=s.make(); S.def=displaced(s.ori,moveOf(d,"gen").u); Numb nb(S.a->getMapper()); S.nf=nb.nf; for(index_t i=0;i<s.ori.patch(0).coefs().rows();++i)for(int k=0;k<d;++k){ int gi=nb.id(i,0,k); if(gi<nb.nf) S.key[{k,posKey(s.ori.patch(0).coefs(),i)}].push_back(gi); } }
        Obs os=observe<d>(c,S); std::vector<int> to; if (matchUp<d>(c,B,S,to)) same(c,o,os,to,"one patch: ");
    }); }
}
int main(int argc,char**argv)
{
    Check ck(argc,argv,"C18"); c18<3>(ck); c18<2>(ck);
    ck.bound("cuts of one shell into 2 (two directions), 4 and (thorough) 3 patches x all numberings x orientations of the patches (all 64 pairs for 2 patches; for more all common ones and pairs) x element kinds x surfaces x strong/no/penalty coupling x per-patch materials; linear system, tangent, residual, consistent and lumped mass, area matched by position of the control points");
    ck.assume("unknowns of different layouts are identified through the positions of their undeformed control points");
    return ck.run();
}
