/* Explorer for the assembler as a state machine: call histories (C15), conversion of unknowns (C16), mass (C17). */
#include "scene.h"
using namespace mc;

// ------------------------------------------------------------------ C15
/// the settings a user can see; everything else of an assembler must be unobservable
struct Set { bool pending=false; int geo=0,basis=0,bc=0,press=0,found=0,pl=0,cont=-1,qu=0,pen=0,ifc=0,pm=0; std::string id() const { std::ostringstream o; o<<geo<<basis<<bc<<press<<found<<pl<<cont<<qu<<pen<<ifc<<pm; return o.str(); } };
struct Res { bool has=false; int st=-1; int n=-1; EM K,R,X; };
template<int d,bool b> struct World
{
    typedef gsThinShellAssembler<d,real_t,b> A; typedef std::unique_ptr<A> P;
    MP g[2]; gsMultiBasis<real_t> mb[2]; gsBoundaryConditions<real_t> bc[3]; std::vector<std::shared_ptr<gsFunctionExpr<real_t>>> keep; std::unique_ptr<gsFunctionExpr<real_t>> force,press[3],found; gsPointLoads<real_t> pl[3],pm[2]; std::unique_ptr<gsFunctionExpr<real_t>> pforce; std::vector<std::shared_ptr<MatObj<d>>> mats,mats2; gsMaterialMatrixContainer<real_t> cont; bool single;
    MP def[2]; MP prev;
    gsFunctionExpr<real_t>* fun(std::vector<std::string> e){ e.resize(std::min<size_t>(e.size(),d)); keep.emplace_back(new gsFunctionExpr<real_t>(e,d)); return keep.back().get(); }
    World(bool oneMat) : cont(2), single(oneMat)
    {
        g[0]=geometry<d>(d==3?"twoR":"two"); if (oneMat) g[0]=geometry<d>("quad"); g[1]=displaced(g[0],[](const V3&x){ return V3{{0.1*x[1],-0.05*x[0]*x[1],d==3?0.2*x[0]:0}}; });
        mb[0]=gsMultiBasis<real_t>(g[0]); mb[1]=mb[0]; mb[1].uniformRefine();
        int last=g[0].nPatches()-1;
        bc[0].addCondition(0,boundary::west,condition_type::dirichlet,(gsFunctionSet<real_t>*)nullptr,0,false,-1);
        bc[1].addCondition(0,boundary::west,condition_type::dirichlet,fun({"0.1+0.2*x-0.1*y","0.05*x+0.3*y","0.2-0.1*x"}),0,false,-1); bc[1].addCondition(last,boundary::south,condition_type::dirichlet,(gsFunctionSet<real_t>*)nullptr,0,false,0); bc[1].addCondition(last,boundary::north,condition_type::neumann,fun({"0.5-x","0.2*y+1","0.3+x*y"}));
        bc[2].addCondition(0,boundary::west,condition_type::weak_dirichlet,fun({"0.1+0.2*x-0.1*y","0.05*x+0.3*y","0.2-0.1*x"})); bc[2].addCondition(last,boundary::north,condition_type::collapsed,(gsFunctionSet<real_t>*)nullptr,0,false,0); bc[2].addCondition(0,boundary::south,condition_type::dirichlet,fun({"0.1"}),0,false,1);
        for(auto&x:bc) x.setGeoMap(g[0]);
        std::vector<std::string> f={"0.3+x*y","-0.2+y","1.1-0.4*x*x"}; f.resize(d); std::vector<std::string> fp={"0.2+x","0.5*y-x","0.9+0.4*x*y"}; fp.resize(d); force.reset(new gsFunctionExpr<real_t>(oneMat&&d==3?fp:f,oneMat?2:d)); pforce.reset(new gsFunctionExpr<real_t>(fp,oneMat?d:2)); // a force in parametric coordinates and one in physical ones
        press[0].reset(new gsFunctionExpr<real_t>("0.8+0.3*x",d)); press[1].reset(new gsFunctionExpr<real_t>("-1.2+y",d)); press[2].reset(new gsFunctionExpr<real_t>("1","2",d)); // the last one has a wrong dimension
        found.reset(new gsFunctionExpr<real_t>("0.4+x","0.9","1.3-0.2*y",3));
        gsVector<real_t> x(2),v(d); x<<0.3,0.7; for(int i=0;i<d;++i) v[i]=0.5-0.4*i; pl[0].addLoad(x,v,0,true); x<<1,0.2; pl[1].addLoad(x,-v,last,true); pl[1].addLoad(x,v,0,true); pl[2].addLoad(x,v,7,true); // the last one lies on a patch that does not exist
        { gsVector<real_t> m(1); m<<3; x<<0.4,0.6; pm[0].addLoad(x,m,last,true); m<<2; x<<0.1,1; pm[1].addLoad(x,m,0,true); m<<0.5; pm[1].addLoad(x,m,last,true); }
        std::vector<std::string> names=oneMat?std::vector<std::string>{"SvKt"}:std::vector<std::string>{"SvKt","NHi"}; for(auto&n:names) mats.emplace_back(new MatObj<d>(matSpec(n),g[0]));
        cont=gsMaterialMatrixContainer<real_t>(g[0].nPatches()); for(size_t p=0;p<g[0].nPatches();++p) cont.set(p,mats[p%mats.size()]->get());
        for(int i=0;i<2;++i) def[i]=displaced(g[i],moveOf(d,"gen").u); prev=displaced(g[0],moveOf(d,"stretch").u);
    }
    /// an assembler in which every setting differs from the defaults: what is assigned to it must replace all of them
    P other(){ if (mats2.empty()) mats2.emplace_back(new MatObj<d>(matSpec("SvK"),g[1])); P a(new A(g[1],mb[1],bc[1],*pforce,mats2.back()->get())); Set s; s.cont=0; s.qu=s.pen=1; gsOptionList o=a->options(); opt(o,s); o.setReal("WeakClamped",7); a->setOptions(o); a->setPressure(*press[0]); if (d==3) a->setFoundation(*found); a->setPointLoads(pl[0]); a->setPointMass(pm[1]); a->addWeakC0(g[0].interfaces()); a->addWeakC1(g[0].interfaces()); return a; }
    P make() { return P(single? new A(g[0],mb[0],bc[0],*force,mats[0]->get()) : new A(g[0],mb[0],bc[0],*force,cont)); }
    void opt(gsOptionList&o,const Set&s){ o.setInt("Continuity",s.cont); o.setReal("ExprAssembler.quA",s.qu?2:1); o.setReal("WeakDirichlet",s.pen?17:1e3); o.setReal("IfcPenalty",s.pen?5:1e3); }
    P fresh(const Set&s)
    {
        P a(single? new A(g[s.geo],mb[s.basis],bc[s.bc],*force,mats[0]->get()) : new A(g[s.geo],mb[s.basis],bc[s.bc],*force,cont));
        gsOptionList o=a->options(); opt(o,s); a->setOptions(o); if (s.press) a->setPressure(*press[s.press-1]); if (s.found) a->setFoundation(*found); if (s.pl) a->setPointLoads(pl[s.pl-1]);
        if (s.pm) a->setPointMass(pm[s.pm-1]);
        if (s.ifc==1) a->addWeakC0(g[0].interfaces()); if (s.ifc==2) { a->addWeakC1(g[0].interfaces()); }
        return a;
    }
};
template<int d,bool b> struct Op { std::string name; bool observes; std::function<bool(const Set&)> enabled; std::function<void(World<d,b>&,Set&,typename World<d,b>::P&,Res&)> run; };
inline Mx vecOf(int n){ Mx u(n,1); for(int i=0;i<n;++i) u(i,0)=0.02*((i*7)%11-5)/5.0; return u; }
template<int d,bool b> std::vector<Op<d,b>> alphabet()
{
    typedef World<d,b> W; typedef typename W::P P; std::vector<Op<d,b>> r; auto yes=[](const Set&){ return true; };
    auto mut=[&](const std::string&n,std::function<void(W&,Set&,P&)> f,std::function<bool(const Set&)> en){ r.push_back({n,false,en,[f](W&w,Set&s,P&a,Res&){ f(w,s,a); }}); };
    auto obs=[&](const std::string&n,std::function<void(W&,Set&,P&,Res&)> f,std::function<bool(const Set&)> en){ r.push_back({n,true,en,f}); };
    // --- settings
    mut("press1",[](W&w,Set&s,P&a){ s.press=1; a->setPressure(*w.press[0]); },yes);
    mut("press2",[](W&w,Set&s,P&a){ s.press=2; a->setPressure(*w.press[1]); },yes);
    mut("badpress",[](W&w,Set&s,P&a){ s.press=3; a->setPressure(*w.press[2]); },[](const Set&){ return d==3; });
    mut("found",[](W&w,Set&s,P&a){ s.found=1; a->setFoundation(*w.found); },[](const Set&){ return d==3; });
    mut("points1",[](W&w,Set&s,P&a){ s.pl=1; a->setPointLoads(w.pl[0]); },yes);
    mut("points2",[](W&w,Set&s,P&a){ s.pl=2; a->setPointLoads(w.pl[1]); },yes);
    mut("badpoints",[](W&w,Set&s,P&a){ s.pl=3; a->setPointLoads(w.pl[2]); },yes);
    mut("nopoints",[](W&w,Set&s,P&a){ s.pl=0; a->setPointLoads(gsPointLoads<real_t>()); },yes);
    for(int k=0;k<3;++k) mut("masses"+std::to_string(k),[k](W&w,Set&s,P&a){ s.pm=k; a->setPointMass(k?w.pm[k-1]:gsPointLoads<real_t>()); },yes);
    for(int k=0;k<3;++k) mut("bcs"+std::to_string(k),[k](W&w,Set&s,P&a){ s.bc=k; a->updateBCs(w.bc[k]); },yes);
    mut("geo1",[](W&w,Set&s,P&a){ s.geo=1; a->setGeometry(w.g[1]); },yes);
    mut("geo0",[](W&w,Set&s,P&a){ s.geo=0; a->setUndeformed(w.g[0]); },yes);
    mut("basis1",[](W&w,Set&s,P&a){ s.basis=1; a->setBasis(w.mb[1]); },yes);
    mut("basis0",[](W&w,Set&s,P&a){ s.basis=0; a->setBasis(w.mb[0]); },yes);
    mut("cont0",[](W&w,Set&s,P&a){ s.cont=0; gsOptionList o=a->options(); w.opt(o,s); a->setOptions(o); },yes);
    mut("cont-ref",[](W&w,Set&s,P&a){ s.cont=s.cont==0?-1:0; s.pending=!s.pending; a->options().setInt("Continuity",s.cont); },yes);
    mut("quad",[](W&w,Set&s,P&a){ s.qu=1-s.qu; gsOptionList o=a->options(); w.opt(o,s); a->setOptions(o); },yes);
    mut("pen-ref",[](W&w,Set&s,P&a){ s.pen=1-s.pen; w.opt(a->options(),s); },yes);
    mut("ifcC0",[](W&w,Set&s,P&a){ s.ifc=1; a->addWeakC0(w.g[0].interfaces()); a->addWeakC1(gsBoxTopology::ifContainer()); },yes);
    mut("ifcC1",[](W&w,Set&s,P&a){ s.ifc=2; a->addWeakC1(w.g[0].interfaces()); a->addWeakC0(gsBoxTopology::ifContainer()); },yes);
    // --- copies and moves
    mut("copy",[](W&w,Set&s,P&a){ P c(new typename W::A(*a)); a=std::move(c); },yes);
    mut("copy-keep",[](W&w,Set&s,P&a){ P c(new typename W::A(*a)); c->updateBCs(w.bc[(s.bc+1)%3]); c->setPointLoads(w.pl[0]); gsOptionList o=c->options(); o.setInt("Continuity",s.cont==0?-1:0); c->setOptions(o); c->setGeometry(w.g[1-s.geo]); c->assemble(); },yes);
    mut("assign",[](W&w,Set&s,P&a){ P c=w.other(); c->assemble(); *c=*a; a=std::move(c); },yes);
    mut("move",[](W&w,Set&s,P&a){ P c(new typename W::A(std::move(*a))); a=std::move(c); },yes);
    mut("move-assign",[](W&w,Set&s,P&a){ P c=w.other(); c->assembleVector(w.def[1]); *c=std::move(*a); a=std::move(c); },yes);
    // --- assembly
    auto sys=[](P&a,St st,Res&r,bool K,bool R){ r.has=true; r.st=(int)st; if ((int)a->status()!=r.st) r.st=100+r.st; if (st!=OK_) return; r.n=a->numDofs(); if (a->getMapper().freeSize()!=r.n) r.n=-2; if (K) r.K=dense(a->matrix()); if (R) r.R=a->rhs(); };
    obs("assemble",[=](W&w,Set&s,P&a,Res&r){ St st=a->assemble(); sys(a,st,r,true,true); },yes);
    obs("matrix",[=](W&w,Set&s,P&a,Res&r){ St st=a->assembleMatrix(w.def[s.geo]); sys(a,st,r,true,false); },yes);
    obs("vector",[=](W&w,Set&s,P&a,Res&r){ St st=a->assembleVector(w.def[s.geo]); sys(a,st,r,false,true); },yes);
    obs("full",[=](W&w,Set&s,P&a,Res&r){ St st=a->assemble(w.def[s.geo],true,false); sys(a,st,r,true,true); },yes);
    obs("mass",[=](W&w,Set&s,P&a,Res&r){ St st=a->assembleMass(false); sys(a,st,r,false,false); if (st==OK_) r.K=dense(a->massMatrix()); },yes);
    obs("lumped",[=](W&w,Set&s,P&a,Res&r){ St st=a->assembleMass(true); sys(a,st,r,false,false); if (st==OK_) r.K=dense(a->massMatrix()); },yes);
    obs("vector+press",[=](W&w,Set&s,P&a,Res&r){ St st=a->assembleVector(w.def[s.geo]); if (st==OK_) st=a->assemblePressureVector(*w.press[1],w.def[s.geo]); sys(a,st,r,false,true); },[](const Set&){ return d==3; });
    obs("matrix+press",[=](W&w,Set&s,P&a,Res&r){ St st=a->assembleMatrix(w.def[s.geo]); if (st==OK_) st=a->assemblePressureMatrix(*w.press[1],w.def[s.geo]); sys(a,st,r,true,false); },[](const Set&){ return d==3; });
    obs("vector+found",[=](W&w,Set&s,P&a,Res&r){ St st=a->assembleVector(w.def[s.geo]); if (st==OK_) st=a->assembleFoundationVector(*w.found,w.def[s.geo]); sys(a,st,r,false,true); },[](const Set&){ return d==3; });
    obs("full-solvec",[=](W&w,Set&s,P&a,Res&r){ P f=w.fresh(s); Mx u=vecOf(f->numDofs()); St st=a->assemble(u); sys(a,st,r,true,true); },[](const Set&s){ return s.basis==0&&!s.pending; });
    // --- evaluation
    obs("solution",[=](W&w,Set&s,P&a,Res&r){ P f=w.fresh(s); Mx u=vecOf(f->numDofs()); MP m=a->constructSolution(u); r.has=true; int rows=0; for(size_t p=0;p<m.nPatches();++p) rows+=m.patch(p).coefs().rows(); r.X.resize(rows,d); rows=0; for(size_t p=0;p<m.nPatches();++p){ r.X.middleRows(rows,m.patch(p).coefs().rows())=m.patch(p).coefs(); rows+=m.patch(p).coefs().rows(); } },[](const Set&s){ return s.basis==0&&!s.pending; });
    obs("solvec",[=](W&w,Set&s,P&a,Res&r){ MP u=w.def[s.geo]; for(size_t p=0;p<u.nPatches();++p) u.patch(p).coefs()-=w.g[s.geo].patch(p).coefs(); r.has=true; r.X=a->constructSolutionVector(u); },[](const Set&s){ return s.basis==0&&!s.pending; });
    obs("area",[=](W&w,Set&s,P&a,Res&r){ r.has=true; r.X.resize(1,1); r.X(0,0)=a->getArea(w.def[s.geo]); },yes);
    obs("stretch",[=](W&w,Set&s,P&a,Res&r){ Mx pt(2,2); pt<<0.3,0.7,0.4,0.2; r.has=true; r.X=a->computePrincipalStretches(pt,w.def[s.geo],0.0); },yes);
    obs("stress",[=](W&w,Set&s,P&a,Res&r){ Mx pt(2,2); pt<<0.3,0.7,0.4,0.2; gsPiecewiseFunction<real_t> f; a->constructStress(w.def[s.geo],f,stress_type::membrane); r.has=true; Mx x; f.piece(0).eval_into(pt,x); r.X=x; },yes);
    obs("reaction",[=](W&w,Set&s,P&a,Res&r){ r.has=true; r.X=a->boundaryForce(w.def[s.geo],patchSide(0,boundary::west)); },yes);
    obs("gap",[=](W&w,Set&s,P&a,Res&r){ r.has=true; r.X.resize(1,1); r.X(0,0)=a->interfaceErrorC0(w.def[s.geo],w.g[0].interfaces()); },[](const Set&){ return d==3; });
    return r;
}
template<int d,bool b> void cmp(Ctx&c,const Res&x,const Res&y,const std::string&what)
{
    c.ok(x.st==y.st,what+" status","got "+std::to_string(x.st)+" fresh "+std::to_string(y.st)); if (x.st!=y.st) return;
    if (y.st>0 && y.st!=(int)OK_) return;
    c.ok(x.n==y.n,what+" number of unknowns","got "+std::to_string(x.n)+" fresh "+std::to_string(y.n)); if (x.n!=y.n) return;
    c.closeM(x.K,y.K,1e-9,what+" matrix",1e-10); c.closeM(x.R,y.R,1e-9,what+" right-hand side",1e-6); c.closeM(x.X,y.X,1e-9,what+" values",1e-9);
}
template<int d,bool b> void c15(Check&ck,bool one,int depth,bool deepMutators)
{
    typedef World<d,b> W; auto al=std::make_shared<std::vector<Op<d,b>>>(alphabet<d,b>()); int n=al->size();
    std::string tag=std::string("d=")+std::to_string(d)+(d==3?(b?",shell":",membrane"):",planar")+(one?",one-patch":",two-patch")+";ops=";
    // one task per prefix of length depth-1 (shorter ones at smaller depth); the last operation runs over the whole alphabet
    std::function<void(std::vector<int>)> rec=[&](std::vector<int> pre){
        std::string key=tag; for(int i:pre) key+=(*al)[i].name+",";
        ck.add(key,[=](Ctx&c){
            static std::map<std::string,Res> cache; static std::map<std::string,std::shared_ptr<W>> worlds; auto&wp=worlds[tag]; if(!wp) wp.reset(new W(one)); W&w=*wp;
            for(int last=0;last<n;++last) {
                if ((int)pre.size()==2 && !deepMutators && !(*al)[last].observes) continue;
                Set s; auto a=w.make(); bool ok=true; std::string seq; c.state();
                std::vector<int> all=pre; all.push_back(last); Res r; try {
                for(size_t k=0;k<all.size();++k){ auto&o=(*al)[all[k]]; seq+=o.name+" "; if (!o.enabled(s)) { ok=false; break; } r=Res(); o.run(w,s,a,r); c.op(); }
                } catch(const std::exception&e) { c.fail("exception",seq+": "+std::string(e.what()).substr(0,150)); continue; }
                if (!ok) continue;
                // a mutator is judged by a following assembly
                auto judge=[&](const Op<d,b>&o,const Res&got,const std::string&nm){ std::string id=tag+s.id()+"/"+o.name; if(!cache.count(id)){ auto f=w.fresh(s); Res q; Set t=s; o.run(w,t,f,q); cache[id]=q; } cmp<d,b>(c,got,cache[id],nm); };
                if ((*al)[last].observes) judge((*al)[last],r,"["+seq+"]");
                else for(auto&o:*al) if (o.name=="assemble"||o.name=="full") { Res q; try { o.run(w,s,a,q); c.op(); judge(o,q,"["+seq+o.name+"]"); } catch(const std::exception&e) { c.fail("exception",seq+o.name+": "+std::string(e.what()).substr(0,150)); } }
            }
        });
        if ((int)pre.size()<depth-1) for(int i=0;i<n;++i){ auto q=pre; q.push_back(i); rec(q); }
    };
    rec({});
}

// ------------------------------------------------------------------ C16
inline bool multi(const std::string&g){ return g=="two"||g=="three"||g=="twoC"||g=="twoR"||g=="fold"; }
/// the displacement control points that a vector of unknowns stands for, from the mapper and the prescribed affine data
template<int d> std::vector<EM> expand(const Scene<d>&s,const Numb&nb,const EV&g,const EV&u)
{
    std::vector<EM> r; for(size_t p=0;p<s.ori.nPatches();++p){ int n=s.mb.basis(p).size(); EM m(n,d); for(int i=0;i<n;++i)for(int c=0;c<d;++c){ int j=nb.id(i,p,c); m(i,c)=j<nb.nf?u[j]:g[j]; } r.push_back(m); } return r;
}
template<int d> void c16(Check&ck)
{
    std::vector<bool> types; if (d==3) types={true,false}; else types={false}; auto gn=geoNames<d>(); if (ck.thorough()) { gn.push_back("quad3"); if(d==3) gn.push_back("curv3"); }
    for(bool b:types) for(auto&g:gn) for(auto bc:{"free","left","mix","clamp","coll","corn"}) for(int cont:{-1,0}) { if (!multi(g)&&cont==0) continue;
        Conf f{g,{"SvK"},"gen","none",bc,b,1,1,cont};
        ck.add(f.key(d),[f](Ctx&c){
            auto s=scene<d>(f); auto a=s->make(); Numb nb(a->getMapper()); EV pre=prescribed<d>(*s,nb); int n=nb.nf;
            c.ok(a->numDofs()==n,"number of unknowns");
            auto stack=[&](const MP&m){ std::vector<EM> r; for(size_t p=0;p<m.nPatches();++p) r.push_back(m.patch(p).coefs()); return r; };
            auto check=[&](const EV&u,const std::string&w){
                auto X=expand<d>(*s,nb,pre,u); gsMatrix<real_t> um=u; c.state();
                MP D=a->constructDisplacement(um),S=a->constructSolution(um),D2,S2,D3=a->constructMultiPatch(um); a->constructDisplacement(um,D2); a->constructSolution(um,S2); c.op(5);
                if (!c.ok(D.nPatches()==s->ori.nPatches()&&S.nPatches()==s->ori.nPatches()&&D2.nPatches()==D.nPatches()&&S2.nPatches()==D.nPatches()&&D3.nPatches()==D.nPatches(),w+"number of patches")) return;
                for(size_t p=0;p<X.size();++p){ EM o=s->ori.patch(p).coefs(); c.closeM(D.patch(p).coefs(),X[p],1e-9,w+"displacement",1e-3); c.closeM(D2.patch(p).coefs(),X[p],1e-9,w+"displacement, second form",1e-3); c.closeM(D3.patch(p).coefs(),X[p],1e-9,w+"multipatch",1e-3); EM e=X[p]+o; c.closeM(S.patch(p).coefs(),e,1e-9,w+"deformed geometry",1e-3); c.closeM(S2.patch(p).coefs(),e,1e-9,w+"deformed geometry, second form",1e-3); }
                // and back
                MP up=s->ori; a->updateMultiPatch(um,up); c.op(); for(size_t p=0;p<X.size();++p){ EM e=X[p]+EM(s->ori.patch(p).coefs()); c.closeM(up.patch(p).coefs(),e,1e-9,w+"updated geometry",1e-3); }
                gsVector<real_t> v=a->constructSolutionVector(D); c.op(); c.closeM(v,u,1e-12,w+"vector of the displacement",1e-3);
                Mx full=a->fullSolutionVector(um); c.op(); int tot=0; for(auto&x:X) tot+=x.rows(); EM E(tot*d,1); int off=0; for(auto&x:X){ for(int k=0;k<d;++k) E.block(k*tot+off,0,x.rows(),1)=x.col(k); off+=x.rows(); }
                c.closeM(full,E,1e-9,w+"full vector",1e-3);
                // matched interfaces stay closed, wherever the control points of two patches coincide
                if (f.cont==0) for(auto&i:s->ori.interfaces()){ gsMatrix<index_t> q1=s->mb.basis(i.first().patch).boundary(i.first().side()),q2=s->mb.basis(i.second().patch).boundary(i.second().side()); int hits=0;
                    for(index_t k=0;k<q1.rows();++k)for(index_t l=0;l<q2.rows();++l){ EM x1=s->ori.patch(i.first().patch).coefs().row(q1(k,0)),x2=s->ori.patch(i.second().patch).coefs().row(q2(l,0)); if ((x1-x2).norm()>1e-8) continue; hits++; EM d1=D.patch(i.first().patch).coefs().row(q1(k,0)),d2=D.patch(i.second().patch).coefs().row(q2(l,0)); c.closeM(d1,d2,1e-10,w+"interface stays closed",1e-3); } c.ok(hits==q1.rows(),"interface control points match"); }
            };
            EV u=vecOf(n); check(EV::Zero(n),"zero: "); check(u,"general: ");
            for(int i=0;i<n;++i) { EV e=EV::Zero(n); e[i]=1; check(e,"unit vector: "); if (c.fails.size()>20) return; }
            // the conversions do not depend on what was assembled before
            auto seq=[&](const std::string&w){ check(u,"after "+w+": "); }; MP def=displaced(s->ori,moveOf(d,"gen").u); gsMatrix<real_t> um=u;
            a->assemble(); seq("assemble"); a->assembleMatrix(def); seq("assembleMatrix"); a->assembleVector(def); seq("assembleVector"); a->assembleVector(def,false); seq("assembleVector without homogenising"); a->assemble(um); seq("assemble(vector)"); a->assembleMass(false); seq("assembleMass"); a->boundaryForce(def,patchSide(0,boundary::west)); seq("boundaryForce"); a->getArea(def); seq("getArea");
        }); }
}

// ------------------------------------------------------------------ C17
struct PM { std::string name; struct One { int patch; double u,v; bool par; double m; }; std::vector<One> l; };
template<int d> void c17(Check&ck)
{
    std::vector<bool> types; if (d==3) types={true,false}; else types={false}; auto gn=geoNames<d>(); bool th=ck.thorough(); if (th) { gn.push_back("quad3"); if(d==3) gn.push_back("curv3"); }
    std::vector<PM> pms={{"none",{}},{"inner",{{0,0.3,0.7,true,0.8}}},{"edge",{{0,0,0.4,true,1.5},{-1,1,1,true,0.25}}},{"phys",{{-1,0.35,0.6,false,0.4},{0,0.35,0.6,true,0.3},{0,0.35,0.6,true,0.2}}}};
    for(bool b:types) for(auto&g:gn) for(auto bc:{"free","left","mix","clamp","coll"}) for(int cont:{-1,0}) for(auto&m:matSpecs()) for(auto&pm:pms) for(int ref=0;ref<2;++ref) for(int qu=0;qu<2;++qu) {
        if (!multi(g)&&cont==0) continue; if (!th && (ref+qu>0) && !(m.name=="SvKt"&&pm.name!="edge")) continue; if (!th && m.name!="SvKt"&&m.name!="LAM" && (bc!=std::string("mix")||pm.name!="inner")) continue;
        std::vector<std::string> ms={m.name}; if (multi(g)&&m.name!="SvK") ms={m.name,"SvK"}; Conf f{g,ms,"gen","none",bc,b,qu?2.0:1.0,1,cont};
        ck.add(f.key(d)+";masses="+pm.name+(ref?";refined":""),[f,pm,ref](Ctx&c){
            auto s=scene<d>(f); if (ref) s->mb.uniformRefine(); auto a=s->make(); Numb nb(a->getMapper()); int n=nb.nf,last=s->ori.nPatches()-1; MP def=displaced(s->ori,moveOf(d,f.move).u); c.state(nb.nt);
            gsPointLoads<real_t> pl; double extra=0; EM G=EM::Zero(nb.nt,nb.nt); EV L=EV::Zero(nb.nt); double total=0;
            for(auto q:pm.l){ int p=q.patch<0?last:q.patch; gsVector<real_t> x(2),v(1); v[0]=q.m; x<<q.u,q.v; if (!q.par) { Mx y; s->ori.patch(p).eval_into(Mx(x),y); pl.addLoad(gsVector<real_t>(y),v,p,false); } else pl.addLoad(x,v,p,true);
                BAt bb=basisAt(s->mb.basis(p),q.u,q.v); for(size_t i=0;i<bb.act.size();++i)for(int k=0;k<d;++k){ L[nb.id(bb.act[i],p,k)]+=q.m*bb.N[i]; for(size_t j=0;j<bb.act.size();++j) G(nb.id(bb.act[i],p,k),nb.id(bb.act[j],p,k))+=q.m*bb.N[i]*bb.N[j]; } extra+=q.m; }
            for(size_t p=0;p<s->ori.nPatches();++p){ const gsBasis<real_t>&B=s->mb.basis(p),&OB=s->ori.patch(p).basis(); for(auto&q:quad2(B,s->quA,s->quB)){ BAt bb=basisAt(B,q.u,q.v),ob=basisAt(OB,q.u,q.v); Geo o=geoAt(ob,s->ori.patch(p).coefs()); double w=q.w*o.area()*s->mats[p]->arealMass(o); total+=w;
                for(size_t i=0;i<bb.act.size();++i)for(int k=0;k<d;++k){ int r=nb.id(bb.act[i],p,k); L[r]+=w*bb.N[i]; for(size_t j=0;j<bb.act.size();++j) G(r,nb.id(bb.act[j],p,k))+=w*bb.N[i]*bb.N[j]; } } }
            double tol=pm.name=="phys"?1e-5:1e-9, sc=1e-3*G.cwiseAbs().maxCoeff(); total+=extra; if (pl.numLoads()) a->setPointMass(pl);
            auto consistent=[&](const std::string&w){ c.ok(a->assembleMass(false)==OK_,w+"mass assembly succeeds"); c.op(); EM M=dense(a->massMatrix()); c.closeM(M,EM(G.topLeftCorner(n,n)),tol,w+"mass matrix",sc); return M; };
            EM M=consistent(""); if (M.rows()!=n) return; c.closeM(M,EM(M.transpose()),1e-12,"symmetric"); gsEigen::SelfAdjointEigenSolver<EM> es(M); c.ok(es.eigenvalues().minCoeff()>-1e-12*es.eigenvalues().maxCoeff(),"not negative",num(es.eigenvalues().minCoeff())); if (pm.l.empty()&&f.bc!="coll") c.ok(es.eigenvalues().minCoeff()>0,"positive definite",num(es.eigenvalues().minCoeff()));
            if (n==nb.nt) for(int k=0;k<d;++k){ EV e=EV::Zero(n); for(size_t p=0;p<s->ori.nPatches();++p) for(int i=0;i<s->mb.basis(p).size();++i) e[nb.id(i,p,k)]=1; c.close(e.dot(M*e),total,total,tol,"total mass"); }
            c.ok(a->assembleMass(true)==OK_,"lumped mass assembly succeeds"); c.op(); EM ML=dense(a->massMatrix()); c.closeM(ML,EM(EV(L.head(n)).asDiagonal()),tol,"lumped mass matrix",sc);
            // neither the order of the calls nor other assemblies matter
            consistent("after the lumped one: "); a->assembleMatrix(def); consistent("after the stiffness: "); a->assemble(); consistent("after the linear system: "); a->assembleVector(def); if (f.mats[0]!="LAM") a->computePrincipalStretches(Mx::Constant(2,1,0.5),def,0.0); consistent("after the stretches: ");
            // removing the point masses
            if (pl.numLoads()) { a->setPointMass(gsPointLoads<real_t>()); a->assembleMass(false); EM M0=dense(a->massMatrix()); EM D=EM(G.topLeftCorner(n,n)); for(auto q:pm.l){ int p=q.patch<0?last:q.patch; BAt bb=basisAt(s->mb.basis(p),q.u,q.v); for(size_t i=0;i<bb.act.size();++i)for(int k=0;k<d;++k)for(size_t j=0;j<bb.act.size();++j){ int x=nb.id(bb.act[i],p,k),y=nb.id(bb.act[j],p,k); if(x<n&&y<n) D(x,y)-=q.m*bb.N[i]*bb.N[j]; } } c.closeM(M0,D,1e-9,"mass matrix after removing the point masses",sc); }
        }); }
}
int main(int argc,char**argv)
{
    std::string id; for(int i=1;i+1<argc;++i) if(std::string(argv[i])=="--id") id=argv[i+1];
    Check ck(argc,argv,id); bool th=ck.thorough();
    if (id=="C15") { c15<3,true>(ck,false,3,th); c15<3,true>(ck,true,th?3:2,th); c15<3,false>(ck,false,th?3:2,false); c15<2,false>(ck,false,th?3:2,th);
        ck.bound("every sequence of the 43 operations (settings, copies, moves, assemblies, evaluations; failing ones included) up to the stated depth: two-patch Kirchhoff shell 3 (a setting as last operation is judged by two assemblies, in thorough also at depth 3), other worlds 2 (thorough 3); each result equals that of an assembler constructed afresh with the same settings");
        ck.assume("conversion of unknowns after a change of continuity through options() takes effect at the next assembly; settings are compared through assemble, matrix, vector, mass, conversions, stresses, reactions and norms"); }
    if (id=="C16") { c16<3>(ck); c16<2>(ck); ck.bound("every element kind x geometry (11, single and multi patch, B-spline and NURBS) x support (6) x continuity; zero, one general and every unit vector of unknowns; again after each kind of assembly and evaluation");
        ck.assume("the numbering of unknowns is read from the assembler's mapper; prescribed displacement fields are affine, so that their L2 projection is known exactly"); }
    if (id=="C17") { c17<3>(ck); c17<2>(ck); ck.bound("every element kind x geometry (11) x support (5) x continuity x material (7, patchwise different) x point-mass case (4), with refined basis and raised quadrature; consistent and lumped, in several call orders");
        ck.assume("same Gauss rule as the assembler (set through its options); the numbering of unknowns is read from the assembler's mapper"); }
    return ck.run();
}
