/* Explorer for weak supports and couplings (C20), patch layouts (C18) and post-processing (C19). */
#include "shell.h"
using namespace mc;

// ------------------------------------------------------------------ reference of the penalty terms
struct WeakBc { int patch; boundary::side side; bool clamped; std::vector<std::string> g; };
struct WeakIfc { boundaryInterface bi; bool c0,c1; };
struct SidePt { int patch; BAt b; Geo o; V3 nu; double w; Mx g; double aD,aR; };
inline V3 conormal(const Geo&g,const boxSide&s){ V3 t=s.direction()==0?g.a2:g.a1, o=s.direction()==0?g.a1:g.a2; if(!s.parameter()) o=-1.0*o; V3 r=o-(ref::dot(o,t)/ref::dot(t,t))*t; return (1/ref::norm(r))*r; }
inline Geo geoOn(const BAt&b,const Mx&c){ return geoAt(b,c); }
template<int d> struct Weak
{
    Scene<d>*s; double pD=1e3,pR=1e3,pI=1e3; std::vector<WeakBc> bcs; std::vector<WeakIfc> ifc;
    struct B { bool clamped; SidePt p; }; struct I { bool c0,c1; SidePt l,r; }; std::vector<B> pb; std::vector<I> pi;
    double stiff(int p,const Geo&o,bool bend){ double t=s->mats[p]->thick(o); const LawDef&L=s->mats[p]->s.L; double E=L.pars[0],nu=L.pars[1]; return bend? E*t*t*t/12/(1-nu*nu) : E*t/(1-nu*nu); }
    void prepare()
    {
        for(auto&b:bcs){ boxSide sd(b.side); const gsBasis<real_t>&B_=s->mb.basis(b.patch); auto q=quad2(B_,s->quA,s->quB,sd.direction(),sd.parameter()?1.0:0.0); std::map<int,double> h; std::vector<B> v;
            for(auto&x:q){ SidePt P; P.patch=b.patch; P.b=basisAt(B_,x.u,x.v); P.o=geoAt(P.b,s->ori.patch(b.patch).coefs()); P.w=x.w*ref::norm(sd.direction()==0?P.o.a2:P.o.a1); h[x.elem]+=P.w; P.nu=conormal(P.o,sd); if(!b.clamped){ gsFunctionExpr<real_t> F(b.g,d); P.g=evalF(F,P.o.x); } v.push_back({b.clamped,P}); }
            for(size_t i=0;i<q.size();++i){ auto&P=v[i].p; P.aD=pD*stiff(b.patch,P.o,false)/h[q[i].elem]; P.aR=pR*stiff(b.patch,P.o,true)/h[q[i].elem]; pb.push_back(v[i]); } }
        for(auto&f:ifc){ patchSide L=f.bi.first(),R=f.bi.second(); const gsBasis<real_t>&bl=s->mb.basis(L.patch),&br=s->mb.basis(R.patch); auto q=quad2(bl,s->quA,s->quB,L.direction(),L.parameter()?1.0:0.0); std::map<int,double> h; std::vector<I> v;
            // the point on the other side by position: both sides run over the same curve
            bool same; { auto pos=[&](const patchSide&S,double t){ double u=S.direction()==0?(S.parameter()?1:0):t,w=S.direction()==0?t:(S.parameter()?1:0); return geoAt(basisAt(s->mb.basis(S.patch),u,w),s->ori.patch(S.patch).coefs()).x; }; same=ref::norm(pos(L,0.13)-pos(R,0.13))<1e-9; }
            for(auto&x:q){ I e; e.c0=f.c0; e.c1=f.c1; double t=L.direction()==0?x.v:x.u, tr=same?t:1-t; double u=R.direction()==0?(R.parameter()?1:0):tr, w=R.direction()==0?tr:(R.parameter()?1:0);
                e.l.patch=L.patch; e.l.b=basisAt(bl,x.u,x.v); e.l.o=geoAt(e.l.b,s->ori.patch(L.patch).coefs()); e.r.patch=R.patch; e.r.b=basisAt(br,u,w); e.r.o=geoAt(e.r.b,s->ori.patch(R.patch).coefs());
                e.l.w=x.w*ref::norm(L.direction()==0?e.l.o.a2:e.l.o.a1); e.r.w=x.w*ref::norm(R.direction()==0?e.r.o.a2:e.r.o.a1); h[x.elem]+=0.5*(e.l.w+e.r.w); e.l.nu=conormal(e.l.o,L); e.r.nu=conormal(e.r.o,R); v.push_back(e); }
            for(size_t i=0;i<q.size();++i){ auto&P=v[i].l; P.aD=pI*stiff(L.patch,P.o,false)/h[q[i].elem]; P.aR=pI*stiff(L.patch,P.o,true)/h[q[i].elem]; v[i].c1=v[i].c1&&d==3; pi.push_back(v[i]); sides.push_back({boxSide(L),boxSide(R)}); } }
    }
    std::vector<std::pair<boxSide,boxSide>> sides;
    static bool touches(const SidePt&P,int p,int i){ if(P.patch!=p) return false; for(int a:P.b.act) if(a==i) return true; return false; }
    double energy(const MP&def,int tp=-1,int ti=-1) const
    {
        double W=0; for(auto&b:pb){ const SidePt&P=b.p; if (tp>=0&&!touches(P,tp,ti)) continue; Geo g=geoAt(P.b,def.patch(P.patch).coefs());
            if (b.clamped) { if (d==3) { double e=ref::dot(g.n,P.nu)-ref::dot(P.o.n,P.nu); W+=0.5*P.w*P.aR*e*e; } } else for(int k=0;k<d;++k){ double e=g.x[k]-P.o.x[k]-P.g(k,0); W+=0.5*P.w*P.aD*e*e; } }
        for(size_t i=0;i<pi.size();++i){ auto&e=pi[i]; if (tp>=0&&!touches(e.l,tp,ti)&&!touches(e.r,tp,ti)) continue; Geo l=geoAt(e.l.b,def.patch(e.l.patch).coefs()),r=geoAt(e.r.b,def.patch(e.r.patch).coefs());
            if (e.c0) for(int k=0;k<d;++k){ double q=(l.x[k]-e.l.o.x[k])-(r.x[k]-e.r.o.x[k]); W+=0.5*e.l.w*e.l.aD*q*q; }
            if (e.c1) { V3 nl=conormal(l,sides[i].first),nr=conormal(r,sides[i].second); double q1=ref::dot(l.n,r.n)-ref::dot(e.l.o.n,e.r.o.n),q2=ref::dot(nl,r.n)-ref::dot(e.l.nu,e.r.o.n),q3=ref::dot(nr,l.n)-ref::dot(e.r.nu,e.l.o.n); W+=0.5*e.l.w*e.l.aR*(2*q1*q1+q2*q2+q3*q3); } }
        return W;
    }
    /// gradient with respect to every unknown (free and eliminated)
    EV grad(const MP&def,const Numb&nb) const
    {
        EV r; r.setZero(nb.nt); MP e=def; double h=1e-3; for(size_t p=0;p<def.nPatches();++p) for(index_t i=0;i<def.patch(p).coefs().rows();++i){ bool t=false; for(auto&b:pb) t|=touches(b.p,p,i); for(auto&x:pi) t|=touches(x.l,p,i)||touches(x.r,p,i); if(!t) continue;
            for(int k=0;k<d;++k){ double&c=e.patch(p).coefs()(i,k),c0=c; auto W=[&](double x){ c=c0+x; return energy(e,p,i); }; double g=(8*(W(h)-W(-h))-(W(2*h)-W(-2*h)))/(12*h); c=c0; r[nb.id(i,p,k)]+=g; } }
        return r;
    }
};

// ------------------------------------------------------------------ C20
struct WConf { std::string geo; std::vector<std::string> mats; std::string move,kind; bool bending; double pD,pR,pI; int cont; std::string side;
    std::string key(int d) const { std::string m; for(auto&x:mats) m+=(m.empty()?"":"+")+x; return std::string("d=")+std::to_string(d)+(d==3?(bending?",shell":",membrane"):",planar")+";geo="+geo+";mat="+m+";def="+move+";kind="+kind+(side.empty()?"":";side="+side)+";pen="+num(pD)+"/"+num(pR)+"/"+num(pI)+";cont="+std::to_string(cont); } };
static boundary::side sideOf(const std::string&s){ return s=="west"?boundary::west:s=="east"?boundary::east:s=="south"?boundary::south:boundary::north; }
template<int d> void weakSetup(Scene<d>&s,Weak<d>&w,const WConf&f)
{
    s.bending=f.bending; s.continuity=f.cont; s.materials(f.mats); w.s=&s; w.pD=f.pD; w.pR=f.pR; w.pI=f.pI;
    std::vector<std::string> zero(d,"0"),aff={"0.1+0.2*x-0.1*y","0.05*x+0.3*y","0.2-0.1*x"}; aff.resize(d);
    if (!f.side.empty()) { boundary::side sd=sideOf(f.side); int p=(f.side=="west"||f.side=="south")?0:(int)s.ori.nPatches()-1; bool D=f.kind.find('D')!=std::string::npos,G=f.kind.find('G')!=std::string::npos,C=f.kind.find('C')!=std::string::npos;
        if (D||G) { w.bcs.push_back({p,sd,false,G?aff:zero}); s.bc.addCondition(p,sd,condition_type::weak_dirichlet,s.fun(G?aff:zero,d)); }
        if (C) { w.bcs.push_back({p,sd,true,{}}); s.bc.addCondition(p,sd,condition_type::weak_clamped,s.fun(zero,d)); } }
    Loads L=loadCase<d>(d==3?"force":"pforce",s.ori.nPatches()); s.loads(L);
}
template<int d> void weakOptions(Asm&a,const WConf&f){ gsOptionList o=a.options(); o.setReal("WeakDirichlet",f.pD); o.setReal("WeakClamped",f.pR); o.setReal("IfcPenalty",f.pI); a.setOptions(o); }
template<int d> void weakIfc(Asm&a,Scene<d>&s,Weak<d>&w,const WConf&f)
{
    if (!f.side.empty()) return; gsBoxTopology::ifContainer all=s.ori.interfaces(),none; auto ref=[&](bool c0,bool c1){ for(auto&i:all) w.ifc.push_back({i,c0,c1}); };
    if (f.kind=="c0") { a.addWeakC0(all); ref(true,false); }
    else if (f.kind=="c1") { a.addWeakC1(all); ref(false,true); }
    else if (f.kind=="c01") { a.addWeakC0(all); a.addWeakC1(all); ref(true,true); }
    else if (f.kind=="def0"||f.kind=="def1"||f.kind=="def-1") { gsOptionList o=a.options(); int k=f.kind=="def0"?0:f.kind=="def1"?1:-1; o.setInt("IfcDefault",k); a.setOptions(o); a.initInterfaces(); if (k==0) ref(true,false); if (k==1) ref(false,true); }
    else if (f.kind=="first") { gsBoxTopology::ifContainer one(1,all[0]); a.addWeakC0(one); gsBoxTopology::ifContainer rest(all.begin()+1,all.end()); a.addUncoupled(rest); a.initInterfaces(); w.ifc.push_back({all[0],true,false}); }
    else if (f.kind=="split") { gsBoxTopology::ifContainer one(1,all[0]); a.addWeakC1(one); gsOptionList o=a.options(); o.setInt("IfcDefault",0); a.setOptions(o); a.initInterfaces(); for(size_t i=0;i<all.size();++i) w.ifc.push_back({all[i],i>0,i==0}); }
    else throw std::runtime_error("kind");
}
template<int d> std::vector<WConf> wconfs(bool th)
{
    std::vector<WConf> r; std::vector<bool> types; if (d==3) types={true,false}; else types={false};
    std::vector<std::string> single={"sq","quad2","nurbs"},multi={"two","three"}; if (d==3) { single.push_back("curv2"); for(auto x:{"twoC","twoR","fold"}) multi.push_back(x); } if (th) { single.push_back("quad3"); if (d==3) single.push_back("curv3"); }
    for(bool b:types) for(auto&mv:moves(d)) for(auto m:{"SvK","SvKt"}) for(int pen:{0,1}) {
        double pD=pen?13:1e3,pR=pen?700:1e3,pI=pen?41:1e3; if (!th && pen && m==std::string("SvKt")) continue;
        for(auto g:single) for(auto sd:{"west","east","south","north"}) for(auto k:{"D","G","C","DC","GC"}) { if (d==2&&std::string(k).find('C')!=std::string::npos) continue; if (!th && (mv.name=="stretch"||mv.name=="bend"||(g=="sq"&&pen))) continue; r.push_back({g,{m},mv.name,k,b,pD,pR,pI,-1,sd}); }
        for(auto g:multi) { for(auto k:{"G","GC"}) { if (d==2&&std::string(k)=="GC") continue; for(auto sd:{"west","north"}) r.push_back({g,{m},mv.name,k,b,pD,pR,pI,0,sd}); }
            for(auto k:{"c0","c1","c01","def0","def1","def-1","first","split"}) for(int ct:{-1,0}) r.push_back({g,{m,"SvK"},mv.name,k,b,pD,pR,pI,ct,""}); }
    }
    return r;
}
template<int d> void c20(Check&ck)
{
    for(auto f:wconfs<d>(ck.thorough())) ck.add(f.key(d),[f](Ctx&c){
        std::unique_ptr<Scene<d>> sp(new Scene<d>(geometry<d>(f.geo))); auto&s=*sp; Weak<d> w; weakSetup<d>(s,w,f); auto a=s.make(); weakOptions<d>(*a,f); weakIfc<d>(*a,s,w,f); w.prepare();
        MP def=displaced(s.ori,moveOf(d,f.move).u); Numb nb(a->getMapper()); int n=nb.nf; c.state(nb.nt);
        // make the two sides of every interface disagree, where they are not coupled strongly
        if (f.side.empty()&&f.move!="id") for(size_t p=1;p<def.nPatches();++p) if (f.cont==-1) { auto&co=def.patch(p).coefs(); for(index_t i=0;i<co.rows();++i) for(int k=0;k<d;++k) co(i,k)+=0.01*((((int)i*5+k*3+(int)p)%7)-3); }
        Sys r=reference<d>(s,def,nb,INT|EXT); EV gw=w.grad(def,nb); EV R=(r.R-gw).head(n); double fl=1e-3*(R.cwiseAbs().maxCoeff()+gw.cwiseAbs().maxCoeff())+1e-10;
        c.ok(a->assembleVector(def)==OK_,"assembleVector succeeds"); c.op(); EV A=a->rhs().col(0); c.closeM(A,R,1e-7,"residual with weak constraints",fl);
        c.ok(a->assemble(def)==OK_,"assemble succeeds"); c.op(); c.closeM(a->rhs(),R,1e-7,"residual with weak constraints, full assembly",fl); EM K=dense(a->matrix());
        c.closeM(K,EM(K.transpose()),1e-9,"symmetry");
        if (n<=110) { double h=1e-4; EM D(n,n); MP e=def; std::vector<std::vector<std::array<int,3>>> own(n); for(size_t p=0;p<def.nPatches();++p) for(index_t i=0;i<def.patch(p).coefs().rows();++i) for(int k=0;k<d;++k){ int g=nb.id(i,p,k); if(g<n) own[g].push_back({{(int)p,(int)i,k}}); }
            auto Rr=[&](int j,double x){ for(auto&o:own[j]) e.patch(o[0]).coefs()(o[1],o[2])+=x; a->assembleVector(e); c.op(); EV v=a->rhs().col(0); for(auto&o:own[j]) e.patch(o[0]).coefs()(o[1],o[2])-=x; return v; };
            for(int j=0;j<n;++j){ EV p1=Rr(j,h),m1=Rr(j,-h); D.col(j)=-(p1-m1)/(2*h); } c.closeM(K,D,3e-6,"matrix is minus the derivative of the residual"); }
        c.ok(a->assembleMatrix(def)==OK_,"assembleMatrix succeeds"); c.op(); c.closeM(dense(a->matrix()),K,1e-12,"matrix alone");
        if (f.move=="id") { c.ok(a->assemble()==OK_,"assemble succeeds"); c.op(); c.closeM(dense(a->matrix()),K,1e-8,"linear matrix"); c.closeM(a->rhs(),R,1e-7,"linear right-hand side",fl); }
    });
    // every material: no force when the constraint is met, force proportional to the penalty otherwise
    std::vector<bool> types; if (d==3) types={true,false}; else types={false};
    for(bool b:types) for(auto&m:matSpecs()) for(auto g:{"quad2","two","twoC"}) { if (d==2&&std::string(g)=="twoC") continue; std::string geo=g; bool multi=geo!="quad2"; for(auto k:{"G","C","c0","c1"}) { std::string kind=k; bool ifc=kind[0]=='c'; if (ifc!=multi||(d==2&&(kind=="C"||kind=="c1"))) continue; for(auto&mv:moves(d)) { WConf f={geo,{m.name},mv.name,kind,b,1,1,1,-1,ifc?"":"west"}; ck.add("all-materials;"+f.key(d),[f,ifc](Ctx&c){
        auto run=[&](double pen,const MP&def,Numb**nb){ WConf h=f; h.pD=h.pR=h.pI=pen; std::unique_ptr<Scene<d>> sp(new Scene<d>(geometry<d>(f.geo))); Weak<d> w; weakSetup<d>(*sp,w,h); auto a=sp->make(); weakOptions<d>(*a,h); weakIfc<d>(*a,*sp,w,h); c.ok(a->assembleVector(def)==OK_,"assembleVector succeeds"); c.op(); if(nb) *nb=new Numb(a->getMapper()); return EV(a->rhs().col(0)); };
        MP ori=geometry<d>(f.geo); MP def=displaced(ori,moveOf(d,f.move).u); if (ifc) { auto&co=def.patch(1).coefs(); for(index_t i=0;i<co.rows();++i) for(int k=0;k<d;++k) co(i,k)+=0.01*((((int)i*5+k*3)%7)-3); }
        EV r0=run(0,def,nullptr),r1=run(10,def,nullptr),r2=run(30,def,nullptr); double fl=r0.cwiseAbs().maxCoeff()*1e-6; c.state(r0.size()); c.closeM(EV(r2-r0),EV(3*(r1-r0)),1e-8,"force is proportional to the penalty",fl+1e-9);
        // a state that meets the constraint
        MP met=ori; std::function<V3(const V3&)> u; if (f.kind=="G") u=[](const V3&x){ return V3{{0.1+0.2*x[0]-0.1*x[1],0.05*x[0]+0.3*x[1],d==3?0.2-0.1*x[0]:0}}; }; else if (f.kind=="c0") u=moveOf(d,f.move).u; else { M3 R=ref::rot({{0.5,-1,0.7}},0.4); if (f.kind=="c1") u=[R](const V3&x){ return R*x-x+V3{{0.1,0,0.2}}; }; else u=[](const V3&x){ return V3{{0.1+0.1*x[0],0.2*x[1],0.3}}; }; }
        met=displaced(ori,u); EV m0=run(0,met,nullptr),m1=run(1000,met,nullptr); if (f.kind!="C"||f.geo!="twoC") c.closeM(m1,m0,1e-9,"no force when the constraint is met",m0.cwiseAbs().maxCoeff()+0.1);
    }); } } }
}
int main(int argc,char**argv)
{
    std::string id; for(int i=1;i+1<argc;++i) if(std::string(argv[i])=="--id") id=argv[i+1];
    Check ck(argc,argv,id);
    if (id=="C20") { c20<3>(ck); c20<2>(ck);
        ck.bound("every element kind x geometry (single and multi patch) x side x constraint (displacement zero/prescribed, clamped, both) or interface coupling (C0, C1, both, by default option, on some interfaces) x penalty values x continuity x materials x deformations; residual, tangent, finite differences of the residual for every unknown, linear system at the undeformed state");
        ck.assume("penalty factor: option x E t/(1-nu^2) (rotations: t^3/12) over the length of the edge's element; interfaces use the material of the first patch and the mean edge size"); }
    return ck.run();
}
