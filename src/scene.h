/* Configurations of scenes shared by the explorers of the assembler. */
#pragma once
#include "shell.h"
struct Conf { std::string geo; std::vector<std::string> mats; std::string move,load,bc; bool bending; double quA; int quB; int cont;
    std::string key(int d) const { std::string m; for(auto&x:mats) m+=(m.empty()?"":"+")+x; return std::string("d=")+std::to_string(d)+(d==3?(bending?",shell":",membrane"):",planar")+";geo="+geo+";mat="+m+";def="+move+";load="+load+";bc="+bc+(quA!=1||quB!=1?";qu="+num(quA)+"p+"+std::to_string(quB):"")+(cont!=-1?";cont="+std::to_string(cont):""); } };
template<int d> void supports(Scene<d>&s,const std::string&n)
{
    auto aff=[&](double k){ std::vector<std::string> r={num(k)+"*(0.1+0.2*x-0.1*y)",num(k)+"*(0.05*x+0.3*y)",num(k)+"*(0.2-0.1*x)"}; r.resize(d); return r; };
    int last=s.ori.nPatches()-1;
    if (n=="free") return;
    if (n=="left") { s.support({0,boundary::west,condition_type::dirichlet,-1,{}}); return; }
    if (n=="mix") { s.support({0,boundary::west,condition_type::dirichlet,-1,aff(1)}); s.support({last,boundary::north,condition_type::dirichlet,1,{aff(1)[1]}}); return; }
    if (n=="clamp") { s.support({0,boundary::west,condition_type::dirichlet,-1,{}}); s.support({0,boundary::west,condition_type::clamped,d-1,{}}); return; }
    if (n=="coll") { s.support({0,boundary::south,condition_type::dirichlet,0,{}}); s.support({last,boundary::north,condition_type::collapsed,0,{}}); return; }
    if (n=="corn") { s.corner({0,boundary::southwest,0,-1}); s.corner({last,boundary::northeast,0.17,1}); s.support({last,boundary::east,condition_type::dirichlet,0,{aff(1)[0]}}); return; }
    throw std::runtime_error("no support "+n);
}
template<int d> std::unique_ptr<Scene<d>> scene(const Conf&f)
{
    std::unique_ptr<Scene<d>> s(new Scene<d>(geometry<d>(f.geo))); s->bending=f.bending; s->quA=f.quA; s->quB=f.quB; s->continuity=f.cont;
    s->materials(f.mats); supports<d>(*s,f.bc); s->loads(loadCase<d>(f.load,s->ori.nPatches())); return s;
}
/// prescribed values of the eliminated unknowns: all data are restrictions of one affine field
template<int d> EV prescribed(const Scene<d>&s,const Numb&nb)
{
    EV g; g.setZero(nb.nt); for(auto&b:s.bcd) if (b.type==condition_type::dirichlet && !b.f.empty()) { gsFunctionExpr<real_t> F(b.f,d); gsMatrix<index_t> ix=s.mb.basis(b.patch).boundary(b.side); const Mx&co=s.ori.patch(b.patch).coefs();
        for(index_t k=0;k<ix.rows();++k){ V3 x={{0,0,0}}; for(int q=0;q<d;++q) x[q]=co(ix(k,0),q); Mx v=evalF(F,x); for(int c=0;c<d;++c) if (b.comp==-1||b.comp==c) { int j=nb.id(ix(k,0),b.patch,c); if (j>=nb.nf) g[j]=v(b.comp==-1?c:0,0); } } }
    for(auto&q:s.corners){ int i=s.mb.basis(q.patch).functionAtCorner(q.c); for(int c=0;c<d;++c) if (q.comp==-1||q.comp==c) { int j=nb.id(i,q.patch,c); if (j>=nb.nf) g[j]=q.value; } }
    return g;
}

