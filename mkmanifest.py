#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl; BUILT lists the claimed properties."""
import json,os
D=os.path.dirname(os.path.abspath(__file__))
BUILT="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25".split()
NOTE={
"C01":"explicit-state exploration of the real material classes: full product of laws x variants x parameters x surfaces x deformation lattice x heights, every stress compared with a reference model (second-order dual numbers of the stored energy, own plane-stress solve)",
"C02":"as C01, tangent compared with the second derivative of the stored energy of the reference model on every state",
"C03":"exhaustive product of surface pairs, laws, points and heights on the real code against a reference kinematic model",
"C04":"every state of the deformation lattice re-evaluated under every rigid motion and reparametrisation of a finite group; metamorphic equality of Cartesian quantities on the real code",
"C05":"exhaustive product of laws, thickness fields, quadrature sizes, material classes and outputs; resultants against moments of the reference response",
"C06":"explicit-state exploration of all operation histories up to depth 2 (3 thorough) interleaved with state changes, batches, patches and containers on the real objects; each final state compared with a fresh object",
"C07":"exhaustive lattice of principal strains x orientations x laws; classification, uniaxiality and consistency checked on every state",
"C08":"all stacks up to the depth bound over a ply alphabet against a lamination-theory reference model",
"C09":"exhaustive enumeration of creation routes (factory, constructors, clone, setters, XML) x laws, each compared on a grid of evaluations",
"C10":"full product of laws, surfaces, deformation states and heights; every transformation and stress measure against the reference model",
"C11":"full product of geometries, materials, deformations, loads, supports, quadrature settings and entry points; every assembled residual of the real assembler compared with an independent reference discretisation",
"C12":"as C11 for the tangent, plus column-by-column finite differences of the assembled residual on every state of the bounded space",
"C13":"full product of geometries, materials, loads and supports; linear system against the reference discretisation, constant-strain states and the nonlinear system at zero displacement",
"C15":"explicit-state exploration of all call histories of the real assembler up to a depth bound over 43 operations (settings, options, copies, moves, failing calls, assemblies, evaluations); every observation compared with a freshly constructed assembler",
"C16":"every unit vector of unknowns of every configuration (element kind x geometry x support x continuity) converted by the real assembler in every direction and before/after every other operation, against an expansion of the mapper and the prescribed data",
"C17":"full product of element kinds, geometries, supports, continuity, materials, point masses, bases and quadrature; consistent and lumped mass of the real assembler against an independent Gram matrix",
"C18":"every numbering and orientation of the patches of every cut of a shell assembled by the real assembler (strong, penalty and no coupling); systems compared entry by entry through the positions of the control points, and with a single patch carrying C0 lines",
"C19":"full product of field kinds, patches, points, geometries, per-patch materials, deformations and element kinds, all ordered pairs of fields of two deformed states evaluated alternately, gap measures and reaction forces of all sets of sides; every value against an independent reference",
"C20":"full product of element types, sides, constraint kinds, penalties and deformed states; residual, tangent and linear system against an independent reference discretisation of the penalty energy",
"C21":"full product of goals, components, regions, levels, enrichments, materials, deformations and supports of the real error estimator against an independent reference (values, dual loads, estimates, eigenvalue estimates); all call histories up to a depth bound with both levels compared with plain assemblers",
"C22":"full product of representations of the deformed geometry, discretisation spaces, element kinds, layouts, materials and entry points; every system and field of the real assembler compared with the one of the plain representation and with the Galerkin projection",
"C23":"stateless model checking of the real code compiled with OpenMP under a controlled scheduler: depth-first enumeration of all schedules of two and three threads up to a preemption bound (scheduling points: every call of a geometry or parameter function), every thread's result compared with its sequential result",
"C24":"fault-injection model checking of the real code: for every operation, every evaluation of a user function is made to fail in turn (exhaustively, once or persistently, three kinds of exception); the outcome and the behaviour of the object afterwards are compared with a fresh object",
"C25":"full product of materials, surfaces, deformed states, outputs and systems of units, and of assembler configurations, operations and systems of units; every result of the real code in every system of units compared with the rescaled one (dimensional analysis; powers of two, so that rounding is the same)",
"C14":"every state of the deformation/material/geometry product checked for balance of forces and moments and re-assembled under every rigid motion of a finite set",
}
L="every configuration in the stated finite space is executed on the real code; nothing is sampled"
checks=[];na=[]
for l in open(D+'/properties.jsonl'):
    i=json.loads(l)['id']
    if i in BUILT:
        checks.append({"property":i,"quick_cmd":"python3 run.py %s --tier quick"%i,"thorough_cmd":"python3 run.py %s --tier thorough"%i,
          "technique":"bounded exhaustive model checking of the implementation: "+NOTE[i],"level":"model_checking","level_note":L})
    else: na.append({"property":i,"reason":"check not built yet"})
m={"version":1,"setup_cmd":"python3 setup.py","hooks":{"guard":"GSKLSHELL_VERIF","enable":"no hooks are needed; the checks compile the unmodified sources of /repo","source_commits":[]},
 "checks":checks,"not_applicable":na}
json.dump(m,open(D+'/MANIFEST.json','w'),indent=1); open(D+'/MANIFEST.json','a').write('\n')
