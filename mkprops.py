#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it is diffable)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mechanism,observe=None):
    a={"files":files,"mechanism":[{"name":mechanism,"where":files[0]}]}
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
    if observe: a["observe_at"]=observe
TESTS="The registered tests run seven example programs with default arguments and look only at the exit code: "
p("C01","Membrane stress is the exact plane-stress response of the stored energy",
 "For every supported constitutive law (linear Saint-Venant-Kirchhoff, Neo-Hookean, extended Neo-Hookean, Mooney-Rivlin, Ogden; compressible or incompressible) and every implementation variant offered for it, the stress evaluated at any point and height is twice the derivative of that law's stored-energy density with respect to the in-plane deformation tensor under zero through-thickness stress. In particular it vanishes in the undeformed state and all implementation variants of one law agree.",
 ["inputs","configurations"],"all laws x compressibility x implementation x embedding dimension x parameter sets x undeformed parametrisations x deformation states x thickness heights",
 TESTS+"one law, one parameter set, no numbers compared. The claim is over every law/variant and deformation state.",
 ["src/gsMaterialMatrixNonlinear.hpp","src/gsMaterialMatrixLinear.hpp","src/gsMaterialMatrixBaseDim.hpp"],
 "closed-form, generalized-energy and spectral stress routines, Newton iteration for the thickness stretch",["eval3D_vector / eval3D_stress on a material"])
p("C02","Material tangent is the exact derivative of the stress",
 "For every constitutive law and implementation variant, the in-plane material stiffness reported at any point, height and deformation state is the derivative of the reported stress with respect to the in-plane strain (with the thickness stretch following the plane-stress or incompressibility condition), and it has minor and major symmetry.",
 ["inputs","configurations"],"as C01, and every strain direction",
 TESTS+"a wrong tangent only slows Newton's method down, so no exit code reveals it.",
 ["src/gsMaterialMatrixNonlinear.hpp","src/gsMaterialMatrixLinear.hpp"],
 "_Cijkl/_Cabcd, static condensation",["eval3D_matrix on a material"])
p("C03","Reported kinematics match the geometry pair",
 "Deformation tensor, Green-Lagrange strain, deformation determinant, principal stretches and strains with their directions, reported for an undeformed and a deformed surface at any point and height, are those of classical shell kinematics; the thickness stretch makes incompressible materials volume preserving and compressible ones free of through-thickness stress.",
 ["inputs","configurations"],"all laws x undeformed/deformed surface pairs x points x heights, including undeformed, equal-stretch and pure-shear states",
 TESTS+"kinematic outputs are only written to plots.",
 ["src/gsMaterialMatrixBaseDim.hpp","src/gsMaterialMatrixNonlinear.hpp","src/gsMaterialMatrixLinear.hpp"],
 "metric computation per patch/point, spectral decomposition of the right Cauchy-Green tensor",["eval3D_{deformation,strain,detF,pstretch,pstretchDir,pstrain}"])
p("C04","Constitutive response is frame- and parametrisation-independent",
 "Rotating and translating the deformed or the undeformed surface in space, or reparametrising both (scaling, skewing, swapping or reversing parameter directions), changes no physical quantity: stresses, stiffnesses, stretches, principal values and stress resultants expressed in a common Cartesian frame stay the same.",
 ["inputs","configurations"],"all laws x rigid motions x reparametrisations x deformation states",
 TESTS+"they use one parametrisation each.",
 ["src/gsMaterialMatrixBaseDim.hpp","src/gsMaterialMatrixNonlinear.hpp","src/gsMaterialMatrixLinear.hpp","src/gsMaterialMatrixComposite.hpp"],
 "covariant/contravariant metric tensors and basis transformations")
p("C05","Stress resultants are the thickness moments of the pointwise response",
 "Membrane forces, bending moments and the four stiffness resultants (stretch, two coupling, bending) delivered to the shell equations equal the zeroth, first and second thickness moments of the pointwise stress and tangent, for every law, thickness field and number of thickness quadrature points, and for every class of material (constant, linear or general variation over the height).",
 ["inputs","configurations"],"laws x thicknesses (incl. spatially varying) x curvature/stretch states x quadrature sizes x output kinds",
 TESTS+"no test evaluates a resultant.",
 ["src/gsMaterialMatrixIntegrate.hpp","src/gsMaterialMatrixEval.hpp"],
 "through-thickness Gauss quadrature and closed-form shortcuts chosen per material",["gsMaterialMatrixIntegrate::eval_into"])
p("C06","Evaluation is pure: batch, order, history and patch do not matter",
 "Evaluating any material output at several points and heights in one call gives exactly the values of separate single evaluations, on every patch, whatever was evaluated before on the same object, and whichever of the materials assigned to the patches is used.",
 ["histories","inputs"],"all sequences of evaluation operations up to the depth bound x batches of points and heights x patches",
 TESTS+"single patch, fixed call order.",
 ["src/gsMaterialMatrixBaseDim.hpp","src/gsMaterialMatrixEval.hpp","src/gsMaterialMatrixContainer.hpp","src/gsMaterialMatrixNonlinear.hpp","src/gsMaterialMatrixLinear.hpp"],
 "per-thread scratch data reused between calls; column bookkeeping of (point,height) pairs; patch-indexed container")
p("C07","Tension-field modification is uniaxial, continuous and consistent",
 "For every deformation state the tension-field classification (taut, wrinkled, slack) follows the sign of the minor principal stress and major principal strain; taut states keep the unmodified response, slack states carry no stress, and wrinkled states carry a uniaxial stress along the tension direction (non-negative for the linear law); the reported stiffness of every state is the derivative of the reported stress (for the linear base law and for the nonlinear setting of the modification), and the result does not depend on rotation or reparametrisation.",
 ["inputs","configurations"],"all laws usable as base x a lattice of principal strains and orientations x parametrisations",
 TESTS+"no registered test uses the tension-field material.",
 ["src/gsMaterialMatrixTFT.hpp","src/gsMaterialMatrixTFT.h"],
 "root search for the wrinkling direction, modified stress and stiffness",["gsMaterialMatrixTFT eval3D_*"])
p("C08","Laminates obey classical lamination theory",
 "A composite material's membrane, coupling and bending stiffness equal the thickness integrals of the rotated orthotropic ply stiffnesses in the shell's own basis for every stacking sequence, its force and moment resultants follow from these stiffnesses and the shell strains, and a stack of identical isotropic plies is indistinguishable from the homogeneous isotropic shell of the same total thickness.",
 ["inputs","configurations"],"all stacks up to three plies over an alphabet of ply angles, thicknesses and moduli x parametrisations x strain states",
 TESTS+"no registered test uses composites.",
 ["src/gsMaterialMatrixComposite.hpp","src/gsMaterialMatrixComposite.h"],
 "ply rotation, height bookkeeping, Cartesian-to-curvilinear transformation")
p("C09","Material identity survives factory, cloning and XML storage",
 "Creating a material through the option-driven factory, copying it, or writing it to XML and reading it back yields a material of the same kind whose every evaluation, thickness, density and parameter equals the original's; changing a parameter afterwards has the same effect as constructing with it.",
 ["inputs","configurations","histories"],"all laws x compressibility x implementation x dimension x {factory, clone, XML} and compositions thereof",
 TESTS+"they never reload a written material.",
 ["src/getMaterialMatrix.h","src/gsMaterialMatrixXml.hpp","src/gsMaterialMatrixContainer.hpp","src/gsMaterialMatrixBase.h"],
 "template dispatch on option codes, XML readers/writers, clone functions")
p("C10","Stress measures and basis transformations are mutually consistent",
 "Second Piola-Kirchhoff and Cauchy stress, principal stresses with directions, and the transformations between covariant, contravariant, spectral and Cartesian bases agree with each other and with tensor algebra at every state: eigenvalues and eigenvectors belong to the reported stress, and transforming a tensor forth and back returns it.",
 ["inputs","configurations"],"laws x deformation states x parametrisations x heights",
 TESTS+"these outputs are only plotted.",
 ["src/gsMaterialMatrixBaseDim.hpp","src/gsMaterialMatrixLinear.hpp","src/gsMaterialMatrixNonlinear.hpp","src/gsMaterialMatrixEval.hpp"],
 "principal decomposition and 3x3 transformation matrices")
p("C11","The assembled residual is the virtual work of the shell",
 "For every geometry, deformed state, material, load case (surface load, follower pressure, elastic foundation, edge load, point load) and element type (shell, membrane, planar), the assembled right-hand side is external minus internal virtual work tested with every free displacement degree of freedom.",
 ["inputs","configurations"],"element types x geometries x deformations x materials x all combinations of load kinds",
 TESTS+"they would still exit 0 with a scaled or missing load.",
 ["src/gsThinShellAssembler.hpp","src/gsThinShellUtils.h"],
 "expression assembly of internal and external terms",["assembleVector, rhs"])
p("C12","The assembled Jacobian is the exact derivative of the residual",
 "For every geometry, deformed state, material, load and support combination, the assembled tangent matrix equals minus the derivative of the assembled residual with respect to the free degrees of freedom, and is symmetric whenever all loads are conservative. (For laws whose stress varies nonlinearly over the height the material part uses the thickness moments of the pointwise tangent, and membrane elements ignore the dependence of the membrane force on curvature; the tangent is then exactly this documented form.)",
 ["inputs","configurations"],"element types x geometries x deformations x materials x load and support combinations x every degree of freedom",
 TESTS+"Newton's method usually converges with an inexact Jacobian.",
 ["src/gsThinShellAssembler.hpp","src/gsThinShellUtils.h"],
 "expression assembly of material and geometric stiffness",["assembleMatrix, matrix"])
p("C13","Linear analysis is the linearisation at the undeformed state",
 "The linear system assembled without a deformed geometry has the same stiffness matrix as the nonlinear tangent at the undeformed geometry and a load vector equal to the nonlinear residual there, plus the contribution of prescribed displacements; it is symmetric positive semi-definite, exactly reproduces states of constant strain, and its solution satisfies the prescribed displacements.",
 ["inputs","configurations"],"element types x geometries x materials x load and support combinations",
 TESTS+"the linear solution is never compared with anything.",
 ["src/gsThinShellAssembler.hpp"],"assemble() versus assembleMatrix/assembleVector code paths")
p("C14","Rigid motions cost nothing and internal forces balance",
 "A rigid translation or rotation of any deformed shell changes neither the stress state nor the norm of internal forces (which rotate along), the undeformed shell carries no internal force, unsupported internal forces have zero resultant force and moment, and the assembled dead load sums to the total applied load.",
 ["inputs","configurations"],"element types x geometries x materials x rigid motions x deformations",
 TESTS+"no test looks at force balance.",
 ["src/gsThinShellAssembler.hpp","src/gsThinShellUtils.h"],"objectivity of membrane and bending strain expressions")
p("C15","Assembly results depend only on the current settings, not on call history",
 "After any sequence of assembly, evaluation, load, boundary-condition and option calls on one assembler - including copies, moves and failed assemblies - every assembly call succeeds or fails, and yields the same matrix, right-hand side and number of unknowns, exactly as on a freshly constructed assembler with the same current geometry, loads, boundary conditions and options.",
 ["histories"],"all operation sequences up to the depth bound over the alphabet of public mutating and assembling operations",
 TESTS+"each runs one fixed call sequence.",
 ["src/gsThinShellAssembler.hpp","src/gsThinShellAssembler.h"],
 "cached right-hand side, Dirichlet values stored in the space, load indicators, expression-assembler reuse",["matrix(), rhs(), numDofs(), status()"])
p("C16","Solution vectors and geometries convert into each other without loss",
 "Turning a vector of unknowns into a displacement or deformed geometry and back returns the vector; the geometry equals undeformed plus displacement, carries exactly the prescribed values on supported degrees of freedom, is continuous across coupled patches, and depends linearly on the vector.",
 ["inputs","configurations"],"element types x patch layouts x support combinations (fixed, prescribed, coupled, collapsed, corner) x unit vectors",
 TESTS+"only plotted.",
 ["src/gsThinShellAssembler.hpp"],"DoF mapper, fixed values and coefficient scatter/gather",["constructSolution, constructDisplacement, constructSolutionVector, ..."])
p("C17","Mass matrix carries exactly the mass of the shell",
 "The consistent mass matrix is symmetric positive definite, block diagonal over the displacement components and equals the density-times-thickness weighted Gram matrix of the basis; the lumped matrix is diagonal with the row sums of the consistent one, so both carry the total mass for every geometry, thickness and density, independent of materials' stiffness and deformation.",
 ["inputs","configurations"],"element types x geometries x materials incl. composites and per-patch materials x density/thickness fields x lumped or not",
 TESTS+"mass assembly is not exercised by any registered test.",
 ["src/gsThinShellAssembler.hpp","src/gsMaterialMatrixIntegrate.hpp","src/gsMaterialMatrixComposite.hpp"],
 "assembleMass")
p("C18","Patch layout does not change the mechanics",
 "Splitting one patch into several conforming patches, renumbering, reversing or swapping patches' parameter directions gives the same assembled energy, forces and mass up to renumbering of unknowns, each patch uses its own material, and penalty coupling of patches vanishes - with its forces - on every field that is continuous with continuous normals.",
 ["inputs","configurations"],"patch layouts x orientations (8 per patch) x element types x coupling options x per-patch materials",
 TESTS+"single patch or one fixed layout.",
 ["src/gsThinShellAssembler.hpp","src/gsMaterialMatrixContainer.hpp","src/gsThinShellUtils.h"],
 "multi-patch assembly, weak C0/C1 interface terms")
p("C19","Post-processing reports the stress state of the right place",
 "Stress, strain, stretch, principal and force/moment fields constructed for a deformed multi-patch shell equal, on every patch and at every point, the quantity defined by the shell kinematics and the material of that patch; membrane strain is given with tensor shear and flexural strain with engineering shear in the local Cartesian frame aligned with the first parameter direction; areas, interface gap measures and boundary reaction forces (minus the internal forces of the boundary control points, each counted once) are those of the given geometry and balance the applied loads in equilibrium; fields of different deformed states can be evaluated alternately.",
 ["inputs","configurations"],"all field kinds x patches x points x laws x deformations",
 TESTS+"they plot or ignore these fields.",
 ["src/gsThinShellFunctions.hpp","src/gsThinShellAssembler.hpp"],
 "per-kind evaluation expressions")
p("C20","Weakly imposed supports and couplings act like their strong meaning",
 "Penalty-imposed displacement supports, clamped edges and interface couplings produce a residual that vanishes exactly when the constraint is met, pulls towards the constraint otherwise, and a matrix that is the derivative of that residual, in the linear and the nonlinear analysis alike.",
 ["inputs","configurations"],"element types x sides x constraint kinds x penalty values x deformed states",
 TESTS+"weak conditions are not used by registered tests.",
 ["src/gsThinShellAssembler.hpp","src/gsThinShellUtils.h"],
 "penalty terms scaled by material and element size")
p("C21","Goal-oriented error estimation is dual-consistent",
 "For every goal quantity and component (as domain, edge or point quantity), the reported goal value is the integral (or area-weighted point value) of the named quantity or component, the assembled dual load is its derivative with respect to the displacement unknowns, and the estimated error equals the fine-space residual applied to the difference of the fine and coarse dual solutions, with element contributions adding up to the total; eigenvalue estimates are the corresponding residuals of the stiffness, mass and geometric stiffness forms; coarse and fine level systems equal those of plain assemblers on these spaces after any history of calls, and the helper class returns exactly what its steps give.",
 ["inputs","configurations"],"goal functionals x components x {domain, boundary, points} x element types x deformed states x loads",
 TESTS+"one goal with no comparison.",
 ["src/gsThinShellAssemblerDWR.hpp","src/gsThinShellDWRHelper.h"],
 "goal evaluation and its first variation written separately")
p("C22","The representation of geometry and space does not matter",
 "The same deformed shell given as a spline on the original, a refined or a degree-elevated space, as a sum of functions (undeformed geometry plus displacement) or as general functions yields the same linear and nonlinear systems, stress fields, reactions and gap measures; a sum of functions has the summed values and derivatives of its parts on every patch, and copies of it do not depend on the original; on a mapped (globally coupled) discretisation space the assembled system is the Galerkin projection of the patch-wise one and solution vectors convert accordingly.",
 ["inputs","configurations"],"representations of the deformed geometry x spaces (plain, mapped with identity, summed, scaled and coupled functions) x element types x patch layouts x materials x entry points",
 TESTS+"each uses one representation only.",
 ["src/gsFunctionSum.h","src/gsThinShellAssembler.hpp","src/gsMaterialMatrixBaseDim.hpp"],
 "function-set overloads of the assembly routines, sum of functions, setSpaceBasis")
p("C23","Parallel evaluation gives every thread the sequential result",
 "When several threads of an OpenMP build evaluate one material object (any law, laminate or tension-field material, pointwise or through the thickness-integrating evaluators used during assembly) at the same time, each with its own points, every thread obtains exactly the values it obtains when running alone, under every interleaving, without exception, deadlock or access to data of another thread.",
 ["schedules","inputs"],"schedules of two and three threads x ordered pairs of operations x material laws and classes",
 TESTS+"built without OpenMP and single-threaded; an interleaving cannot be chosen from a test.",
 ["src/gsMaterialMatrixBaseDim.h","src/gsMaterialMatrixBaseDim.hpp","src/gsMaterialMatrixNonlinear.hpp","src/gsMaterialMatrixIntegrate.hpp"],
 "per-thread scratch data of the materials (util::gsThreaded)")
p("C24","A failed evaluation is reported and leaves the objects usable",
 "When the evaluation of a user-supplied function (geometry, thickness, density, material parameter, ply datum, load, prescribed value) fails with an exception at any point of any operation, the operation never reports success: it returns AssemblyError (and status() says so) or throws, and it returns no value as if nothing had happened. Afterwards, once the functions work again, the same and every other operation of the same object gives what a fresh object gives. This holds for the materials and their integrators, all assembly, load, mass and post-processing entry points of the shell, membrane and planar assemblers, and both levels of the error estimator.",
 ["fault_sequences","histories"],"fault points (every evaluation of a user function during an operation) x operations x follow-up operations x materials and element types",
 TESTS+"no test lets an evaluation fail.",
 ["src/gsThinShellAssembler.hpp","src/gsThinShellAssemblerDWR.hpp","src/gsMaterialMatrixBaseDim.hpp","src/gsMaterialMatrixIntegrate.hpp"],
 "try/catch around the assembly calls, ThinShellAssemblerStatus")
p("C25","Results do not depend on the choice of units",
 "When the same problem is posed in other units - all lengths (geometry, thickness, displacements, load positions) times one factor, all stresses (moduli, surface loads, pressure; line loads, foundation and point loads accordingly) times another, all densities times a third - every result changes by exactly the factor that follows from its physical dimension: stresses, tangents, strains, stretches and principal values of every material (including laminates and tension fields, whose state and wrinkling direction do not change at all), section forces and stiffnesses, linear and nonlinear systems with all loads, supports, weak constraints and couplings, the solution, mass, reaction forces, areas and stress fields. No hidden absolute tolerance, step or threshold decides a result, for millimetre-sized as for kilometre-sized shells, and for soft as for stiff materials.",
 ["inputs","configurations"],"systems of units x materials x surfaces x deformed states x outputs; assembler configurations (loads, supports, couplings, materials, element types) x operations x systems of units",
 TESTS+"each uses one system of units.",
 ["src/gsMaterialMatrixNonlinear.hpp","src/gsMaterialMatrixTFT.hpp","src/gsMaterialMatrixBaseDim.hpp","src/gsMaterialMatrixIntegrate.hpp","src/gsThinShellAssembler.hpp"],
 "comparisons with constants, finite-difference steps and stopping criteria in the material laws and assemblers")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P),"ok")
