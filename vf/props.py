"""Source of properties.jsonl and MANIFEST.json (python3 vf/props.py regenerates both)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
                  _technique=technique, _note=note))


prop("P01", "Quadrature rules are exact to their nominal degree at any size and precision",
     "For every number of points and every supported scalar type, the Gauss-Lobatto rule has ascending symmetric nodes with both endpoints included, positive weights, and integrates every polynomial of degree up to 2n-3 exactly to rounding. The finite and semi-infinite Gauss-Chebyshev rules follow their defining substitution, have positive weights and converge to the exact integral. Angular product grids cover the full solid angle and integrate to zero every non-constant spherical harmonic within their order.",
     ["inputs", "configurations"], "all point counts, all scalar types (double, long double, quad), all (l,m) angular orders",
     "no existing unit test evaluates the rules against exact integrals; one fixed order is used indirectly",
     ["libhelfem/include/lobatto.h", "libhelfem/include/chebyshev.h", "src/general/angular.cpp"],
     [("Newton iteration on Legendre derivative roots", "lobatto.h: lobatto_compute"), ("modified Gauss-Chebyshev substitution", "chebyshev.h"), ("compound theta x phi rule", "angular.cpp: compound_rule")],
     ["nodes and weights returned by the rule builders"],
     "online reference monitor: quad-precision exactness oracle over random rule orders",
     "Held on the sampled orders; the oracle is an independent quad-precision evaluation. Trusts libquadmath.")

prop("P02", "Shape functions satisfy their interpolation conditions with all derivatives",
     "Every primitive basis family reproduces, for any node count, element length and scalar type, exactly the polynomials fixed by its interpolation conditions (value or derivative one at its own node, zero elsewhere), together with all supported derivatives and the quotient by the distance from the origin. Imposing boundary conditions removes exactly the functions that violate them and changes no other function. Unsupported families, node counts or derivative orders are rejected with an exception.",
     ["inputs", "configurations"], "all families, node counts, element lengths, derivative orders, evaluation points (including the end points), boundary-condition masks, scalar types",
     "over_r_test samples three node counts of the quotient only; values, derivatives, other node counts and boundary conditions are untested",
     ["libhelfem/include/LIPBasis.h", "libhelfem/include/HIPBasis.h", "libhelfem/include/HIP2Basis.h", "libhelfem/include/HIP3Basis.h", "libhelfem/include/LegendreBasis.h", "libhelfem/include/*_eval.h", "libhelfem/include/*_over_r.h", "libhelfem/src/PolynomialBasis.cpp"],
     [("generated closed-form evaluation tables", "*_eval.h, *_over_r.h"), ("enabled-function lists", "drop_first/drop_last")],
     ["values and derivatives returned by evaluation, list of enabled functions"],
     "online reference monitor: jets of the defining Hermite interpolation in quad precision",
     "Held on the sampled families/points. High derivative orders are limited to small node counts (the closed forms cost factorial time).")

prop("P03", "Finite element space: tiling, indexing, continuity and element integrals",
     "For any element boundaries, family and boundary-condition choice, the elements tile the interval, every global function has one consistent index range, is continuous across element boundaries to the order of the family and obeys the requested end conditions; coordinate maps invert each other and reject foreign points. Matrix and vector integrals over the space equal the exact integrals to rounding of the scalar type, for polynomial, smooth, kinked (with break points) and integrable singular weights, whole-basis or per element or on a partial element. Inserting an element boundary refines the mesh consistently and inserting an existing one changes nothing.",
     ["inputs", "configurations"], "all families, node counts, element layouts, boundary-condition masks, weights, scalar types",
     "no unit test constructs a multi-element space with general boundary conditions or compares its integrals with exact values",
     ["libhelfem/src/FiniteElementBasis.cpp", "libhelfem/include/FiniteElementBasis.h"],
     [("function index list", "update_bf_list"), ("continuity check", "check_bf_continuity"), ("self-converging quadrature", "converge_panel / matrix_element_auto")],
     ["index ranges, values, coordinates and integrals returned by the basis object"],
     "online reference monitor: independent quad-precision finite element model",
     "Held on the random spaces generated; reference integrals by quad Gauss-Legendre.")

prop("P04", "Radial grids cover exactly the requested interval with the requested layout",
     "Every grid request returns strictly increasing element boundaries starting at exactly zero and ending at the requested radius, with the requested number of elements placed by the documented formula of the grid type. Finite-nucleus, off-centre-nucleus and added confinement boundaries appear as element boundaries. Angular function lists contain each admissible (l,m) pair exactly once, and invalid grid types or parameters are rejected.",
     ["inputs", "configurations"], "all grid types, radii, element counts, exponents, nuclear models, off-centre charges, added boundaries, scalar types",
     "no unit test constructs grids other than through one or two fixed settings",
     ["libhelfem/include/grid.h", "libhelfem/src/grid.cpp", "src/atomic/basis.cpp"],
     [("grid formulas with snapped endpoints", "grid.h: get_grid"), ("grid concatenation", "atomic/basis.cpp")],
     ["the returned boundary vector and (l,m) lists"],
     "online reference monitor: closed-form grid model in quad precision",
     "Held on the random requests generated.")

prop("P05", "One-electron radial integrals equal the exact integrals for every operator",
     "For any radial basis, power, derivative order, weight, confinement and scalar type, overlap, kinetic, centrifugal, nuclear, radial-moment, Bessel and model-potential matrices equal the analytic integrals over the basis to rounding, are symmetric where the operator is, and the overlap is positive definite. Matrices between two different radial bases equal the exact mixed integrals, reduce to the single-basis matrices when the bases coincide and transpose when they are exchanged. Values of the basis functions and their derivatives agree with the definition arbitrarily close to the origin.",
     ["inputs", "configurations"], "all bases, grids, powers, weights, confinement laws, pairs of bases, scalar types",
     "no unit test evaluates radial integrals; the reference integrals need independent quadrature",
     ["libhelfem/src/RadialBasis.cpp", "libhelfem/src/FiniteElementBasis.cpp", "libhelfem/include/RadialBasis.h", "libhelfem/src/quadrature.cpp"],
     [("analytic B/r evaluation on the first element", "RadialBasis.cpp"), ("auto-converging quadrature with breakpoints", "FiniteElementBasis.cpp")],
     ["matrices returned by the radial basis"],
     "online reference monitor: quad-precision quadrature of the definition",
     "Held on the random bases generated.")

prop("P06", "Radial two-electron integrals and J/K builds equal the double integral",
     "For every multipole order and interaction (Coulomb, Yukawa, error-function complement), the radial two-electron integrals equal the exact double radial integral over the basis, with full eightfold symmetry within an element and factorisation between elements. Radial Coulomb and exchange matrices built from them equal the direct contraction for any density, are symmetric, linear in the density, and satisfy the trace exchange identities.",
     ["inputs", "configurations"], "all multipole orders, screening constants, element pairs, densities, scalar types",
     "the two-electron tensors are only exercised by full SCF runs that cannot run here, at a few fixed systems",
     ["libhelfem/src/quadrature.cpp", "libhelfem/src/erfc_expn.cpp", "libhelfem/src/RadialBasis.cpp", "libhelfemqc/include/CoulombExchangeFE.h"],
     [("inner/outer cumulative quadrature", "quadrature.cpp"), ("erfc kernel expansion", "erfc_expn.cpp"), ("J/K contraction", "CoulombExchangeFE.h")],
     ["two-electron tensors and J/K matrices"],
     "online reference monitor: direct quad/long double double integration",
     "Held on the random bases, orders and densities generated.")

prop("P07", "Nuclear models, confinement and model potentials have the documented form",
     "Each finite nuclear model gives the potential of a normalised positive charge distribution with the requested rms radius (so minus Z over r outside it and finite at the origin) and announces its kinks; the regularised nucleus is the scaled potential whose ground state is the stated normalised orbital and has the Coulomb tail. Each screened atomic model potential runs from the bare nuclear charge at the origin monotonically to its documented asymptotic charge with the published parameters or linearly interpolated table, for every supported element; elements outside the supported range are refused or give no charge as documented.",
     ["inputs", "configurations"], "all elements, radii from far inside the nucleus to asymptotic distances, nuclear models and sizes",
     "no unit test evaluates a nuclear model or model potential",
     ["libhelfemqc/src/*.cpp", "src/general/gsz.cpp", "src/general/sap.cpp", "src/general/model_potential.cpp"],
     [("closed-form potentials", "libhelfemqc/src"), ("tabulated effective charges", "sap.cpp, gsz.cpp")],
     ["potential values returned at a radius"],
     "online reference monitor: electrostatics of the model charge density",
     "Held at the sampled radii/elements.")

prop("P08", "Special functions are correct over their whole domain",
     "Spherical harmonics, associated Legendre functions of both kinds inside and outside the cut, spherical Bessel functions and screened-interaction kernels equal their mathematical definition, including at end points, large order, large and tiny arguments, and satisfy their recurrences, Wronskians and orthogonality at every supported precision.",
     ["inputs"], "all orders, degrees and arguments in the supported range, all scalar types",
     "existing tests compare a handful of tabulated points at fixed orders",
     ["src/legendre/Legendre.h", "src/general/spherical_harmonics.cpp", "libhelfem/src/utils.cpp", "libhelfem/src/erfc_expn.cpp", "libhelfem/include/math.h", "libhelfem/include/legendre_poly.h"],
     [("recurrences with Miller/continued-fraction start", "Legendre.h"), ("series and asymptotic branches", "utils.cpp, erfc_expn.cpp")],
     ["returned function values"],
     "online reference monitor: quad-precision definitions and invariants (recurrence, Wronskian, orthogonality)",
     "Held on the sampled arguments.")

prop("P09", "Angular coupling coefficients equal the angular integrals",
     "Every Gaunt-type coupling coefficient handed out equals the corresponding integral over the sphere of (derivative-, cosine- or sine-weighted) spherical harmonics, obeys the triangle and projection selection rules and exchange symmetry, and does not depend on how large a table it is read from. A request outside the prepared window of projections is refused rather than answered wrongly; a degree outside the prepared range or a harmonic that does not exist gives the documented zero.",
     ["inputs", "configurations"], "all (l,m) triples, table sizes, operator weights, scalar types",
     "the coupling test cannot be linked here and compares fixed tables",
     ["src/general/gaunt.cpp", "src/general/gaunt.h"],
     [("precomputed coupling table", "gaunt.cpp")],
     ["coefficient values"],
     "online reference monitor: direct angular quadrature in quad precision",
     "The third-party coupling library is replaced by a stand-in, so the wrapper and table logic are what is judged.")

prop("P10", "Atomic one-electron operators equal their three-dimensional matrix elements",
     "For any set of angular functions and any radial basis, the atomic overlap, kinetic, nuclear (including off-centre charges), multipole, external electric and magnetic field and confinement matrices equal the operators' matrix elements over the product basis, are Hermitian, respect the angular selection rules and reproduce exactly known spectra. Evaluated orbitals, gradients and Laplacians are mutually consistent, and symmetry blocks partition the basis without loss or duplication.",
     ["inputs", "configurations"], "all angular lists, radial bases, charges, field strengths, scalar types",
     "no existing runnable test builds an atomic Hamiltonian",
     ["src/atomic/TwoDBasis.cpp", "src/atomic/basis.cpp"],
     [("angular x radial block assembly", "TwoDBasis.cpp")],
     ["operator matrices, orbital values"],
     "online reference monitor: quadrature over the sphere and radius, analytic spectra",
     "Held on the random bases generated.")

prop("P11", "Atomic Coulomb and exchange matrices equal the electron repulsion contraction",
     "For any density matrix the atomic Coulomb and exchange matrices equal the contraction with the exact electron-repulsion (or range-separated) tensor, are Hermitian and linear, satisfy J[P]:P = energy symmetry and K for one orbital equal to J, and are the same whichever equivalent build path, blocking or caching is used. Energies are invariant under rotation of the density about the axis.",
     ["inputs", "histories", "configurations"], "all densities, angular lists, range-separation parameters, call orders",
     "SCF tests cannot run here and sample a few closed-shell atoms",
     ["src/atomic/TwoDBasis.cpp", "libhelfem/src/quadrature.cpp", "src/general/gaunt.cpp"],
     [("multipole expansion with cached in-element tensors", "TwoDBasis.cpp: coulomb, exchange")],
     ["J and K matrices, energies"],
     "online reference monitor: independent multipole contraction and energy identities",
     "Held on the random densities and bases generated.")

prop("P12", "Spherically averaged atoms: J, K, density and screening are consistent",
     "For any set of l-resolved densities the spherically averaged solver's Coulomb and exchange matrices equal the radial reference contraction, and its electron density, gradient, kinetic-energy density, Laplacian, nuclear density, enclosed charge, Coulomb and exchange-correlation screening and radii are mutually consistent with the same density. Screening charges run from zero at the nucleus to the electron count outside.",
     ["inputs", "configurations"], "all l-resolved densities, occupations, radial bases",
     "no existing test runs the spherically averaged code",
     ["src/sadatom/basis.cpp", "src/sadatom/dftgrid.cpp"],
     [("l-averaged contraction", "sadatom/basis.cpp")],
     ["J/K matrices, density profiles, screening"],
     "online reference monitor: radial quadrature of the density definition",
     "Held on the random densities generated.")

prop("P13", "Diatomic one-electron operators equal their prolate-spheroidal integrals",
     "For any bond length, nuclear charges, angular list and basis, the diatomic overlap, kinetic, nuclear attraction, dipole, quadrupole and field matrices equal the operators' matrix elements in prolate spheroidal coordinates, are Hermitian, and reproduce one-electron energies known from separable solutions. Exchanging the two nuclei or mirroring the angular part gives the corresponding transformed result, and orbital values and derivatives agree with finite differences.",
     ["inputs", "configurations"], "all bond lengths, charges, angular lists, grids",
     "no runnable test builds a diatomic Hamiltonian",
     ["src/diatomic/basis.cpp", "src/diatomic/quadrature.cpp", "src/general/gaunt.cpp"],
     [("mu/nu separation with coupling coefficients", "diatomic/basis.cpp")],
     ["operator matrices, orbital values"],
     "online reference monitor: two-dimensional reference quadrature and exact H2+ energies",
     "Held on the random systems generated.")

prop("P14", "Diatomic Coulomb and exchange matrices equal the electron repulsion contraction",
     "For any density matrix the diatomic Coulomb and exchange matrices equal the contraction with the exact electron-repulsion tensor in the Neumann expansion, are Hermitian and linear, give the same one-orbital Coulomb and exchange energy, and do not depend on which equivalent shortcut, symmetry or cached intermediate is used.",
     ["inputs", "histories", "configurations"], "all densities (symmetric or not), angular lists, bond lengths, call orders",
     "the only test of this layer compares one shortcut on one system and cannot be linked here",
     ["src/diatomic/basis.cpp", "src/diatomic/quadrature.cpp", "src/legendre/Legendre.h"],
     [("Neumann expansion, low-rank in-element factors, |m| symmetry shortcut", "diatomic/basis.cpp: coulomb, exchange")],
     ["J and K matrices"],
     "online reference monitor: independent Neumann contraction and energy identities",
     "Held on the random densities and bases generated.")

prop("P15", "Exchange-correlation grids integrate the density and its functional derivative",
     "For any density matrix and functional of the supported rungs, each grid integrates to the correct electron number, its energy is the integral of the functional, and its Fock matrix is the derivative of that energy with respect to the density matrix. Closed-shell and spin-polarised code paths agree on closed-shell input, spin exchange only swaps the results, thresholding leaves no non-finite numbers, and the analytic-azimuth grid agrees with the full three-dimensional one.",
     ["inputs", "configurations"], "all densities, functionals (LDA, GGA, meta-GGA), spin polarisations, grid orders, geometries",
     "the comparison test cannot be linked here and uses one density and few functionals",
     ["src/general/dftgrid_common.cpp", "src/atomic/dftgrid.cpp", "src/sadatom/dftgrid.cpp", "src/diatomic/dftgrid.cpp", "src/diatomic/dftgrid_purem.cpp", "src/general/dftfuncs.cpp"],
     [("batchwise density and Fock evaluation", "dftgrid*.cpp")],
     ["electron count, energy, Fock matrix"],
     "online differential monitor: directional derivative of the energy, cross-path equality",
     "Trusts the functional library's own energy/derivative consistency.")

prop("P16", "Checkpoints return exactly what was stored and never fail silently",
     "Every value written to a checkpoint (scalars, vectors, integer and real matrices, strings, bases) is read back bit-identically at its precision, by the same or a later process, after overwrites, reopening and interleaved access, and datasets that were not touched are unchanged. Missing or wrongly typed entries, read-only files, and write failures such as a full device are reported by an error and leave no open handles.",
     ["inputs", "histories", "fault_sequences"], "all value types and shapes including empty ones, operation histories, injected I/O faults",
     "the existing precision test cannot be linked here and writes three fixed matrices once",
     ["src/general/checkpoint.cpp", "src/general/checkpoint.h"],
     [("HDF5 dataset write/read with type checks", "checkpoint.cpp")],
     ["values read back, exceptions, open handle counts, file content"],
     "history monitor with a key-value model, plus fault injection on file writes",
     "HDF5 itself is trusted; faults are injected at the system-call level.")

prop("P17", "Linear algebra helpers: orthonormal, complete, blockwise equal to full",
     "For any positive definite overlap matrix the orthonormalisation returns a matrix that orthonormalises it; (generalised and blockwise) eigensolvers return ascending eigenvalues with orthonormal vectors satisfying the eigenvalue equation; a blockwise solution over any partition of uncoupled blocks equals the full solution. Density, occupation and utility transformations conserve electron counts and shapes.",
     ["inputs", "configurations"], "all matrix sizes, conditionings, partitions, scalar types",
     "no unit test covers these helpers",
     ["libhelfem/src/utils.cpp", "src/general/scf_helpers.cpp", "src/general/lcao.cpp", "src/general/eigen_io.h"],
     [("Cholesky / symmetric orthonormalisation", "utils.cpp: invh"), ("block eigensolver", "scf_helpers.cpp")],
     ["returned matrices"],
     "online monitor: residual and orthonormality checks on random and ill-conditioned matrices",
     "Held on the generated matrices.")

prop("P18", "Results refine with the scalar type instead of stopping at double precision",
     "Carrying out the same calculation at a wider scalar type changes results only at the rounding level of the narrower type, and the wider result itself is accurate to its own precision: no intermediate silently falls back to double.",
     ["inputs", "configurations"], "all templated layers, bases and operators",
     "demonstration programs print a few numbers without judging them",
     ["libhelfem/src/*.cpp", "src/atomic/TwoDBasis.cpp", "src/general/gaunt.cpp", "libhelfemqc/include/*.h"],
     [("scalar-type templates", "everywhere")],
     ["matrices and eigenvalues at double, long double and quad"],
     "online differential monitor across scalar types against a quad reference",
     "Held on the sampled calculations.")

prop("P19", "Parallel execution is race free and does not change results",
     "All parallel regions are free of data races under every interleaving of their threads, and every result is the same for every thread count up to the rounding of reordered sums.",
     ["schedules", "configurations"], "all thread counts and interleavings of the parallel builds",
     "tests run single threaded",
     ["libhelfem/src/FiniteElementBasis.cpp", "libhelfem/src/RadialBasis.cpp", "src/atomic/TwoDBasis.cpp", "src/atomic/dftgrid.cpp", "src/sadatom/dftgrid.cpp", "src/diatomic/basis.cpp", "src/diatomic/dftgrid.cpp", "src/diatomic/dftgrid_purem.cpp"],
     [("OpenMP parallel regions with private work arrays and critical reductions", "grid workers and integral builds")],
     ["shared memory accesses, results per thread count"],
     "ThreadSanitizer on an instrumented fork-join runtime with injected delays, plus thread-count differential",
     "Races in regions the workloads do not enter are not seen.")

prop("P20", "No memory error or undefined behaviour for any input",
     "No sequence of library calls on valid requests, down to the smallest sizes the constructors accept, reads or writes outside its objects, uses freed or uninitialised storage, or executes undefined arithmetic, and every call ends; requests that are invalid (element boundaries, node counts, quadrature orders, angular lists, electron counts, names, densities of the wrong size, calls made before the integrals they need, damaged checkpoints) are refused with an exception and never touch memory they should not.",
     ["inputs", "histories"], "all the workloads of the other properties, boundary-size inputs and random invalid requests to every entry point",
     "tests run without sanitizers and only on well-formed input",
     ["libhelfem/src/*.cpp", "libhelfemqc/src/*.cpp", "src/general/*.cpp", "src/atomic/*.cpp", "src/sadatom/*.cpp", "src/diatomic/*.cpp", "src/legendre/*.cpp"],
     [("Eigen block bounds and index arithmetic", "everywhere"), ("validation of requests", "constructors and parsers")],
     ["sanitizer reports, assertion failures, watchdog expiry, exception types"],
     "AddressSanitizer + UndefinedBehaviorSanitizer + assertion-enabled runs of all workloads and of randomised valid, boundary-size and invalid requests, with fresh heap memory filled with a pattern",
     "Red-zone tools miss overflows inside one object; uninitialised reads are seen through the fill pattern and the reference monitors, not bit by bit. Exceptions raised inside parallel regions are out of scope (OpenMP forbids them to leave).")

prop("P21", "Gaussian, Slater and numerical orbitals are normalised and projected faithfully",
     "Radial functions of Gaussian, Slater and numerical type are normalised, their analytic values, derivatives, overlaps and operator matrices equal direct radial integration, and projecting a function onto a sufficiently rich finite element basis and back reproduces it with its norm conserved; orbitals of either kind centred on the left nucleus, the bond centre or the right nucleus have the norm, overlaps and projections onto the diatomic basis that direct integration gives; malformed functions are refused.",
     ["inputs", "configurations"], "all exponents, angular momenta, contraction sets, target bases",
     "no unit test covers these bases",
     ["libhelfemqc/include/GTO.h", "libhelfemqc/include/STO.h", "libhelfemqc/include/NAORadialBasis.h", "src/diatomic/twodquadrature.cpp", "src/general/lcao.cpp"],
     [("analytic normalisation and quadrature projection", "libhelfemqc/include")],
     ["values, overlaps, projections"],
     "online reference monitor: quad-precision radial quadrature",
     "Held on the sampled functions.")

prop("P22", "Tabulated atoms give consistent density, charge, screening and potentials",
     "For every tabulated atom, the density integrates to its electron count, the enclosed charge is monotone and agrees with the integrated density, the Hartree and exchange-correlation screening agree with the density, orbitals are orthonormal, and the effective charge runs from the nuclear charge at the origin to the documented limit outside the table; elements outside the table are refused.",
     ["inputs", "configurations"], "all tabulated elements, functionals and radii including element boundaries and beyond the table",
     "the table test cannot be linked here (the data file is not in the tree)",
     ["src/general/atomdb.cpp", "src/general/atomdb.h"],
     [("finite element evaluation of tabulated orbitals", "atomdb.cpp")],
     ["density, charge and screening at a radius"],
     "online reference monitor: quadrature of the tabulated orbitals (stand-in table)",
     "The real table is not in the repository; a generated stand-in table with the same layout is used.")

prop("P23", "User-facing names, electron counts and functionals are interpreted correctly",
     "Element symbols and numbers map to each other one to one; charge and multiplicity requests give the unique spin populations or an error; functional names, numbers and combinations are parsed to the right exchange and correlation parts and classified with the right ingredients and range-separation parameters; unknown or inconsistent input is rejected.",
     ["inputs", "configurations"], "all elements, charges, multiplicities, functional identifiers",
     "no unit test parses input",
     ["src/general/elements.cpp", "src/general/scf_helpers.cpp", "src/general/dftfuncs.cpp", "src/general/scf_driver_common.h"],
     [("symbol table", "elements.cpp"), ("functional introspection through the functional library", "dftfuncs.cpp")],
     ["parsed values and exceptions"],
     "exhaustive/random input monitor against an independent model",
     "Trusts the functional library's own metadata.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in PLAN:
            checks.append(dict(property=p["id"], quick_cmd="python3 vf/check.py %s --tier quick" % p["id"],
                               thorough_cmd="python3 vf/check.py %s --tier thorough" % p["id"],
                               technique=p["_technique"], level=PLAN[p["id"]].get("level", "exploration"), level_note=p["_note"]))
        else:
            na.append(dict(property=p["id"], reason="check under construction"))
    m = dict(version=1, setup_cmd="python3 vf/setup.py", checks=checks, not_applicable=na)
    extra = os.path.join(ROOT, "vf", "hooks.json")
    if os.path.exists(extra):
        m["hooks"] = json.load(open(extra))
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]


main()
