"""What each property's check builds and runs."""
FEM = ("fem",)
ALL = ("fem", "general", "atomic", "sadatom", "diatomic")
SH = ("wignernj.cpp", "atomdb_data.cpp", "ooo_stub.cpp")

# fresh heap memory is filled with 0x7f bytes (1.4e306), so that a value read
# before it is written cannot pass for zero
FILL = {"OMP_NUM_THREADS": "1", "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:malloc_fill_byte=127:max_malloc_fill_size=268435456"}

PLAN = {
    "P01": dict(rule="one case = one (rule, number of points, scalar type); all are non-trivial and counted once per description",
                runs=[dict(drivers=["d_quad"], groups=("general/angular.cpp",))]),
    "P02": dict(rule="one case = (family, node count, scalar type, random half-length, derivative orders, sample points) or one boundary-condition mask; distinct by description",
                runs=[dict(drivers=["d_poly"], groups=("src/PolynomialBasis.cpp","src/helfem.cpp"))]),
    "P03": dict(rule="one case = random (family, nodes, element boundaries, boundary-condition mask, scalar type); distinct by description; every case has >=1 element and >=1 function",
                runs=[dict(drivers=["d_fe"], groups=("src/PolynomialBasis.cpp","src/helfem.cpp","libhelfem/src/FiniteElementBasis.cpp"))]),
    "P04": dict(rule="one case = one random grid request (kind, scalar type, element counts, extents, nuclear model, off-centre charges, added boundary) or one angular list request; distinct by description",
                runs=[dict(drivers=["d_grid"], groups=("src/helfem.cpp","src/grid.cpp","atomic/basis.cpp"))]),
    "P05": dict(rule="one case = random radial basis (family, nodes, elements, extent, quadrature order, end conditions, scalar type) x operator/weight/power/derivative choice; distinct by description",
                runs=[dict(drivers=["d_radial"], groups=("fem",))]),
    "P06": dict(rule="one case = random radial basis x kernel (Coulomb/Yukawa/erfc) x multipole x density matrix; distinct by description",
                runs=[dict(drivers=["d_twoe"], groups=("fem",))]),
    "P07": dict(rule="one case = (nuclear model, Z, size, scalar type) or one element of a screened model potential; distinct by description; all elements are visited",
                runs=[dict(drivers=["d_nuc"], groups=("fem","general/model_potential.cpp","general/gsz.cpp","general/sap.cpp","general/atomdb.cpp","general/dftfuncs.cpp"), shims=("atomdb_data.cpp",))]),
    "P08": dict(rule="one case = (function, order(s), argument, scalar type); distinct by description",
                runs=[dict(drivers=["d_spec"], groups=("fem","general/spherical_harmonics.cpp"))]),
    "P09": dict(rule="one case = one coupling table (extents, projection window, scalar type) probed exhaustively or at random, or one direct coefficient; distinct by description",
                runs=[dict(drivers=["d_gaunt"], groups=("src/helfem.cpp","libhelfem/src/utils.cpp","general/gaunt.cpp"), shims=("wignernj.cpp",))],
                assumptions=["libwignernj is absent here; its Gaunt entry points are supplied by an exact-quadrature stand-in, so the table, phase and window logic of gaunt.cpp is what is judged"]),
    "P10": dict(rule="one case = random atomic basis (radial basis x angular list x charges x scalar type) with one operator family, one exactly solvable spectrum, or one evaluation direction; distinct by description",
                runs=[dict(drivers=["d_atom1"], groups=ALL, shims=SH)],
                assumptions=["libwignernj is absent here; its Gaunt entry points are supplied by an exact-quadrature stand-in"]),
    "P11": dict(rule="one case = random atomic basis x density matrix kind x kernel x call order; distinct by description",
                runs=[dict(drivers=["d_atom2"], groups=ALL, shims=SH)],
                assumptions=["libwignernj is absent here; its Gaunt entry points are supplied by an exact-quadrature stand-in"]),
    "P12": dict(rule="one case = random spherically averaged basis x per-l densities (random or hydrogen-like) x operator family; distinct by description",
                runs=[dict(drivers=["d_sad"], groups=ALL, shims=SH)],
                assumptions=["libwignernj is absent here; its Gaunt entry points are supplied by an exact-quadrature stand-in", "sadatom/scf.cpp needs OpenOrbitalOptimizer, which is absent here; the solver loop itself is not run"]),
    "P13": dict(rule="one case = random diatomic basis (half bond length, charges, radial basis in mu, angular list) with one operator family, one exactly solvable two-centre state, or one evaluation direction; distinct by description",
                runs=[dict(drivers=["d_dia1"], groups=ALL, shims=SH)],
                assumptions=["libwignernj is absent here; its Gaunt entry points are supplied by an exact-quadrature stand-in"]),
    "P14": dict(rule="one case = random diatomic basis x density kind (symmetric, one orbital, m-conserving, non-symmetric, single element) or one identity; distinct by description",
                runs=[dict(drivers=["d_dia2"], groups=ALL, shims=SH)],
                assumptions=["libwignernj is absent here; its Gaunt entry points are supplied by an exact-quadrature stand-in"]),
    "P15": dict(rule="one case = random basis (atomic, spherically averaged, diatomic) x functional pair (LDA, GGA, meta-GGA with kinetic and Laplacian variables, hybrids, potential-only, custom parameters) x random densities; distinct by description",
                runs=[dict(drivers=["d_xc"], groups=ALL, shims=SH)],
                assumptions=["Trusts the functional library's own energies and derivatives", "libwignernj is absent here; its Gaunt entry points are supplied by an exact-quadrature stand-in"]),
    "P16": dict(rule="one case = one random history of checkpoint operations, one damaged file, one stored basis, or one history with a failure injected at every file-system call in turn; distinct by description",
                runs=[dict(drivers=["d_chk"], groups=ALL, shims=SH, link=("-ldl",))],
                assumptions=["HDF5 itself is trusted; faults are injected at its system calls"]),
    "P17": dict(rule="one case = one random metric (size, condition number, scaling, scalar type), one eigenproblem with a random partition into uncoupled blocks, one random two-dimensional basis, one random set of block orbitals and occupations, or one round of text dumps and reorderings; distinct by description",
                runs=[dict(drivers=["d_la"], groups=ALL, shims=SH)],
                assumptions=["OpenOrbitalOptimizer is absent here; its container types are supplied by a stand-in header, so the helpers around the solver are judged, not the solver"]),
    "P18": dict(rule="one case = one calculation (radial operators, potentials, two-electron tensors, values, special functions and grids, atomic operators and Fock contributions, coupling tables) repeated at three scalar types, one exactly solvable spectrum at one type, or one self-consistent field; distinct by description",
                runs=[dict(drivers=["d_prec", "d_poly", "d_fe", "d_radial", "d_twoe", "d_atom1", "d_gaunt", "d_spec", "d_quad", "d_grid", "d_nuc"], groups=ALL, shims=SH,
                           sections={"d_poly": ["float128"], "d_fe": ["integrals_q", "structure_q"],
                                     "d_radial": ["onee_quad", "generic_quad", "potential_long", "cross_wide", "eval_wide"],
                                     "d_twoe": ["tensors_quad", "contraction_quad"], "d_atom1": ["operators_quad"],
                                     "d_gaunt": ["couplings", "direct"], "d_spec": ["bessel", "legendre_poly", "erfc_wide"], "d_quad": ["lobatto_ld", "lobatto_q", "chebyshev"], "d_grid": ["grids"], "d_nuc": ["nuclei_wide"]})],
                assumptions=["libwignernj is absent here; its Gaunt entry points are supplied by an exact-quadrature stand-in"]),
    "P19": dict(rule="one case = one calculation with a fixed random input repeated with one team size and one schedule; distinct by description; every parallel region of the library is entered",
                runs=[dict(drivers=["d_thr"], groups=ALL, shims=SH, env={"OMP_WAIT_POLICY": "passive"}),
                      dict(drivers=["d_thr"], groups=ALL, shims=SH + ("gomp_tsan.cpp",), variant="tsan", flags=("-DEIGEN_DONT_PARALLELIZE",), repeat=2, repeat_thorough=8)],
                assumptions=["under ThreadSanitizer the OpenMP entry points are served by a pthread runtime (shims/gomp_tsan.cpp) with the semantics of the standard; libxc and OpenBLAS are not instrumented", "libwignernj is absent here; its Gaunt entry points are supplied by an exact-quadrature stand-in"]),
    "P21": dict(rule="one case = one set of contracted Gaussian or Slater functions with projection settings, one primitive evaluation, one pair of numerical orbital sets x kernel x multipole, one malformed request, or one probe orbital on a diatomic basis; distinct by description",
                runs=[dict(drivers=["d_nao"], groups=ALL, shims=SH)]),
    "P22": dict(rule="one case = one record of the table, one tabulated atom with random radii (inside elements, at and next to boundaries, at the nucleus, beyond the table), one atom x functional pair, or one record shared by threads; distinct by description; all elements are visited, with three table sizes",
                runs=[dict(drivers=["d_adb"], groups=ALL, shims=SH), dict(drivers=["d_adb"], groups=ALL, shims=SH, env={"VF_ATOMDB": "12,6"}, sections=["records", "atoms", "screening"]),
                      dict(drivers=["d_adb"], groups=ALL, shims=SH, env={"VF_ATOMDB": "6,16"}, sections=["records", "atoms", "screening"]),
                      dict(drivers=["d_adb"], groups=ALL, shims=SH + ("gomp_tsan.cpp",), variant="tsan", flags=("-DEIGEN_DONT_PARALLELIZE",), sections=["first_use", "shared"])],
                assumptions=["src/general/atomdb_data.cpp is not in the repository; a generated table of the same layout (orthonormal Slater-type orbitals, fractional occupations, all elements) stands in for it"]),
    "P23": dict(rule="one case = one element, string of letters, (Z, charge, multiplicity) or explicit population, parameter list, functional identifier or request string; distinct by description; elements and functionals are exhausted",
                runs=[dict(drivers=["d_info"], groups=ALL, shims=SH)],
                assumptions=["the functional library's metadata and evaluations (libxc) are trusted"]),
    "P20": dict(rule="one case = one request (valid, boundary-size or invalid) to one entry point of the library under the sanitizers, or one case of another property's workload repeated under the sanitizers; distinct by description",
                runs=[dict(drivers=["d_fuzz", "d_quad", "d_poly", "d_fe", "d_grid", "d_radial", "d_twoe", "d_nuc", "d_spec", "d_gaunt", "d_atom1", "d_atom2", "d_sad",
                                    "d_dia1", "d_dia2", "d_xc", "d_chk", "d_la", "d_nao", "d_adb", "d_info"], groups=ALL, shims=SH, variant="asan", small=True, full=("d_fuzz",), flags_quick=("-DVF_LIGHT",), link=("-ldl",), env=FILL)],
                assumptions=["libxc, HDF5 and OpenBLAS are not instrumented", "libwignernj is absent here; its Gaunt entry points are supplied by an exact-quadrature stand-in"]),
}
