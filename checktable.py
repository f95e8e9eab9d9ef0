check("C01", "proof",
      "cube cut volumes and densities, the combined cube cut, cube_precomp and the sphere cut are proved for every offset and gradient (bounds, complement, 0/1 outside the band, density >= 0; with C02's derivative theorem the volume is monotone). The tetrahedron cut and the batch/array behaviour (no mutation, exact volumes against rational inclusion-exclusion) are bounded.",
      "proof over the reals for the cube and sphere cuts; bounded (exact rational oracle) for the tetrahedron cut and for aliasing/mutation of arrays",
      prove_s=240)
check("C02", "proof",
      "for every one of the six orders of the gradient moduli and every piece of the piecewise cubic, the symbolic derivative of the real cube_cut_volume equals cube_cut_dvolume and the combined call equals both; the sphere cut likewise. The area returned by cube_cut_area_com is proved to be the density times the gradient's modulus for every order of the moduli and every offset. The centroid, the surface samples, corner gathering, tetrahedra and the smearing objects are bounded.",
      "proof over the reals for cube and sphere cuts; bounded for tetrahedra and for corner gathering on grids",
      prove_s=300)
check("C03", "proof",
      "for every number of bands and of cells (symbolic) and every volume function between 0 and 1 and monotone, the aggregation over bands of DensityOfStates is proved bounded, monotone, 0/n outside the band range, nonnegative in density and consistent between every pair of query methods; the sampled band structures (construction of the object) are bounded.",
      "proof over the reals with the smearing object replaced by its contract (C01/C02: value in [0,1], monotone, density >= 0); construction of the object from a model is bounded",
      prove_s=200)
check("C04", "exploration",
      "the contracts of fermi_energy, bandgap, chemical_potential, seebeck and secant are evaluated on the running code over generated band structures (separated, touching, degenerate), counts and temperatures.",
      "bounded: generated band structures, counts and temperatures",
      proof=False)
check("C05", "proof",
      "for every number of samples, all sample positions, counts, chemical potentials and inverse temperatures: convolve_ddf is the derivative of convolve_df in every extrapolation mode; a linear piece has the integrand as derivative with respect to its end, further samples add their piece, a constant count stays constant (induction steps), and the ends are the stated Fermi functions. int_poly has the integrand as derivative on both sides of 0, is additive and 0 on empty intervals. The four Gauss rules are exact for every power up to their order at every centre and temperature (to 2e-12). Continuity of int_poly at 0, the total energy and the heat capacity are bounded.",
      "proof over the reals (special functions by their defining relations: logistic function, logarithm, dilogarithm derivative); energy and heat capacity bounded",
      prove_s=120)
check("C06", "exploration",
      "named groups are checked exhaustively over names, the inversion flag and 1 <= n <= 12; generators, products, basis changes, membership and subgroups over generated groups.",
      "bounded: exhaustive over named groups up to order 12 of the axis, generated otherwise",
      proof=False)
check("C07", "exploration",
      "orbit expansion, reduction, weights, neighbour completion and point matching compared with brute-force orbits over generated groups and point sets.",
      "bounded: generated groups and point sets",
      proof=False)
check("C08", "proof",
      "symmetrize is proved to be the average over the operations (with inversion and determinant signs) for every number of arbitrary invertible operations and every tensor of rank one to three; invariance, idempotence and the kept trace are proved for every tensor under twelve integer groups (crystallographic generators up to order 24, with inversion). Rank 4, rotated groups and float group elements are bounded.",
      "proof over the reals for ranks up to three; invariance for integer groups (for other groups it follows from the proved average and closure, which C06 checks in bounds)",
      prove_s=250)
check("C09", "proof",
      "for every number of neighbours, bands, operations and k-points and all their values (symbolic sizes): value, gradient and Hessian of HermitianFourierSeries and of BandStructureModel in each of its six parametrisations equal the Fourier sum and its partial derivatives, are Hermitian, symmetric in mixed derivatives and agree with the evaluation at single points; blocks, unit matrix and copies. The older TightBindingModel class is bounded.",
      "proof over the reals, one to three dimensions; TightBindingModel bounded",
      prove_s=250)
check("C10", "proof",
      "model algebra (shift, scaling, merging, copies, untouched operands) is proved on the Hamiltonian and overlap for every size, bands and gradients are proved to be LAPACK's eigenvalues of exactly these matrices and the Hellmann-Feynman expectation values. Hessians, degenerate groups and the eigensolver itself are bounded.",
      "proof over the reals given the contract of LAPACK (eigenvalues and eigenvectors are functions of the matrices); Hessians of the bands bounded",
      trusted=[EIG], prove_s=420)
check("C11", "proof",
      "permute, transform, params_complex/set_params_complex (Fourier sum over the orbits, round trip, no aliasing, argument untouched) are proved for every size and every parametrisation; normalize is bounded.",
      "proof over the reals for permute, transform and the conversion of coefficients; normalize bounded",
      trusted=[EIG], prove_s=200)
check("C12", "exploration",
      "save/load round trips in every native format for generated models (sizes, magnitudes, orders), Wannier90 files generated and loaded.",
      "bounded: generated models and files; the missing overlap in saved files is a known finding",
      proof=False)
check("C13", "exploration",
      "supercells of generated integer matrices compared with the folded bands; neighbour editing compared with the documented selection.",
      "bounded: generated models, supercell matrices and thresholds",
      trusted=[EIG], proof=False)
check("C14", "exploration",
      "representation products, generated groups, symmetrizers and HamiltonianSymmetry.apply/symmetrize/symmetrizer compared with explicit group averages for generated groups, orbital characters and coefficient sets; invariance of the symmetrised Hamiltonian at random k under every operation.",
      "bounded: generated groups, representations and coefficients",
      trusted=[EIG], proof=False)
check("C15", "exploration",
      "k-paths built by generated sequences of operations on every table of points compared with an independent bookkeeping of the waypoints; interpolation compared with the data, periodic continuation and symmetry images.",
      "bounded: generated operation sequences, grids and data",
      proof=False)
check("C16", "proof",
      "all lattice constructors are executed symbolically for every length and angle: lengths, angles (Gram matrix), volume and handedness are proved, scale_to_density gives exactly the density for every lattice. File output, composition handling and refused arguments are bounded.",
      "proof over the reals for the lattice constructors and the density; bounded for compositions and written cells",
      prove_s=120)
check("C17", "exploration",
      "the coefficient relations (Peltier, Seebeck, heat conductivity) are proved for every triple of tensors; the energy quadrature, the surface integrals, the transport tensors (against an independent surface sum, symmetry, definiteness, covariance) and the free electron model are bounded.",
      "relations proved over the reals; integrator bounded: generated bands, fillings, temperatures and lattices",
      prove_s=100)
check("C18", "exploration",
      "model_loss, model_error and model_windowed_loss are proved equal to the direct sums (and to the smallest over the contiguous assignments) for every number of k-points and all values, with untouched arguments; the solver is proved exact for one unknown. Assignment losses, the histogram loss and larger systems (real, complex, integer, every kind of start vector) are compared with exhaustive enumeration on generated inputs.",
      "losses by offset and by window proved over the reals; bounded: assignment and histogram losses, systems of two and more unknowns",
      prove_s=100)
check("C19", "exploration",
      "proved for every number of bands, parameters, neighbours and samples: one gradient step of both optimize methods (any coefficient functions, weights, learning rate) equals the weighted mean of the steps of the samples, one sample alone gets the reference energies, and optimize_cg hands the solver the gradient and the Gauss-Newton matrix of the loss and subtracts its answer (normalisation and the reported final error assumed by contract, solver by C18). Bounded: fits of generated models to generated data, for every way of fitting: untouched arguments, shape and Hermiticity of the result, the log against losses recomputed from the returned model, fixed points, descent, one-step and least squares solutions, recovery, kept zeros, symmetrised fits, start models and automatic fits with their check points.",
      "one step of every way of fitting proved over the reals; bounded: generated models, samples, references, weights, windows and numbers of steps",
      trusted=[EIG], prove_s=200)
check("C20", "exploration",
      "complete data files of generated crystals (random cells, atoms, symmetries, k-points, bands and number formats; the binary files record by record) are written in the layout of the program, read back and compared in the documented units; every written input is parsed and compared with the crystal; programs are recorded, not started.",
      "bounded: generated cells, atoms, symmetries, k-points, bands and number formats; file layout of Quantum ESPRESSO as in the shipped data set and its documentation",
      proof=False)
