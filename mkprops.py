#!/usr/bin/env python3
"""Regenerates properties.jsonl from the table below (kept as source so the file stays consistent)."""
import json, os
P = []
S = "src/tight_binding_redweasel/"
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files], mechanism=[dict(name=a, where=S + b) for a, b in mechanism],
                               state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))

p("C01", "Cell-cut volume fractions are valid, monotone and complementary",
  "For every grid cell and every linear band in it (any offset and any gradient, including zero, axis-aligned and huge gradients), the occupied fraction reported by the cube, tetrahedron (in units of its full volume) and sphere cuts lies between 0 and 1, equals the volume fraction in which the band is below the energy, does not decrease when the energy rises, is 0 below and 1 above the band's range in the cell, and negating the band turns the fraction v into 1-v. The cut functions never modify the arrays passed to them, so evaluating twice gives the same answer.",
  ["inputs"], "all real offsets and gradient components (every branch of the piecewise cubic formulas), array arguments of any shape",
  "test_cut_functions compares a few random directions with a Monte-Carlo volume at 1% accuracy; it cannot reach the branch boundaries, the clamped/degenerate directions or all offsets.",
  ["smearing.py"], [("cube cut", "smearing.py:cube_precomp,cube_cut_volume,cube_cut_volume_dvolume"), ("tetra cut", "smearing.py:unit_tetra_cut_volume,tetra_cut_volume,cube_tetra_cut_volume"), ("sphere cut", "smearing.py:unit_sphere_cut")],
  observe=["return values of the cut functions", "CubesSmearing/TetraSmearing/SphereSmearing.volume"])

p("C02", "Reported density is the energy derivative of the reported volume",
  "For the cube, tetrahedron and sphere cuts, the reported cut density equals the derivative of the reported volume fraction with respect to energy wherever that derivative exists, and the call that returns both gives the same pair as the two separate calls. For the smearing objects built on a periodic or open grid, each cell's value and gradient are exactly the mean and the mean axis differences of its eight corner samples, every corner being the correct (wrapped) grid neighbour, and both smearing calls obey the same derivative and agreement laws cell by cell. For cubes, the reported area of the cut plane is the reported density times the length of the gradient, its reported centre is the centroid of the cut polygon, and the surface samples lie on the surface of the piecewise linear interpolation, with exact gradients and the areas as weights.",
  ["inputs"], "all real offsets and gradients, all grid sizes and all sampled values",
  "the tests compare derivative and difference quotient only at sampled offsets for cubes with loose tolerance; the derivative identity is a statement about every point of every polynomial piece, and the wrapped corner selection about every cell of every grid.",
  ["smearing.py"], [("cube cut derivative", "smearing.py:cube_cut_dvolume,cube_cut_volume_dvolume"), ("tetra cut derivative", "smearing.py:unit_tetra_cut_dvolume,cube_tetra_cut_dvolume"), ("corner gathering", "smearing.py:CubesSmearing.__init__,ExtraCubesSmearing.__init__,SphereSmearing.__init__,TetraSmearing.__init__"), ("surface samples", "smearing.py:cube_cut_area_com,CubesSmearing.samples")])

p("C03", "State counts: bounded, monotone, consistent across query methods",
  "For any periodic 3D band structure, the number of states below an energy is between 0 and the number of bands, never decreases with energy, is 0 below the lowest and equal to the number of bands above the highest band energy, and the density is never negative. All query methods agree: total counts and densities are the sums of the per-band ones, the combined query returns the same pair as the separate ones, and the list of cut bands is exactly the bands whose range strictly contains the energy.",
  ["inputs", "configurations"], "all energies, all sampled band structures, every number of bands, every smearing method except the extrapolated one (not monotone by design)",
  "the tests integrate three concrete band structures; they cannot cover all energies relative to all band edges nor the agreement of every pair of query methods.",
  ["density_of_states.py", "smearing.py"], [("aggregation over bands", "density_of_states.py:DensityOfStates.states_below,states_below_band,states_density,density,density_band,density_bands,cut_band_indices"), ("mean over cells", "smearing.py:CubesSmearing.volume")],
  state=[("bands_range", "per-band (min, max) energy", "density_of_states.py:DensityOfStates.__init__")])

p("C04", "Fermi energy, gap and chemical potential reproduce the electron count",
  "At a whole number n of filled bands with band n's maximum below band n+1's minimum the Fermi energy is the middle of the gap and the reported gap is their difference; otherwise the gap is 0; at no electrons and at all bands filled the Fermi energy is the lowest and the highest band energy. In every other case the returned Fermi energy fills the requested number of states within the root tolerance, or an error is raised; the chemical potential equals the Fermi energy for T<=0, for counts strictly between no and all electrons its value for each positive T gives the requested electron count under the Fermi distribution, and results come back in the order of the requested temperatures. The Seebeck function is the temperature derivative of the chemical potential at a fixed number of electrons.",
  ["inputs", "configurations"], "all electron counts, all band edges, all temperatures lists",
  "tests check two metals and no gapped system; branch choice at gap/metal/empty/full boundaries and the postcondition 'states below the answer = electrons' are statements about every input.",
  ["density_of_states.py"], [("gap detection", "density_of_states.py:DensityOfStates.fermi_energy,bandgap"), ("Newton iteration", "density_of_states.py:DensityOfStates.fermi_energy"), ("secant iteration", "density_of_states.py:secant,DensityOfStates.chemical_potential"), ("temperature derivative", "density_of_states.py:DensityOfStates.seebeck")])

p("C05", "Thermal smearing integrals are the exact closed forms they claim to be",
  "Convolving a piecewise linear state count with the Fermi window returns the exact integral for every chemical potential, temperature, sample list and extrapolation mode, and the function documented as its analytic derivative is exactly its derivative with respect to the chemical potential. The total energy at any temperature is the energy integral over the occupied density of states, and the heat capacity is its temperature derivative at a fixed number of electrons. The closed-form integral of a quadratic against the Fermi window has exactly that integrand as its derivative at either end, is 0 on an empty interval and additive over adjacent ones; the Gauss rules are exact (to rounding) for constants and for polynomials up to their order, at every centre and temperature.",
  ["inputs"], "all sample counts, sample positions, sample values, chemical potentials and inverse temperatures; all polynomial coefficients",
  "the tests exercise these only inside one density-of-states comparison with 1e-3 tolerances; exactness for all sample lists and both extrapolation modes is not observable there.",
  ["density_of_states.py"], [("convolution", "density_of_states.py:convolve_df,convolve_ddf"), ("closed form integrals", "density_of_states.py:_int_df,_int_xdf,_int_xxdf,int_poly"), ("thermal energy", "density_of_states.py:DensityOfStates.energy"), ("Gauss rules", "density_of_states.py:gauss_5_df,gauss_7_df,gauss_4_f,gauss_6_f")])

p("C06", "Symmetry groups are groups, and group combinators preserve that",
  "Every named point group and every group generated from a finite set of generators contains the identity, is closed under multiplication and inversion, has no duplicate elements and (for named groups) its textbook order; the explicit inversion flag doubles the group exactly when -1 is not already in it. Products, duals, transposes and changes of basis again give groups with the expected elements, and membership (is every operation of one group contained in another) and equality compare groups exactly as sets of operations.",
  ["inputs", "configurations"], "all named groups and orders n, all generator sets generating a finite group, all invertible basis changes",
  "tests construct a handful of groups once; closure and the exact element set for every group, generator set and basis change are universally quantified.",
  ["symmetry.py"], [("generation", "symmetry.py:Symmetry.from_generator"), ("named groups", "symmetry.py:Symmetry.cubic,cyclic,dihedral,..."), ("combinators", "symmetry.py:Symmetry.transform,dual,__mul__,__contains__,__eq__,get_symmetry_operations")])

p("C07", "Orbit expansion, reduction and weights are consistent",
  "Expanding points by a symmetry group gives exactly the orbit points without duplicates, in an orbit-closed set; reducing a symmetric set and expanding it again returns the same set with the data attached to the right points. The k-weight of a point is one over the number of operations keeping it modulo the lattice, so times the group order it counts the orbit and sums over a reduced grid to the full grid; neighbour completion yields a set sorted by length that is closed under the group up to sign, contains every given neighbour up to sign, nothing else and no pair twice, and passes the neighbour check, which reports incomplete sets.",
  ["inputs"], "all groups, all point sets and all per-point data",
  "tests use one k-grid and one group; orbit correctness depends on stabilisers of special points, on the inversion handling and on tolerance matching of every point.",
  ["symmetry.py"], [("orbits", "symmetry.py:Symmetry.realize_symmetric,realize_symmetric_data,reduce_symmetric_data,complete_neighbors,k_weight,r_class_size,check_neighbors"), ("point matching", "symmetry.py:neighbor_function,try_neighbor_function")])

p("C08", "Tensor symmetrisation is the group-average projection",
  "Symmetrising a tensor of any rank over a symmetry group returns a tensor invariant under every operation of the group including the inversion when the group has it, leaves already invariant tensors unchanged, is linear, and is therefore idempotent.",
  ["inputs"], "all tensors of every rank, all groups",
  "tests symmetrise one conductivity-like tensor; invariance for every operation, rank and group is not sampled and odd ranks under inversion never appear.",
  ["symmetry.py"], [("group mean", "symmetry.py:Symmetry.symmetrize")])

p("C09", "Model Hamiltonians are Hermitian Fourier series with exact derivatives",
  "For every coefficient set with Hermitian on-site matrix and every k, the Hamiltonian equals the on-site matrix plus each hopping matrix times exp(2 pi i k.r) plus its Hermitian conjugate, so it is Hermitian, and the first and second k-derivatives returned by the model are exactly the derivatives of that function (Hermitian, mixed derivatives symmetric). Evaluating a list of k-points gives the same matrices as evaluating them one by one, and adding two series on the same neighbours gives the block-diagonal Hamiltonian.",
  ["inputs"], "all k, all neighbour lists of any length and dimension, all coefficient matrices of any size",
  "tests compare bands of two implementations at random k; Hermiticity and exactness of every derivative component for every neighbour list is universally quantified.",
  ["tight_binding_asym.py", "linalg.py", "bandstructure.py"], [("series and derivatives", "tight_binding_asym.py:HermitianFourierSeries.f_i,df_i,ddf_i,f,df,ddf"), ("block sum", "linalg.py:_direct_sum; tight_binding_asym.py:HermitianFourierSeries.direct_sum,__add__"), ("reduced series", "bandstructure.py:BandStructureModel.f,df,ddf,_get_tight_binding_coeff_funcs")])

p("C10", "Bands are sorted eigenvalues; gradients and Hessians are their derivatives",
  "For every model and k-point the returned bands are the ascending (generalised) eigenvalues of the model's Hamiltonian, the returned gradients are their k-derivatives, and for non-degenerate bands of models without overlap matrix the returned Hessians are their second k-derivatives. Adding a number to a model shifts all bands by it, multiplying by a positive number scales them, and adding two models merges their bands, leaving the operands unchanged.",
  ["inputs"], "all models, k-points, shifts and factors",
  "tests check only energies at random k of a few models; gradient/Hessian and the algebra of models must hold for every model.",
  ["tight_binding_asym.py", "bandstructure.py", "linalg.py"], [("eigenvalues", "linalg.py:geigh,geigvalsh"), ("Hellmann-Feynman", "linalg.py:geigh_grad,eigh_grad,eigh_grad_hess"), ("model algebra", "tight_binding_asym.py:AsymTightBindingModel.__add__,__mul__,bands,bands_grad,bands_grad_hess; bandstructure.py:BandStructureModel.__add__,__mul__,bands,bands_grad,bands_grad_hess")])

p("C11", "Basis changes, re-parametrisation and model conversion keep the bands",
  "Normalising (except in the exponential form with inversion, where it removes a documented superfluous freedom of the parameters), permuting the basis, reading out the complex Fourier coefficients and writing them back (for cosine/sine parametrisations: of Hermitian coefficient matrices), and building the other model class from those coefficients all leave the band structure unchanged at every k. Normalising a model with an own overlap makes the Hamiltonian at k=0 diagonal, holding the band energies, and the overlap the identity there; normalising a symmetric model makes its on-site matrix diagonal and ascending. Transforming the neighbours by a lattice matrix is the same as evaluating at the correspondingly transformed k.",
  ["inputs", "configurations"], "all coefficient sets, permutations, lattice matrices, reduced/full and exponential/cosine parametrisations",
  "tests do one round trip for one neighbour set; the invariance must hold for all coefficients and all parametrisations.",
  ["tight_binding_asym.py", "bandstructure.py"], [("normalize/permute/transform", "tight_binding_asym.py:AsymTightBindingModel.normalize,permute,transform; bandstructure.py:BandStructureModel.normalize,transform"), ("parameter conversion", "bandstructure.py:BandStructureModel.params_complex,set_params_complex")])

p("C12", "Saved models load back as the same model",
  "Saving a model (with its overlap matrix, if any) to its native formats and loading it gives a model with the same neighbours, coefficients and bands (coefficients below 1e-14 may become exactly 0), whatever the size, order of neighbours and magnitudes, and saving does not change the model or numpy's global print options. Loading a Wannier90 file yields exactly the matrices listed in it, keyed by their lattice vectors, halved or conjugated so that the model's Hamiltonian is the Fourier sum of the matrices listed in the file; the degeneracy weights are returned with the model and not applied.",
  ["inputs"], "all coefficient matrices, neighbour lists, file contents",
  "no stable test writes and reads a model file.",
  ["json_tb_format.py", "tight_binding_asym.py", "bandstructure.py", "wannier90_tb_format.py"], [("json", "json_tb_format.py:save,load"), ("repr", "bandstructure.py:BandStructureModel.save,load"), ("wannier", "wannier90_tb_format.py:load_hr,load_tb")])

p("C13", "Supercells and neighbour editing keep the physics",
  "A supercell model has det(L) times as many bands and at every k its bands are exactly the original bands folded from the det(L) equivalent k-points. Adding neighbours changes no band; removing neighbours by length, count or coefficient norm removes exactly the documented ones, always keeps the on-site matrix, keeps matrices attached to their neighbours and reports the number removed.",
  ["inputs", "configurations"], "all models, all integer supercell matrices, all thresholds",
  "one supercell appears in one test; folding must hold for every matrix, dimension and neighbour list.",
  ["tight_binding_asym.py", "bandstructure.py"], [("supercell", "tight_binding_asym.py:AsymTightBindingModel.supercell; bandstructure.py:BandStructureModel.supercell"), ("neighbour editing", "tight_binding_asym.py:HermitianFourierSeries.add_neighbors,limit_neighbors,limit_neighbor_count,cleanup_neighbors")])

p("C14", "Representations are homomorphisms and symmetrisation projects onto them",
  "Every constructed or generated unitary representation multiplies like its group, and direct sums and tensor products do so too. Symmetrising Hamiltonian coefficients (neighbour sets with incomplete orbits lose those couplings) returns a model whose Hamiltonian satisfies U H(k) U^-1 = H(S k) for every group operation, with U including the phases of displaced orbitals, changes nothing when the model already satisfies it, is idempotent, and the precomputed symmetriser gives the same result as the direct one.",
  ["inputs", "configurations"], "all groups, representations and Hamiltonian coefficients",
  "tests check a few representation products; invariance of the symmetrised Hamiltonian for every operation is not tested for all groups and coefficient sets.",
  ["unitary_representations.py", "hamiltonian_symmetry.py"], [("representations", "unitary_representations.py:UnitaryRepresentation"), ("Hamiltonian symmetry", "hamiltonian_symmetry.py:HamiltonianSymmetry.apply,symmetrize,symmetrizer")])

p("C15", "K-paths visit their waypoints in order and interpolation is faithful",
  "A k-path starts and ends each segment exactly at the given points with the requested number of equally spaced samples, its length coordinate never decreases and grows by the Cartesian distance between consecutive points, and each labelled position is the coordinate of its point. The named special points lie on the boundary of the first Brillouin zone at the tabulated distance from its centre, and interpolating grid data reproduces the data at the grid points (to the accuracy of the spline solver) and continues it periodically.",
  ["inputs", "histories"], "all sequences of path operations, all points and sample counts, all grids and data",
  "the test checks one interpolation and prints paths; the invariants are about every sequence of segments.",
  ["kpaths.py"], [("path building", "kpaths.py:KPath"), ("named points", "kpaths.py:points,hexagonal_points,tetragonal_bc_points,trigonal_points"), ("interpolation", "kpaths.py:interpolate,interpolate_unstructured")])

p("C16", "Lattice constructors and crystal data give the stated geometry",
  "Every lattice constructor returns a matrix whose columns have the requested conventional geometry: the requested lengths and mutual angles (primitive cells) or the requested conventional cell for centred lattices, with positive volume equal to the cell volume divided by the number of lattice points per conventional cell. Scaling a crystal to a mass density gives exactly that density, scales all lengths by one factor and does not alter the matrix the caller passed in.",
  ["inputs"], "all lengths and angles in the admissible range, all compositions and densities",
  "no stable test calls the lattice constructors except one or two fixed cells.",
  ["qespresso_interface.py"], [("lattices", "qespresso_interface.py:sc,fcc,bcc,hexagonal,triclinic,monoclinic,orthorhombic...,tetragonal...,rhombohedral"), ("density", "qespresso_interface.py:QECrystal.mass_density,scale_to_density")])

p("C17", "Transport coefficients obey their defining relations and symmetries",
  "The Boltzmann-transport integrator gives symmetric conductivity tensors, positive semidefinite whenever the quadrature weights are nonnegative, and the Peltier, Seebeck and thermal coefficients satisfy their defining (Kelvin/Onsager) relations with the conductivity for every temperature and chemical potential. Its energy quadrature weights reproduce the moments of the Fermi window up to the rule's order, and the free-electron reference model's bands, gradients and Hessians are consistent.",
  ["inputs"], "all temperatures, chemical potentials, integrands and models",
  "the tests compare one material-like case at loose tolerance; relations between coefficients must hold for all inputs.",
  ["bulk_properties.py"], [("integrals", "bulk_properties.py:KIntegral"), ("relations", "bulk_properties.py:KIntegral.conductivity,peltier,seebeck,electronic_thermal_conductivity,hall_coefficients")])

p("C18", "Loss functions and the linear solver compute what they document",
  "The weighted loss is the root of the weighted squared band deviations summed over bands and averaged over k-points for the selected band window, the error call returns the same loss together with the true maximum deviation per band, and the windowed loss is the minimum over every admissible band offset (all of them) or over every injective band assignment. None of them modifies its inputs. The conjugate-gradient solver returns, for every positive definite system of moderate conditioning, and every consistent system of lower rank, a solution whose residual is below the requested tolerance (without a part in the null space of the matrix), also in complex spaces, for integer data and from any start vector, which is left unchanged.",
  ["inputs"], "all band arrays, weights, offsets, windows and positive definite systems",
  "tests only compare a loss with itself across two model classes; extremal offsets, unequal band counts and input preservation are not exercised.",
  ["loss.py", "linalg.py"], [("loss", "loss.py:model_error,model_loss,model_windowed_loss,model_error_hist"), ("solver", "linalg.py:conjugate_gradient_solve")])

p("C19", "Fitting a model keeps its structure and reports the truth",
  "Fitting a model to sampled bands (optimize, optimize_cg, autofit) leaves the samples, reference bands, weights and neighbour vectors as they were and returns a well-formed model: coefficients finite, the Hamiltonian Hermitian, the overlap only fitted on request. The log tells the truth: its first entry is the loss of the start model, its last one is loss and largest errors of the fitted model on all samples, a shorter run gives the logged prefix, a fit only stops early if it converged, and without logging nothing is printed. Data the model already reproduces keep its bands. For samples that determine the coefficients, all bands given with equal weights, no overlap and no momentum, a step never increases the loss; a single sample is met in one step; a one-band model ends at the least squares solution; the conjugate gradient fit recovers a nearby model. Kept zeros stay zero, a symmetrizer gives a symmetric model, and automatic fitting ends with all requested shells and saves what it returns.",
  ["inputs", "histories"], "all sampled bands, start models, weights, windows, momenta, numbers of steps, lattices and dimensions",
  "the tests run three fits on fixed data; descent, truthful logs and preserved structure must hold for every step of every fit.",
  ["tight_binding_asym.py", "bandstructure.py", "logger.py"], [("gradient fit", "tight_binding_asym.py:AsymTightBindingModel.optimize"), ("gradient fit of symmetric models", "bandstructure.py:BandStructureModel.optimize"), ("conjugate gradient fit", "tight_binding_asym.py:AsymTightBindingModel.optimize_cg; bandstructure.py:BandStructureModel.optimize_cg"), ("automatic fit", "tight_binding_asym.py:autofit_asym,AsymTightBindingModel.init_from_ref"), ("log", "logger.py:OptimisationLogger")])

p("C20", "Quantum ESPRESSO data is read and written without loss",
  "Everything read from files of a Quantum ESPRESSO calculation has the documented unit, coordinate system and order: bands and Fermi energy in eV, k-points in crystal coordinates, symmetries as integer matrices that keep k.r phases (with their translations when there are any), lattice vectors as columns in the crystal's unit, orbital projections by k-point, band, spin and orbital with the matching orbital names, wave functions in the order of the bands, complex charge-density coefficients, tables and pseudopotential data unchanged. A crystal created from disk describes the same cell (positions, types, cutoff and temperature in the units of the program's input). Every written input parses back to the same crystal, cutoff, k-points, bands and prefix and the matching program is started on it.",
  ["inputs"], "all lattices, atoms, k-points, bands, symmetries and number formats",
  "the tests read one data set with one atom at the origin; units, order and alignment for every cell and file layout are not observable there.",
  ["qespresso_interface.py"], [("bands and symmetries", "qespresso_interface.py:QECrystal.read_bands_crystal"), ("crystal from disk", "qespresso_interface.py:from_disk"), ("projections", "qespresso_interface.py:QECrystal.read_projections,read_projections_order_spilling"), ("binary files", "qespresso_interface.py:QECrystal.read_wavefunctions,read_charge_density"), ("inputs", "qespresso_interface.py:QECrystal.scf,nscf,bands,relax,prepare_wannier,_crystal")])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, q["id"]
            f.write(json.dumps(q) + "\n")
