"""Writes properties.jsonl and MANIFEST.json.   python3-vt tools/props.py"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, technique=technique, note=note, state=state or []))


C = "CADMium/"

prop("C01", "Finite-difference weights are exact on polynomials",
     "For every stencil of distinct integer offsets and every derivative order below the stencil size, the finite-difference weights the package computes are the unique ones that differentiate exactly every polynomial of degree below the stencil size.",
     ["inputs"], "all stencils (symmetric, one-sided, shuffled, gapped) and all orders",
     "The tests compare one stencil (-4..4) with stored numbers.",
     [C + "common/finite_difference_coefficients.py"],
     [("moment system solve", C + "common/finite_difference_coefficients.py")],
     "TLA+ spec with exact rational Lagrange weights checked by TLC; emitted cases replayed into the code",
     "Bounded to the stencils TLC enumerates; exact rational oracle, floating comparison 1e-7.")

prop("C02", "1D derivative matrices follow the stencil and reflection parity",
     "In the interior, every row of the first- and second-derivative matrices along a grid line is the stencil; at a reflecting end (both ends of the angular line, the inner end of the radial line) samples beyond the end equal the mirrored interior samples times +1 (even) or -1 (odd). At the outer radial end the out-of-range samples are dropped from the matrices and delivered separately as boundary coupling blocks; matrices are finally averaged (second order) with their transposes.",
     ["inputs", "configurations"], "all line lengths, stencil half-widths, both parities, both derivative orders, all columns of the matrices",
     "Tests compare one 4-point line with an 9-point stencil, where every row touches both ends.",
     [C + "psgrid/finite_difference_1d.py", C + "psgrid/finite_difference_2d.py"],
     [("matrix assembly and folding of boundary blocks", C + "psgrid/finite_difference_1d.py, finite_difference_2d.py")],
     "TLA+ fold model of the line with ghost samples, exact rational matrices from TLC compared entrywise with the code",
     "Line lengths h..h+5, half-widths 1..4, both parities, exhaustive in that range.")

prop("C03", "Integration weights form the composite closed quadrature rule",
     "Along each direction the integration weights are the sum of one closed Newton-Cotes rule per block plus, at each line end, the half-cell end correction obtained by interpolating with value zero at the end; a field is integrated with the tensor product of the two lines' weights, the volume element and the constant 2*pi*ha*hr. Overlapping contributions add, the result is symmetric under line reversal, and every grid point receives the product of its own angular and radial weights whatever the numbers of angular and radial points.",
     ["inputs", "configurations"], "all points-per-block and block counts, equal and unequal in the two directions",
     "Tests use a single grid with as many angular as radial points, where transposed weights are indistinguishable.",
     [C + "common/NC.py", C + "psgrid/initialize.py", C + "psgrid/integrate.py"],
     [("block accumulation", C + "common/NC.py"), ("2D weights", C + "psgrid/initialize.py")],
     "TLA+ state machine accumulating exact rational block rules; TLC invariants on polynomial exactness; weights replayed into the code",
     "NP 2..7, up to 6 blocks (12 thorough); exhaustive in that range.")

prop("C04", "Grid layout, coordinates and metric factors",
     "An initialised grid has (NP-1)*blocks+1 points in each direction placed at cell centres of [0,pi] and [0,L], numbered with the angular index fastest, plus one stencil half-width of boundary points just beyond the outer radius. Coordinates Y, Z, scale factors, volume element and centrifugal field at every point are the prolate-spheroidal expressions of that point's angle, radius and the half bond length, exactly symmetric (Z exactly antisymmetric) under the mirror that exchanges the two nuclei.",
     ["inputs", "configurations"], "all grid sizes, stencil widths, half bond lengths and box sizes; every grid point",
     "Tests look at one square 4x4 grid.",
     [C + "psgrid/initialize.py", C + "psgrid/operators.py"],
     [("coordinates and metric", C + "psgrid/initialize.py"), ("scale factors", C + "psgrid/operators.py")],
     "TLA+ grid model (index bijection, mirror laws checked by TLC), exact cell centres and symbolic metric expressions compared pointwise",
     "Grids up to 130 points (260 thorough) for every stencil half-width 1..3 (5).")

prop("C05", "Mirror, spin flip, reshape, integrate and plot maps are pure pointwise maps",
     "Mirroring moves the value at every point to the point with the same radius and supplementary angle, in each column separately; spin flip exchanges the columns; both are involutions, commute, preserve shape, and leave their input untouched. Integration is linear, mirror invariant, and returns the integral of each column for that column; plotting maps return at every output pixel the value and coordinates of one grid point or of its reflection through the bond axis.",
     ["inputs", "programs"], "all fields of 1, 2 or more columns on all grids; all compositions of the maps",
     "Tests do not call mirror/spinflip/integrate on multi-column fields of rectangular grids.",
     [C + "psgrid/mirror.py", C + "psgrid/spinflip.py", C + "psgrid/square.py", C + "psgrid/integrate.py", C + "psgrid/plotter.py", C + "psgrid/psgrid.py"],
     [("Psgrid methods", C + "psgrid/psgrid.py")],
     "TLA+ map algebra: TLC explores all words of maps over the small grids and emits the resulting permutations; words replayed into the code",
     "All words up to length 5 over {mirror, spinflip, square-roundtrip}; grids up to 60 points; injective label fields.")

prop("C06", "Two-dimensional operators are the tensor-product spheroidal operators",
     "Gradient, divergence, even and odd Laplacian and boundary Laplacian matrices act on any field as the corresponding combination of one-dimensional derivatives, scale factors and trigonometric/hyperbolic weights, each applied along its own direction at every point. The orbital Hamiltonian of angular momentum m without potential is minus half the Laplacian of the parity of m plus m^2 times the centrifugal field times the volume element, and applying the stored LU factors inverts the even Laplacian.",
     ["inputs", "configurations"], "all grids (square and rectangular), stencils, every matrix entry, every m",
     "Tests compare a single square grid whose stencil spans the whole line.",
     [C + "psgrid/operators.py", C + "psgrid/factorize_laplacian.py", C + "pssolver/pssolver.py"],
     [("Kronecker assembly", C + "psgrid/operators.py"), ("hamiltonian", C + "pssolver/pssolver.py")],
     "TLA+ operator algebra: entry expressions (symbolic, over exact 1D derivative matrices) emitted by TLC and compared with every matrix entry",
     "Grids up to 49 points, half-widths 1..2 (3 thorough).")

prop("C07", "Hartree potential solves Poisson's equation with multipole boundary values",
     "The Hartree potential of a density satisfies the discretised Poisson equation with source -4*pi*volume*density, where samples beyond the outer boundary take the multipole expansion (orders 0 to 7) of the total density. It is linear in the density, identical for all spin columns, depends only on the summed density, and its energy per particle is half of it.",
     ["inputs"], "all densities (one or two columns) and all grids",
     "Tests check stored total energies on one or two systems (and need libxc).",
     [C + "hartree/hartree.py"],
     [("v_hartree", C + "hartree/hartree.py")],
     "TLA+ spec of multipole coefficients (exact Legendre recurrences checked by TLC) and of the boundary equation; residual evaluated on the code's output",
     "Basis densities on a set of grids; residual tolerance 1e-8 relative.")

prop("C08", "Nuclear potentials are assembled from the two centres",
     "The external potential felt by a calculation is -Za/rA - Zb/rB with each nucleus at its own focus of the grid (A and B exchanged exactly by the mirror), zero-charge centres contributing nothing; symmetric calculations get the mirror-symmetrised field. Partition fragments see only their own nucleus and the total external potential is the sum of the fragments' fields.",
     ["inputs", "configurations"], "all nuclear charges (integer or fractional), grids, symmetric or not, one or two spin columns",
     "Tests check only final energies of particular diatomics.",
     [C + "common/coulomb.py", C + "kohnsham/kohnsham.py", C + "partition/partition.py"],
     [("coulomb", C + "common/coulomb.py"), ("calc_nuclear_potential", C + "kohnsham/kohnsham.py"), ("partition nuclear potentials", C + "partition/partition.py")],
     "TLA+ assembly model with symbolic potential expressions; all configurations enumerated by TLC replayed into the code",
     "Charges 0..4, all symmetry/spin combinations.")

prop("C09", "Exchange-correlation assembly matches the functional's derivative structure",
     "The exchange-correlation energy is the integral of energy density times total density, and the potential of each spin is the functional's density derivative minus the divergence of twice the same-spin and once the cross-spin gradient terms. The gradient invariants handed to the functional are pointwise products of the angular and radial gradients of the corresponding spins (up-up, up-down, down-down); exchanging spins exchanges results, and one doubly occupied column agrees with two equal columns. The reduced density gradient is |grad n| over 2 (3 pi^2)^(1/3) n^(4/3) column by column. Functional families other than LDA and GGA and densities of other than one or two columns are rejected.",
     ["inputs", "configurations"], "all densities, LDA and GGA functionals, one and two spin columns",
     "The libxc-dependent tests use LDA only; no test calls sigma on two columns.",
     [C + "libxc/libxc.py", C + "psgrid/sigma.py", C + "psgrid/reduced_grad.py"],
     [("get_xc", C + "libxc/libxc.py"), ("sigma", C + "psgrid/sigma.py")],
     "TLA+ term algebra for sigma and vxc with a scripted functional; term lists emitted by TLC evaluated against the code",
     "Scripted (asymmetric) functionals in place of libxc, which is not installed; operators are those decided by C06.")

prop("C10", "Occupation rules are consistent across density, energies and HOMO",
     "For a solver holding a sorted list of N electrons in orbitals of angular momentum m, density, eigenvalue sum, kinetic energy density and HOMO use one and the same occupation: lowest levels first, two electrons per spatial orbital for a spinless solver and one for a spin-resolved one, twice that for m>0, with the last level partially filled when electron numbers are fractional. The density integrates to N. (Stated for electron numbers that close every occupied level, or with fractional occupation enabled.)",
     ["inputs", "configurations"], "all N (integer, fractional, zero, one), all polarisations and m, fractional on or off",
     "Tests cover two fractional systems via final energies.",
     [C + "pssolver/calc_density.py", C + "pssolver/calc_energy.py", C + "pssolver/get_homo.py", C + "pssolver/calc_ked_WFI.py", C + "pssolver/normalize_orbitals.py"],
     [("per-solver reductions", C + "pssolver")],
     "TLA+ occupation machine (fill level by level, invariants checked by TLC); occupations decoded from the code with orthogonal site orbitals",
     "Up to 4 orbitals per solver, N in quarter steps.")

prop("C11", "Orbital solvers return the lowest eigenpairs, sorted and symmetric",
     "The orbital solver returns as many orbitals as its occupation needs, satisfying the generalised eigenvalue equation of the current Hamiltonian (kinetic part plus volume-weighted effective potential) with ascending eigenvalues, namely the levels nearest to the solver's energy estimate: the lowest of the spectrum when the estimate lies below it; the estimate a Kohn-Sham object gives its solvers lies below the lowest level of its bare nuclei, for either side, both sides and every angular momentum, so its solvers return the lowest levels. Nearly degenerate partners of two distant equal centres come out as one even and one odd orbital. Iterative refinement applies Newton corrections to each orbital and its energy until the residual is below the tolerance, improves every orbital it is given and never loses one; with symmetry requested every orbital is exactly even or odd under the mirror.",
     ["inputs", "configurations", "histories"], "all potentials, m, N, symmetric or not, initial solve then any number of refinements",
     "Tests check only converged total energies.",
     [C + "pssolver/calc_orbitals.py", C + "pssolver/iter_orbitals.py", C + "pssolver/pssolver.py"],
     [("eigs call and sorting", C + "pssolver/calc_orbitals.py"), ("refinement", C + "pssolver/iter_orbitals.py")],
     "TLA+ solver protocol (calc, refine, potential changes); TLC-generated histories executed on the real solver and judged against dense linear algebra",
     "Small grids (up to ~100 points), histories up to length 4.")

prop("C12", "Density response equals the spectral sum",
     "The density response matrix of a solver is the sum over occupied orbitals of the derivative of the orbital density with respect to the potential, with occupation factors matching those of the density, and it predicts the first-order change of the density at fixed norm under a small potential change. It is symmetric when weighted with the volume element and quadrature weights, a constant shift of the potential changes nothing, and a repulsive change lowers the density it acts on.",
     ["inputs"], "all small Hamiltonians, m, polarisations",
     "Not tested at all.",
     [C + "pssolver/calc_response.py"],
     [("calc_response", C + "pssolver/calc_response.py")],
     "TLA+ exact rational spectral oracle on designed Hamiltonians, replayed into the code",
     "Designed spectra with rational eigenvectors.")

prop("C13", "Kohn-Sham effective potential and energies decompose consistently",
     "The effective potential given to every orbital solver is external plus Hartree plus exchange plus correlation for an interacting calculation and the external potential alone for a non-interacting one, spin by spin; setting an external effective potential hands the given field to every solver. The reported electronic energy Et is Ts + Enuc (+ Eh + Ex + Ec when interacting), Enuc being the nuclear attraction of the density and Vext the energy in the supplied external field reported separately; each component is the integral of its density, Ts is the eigenvalue sum minus the integral of density times effective potential, and E is Et plus the nuclear repulsion.",
     ["inputs", "configurations"], "all interaction types, spin polarisations, densities and orbital sets",
     "Tests compare totals for few systems.",
     [C + "kohnsham/kohnsham.py", C + "pssolver/calc_energy.py"],
     [("calc_density/calc_hxc_potential/energy", C + "kohnsham/kohnsham.py")],
     "TLA+ integer lattice model of the Kohn-Sham functional; every reachable state's potentials and energies replayed into the code with scripted functionals",
     "Lattice abstraction: site orbitals, scripted integer functionals, exact comparison.")

prop("C14", "The Kohn-Sham self-consistency loop follows its protocol",
     "A run starts from the orbitals of the bare nuclear plus external potential, or from the present density when continuing. Each cycle builds the potential of the current density, solves the orbitals in it (refining them instead of solving anew when iterative solving is requested and the run continues or the last change was below one per cent), mixes the new density with the old one by the fraction alpha, and recomputes the energies from that cycle's orbitals and the mixed density; spin-flip symmetry symmetrises density and potential between the spins. The loop ends when the larger of the relative energy and density changes (spin channels without electrons carry no weight) is at most the tolerance -- with automatic tolerance also when no new minimum of the change has appeared for the requested number of cycles -- or at the iteration limit, never earlier, and the reported density, potential, energies and orbitals all belong to the final iterate.",
     ["histories", "configurations", "inputs"], "all option combinations, all trajectories within the iteration limit, fresh and continued runs",
     "Tests run three systems to convergence and look at the final energy.",
     [C + "kohnsham/scf.py", C + "kohnsham/kohnsham.py"],
     [("scf", C + "kohnsham/scf.py")],
     "TLA+ SCF state machine over an exact dyadic lattice model; TLC trajectories replayed step by step against the real loop",
     "Lattice model of up to 4 sites, alpha = 1, 1/2, 1/4; limits up to 6 iterations.")

prop("C15", "Results do not depend on orbital worker scheduling, and lost workers surface",
     "Orbital solves that run in separate worker processes deliver every result to the solver it belongs to whatever order the workers start, run and finish in, so all results equal those of sequential execution. A worker that fails or dies makes the calculation raise an error or warn rather than silently continue with another solver's or outdated orbitals.",
     ["schedules", "crash_points"], "all completion orders and any worker failing",
     "Tests run one schedule.",
     [C + "kohnsham/scf.py", C + "pssolver/calc_orbitals.py", C + "pssolver/iter_orbitals.py", C + "kohnsham/kohnsham.py"],
     [("process spawning and return dictionary", C + "kohnsham/scf.py")],
     "TLA+ worker/manager model: TLC explores all interleavings and crash points; schedules replayed into the real code",
     "Up to 4 workers, every completion order, single failures.")

prop("C16", "Options are validated and take effect",
     "Every option dictionary accepted by the package is matched case-insensitively; an unknown option or an invalid value is rejected with an error, and a valid one changes exactly the setting it names, all others keeping their defaults (the Kohn-Sham, partition and inverter objects, their self-consistency loops and the orbital solvers).",
     ["inputs", "configurations"], "all options of every option-bearing entry point with valid, invalid, differently cased values",
     "Tests pass a handful of fixed option dictionaries.",
     [C + "kohnsham/kohnsham.py", C + "kohnsham/scf.py", C + "partition/partition.py", C + "partition/scf.py", C + "inverter/inverter.py", C + "pssolver/pssolver.py"],
     [("pydantic option models and key checks", "option classes in the named files")],
     "TLA+ option table and validation machine; every enumerated (entry point, option, case, value) replayed into the code",
     "One option (pairs in thorough) at a time on top of defaults.")

prop("C17", "Ensemble densities and scaling combine fragment states linearly",
     "A fragment with fractional electron number is represented by two calculations, the lower one weighted 1-nu and the upper one nu; with ensemble spin symmetry every weight is halved and each density is joined by its spin-flipped image. A fragment's density is the weighted sum over its members (and orientations), the promolecule density the sum over the two fragments, and the Q function of every member its weighted density divided by the promolecule density, zero where that vanishes.",
     ["inputs", "configurations"], "all nu in [0,1], spin and AB symmetric combinations, all fragment densities",
     "Tests have a single ensemble system.",
     [C + "partition/partition.py", C + "partition/scf.py"],
     [("scale factors, ensemble sums, Q functions", C + "partition/partition.py")],
     "TLA+ exact ensemble algebra on integer lattice densities replayed into the code",
     "Lattice densities; nu in eighths; every combination of spin, AB and ensemble symmetry.")

prop("C18", "Symmetric partitions mirror fragment A into an independent fragment B",
     "When the two fragments are declared equal by symmetry, mirroring makes fragment B's density, Q function, effective and external potential and its Hartree, exchange, correlation and partition potentials and energy densities the mirror images of fragment A's, and its energies and chemical potential equal to A's, ensemble member by ensemble member (lower to lower, upper to upper); this holds after every self-consistent run. B keeps its own nuclear potential and solvers, and the fragments share no data: modifying a quantity of one never changes the other.",
     ["histories", "configurations"], "all symmetric partitions, spin polarisations, ensemble or not, every iteration",
     "Tests check only the final energy of one symmetric system.",
     [C + "partition/partition.py", C + "partition/scf.py", C + "partition/energy.py"],
     [("mirrorAB", C + "partition/partition.py")],
     "TLA+ symmetric-pair machine of named cells (all write/mirror programs up to length 4) and TLA+ trajectories of the partition loop, replayed into the real objects, mirror relation and aliasing probed",
     "Programs of length 4 over all quantities; lattice trajectories of the symmetric configurations.")

prop("C19", "Fragment, partition and total energies balance",
     "The fragment energies Ea, Eb and their components (kinetic, eigenvalue sum, nuclear, Hartree, exchange, correlation) are the ensemble-weighted sums of the fragment calculations (both spin orientations counted where ensemble spin symmetry applies) and Ef is Ea plus Eb. The partition energy Ep is the sum of its nuclear, kinetic and Hartree-exchange-correlation parts, the nuclear part being the energy of each fragment's density in the other fragment's nuclear field; Ep and its parts are zero for isolated fragments. Et is Ef plus Ep, E is Et plus the nuclear repulsion. All refer to the current fragment densities. With mirror-symmetric fragments both sides count equally.",
     ["inputs", "configurations"], "all fragment densities, ensembles, symmetric or not, interaction types",
     "Tests check totals of two molecules.",
     [C + "partition/energy.py", C + "partition/partition_energy.py", C + "partition/ep_nuclear.py", C + "partition/ep_hxc.py"],
     [("energy bookkeeping", C + "partition/energy.py, partition_energy.py")],
     "TLA+ exact energy algebra on lattice densities replayed into the code",
     "Lattice densities with scripted functionals.")

prop("C20", "The partition potential is assembled from its parts and weights",
     "Each fragment's own partition potential is the sum of its nuclear part (the total nuclear field minus its own), its kinetic part and its Hartree-exchange-correlation part; the common partition potential, returned and stored, is the sum over fragments of these weighted with the Q functions, and so is each of its stored components. With ensemble spin symmetry every term is joined by its spin-flipped image; with AB symmetry the result is mirror-symmetric. Evaluating it leaves the fragment densities alone.",
     ["inputs", "configurations"], "all potentials/weights, part types, spin polarisations, symmetric or not, ensembles",
     "Tests check totals of two molecules.",
     [C + "partition/partition_potential.py", C + "partition/vp_nuclear.py", C + "partition/vp_hxc.py", C + "partition/vp_kinetic.py"],
     [("partition_potential", C + "partition/partition_potential.py")],
     "TLA+ exact potential algebra on lattice densities replayed into the code",
     "Lattice densities with scripted functionals.")

prop("C21", "Non-additive kinetic terms are molecular minus weighted fragment values",
     "For every working kinetic-part choice (a libxc kinetic functional, von Weizsaecker, inversion, none) the non-additive kinetic energy is the kinetic energy of the promolecule density minus the ensemble-weighted sum of the fragments' kinetic energies, and each fragment's kinetic potential is the promolecule's functional derivative minus the fragment's own; for the inversion the derivatives are chemical potential minus effective potential, with the inverted potential for the promolecule and the highest occupied level of all fragments for the fragments. The terms vanish when there is a single occupied fragment and the functional is the same for both, and are zero for the choice none; kinetic choices that are not implemented raise an error.",
     ["inputs", "configurations"], "all kinetic part types, densities, ensembles, spin polarisations, symmetric or not",
     "Tests use stored final energies for single configurations.",
     [C + "partition/ep_kinetic.py", C + "partition/vp_kinetic.py"],
     [("ep_kinetic", C + "partition/ep_kinetic.py"), ("vp_kinetic", C + "partition/vp_kinetic.py")],
     "TLA+ exact kinetic algebra replayed into the code",
     "Lattice densities and analytic single-orbital densities.")

prop("C22", "Non-additive Hartree-XC terms and overlap weighting",
     "The exact non-additive Hartree, exchange and correlation energies are each the functional of the promolecule density minus the ensemble-weighted functionals of the fragments, and the potentials of each fragment the promolecule's minus the fragment's own. Their sum is used by the choice exact; hartree uses the Hartree part alone. The overlap choices multiply by F = erf(2S), S being the integral of the square root of the product of the two fragments' densities: overlap_xc the exchange-correlation part, overlap_hxc the whole, interpolating from the correlated Hartree term (interaction of members of complementary electron number) at F=0 to the exact value at F=1; their potentials follow by the product and chain rule, with the functional derivative of S.",
     ["inputs", "configurations"], "all hxc part types, densities, ensembles, symmetric or not",
     "Tests use stored final energies for single configurations.",
     [C + "partition/ep_hxc.py", C + "partition/vp_hxc.py", C + "partition/vp_overlap.py", C + "partition/EnsCorHar.py", C + "partition/vp_surprise.py"],
     [("ep_hxc/vp_hxc", C + "partition/ep_hxc.py"), ("overlap", C + "partition/vp_overlap.py")],
     "TLA+ exact hxc algebra and symbolic overlap expressions replayed into the code",
     "Lattice densities with scripted functionals.")

prop("C23", "The partition self-consistency loop follows its protocol",
     "A fresh run starts every fragment from the orbitals of its own nuclear potential, a continued one from the present densities. Each cycle builds the fragments' Hartree-exchange-correlation potentials and the partition potential of the present densities, gives every unfrozen fragment the common partition potential (calc_type pdft) or its own part of it (sdft) as external potential -- a frozen fragment keeps the external potential it has, an isolated calculation has none -- solves all fragments (refining when iterative solving is requested and the last change was below one per cent), mixes each density with that fragment's own fraction alpha, mirrors A onto B when symmetric, and recomputes promolecule, Q functions and energies from the new state. The loop ends when the larger of the relative changes of total energy and promolecule density (empty spin channels carry no weight) is at most the tolerance -- with automatic tolerance also only when no new minimum has appeared for the requested number of cycles -- or after exactly max_iter cycles, with a warning just when it was then not converged. The setting isolated persists until a call changes it.",
     ["histories", "configurations"], "all option combinations and trajectories within the iteration limit",
     "Tests run fixed systems to convergence.",
     [C + "partition/scf.py"],
     [("scf", C + "partition/scf.py")],
     "TLA+ partition SCF machine over an exact dyadic lattice model; TLC trajectories replayed step by step",
     "Lattice model, two fragments with up to two ensemble members, one or two calls of up to 4 cycles.")

prop("C24", "Density inversion terminates honestly",
     "An inversion (wuyang, orbitalinvert, simple) reports success exactly when its target was met: then the lowest orbitals of the potential it reports, filled by the occupation rules over all angular momenta, reproduce the requested density to the tolerance (wuyang: never closer than 1e-8 of the electrons), and the solvers of that spin are left in that potential with that density. It never takes more iterations than the limit, stops before it only for a reason of its own (target met, or hopeless), and otherwise, or for densities that cannot be reached (wrong number of electrons, not a number), reports failure or refuses. From a start near the answer it succeeds: for closed and polarized spins, several angular momenta, fractional occupations, mirror-symmetric systems, after an earlier inversion of the same or of the other spin, whose result and report stay as they were. A single column asked of polarized solvers is twice that spin's density; wuyang also takes both columns. The reported level is the highest occupied one of that spin. The requested density and the starting point are not modified.",
     ["inputs", "configurations", "histories"], "all target densities, methods, spins, tolerances, limits and sequences of inversions",
     "Tests invert one system per method.",
     [C + "inverter/inverter.py", C + "inverter/orbitalinvert.py", C + "inverter/linresponse.py", C + "inverter/simple.py"],
     [("invert and its methods", C + "inverter")],
     "TLA+ machine of inversion sessions over systems whose orbitals, levels and potential are exact by construction (checked by TLC), replayed into the inverter and judged by re-solving; TLA+ loop monitor on recorded runs with growing limits, on the lattice and on real grids",
     "Six-site lattice systems, up to 3 inversions in a session; recorded runs on 3 small real grids.")

prop("C25", "Quantities derived from an inversion are consistent",
     "After an inversion the reported kinetic energy is the sum over all solvers (angular momenta and spins; twice spin 1 in a spin symmetric ensemble), each being its occupied levels less the potential's part; the kinetic energy density per spin sums over all angular momenta, angular part included, with the occupations, integrates to that energy; and the reported kinetic potential is, per spin, chemical potential minus inverted potential, where the chemical potential is that spin's highest occupied level over all angular momenta. Asking again gives the same answers.",
     ["inputs", "configurations"], "all solver sets, spins and densities",
     "Not tested.",
     [C + "inverter/get_Ts.py", C + "inverter/get_ts_WFI.py", C + "inverter/inverter.py", C + "pssolver/calc_ked_WFI.py"],
     [("get_Ts, get_ts_WFI, get_vt", C + "inverter")],
     "TLA+ systems with exact orbitals, levels and potential: kinetic energy, its density (TLC checks that it integrates to the energy) and kinetic potential predicted exactly and compared after each replayed inversion",
     "Six-site lattice systems; 2 methods.")

prop("C26", "Version strings render as documented",
     "For every repository state (commits since the closest fitting tag, edits, no tag) and every style, the version reported is the one the style documents, with the full commit name, the dirty flag and the ISO date: a clean tree on a tagged commit is exactly that release, other trees carry distance, abbreviated commit and dirty marks as the style prescribes, an unknown style is refused. A source archive reports the tag of the archived commit that sorts first among those with the wanted prefix (never a branch), else the clear absence 0+unknown; expanded keywords win over git, git over the name of the source directory or of its next two parents; where git is missing, fails or answers nonsense, the answer is the directory's version or a clear absence (unknown, 0+unknown, with an error text), never a failure.",
     ["histories", "configurations"], "all histories of commits, tags and edits, styles, prefixes, places of the source tree and failures of git",
     "Not tested.",
     [C + "_version.py"],
     [("get_versions, render, keywords, describe", C + "_version.py")],
     "TLA+ machine of a repository's history (commit, tag, edit, archive, strip, ask); every state TLC reaches is built with git in a scratch directory and asked through the package's version module",
     "Up to 2 tags, short and long distances, 9 styles, 2 prefixes, 7 failures.")

prop("C27", "A partition run stops when its inversions keep failing",
     "In an interacting partition run whose potential comes from inversions (kinetic part 'inversion', or vp_calc_type 'potential_inversion') every inversion report of a cycle (one per entry of inversion_info, in order of rows and columns) is judged: a residual (optimality) above 1, or one that is not a number, is a failure. The call ends with SystemExit in the cycle that brings the second failure in a row, and only then; any satisfactory report in between, and every new call, starts the count again. The kinetic inverter is asked for a single evaluation (avoid_loop) exactly in the first cycle of each call, for full loops afterwards. Isolated runs and runs without inversions neither read reports nor touch the inverter, whatever an earlier run left there. The progress lines show the largest iteration count and the largest residual of the cycle.",
     ["histories", "configurations"], "all histories of reports, cycles and calls, kinds of runs, shapes of the report table",
     "Not tested.",
     [C + "partition/scf.py"],
     [("scf", C + "partition/scf.py")],
     "TLA+ machine of calls, cycles and reports whose residuals and convergence the environment picks; every history TLC reaches is replayed through Partition.scf with scripted reports, energies and densities",
     "Up to 3 calls, 8 cycles, 4 reports a cycle.")

prop("C28", "The inversion of a promolecule starts from its fragments' orbitals",
     "The starting point handed to the inverter belongs to the molecule's solver: the potential is the sum of the fragments' effective potentials weighted with their Q functions (with ab_sym both halves, in a spin symmetric ensemble both spins); for every angular momentum the orbitals are the lowest states of the Hamiltonian with that potential among all combinations of the fragments' orbitals of that angular momentum and spin (with ab_sym also their mirror images), as many as the molecule's solver holds, in order of energy, normalised to double occupation (2, or 4 for m > 0; half of that in a spin symmetric ensemble), with their expectation values as levels. This holds whichever fragments carry the angular momentum or hold no orbital in it; the fragments' orbitals stay as they are; the requested density is the promolecule's (doubled when polarized) for every spin in turn, in spin symmetric ensembles once.",
     ["inputs", "configurations"], "all sets of fragment orbitals, angular momenta, spins, ensembles and symmetries",
     "Only run as part of one inversion example that needs libxc.",
     [C + "partition/initialguessinvert.py", C + "partition/vp_kinetic.py"],
     [("initialguessinvert", C + "partition/initialguessinvert.py"), ("vp_kinetic", C + "partition/vp_kinetic.py")],
     "TLA+ model of six-site systems with exactly known states (rational arithmetic); TLC checks that the wanted states diagonalise the operator in the space of the fragments' orbitals and every system is replayed through Partition.initialguessinvert and vp_kinetic",
     "Up to 4 fragments, 3 angular momenta, 3 orbitals each; spaces without degenerate or dependent orbitals.")

prop("C29", "Equivalent descriptions of a molecule give equivalent Kohn-Sham results",
     "A Kohn-Sham calculation run end to end gives results related by the symmetry when the same physics is described differently: exchanging the nuclei mirrors densities and potentials and keeps energies, levels and chemical potential; exchanging the two spins exchanges the columns; writing doubly occupied orbitals as two equal spin columns (same mixing, without iterative refinement unless converged or non-interacting) halves the density into the columns and keeps total energies; for non-interacting electrons multiplying the charges by s and dividing the lengths by s scales densities by s^3, potentials and one-electron energies by s^2; adding a constant to the external potential shifts levels and chemical potential by it and changes nothing else but Vext; a second, weaker nucleus may be given as an external field instead; declaring a mirror or spin flip symmetry the system has, asking for one orbital more than needed, and mixing or solving in another way until convergence change nothing.",
     ["inputs", "configurations"], "charges, electron configurations of up to three angular momenta, spins, functionals, solution options, and compositions of the rewritings",
     "The tests with whole calculations need libxc and compare a few energies of single systems with stored numbers; none compares two calculations.",
     [C + "kohnsham/kohnsham.py", C + "kohnsham/scf.py", C + "pssolver/pssolver.py", C + "pssolver/calc_orbitals.py", C + "pssolver/iter_orbitals.py", C + "common/coulomb.py", C + "hartree/hartree.py", C + "libxc/libxc.py"],
     [("scf", C + "kohnsham/scf.py"), ("Pssolver", C + "pssolver/pssolver.py")],
     "TLA+ specification whose actions rewrite a calculation and the relation to its base; TLC checks the group laws and that the rewritten system is physically the same, and every word of rewritings is replayed as a pair of real calculations",
     "Small grids; words of up to two rewritings (quick); fixed numbers of cycles compared to 1e-7, converged runs to 2e-6.")

prop("C30", "Equivalent descriptions of a partition give equivalent results",
     "A partition calculation run end to end gives results related by the symmetry when the same partition is described differently: exchanging the fragments with their nuclei mirrors every field and exchanges the fragments' quantities; exchanging the spins exchanges the columns; closed shells written as two equal spin columns give the same totals; declaring ab_sym for identical fragments, or ens_spin_sym for closed ones, changes nothing; exchanging the two members of both ensembles with the complementary ratios changes only which member is which; an ensemble of two equal members equals the single fragment; a spin symmetric ensemble equals the explicit ensemble of the fragment and its spin flipped copy with ratio one half; an ensemble with ratio zero equals its lower member alone (the last three not with overlap_hxc, which correlates members on purpose). At convergence, a partition whose second fragment is empty equals the Kohn-Sham calculation of the molecule with the first fragment's electrons, an isolated fragment equals a Kohn-Sham calculation of its own nucleus, and another mixing gives the same answer.",
     ["inputs", "configurations"], "charges, fragments and ensembles, spins, kinetic and exchange-correlation parts, calculation types, and compositions of the rewritings",
     "The partition tests need libxc, use one or two molecules and compare stored energies; none compares two calculations.",
     [C + "partition/partition.py", C + "partition/scf.py", C + "partition/vp_kinetic.py", C + "partition/vp_hxc.py", C + "partition/vp_overlap.py", C + "partition/energy.py", C + "partition/ep_kinetic.py", C + "partition/ep_hxc.py", C + "partition/ep_nuclear.py", C + "partition/EnsCorHar.py", C + "kohnsham/kohnsham.py"],
     [("scf", C + "partition/scf.py"), ("Partition", C + "partition/partition.py")],
     "TLA+ specification whose actions rewrite a partition and the relation to its base; TLC checks the laws of the rewritings and conservation of electrons and nuclei, and every word is replayed as a pair of real calculations",
     "Small grids; words of one or two rewritings (quick); fixed numbers of cycles compared to 1e-7, converged runs to 2e-6.")

prop("C31", "An exact partition adds up to the molecule",
     "When a partition calculation with an inverted kinetic part and the exact Hartree-exchange-correlation part converges, its fragments add up to the Kohn-Sham calculation of the whole molecule: same density, total energy and nuclear repulsion; every component of the molecule's energy (kinetic, nuclear attraction, Hartree, exchange, correlation) is the sum of the fragments' weighted components and of the corresponding non-additive part; the inverted potential is the molecule's Kohn-Sham potential up to a constant, and the levels it reports agree up to the same constant. This holds for closed, open, fractionally occupied, polarized, spin symmetric, mirror symmetric and ensemble fragments, and for either inversion method.",
     ["inputs", "configurations"], "fragments, ensembles, spins, symmetries, distances, functionals and inversion methods for which the cycle converges",
     "The tests that run an inversion inside a partition need libxc and compare stored energies of two molecules.",
     [C + "partition/scf.py", C + "partition/vp_kinetic.py", C + "partition/vp_hxc.py", C + "partition/vp_nuclear.py", C + "partition/ep_kinetic.py", C + "partition/ep_hxc.py", C + "partition/ep_nuclear.py", C + "partition/energy.py", C + "partition/initialguessinvert.py", C + "inverter/linresponse.py", C + "inverter/orbitalinvert.py", C + "inverter/inverter.py", C + "kohnsham/scf.py"],
     [("scf", C + "partition/scf.py"), ("vp_kinetic", C + "partition/vp_kinetic.py"), ("wuyang", C + "inverter/linresponse.py")],
     "TLA+ model of the update of the partition potential on a lattice in rationals: TLC proves the fixed point and the sum of energies for all states of the model; systems with the molecule derived from the fragments are emitted and run to convergence in the real code, partition and molecule independently",
     "16 systems (22 thorough) on a small grid; density to 2e-6 per electron, energies to 1e-6, components to 1e-5.")

prop("C32", "Electrons that do not interact have the exact answers of one-electron systems",
     "Without interaction a calculation reproduces what is known exactly, for any charge, either focus, any angular momentum, spin and fractional occupation: around one nucleus of charge z the levels of angular momentum m are -z^2/2n^2, each n - m times, accidental degeneracy included; the energy is the sum of the occupied levels, the kinetic energy its negative and the nuclear attraction twice it; circular orbitals have their exact densities, distances, heights and spreads; the Hartree potential and energy of the lowest orbital are the exact ones; the chemical potential is the highest occupied level. Two atoms as isolated fragments of a partition give each its own atom's answer, and their sums. One electron in the field of two equal nuclei has the levels of H2+ (at two bohr, scaled with the charge), with mirror symmetry declared or not.",
     ["inputs", "configurations"], "charges, foci, fillings of angular momenta and spins by whole and fractional numbers of electrons, numbers of orbitals, grids, kinds of calculation",
     "One test looks at the exact hydrogen atom with one electron on one grid.",
     [C + "pssolver/pssolver.py", C + "pssolver/calc_orbitals.py", C + "pssolver/calc_density.py", C + "pssolver/calc_energy.py", C + "psgrid/initialize.py", C + "psgrid/operators.py", C + "psgrid/integrate.py", C + "common/coulomb.py", C + "hartree/hartree.py", C + "kohnsham/kohnsham.py", C + "kohnsham/scf.py", C + "partition/scf.py", C + "partition/energy.py"],
     [("calc_orbitals", C + "pssolver/calc_orbitals.py"), ("coulomb", C + "common/coulomb.py"), ("Hartree", C + "hartree/hartree.py")],
     "TLA+ specification of atoms being filled, all answers in exact rationals; TLC proves its laws (degeneracy, closed shells, normalisation, min-max bounds of the table) and emits every atom, which is computed by the real code on real grids",
     "Grids of 29x29 to 55x55 points; agreement within the discretisation error of each grid (1e-9 to 1e-5 of z^2 for levels).")

prop("C33", "Electrons in a harmonic external field are described exactly",
     "Electrons that do not interact, in an external harmonic field (any stiffness along and across the axis, any centre on the axis) with uniform fields added, without nuclei: the levels of each angular momentum are those of the oscillator in order, degenerate ones included; the electrons' number, eigenvalue sum, highest level and total energy follow; half of the energy above the bottom of the well is kinetic, half potential, and reported as kinetic and external energy; where no occupied level is degenerate the density is the exact one, with its centre and spreads; a uniform field only moves the density and shifts the levels; the response function turns a uniform field, a well stiffer along the axis and one stiffer across it into the exact change of density; one orbital of a round well has its exact Hartree potential and energy. Declaring the mirror symmetry of a centred well changes nothing.",
     ["inputs", "configurations"], "wells, centres, fields, fillings of angular momenta and spins by whole and fractional numbers of electrons, numbers of orbitals, grids",
     "No test uses an external potential, a level above zero, or the response function.",
     [C + "pssolver/pssolver.py", C + "pssolver/calc_orbitals.py", C + "pssolver/calc_density.py", C + "pssolver/calc_energy.py", C + "pssolver/get_homo.py", C + "pssolver/calc_response.py", C + "psgrid/operators.py", C + "psgrid/initialize.py", C + "psgrid/integrate.py", C + "hartree/hartree.py", C + "kohnsham/kohnsham.py", C + "kohnsham/scf.py"],
     [("calc_orbitals", C + "pssolver/calc_orbitals.py"), ("calc_response", C + "pssolver/calc_response.py"), ("energy", C + "kohnsham/kohnsham.py")],
     "TLA+ specification of a well that is displaced by fields and filled with electrons, all answers in exact rationals and polynomials; TLC proves its laws (displacement, virial theorem, normalisation, degeneracy) and emits every state, which is computed by the real code on real grids",
     "Grids of 25x19 to 37x37 points; agreement within the discretisation error of each grid.")

prop("C34", "Levels, dipoles and potentials are the slopes of the energy",
     "The energy of a converged calculation is a function of the charges of the nuclei, of uniform fields on either spin and of the numbers of electrons in every row and spin of the occupation matrix, and its slopes are other results of the same calculation: along the electrons of a row and spin, that row's highest occupied level (Janak); along a nuclear charge, the potential energy of the density in a unit charge at that nucleus plus the other charge over the distance; along a field, the dipole of the density of that spin (Hellmann and Feynman). So the energy's change over a finite step, and along any path, is the integral of those slopes. This holds for Kohn-Sham calculations of every interaction (none, local and gradient functionals), of one or two spins, with whole and fractional occupations, several angular momenta and mirror symmetry; and for partitions in which every fragment feels its own potential (calc_type sdft), for every choice of the non-additive Hartree-xc terms, with and without ensembles and spin symmetry, where a fragment's level counts with its weight.",
     ["inputs", "configurations", "histories"], "charges, fields, fillings, interactions, spins, symmetries, non-additive terms, ensembles; steps and paths of steps",
     "Tests compare single energies with stored numbers; no test relates energies of different calculations to potentials, levels and densities.",
     [C + "kohnsham/kohnsham.py", C + "kohnsham/scf.py", C + "hartree/hartree.py", C + "libxc/libxc.py", C + "pssolver/pssolver.py", C + "pssolver/calc_energy.py", C + "pssolver/calc_density.py", C + "partition/scf.py", C + "partition/energy.py", C + "partition/ep_hxc.py", C + "partition/vp_hxc.py", C + "partition/vp_overlap.py", C + "partition/partition_energy.py", C + "partition/partition_potential.py"],
     [("scf", C + "kohnsham/scf.py"), ("energy", C + "kohnsham/kohnsham.py"), ("partition_potential", C + "partition/partition_potential.py"), ("partition_energy", C + "partition/partition_energy.py")],
     "TLA+ specification of the space of calculations and the steps in it, with every step's nodes, weights and slopes in exact rationals; TLC proves on a model function that the slopes along any path add up to its change and emits every step, whose calculations the real code does",
     "Grids of 25x19 (quick) and 25x25 points; agreement within 8e-4 (1e-4) of the change; fragments whose lowest level lies at the other nucleus are left out.")

NOTAPP = {}


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier={"over": p["over"], "text": p["qtext"]},
                     why_tests_cant=p["why"],
                     anchors={"files": p["files"],
                              "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]})
            assert len(p["title"]) <= 80, p["id"]
            fh.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in NOTAPP:
            na.append({"property": i, "reason": NOTAPP[i]})
        elif os.path.exists(os.path.join(ROOT, "harness", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i,
                           "thorough_cmd": "bin/check %s thorough" % i,
                           "evidence_file": "evidence/%s.json" % i,
                           "technique": p["technique"], "level": "model_checking",
                           "level_note": p["note"]})
        else:
            na.append({"property": i, "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")
    import jsonschema
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        jsonschema.validate(json.loads(line), ps)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(P), "properties,", len(checks), "claimed")


main()
