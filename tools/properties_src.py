SP = "agnpy/spectra/spectra.py"
PL = "agnpy/utils/plot.py"
BL = "agnpy/emission_regions/blob.py"
SY = "agnpy/synchrotron/synchrotron.py"
PS = "agnpy/synchrotron/proton_synchrotron.py"
SSC = "agnpy/compton/synchrotron_self_compton.py"
EC = "agnpy/compton/external_compton.py"
CK = "agnpy/compton/kernels.py"
GEO = "agnpy/utils/geometry.py"
MA = "agnpy/utils/math.py"
CV = "agnpy/utils/conversion.py"
TG = "agnpy/targets/targets.py"
AB = "agnpy/absorption/targets_absorption.py"
EB = "agnpy/absorption/ebl_absorption.py"

FC = "agnpy/fit/core.py"
FG = "agnpy/fit/gammapy_wrapper.py"
FS = "agnpy/fit/sherpa_wrapper.py"
FD = "agnpy/fit/data.py"

prop("P01", "Particle distributions follow their documented formula inside their support",
     "Every analytical particle distribution (power law, broken power law, log parabola, and both with an exponential cut-off) "
     "returns, at any Lorentz factor inside [gamma_min, gamma_max] (edges included; numbers and arrays of any shape), the normalisation times its documented "
     "shape, and exactly zero outside. The value does not depend on whether it is asked through the object, through the static "
     "function with explicit parameters or through the object's own list of parameters, is linear in the normalisation and never negative.",
     ["inputs"], "all normalisations, indices, breaks, cut-offs, supports and (arrays of) Lorentz factors in the stated boxes",
     "tests compare a handful of parameter sets with reference files; a wrong branch, edge or parameter order for other values passes",
     [SP], [("evaluate of each distribution class", SP), ("parameters order", SP)], ["distribution(gamma)", "Class.evaluate"])

prop("P02", "The self-absorption integrand is the derivative of the particle density",
     "For every analytical distribution the integrand used for synchrotron self-absorption equals gamma^2 d/dgamma [n(gamma)/gamma^2] "
     "at every Lorentz factor inside the support, and zero outside. Grid points that miss a limit of the support only by rounding "
     "(relative 1e-10) count as that limit, for the density and for the integrand.",
     ["inputs"], "all parameters and Lorentz factors in the boxes, the derivative being taken symbolically of the code's own density",
     "tests check the integrand at fixed parameters with a loose numerical derivative; an error confined to one branch or to the end points is not seen",
     [SP], [("evaluate_SSA_integrand", SP), ("snapping of the end points", SP)], ["distribution.SSA_integrand(gamma)"])

prop("P03", "A distribution built from a total density or energy integrates back to it",
     "A distribution built from a total density, a total energy density, a total energy and a volume, or a density at Lorentz factor 1 "
     "has the normalisation for which that integral over its support (with the particle's own mass) is the requested value. Integrating a "
     "distribution over any sub-range and with any power of the Lorentz factor gives the quadrature of gamma^power n(gamma) between "
     "the requested limits, with the integration rule chosen by the user.",
     ["inputs", "configurations"], "all five distributions, both particles, all parameters and limits, quadrature grids bounded to 4 points",
     "tests normalise a few fixed spectra; a wrong mass, limit, power or rule for other configurations is not sampled",
     [SP], [("from_* constructors and integrate", SP)], ["Class.from_total_density(...).k", "distribution.integrate(...)"])

prop("P04", "Tabulated and empty distributions reproduce their table and vanish elsewhere",
     "A distribution given as a table passes through its (positive) nodes times the normalisation, is zero outside the tabulated range, follows "
     "a tabulated power law and its derivative exactly, drops leading or trailing zeros of the table, rescales when its normalisation is "
     "changed, does not depend on the type (integer or float) of the requested Lorentz factors and refuses densities with another unit. The "
     "empty distribution is zero everywhere and has zero integrals.",
     ["inputs"], "tables of three or four nodes with arbitrary positions and densities, any Lorentz factor; spline replaced by an arbitrary function through its nodes",
     "tests interpolate one or two smooth tables",
     [SP], [("InterpolatedDistribution", SP), ("EmptyDistribution", SP)], ["InterpolatedDistribution(...)(gamma)", "SSA_integrand", "integrate"])

prop("P05", "Kinematics of the emission region are mutually consistent",
     "Velocity, viewing angle, Doppler factor, volume, variability time and luminosity distance of an emission region follow from its Lorentz "
     "factor, Doppler factor, size and redshift; setting the Doppler factor from a Lorentz factor and an angle and reading the angle back "
     "gives the same angle, and leaves size, field and distance untouched. A Doppler factor that is not a positive number is refused.",
     ["inputs"], "all sizes, redshifts, Doppler and Lorentz factors, fields and units in the boxes",
     "tests check single blobs", [BL], [("Beta, mu_s, theta_s, t_var, V_b, set_delta_D", BL)], ["attributes of Blob"])

prop("P06", "The energy budget of the emission region matches its particles and field",
     "Total numbers, densities and energies of electrons and protons, magnetic energy density, equipartition parameter, jet powers and "
     "synchrotron photon densities of an emission region equal the documented functionals of its distributions, size, field and Lorentz "
     "factor, each with the mass and the grid of its own particle. They are linear in the number of electrons, and a region without "
     "protons refuses every proton quantity.",
     ["inputs", "configurations"], "all parameters in the boxes, leptonic and lepto-hadronic regions, several grid sizes and units",
     "tests check two or three blobs with fixed numbers", [BL], [("n_e_tot, u_e, W_e, k_eq, P_jet_*, u_ph_synch", BL)], ["attributes of Blob"])

prop("P07", "Derived quantities of the emission region are never stale",
     "After any attribute of an emission region (size, field, Lorentz factor, Doppler factor, either particle distribution, the parameters "
     "of a distribution in place, or a grid size) is changed, every derived quantity equals that of a new region built with the changed value, "
     "even if it had been read before the change.",
     ["histories", "inputs"], "eight kinds of change, for all old and new values, with every derived quantity read before and after",
     "tests build fresh objects; a cached value shows only after a read-modify-read history",
     [BL], [("properties computed on access", BL)], ["attributes of Blob after assignment"])

prop("P08", "Unit conversions are exact, invertible and particle aware",
     "Frequencies are converted to dimensionless energies in the source frame by the factor (1+z)/delta_D h/(m c^2) of the selected particle, "
     "for any frequency unit and for scalars and arrays, and converting back gives the same frequency; other masses are refused. Magnetic "
     "fields given in any unit, lengths in gravitational radii and the rest energies and Compton wavelengths have their physical values.",
     ["inputs"], "all values in the boxes and several units", "tests check one value per conversion", [CV],
     [("nu_to_epsilon_prime, epsilon_equivalency, B_to_cgs, to_R_g_units", CV)], ["agnpy.utils.conversion"])

prop("P09", "Distances and angles between photons, blob and targets obey Euclidean geometry",
     "Angles between photons and electrons, and distances, zenith and azimuth angles between a point on the photon path and a ring or a shell of "
     "reprocessing material, equal those of the corresponding points in three-dimensional space, with the sign of the zenith cosine telling "
     "whether photons come from behind or from ahead. Off-axis formulae reduce to the on-axis ones along the axis and at the start of the path, and the shell's equator is a ring.",
     ["inputs"], "all radii, heights, angles and path lengths in the boxes and mixed length units",
     "tests check symmetric or special positions", [GEO], [("cos_psi, x_re_*, mu_star_shell, phi_mu_re_*", GEO)], ["agnpy.utils.geometry"])

prop("P10", "Numerical helpers integrate and broadcast exactly what they promise",
     "The log-log quadrature is exact for any power law on any grid and axis, handles the 1/x case and zeros, and keeps units; the analytic power-law "
     "integral has its closed form for every index and is additive over intervals. Axis reshaping yields the outer product of its "
     "arguments, and the clipped logarithm equals the logarithm on positive numbers and is finite at zero.",
     ["inputs"], "all grids of three points, indices and normalisations in the boxes", "tests check two or three power laws",
     [MA], [("trapz_loglog, power_law_integral, axes_reshaper, log", MA)], ["agnpy.utils.math"])

prop("P11", "Synchrotron spectra are the documented integral over the particles",
     "The synchrotron SED of electrons and protons equals delta_D^4 eps'/(4 pi d_L^2) times the quadrature, over the region's Lorentz factor grid and "
     "with the chosen integration rule, of the number of particles times the single-particle power (with that particle's mass), for any "
     "distribution, grid, units of field and size and set of frequencies. The delta approximation, the single-particle kernel, the "
     "characteristic frequency and the electron energy-loss rate have their documented closed forms.",
     ["inputs", "configurations"], "all parameters in the boxes, power-law and broken power-law particles, three integration rules, grids bounded to 2-5 points",
     "tests compare a few reference SEDs at 10-30 percent", [SY, PS], [("evaluate_sed_flux, single_particle_synch_power, R", SY), ("ProtonSynchrotron", PS)],
     ["Synchrotron.sed_flux", "ProtonSynchrotron.sed_flux", "electron_energy_loss_rate"])

prop("P12", "Synchrotron spectra scale and transform as the physics demands",
     "Synchrotron SEDs are elementwise in frequency (order, company and unit of the frequencies do not matter), non-negative, linear in the number of "
     "particles, proportional to the volume, and transform with Doppler factor and redshift as delta_D^4/d_L^2 at fixed comoving frequency (also "
     "with self-absorption); luminosities are 4 pi d_L^2 times fluxes. The reported peak is the largest value of the SED on the given "
     "frequencies and the frequency where it is attained.",
     ["inputs", "histories"], "all parameters in the boxes, for electrons, protons and self-absorbed electrons, including changes of the region after the process was built",
     "relations between runs at different inputs, never asserted by the tests",
     [SY, PS], [("sed_flux, sed_luminosity, sed_peak_flux, sed_peak_nu", SY)], ["sed_flux", "sed_luminosity", "sed_peak_flux", "sed_peak_nu"])

prop("P13", "Synchrotron self-absorption is the documented opacity and attenuation",
     "The self-absorption opacity is the documented quadrature of the derivative of the electron density times the single-electron power, is non-negative for "
     "densities falling with energy, and is proportional to size and number of electrons. The attenuation is 3u(tau)/tau (one in the thin limit, at most 3/(2 tau), never negative), "
     "and the absorbed SED is the unabsorbed one times it, only when absorption is requested.",
     ["inputs", "configurations"], "all parameters and opacities in the boxes, two integration rules",
     "tests compare one absorbed SED with a reference", [SY], [("evaluate_tau_ssa, tau_to_attenuation, ssa flag", SY)], ["Synchrotron(ssa=True).sed_flux", "evaluate_tau_ssa"])

prop("P14", "Compton kernels equal their formulae above threshold and vanish below",
     "The angle-dependent Compton kernel has its documented value when the electron is at or above the threshold energy for that photon, angle and scattered "
     "energy, is zero below and never negative; the threshold is larger than the scattered energy and lowest for head-on collisions. The kernel for "
     "isotropic photons has its documented value in its kinematic range, is non-negative, and zero outside it. Both act elementwise on arrays.",
     ["inputs"], "all electron, photon and scattered energies and angles in the boxes",
     "tests see the kernels only through integrated SEDs", [CK, GEO], [("compton_kernel, get_gamma_min, isotropic_kernel, F_c", CK)], ["agnpy.compton.kernels"])

prop("P15", "Self-Compton spectra and losses follow from the region's own synchrotron photons",
     "The synchrotron self-Compton SED is the documented double quadrature, with the chosen rule, of the isotropic kernel over electrons and over the photon density of the "
     "region's own synchrotron SED (self-absorbed if requested); it is elementwise in frequency, quadratic in the number of electrons, and zero above the energy of "
     "the most energetic electron. Its Thomson and Klein-Nishina energy-loss rates have their documented forms.",
     ["inputs", "configurations"], "all parameters in the boxes; electron grid bounded to 2 and photon grid to 3-4 points",
     "tests compare two reference SEDs", [SSC, BL], [("evaluate_sed_flux, electron_energy_loss_rate", SSC), ("evaluate_u_ph_synch_diff", BL)],
     ["SynchrotronSelfCompton.sed_flux", "electron_energy_loss_rate", "Blob.u_ph_synch_diff"])

prop("P16", "External Compton spectra are the documented integral for every target",
     "For every target (isotropic monochromatic/CMB, point source behind the jet, Shakura-Sunyaev disk, spherical broad line region, ring dust torus) the external Compton "
     "SED equals the documented quadrature over electrons and target angles with the kernel, geometry and prefactor of that target, for any grids, integration rule, "
     "distance, viewing angle and units. It is elementwise in frequency, linear in the number of electrons and in the (reprocessed) target luminosity, and follows later "
     "changes of the region, target, distance and angular grids.",
     ["inputs", "configurations", "histories"], "all parameters in the boxes; grids bounded to 2-3 points per axis; the Compton kernel is an arbitrary function (decided by P14)",
     "tests compare one reference SED per target at 30 percent", [EC], [("evaluate_sed_flux_* and dispatch", EC)], ["ExternalCompton.sed_flux", "sed_luminosity"])

prop("P17", "Target photon energy densities are the documented ones in both frames",
     "For every photon target the energy density at any distance is the documented function of its parameters in the frame of the galaxy, and its "
     "transformation with the Lorentz factor, velocity and direction of each photon in the frame of the emission region. It does not depend on units or "
     "on the company of other distances, is linear in the (reprocessed) luminosity and positive.",
     ["inputs", "configurations"], "all target and region parameters in the boxes, angular grids bounded to 2-3 points",
     "tests compare limits far away or near, for one target each", [TG, GEO], [("u(r, blob) of each target", TG)], ["target.u(r)", "target.u(r, blob)"])

prop("P18", "Targets follow their documented parameters and emit their thermal spectra",
     "Each target stores the quantities it is given and derives the documented ones (photon energy of the CMB at a redshift, Eddington ratio, accretion rate, disk "
     "temperature and photon energy by radius, line energy, sublimation radius of the torus), refuses unknown lines and radii of the wrong kind, and its thermal SED "
     "is the documented (multi-temperature) black body at any frequency, redshift and viewing angle.",
     ["inputs", "configurations"], "all parameters in the boxes, disk grid bounded to 2-3 radii",
     "tests build one object per class", [TG], [("constructors, evaluate_*, sed_flux", TG)], ["SSDisk", "SphericalShellBLR", "RingDustTorus", "CMB", "target.sed_flux"])

prop("P19", "The pair-production cross section is the documented one, zero below threshold",
     "The photon-photon pair-production cross section equals its documented formula for every squared centre-of-mass energy above threshold, is exactly zero "
     "below, never negative, acts elementwise on arrays of any shape and leaves its argument unchanged.",
     ["inputs"], "all energies between 1e-30 and 1e12 in units of the threshold",
     "tests check one reference curve above threshold", [AB], [("sigma", AB)], ["agnpy.absorption.sigma"])

prop("P20", "Gamma-gamma opacities are the documented integral for every target",
     "The opacity on each target (point source, disk, broad line region, torus, and the synchrotron photons of the region itself) is the documented quadrature of the cross "
     "section over path and directions, along the axis or at any angle where it is defined, for any grid sizes, units, redshift and distance. Later changes of grids, distance, "
     "direction and redshift are followed, and points of the path that fall on the shell of the broad line region stay finite.",
     ["inputs", "configurations", "histories"], "all parameters in the boxes; grids bounded to 2-3 points per axis; the cross section is an arbitrary function (decided by P19)",
     "tests compare one reference curve per target at tens of percent", [AB, GEO], [("evaluate_tau_* and dispatch", AB)], ["Absorption.tau"])

prop("P21", "Attenuations follow from the opacity and stay between zero and one",
     "The attenuation is exp(-tau) for a source behind the absorber and (1-exp(-tau))/tau for emission inside it; both lie in [0, 1], the second is the weaker, and both are one where "
     "the opacity vanishes. Opacities are elementwise in frequency, depend on frequency and redshift only through the energy at the source, and are linear in the (reprocessed) luminosity; a target "
     "without a distance is refused.",
     ["inputs", "histories"], "all opacities from 0 to 300; all parameters in the boxes for every target",
     "tests never look at vanishing opacities nor at relations between runs", [AB], [("absorption, absorption_homogeneous, tau", AB)], ["Absorption.absorption", "Absorption.absorption_homogeneous"])

prop("P22", "EBL attenuation is the interpolation of the chosen model's own table",
     "The EBL attenuation at any energy and redshift inside the table of the chosen model is the bilinear interpolation of that table in energy (geometric mean of the bin) and redshift, "
     "elementwise and in any unit equivalent to frequency, between 0 and 1. Outside the table it is NaN rather than an extrapolation, and unknown models are refused.",
     ["inputs", "configurations"], "all points of a stand-in table and of chosen cells of the five distributed tables",
     "tests compare with one plot per model", [EB], [("load_absorption_table, absorption", EB)], ["EBL(model).absorption(nu, z)"])

prop("P23", "Photon and energy fluxes are integrals of the process's own SED",
     "For every radiative process the differential photon flux is the SED over the squared energy, and the integral energy and photon fluxes between two frequencies are its documented "
     "quadratures on the requested number of logarithmic points, whatever (equivalent) units the limits have. They are additive in the SED, vanish on an empty window, and "
     "the mean photon energy lies between the limits.",
     ["inputs", "configurations"], "any SED (uninterpreted function), all limits in the boxes, grids bounded to 3-4 points",
     "tests integrate one synchrotron SED and compare with the same formula",
     ["agnpy/radiative_process/core.py"], [("diff_energy_flux, flux_integral, energy_flux_integral", "agnpy/radiative_process/core.py")], ["diff_energy_flux", "flux_integral", "energy_flux_integral"])

prop("P24", "Constraints on electron energies balance gains, losses and escape",
     "The maximum and break Lorentz factors of a region are the documented ones, i.e. those at which Larmor radius and size, acceleration and crossing, acceleration and (synchrotron, self-Compton, "
     "external Compton) losses, or cooling and crossing times are equal. They follow the parameters of the region at the time they are asked, in any units, and are plain numbers.",
     ["inputs", "histories"], "all parameters of the region and of the torus in the boxes",
     "tests evaluate one region", ["agnpy/constraints/spectral_constraints.py"], [("SpectralConstraints", "agnpy/constraints/spectral_constraints.py")], ["SpectralConstraints(blob)"])

TE = "agnpy/time_evolution/time_evolution.py"
TU = "agnpy/time_evolution/_time_evolution_utils.py"

prop("P25", "Rates are evaluated where due and added up without mixing bins or groups",
     "The rates of energy change and injection are the values of the user's functions at the edges and densities of the bins; with a mask only the asked bins are evaluated and the others keep "
     "their earlier rates. Rates of several functions add up per subgroup whatever their units, and bins that are reordered, removed or added carry their rates, densities and shares with them "
     "(new ones get the default and belong to the first subgroup).",
     ["inputs", "configurations"], "any rate functions (uninterpreted), all values on 2-3 bins, every mask, mapping and pattern of duplicates listed",
     "tests use constant rates on one arrangement of bins", [TU], [("recalc_new_rates, sum_change_rates, remap, combine_mapping, group_duplicates", TU)],
     ["TimeEvolution.evaluate", "recalc_new_rates", "sum_change_rates", "remap"])

prop("P26", "A time step moves bins and keeps their particles",
     "In one step the edges of a bin move by their energy changes, the number of particles in the bin is kept, and injected (or escaping) particles are added. Subgroups keep their own "
     "particles, their shares add up to one, and steps that would give negative energies, widths or densities are refused.",
     ["inputs", "configurations"], "all bins, densities, shares, energy changes and injections in the boxes, 2-3 bins, 1-2 subgroups",
     "tests look at totals of a few runs", [TE, TU], [("_apply_time_eval", TE), ("recalc_gamma_bins_and_density", TU)], ["TimeEvolution.evaluate"])

prop("P27", "Automatic steps are the longest that respect every limit",
     "The automatic step of a bin is the largest for which the relative energy change, the change of density by compression or dilution, the escaping fraction and the injected density stay "
     "within their limits, in every subgroup. Absolute escape from an empty bin is refused.",
     ["inputs", "configurations"], "all rates of any sign (or none), limits, energies and densities in the boxes, 2 bins with one group, 1 bin with two",
     "tests only see that a run converges", [TE], [("_calc_max_time_per_bin", TE)], ["TimeEvolution(step_duration='auto')"])

prop("P28", "Sorting, merging, removing and adding bins loses no particles' history",
     "After a step bins are in order of energy, bins at the same energy or closer than the limit become one at their geometric mean with the density of the distribution there (first and last bins stay), "
     "bins outside of the bounds leave and empty bins follow particles that move away from a bound. The region's distribution passes through the bins; without particles it is an empty one with the "
     "same energy limits, and particles collapsed to one energy are refused.",
     ["inputs", "histories"], "3-5 bins at any energies, orders and ties listed, all densities, limits and bounds in the boxes; the interpolation is an arbitrary function through its nodes",
     "tests have few crossings of bins", [TE, TU], [("_sort_and_merge_bins, _remove_gamma_beyond_bounds, _add_boundary_bins", TE), ("sort_and_merge_duplicates, merge_points, update_distribution", TU)],
     ["TimeEvolution.evaluate", "remove_empty_densities"])

prop("P29", "An evolution covers exactly the requested time and reports what it did",
     "The steps of an evolution (given or automatic, the last one shortened) add up to the total time; each applies Euler's or Heun's rule to the rates at that moment, per subgroup, and rates "
     "that are kept for slow bins never outlive the limits. After each step the callback gets time, energies, densities, shares and labelled rates, which later steps do not change; the last equal the "
     "returned result and the region's distribution, and continuing an evolution with another one equals a single one.",
     ["inputs", "histories"], "1-3 steps, 2-3 bins, rates proportional to energy, quadratic or arbitrary functions of energy and density, all values in the boxes",
     "tests check final values of a few runs; one case (Heun with subgroups, callbacks over several steps) was wrong and unseen", [TE], [("evaluate, _apply_time_changes", TE)],
     ["TimeEvolution.evaluate", "distribution_change_callback"])

prop("P30", "Set-ups of the time evolution are checked and completed as documented",
     "Contradictory settings (names used twice, energies out of bounds or not increasing, incomplete or misplaced shares, unknown methods or functions, kept rates with fixed steps or Heun) are refused. "
     "Functions may be given alone, in a list or by name; energies may be whole numbers and default to those of the region within the bounds, shares default to the first subgroup; the ready-made "
     "losses are the negative loss rates and the acceleration is energy over time.",
     ["inputs", "configurations"], "all energies, bounds and shares in the boxes, every listed setting",
     "tests use a handful of valid set-ups", [TE], [("TimeEvolution.__init__, synchrotron_loss, ssc_loss, fermi_acceleration", TE)], ["TimeEvolution(...)"])

prop("P31", "A fit model predicts the SED of the source its parameters describe",
     "For any values of its parameters a gammapy or sherpa model returns the sum of synchrotron, synchrotron self-Compton, disk, external Compton and torus emission that the library computes "
     "for the same source: size from variability time, Doppler factor and redshift, every log10 parameter undone, line and torus photon energies from wavelength and temperature. It holds for every "
     "electron distribution, every list of targets in any order, with and without self-absorption; sherpa gets an SED, gammapy a differential flux of the shape of the energies (number, list or table), and both agree.",
     ["inputs", "configurations"], "all parameter values in the boxes; every distribution, target list and backend",
     "tests compare one source per target list at the default parameters with a tolerance of 10%", [FG, FS], [("evaluate, _sort_*_parameters", FG), ("calc, _scale_spectral_parameters, _evaluate_sed_*", FS)],
     ["SynchrotronSelfComptonModel(...)", "ExternalComptonModel(...)"])

prop("P32", "The parameters of a fit model are those of the given source",
     "A fit model lists the parameters of its electron distribution (in the order of evaluate), of the emission region and of the targets, with the values of the given distribution. Setting them from a "
     "blob, a disk, a broad line region and a torus in any units stores their values in the units of the parameters, so that the SED of the model is the one of that source, and leaves other models alone.",
     ["inputs", "configurations"], "all source values in the boxes, several units; every distribution, target list and backend",
     "tests compare names, and values for one source", [FC, FG, FS], [("get_spectral_parameters_from_n_e, make_*_parameters_dict", FC), ("set_*_from_*", FG), ("set_*_from_*", FS)],
     ["model.parameters", "model.set_emission_region_parameters_from_blob", "model.set_targets_parameters_from_targets"])

prop("P33", "Measured SEDs enter the fits with their values and errors",
     "Loading an SED table for sherpa or gammapy keeps every point with its energy, flux and errors, whatever the units of the table: sherpa gets the mean of the two statistical errors and "
     "the systematic error of the point's own instrument (none if none is given), gammapy adds the latter in quadrature to both errors, one dataset per instrument. Only points between the given "
     "energies (for gammapy, whose bins lie between them) are used in the fit.",
     ["inputs", "configurations"], "all energies, fluxes, errors, systematic errors and ranges in the boxes; four points of three instruments, several units and dictionaries",
     "tests load two files whose instruments all have a systematic error", [FD], [("load_sherpa_flux_points, load_gammapy_flux_points, add_systematic_errors_gammapy_flux_points", FD)],
     ["load_sherpa_flux_points", "load_gammapy_flux_points"])

prop("P34", "Plots show the values they are asked for",
     "Plotting an SED draws exactly the given frequencies and fluxes once, on logarithmic axes, on the given axes or the current ones, with the style of the caller, a legend only with a label, and leaves earlier "
     "curves alone. Plotting a particle distribution draws gamma^power * n(gamma) at the given Lorentz factors or from 1 to 1e8, and the label says whether and how it is weighted.",
     ["inputs", "configurations"], "one or three points, all values in the boxes; five distributions, several powers and styles; axes that record what is drawn",
     "tests do not look at the curves", [PL, SP], [("plot_sed", PL), ("ParticleDistribution.plot", SP)],
     ["plot_sed", "n_e.plot"])

prop("P35", "Printed summaries give the values in force",
     "Printing an emission region, a particle distribution, a disk, a broad line region or a torus gives every parameter once under its own name, with its current value and unit (to the printed precision, "
     "at least two decimals), also after changes, the kind of particles of each distribution, and protons only if there are any. The list of lines names every available line.",
     ["inputs", "configurations"], "all parameter values in the boxes; every distribution and target, several units",
     "tests do not look at the summaries", [BL, SP, TG], [("Blob.__str__", BL), ("__str__ of the distributions", SP), ("__str__ of the targets, print_lines_list", TG)],
     ["print(blob)", "print(target)"])

NA = []
