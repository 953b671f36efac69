prop('P01', 'A total is its one-halo plus two-halo part; response rescales all parts',
     'For every published power spectrum the total equals the sum of its one-halo and two-halo parts at every bin, redshift and wavenumber; the HMcode matter total alone is the published smoothed combination of the two parts, with its published transition exponent. With the response option every part of every spectrum is the part without it multiplied by the non-linear matter spectrum over the halo-model matter total, so that the matter total becomes exactly the supplied non-linear spectrum.',
     ['inputs', 'configurations'], 'all cosmologies, grids and parameter values; every legal combination of non-linear mode, ingredient set and response',
     TESTS + 'no test compares the parts with the total, and response is exercised only for its shape.',
     [PKF], [('properties power_spectrum_* of Spectra', PKF), ('response factor', PKF)])
prop('P02', 'One-halo matter, galaxy and galaxy-matter spectra are the halo-model integrals',
     'The one-halo matter, galaxy-galaxy and galaxy-matter spectra equal the integral over halo mass of the halo mass function times the product of the two tracer profiles (matter: baryon-aware matter profile; galaxies: central plus satellite occupation, with the central-satellite cross term counted twice, the satellite pair term multiplied by the chosen Poisson parameter, and no central-central shot noise), each normalised by mean densities, times the one-halo damping where the chosen mode has one. The Poisson parameter is constant or a power law of mass as requested.',
     ['inputs', 'configurations'], 'all parameter values and grids; every legal mode, ingredient set, point-mass and Poisson option',
     TESTS + 'the integrals are never compared with an independent expression.',
     [PKF, POIF], [('one-halo integrals', PKF), ('Poisson parameter functions', POIF)])
prop('P03', 'Two-halo spectra are the linear spectrum times the mass-integrated biases',
     'The two-halo matter, galaxy-galaxy and galaxy-matter spectra equal the linear matter spectrum times the product of the two tracers\' bias integrals over halo mass, where the part of the matter integral below the mass grid is added back so that matter is unbiased on large scales, with the mode\'s two-halo damping or truncation applied exactly once. The linear matter spectrum is the supplied one interpolated on the wavenumber grid, or the computed one; the effective galaxy bias is the galaxy bias integral.',
     ['inputs', 'configurations'], 'all parameter values and grids; every legal mode, ingredient set and source of the linear spectrum',
     TESTS + 'no test looks at the two-halo integrals, their low-mass correction or the truncation.',
     [PKF], [('two-halo integrals, low-mass correction, truncation', PKF)])
prop('P04', 'Non-linear halo bias enters the two-halo terms once and only where allowed',
     'With non-linear halo bias switched on, every two-halo spectrum gains exactly the double mass integral of the non-linear bias function weighted by both tracers\' profiles, mass function and linear bias, including the corrections for the matter that lies below the mass grid, and with each tracer\'s own weight. With it switched off the spectra do not depend on the non-linear bias function at all.',
     ['inputs', 'configurations'], 'all values of the supplied non-linear bias array, parameters and grids; all modes that support it',
     TESTS + 'non-linear bias is only run with a constant array and checked for shape.',
     [PKF], [('bnl integrals I_NL', PKF)])
prop('P05', 'Intrinsic-alignment spectra are built from the right tracers and signs',
     'The matter-intrinsic, intrinsic-intrinsic and galaxy-intrinsic spectra equal their published composition: satellite one-halo terms from the satellite occupation, satellite alignment profile and the other tracer\'s one-halo profile; two-halo terms from the linear-alignment factor of centrals and satellites (negative, proportional to the matter density and inverse growth), the tracer bias integrals and the central and satellite amplitudes with their galaxy fractions; and damping and truncation of the alignment terms applied once. In the fortuna and linear-alignment options the two-halo terms use the corresponding published spectra.',
     ['inputs', 'configurations'], 'all parameter values and grids; every legal mode, alignment dependence and ingredient set',
     TESTS + 'sign, prefactor and tracer of each alignment term are not asserted anywhere.',
     [PKF, IAF], [('power_spectrum_mi/ii/gi and their integrals', PKF)])
prop('P06', 'HMcode-2020 ingredients follow the published fits',
     'In the HMcode mode the growth and accumulated growth, collapse threshold, virial overdensity, concentration amplitude, halo bloating, one-halo and two-halo damping, one-to-two-halo transition and de-wiggled linear spectrum equal the published HMcode-2020 functions of cosmology, redshift, sigma8, effective index and (with feedback) AGN temperature. Each is evaluated at the redshift it is used for.',
     ['inputs', 'configurations'], 'all cosmologies and redshifts; with and without feedback, supplied or computed linear spectra',
     TESTS + 'a few fits are compared for one cosmology at a loose tolerance; exponents that vanish there go unnoticed.',
     [HMIF, PKF], [('fitting functions of CosmologyBase and HaloModelIngredients', HMIF), ('damping functions of PowerSpectrum', PKF)])
prop('P07', 'Baryonic feedback conserves the mass budget of the halo',
     'The matter profile of a halo with feedback is cold dark matter plus bound gas following the halo profile plus a stellar point mass, where the bound gas fraction is the published function of halo mass that interpolates from zero to the cosmic baryon fraction minus the stellar fraction, so that at high mass the three fractions add up to all matter. Which of the option sets (none, HMcode with feedback, fitted feedback) is used decides the stellar and gas parameters exactly as published, including their redshift and AGN-temperature dependence.',
     ['inputs', 'configurations'], 'all halo masses, redshifts, cosmologies and feedback parameters; all ingredient sets and point-mass options',
     TESTS + 'feedback profiles are checked for shape only.',
     [PKF, HMIF], [('matter profiles with feedback, gas and stellar fractions', PKF)])
prop('P08', 'Halo-model ingredients of each redshift come from that redshift\'s own model',
     'Mass function, halo bias, concentration, virial and scale radii, mean density, overdensity and halo profiles of matter and galaxies at a redshift are those of a halo model built with the user\'s cosmology, options and parameters at that redshift; satellites use their own profile, concentration relation, normalisation and bloating. No option or parameter accepted by the model is dropped, swapped between matter and galaxies, or applied at a different redshift.',
     ['inputs', 'configurations'], 'all cosmologies, redshift grids and halo-model options (mass definitions, concentration and bias models, bloating, normalisations)',
     TESTS + 'options are exercised at their defaults, where swapped or dropped parameters are invisible.',
     [HMIF], [('HaloModelIngredients and its per-redshift model list', HMIF)])
prop('P09', 'Cosmology and growth are derived consistently from the given parameters',
     'The background cosmology, neutrino fraction, mean densities, growth factors and sigma8 of every redshift are those of the cosmology the user gave (matter = cold matter + baryons + neutrinos, time-dependent dark energy included), through the documented conversions. No derived quantity uses a fixed fiducial value in place of a given parameter.',
     ['inputs', 'configurations'], 'all cosmological parameter values, including massive neutrinos, curvature-free w0-wa dark energy, and all redshifts',
     TESTS + 'one fiducial cosmology is used, in which many parameters sit at their neutral values.',
     [HMIF], [('CosmologyBase', HMIF)])
prop('P10', 'Occupation functions follow the chosen halo occupation model',
     'For every occupation model the numbers of centrals and satellites as a function of halo mass equal the published functions of that model\'s parameters, per observable bin and redshift, with the assembly-bias decoration applied as documented, satellites tied to centrals only where the model says so, and non-negative totals equal to centrals plus satellites. Scalar parameters are shared by all bins and per-bin parameters go to their own bin.',
     ['inputs', 'configurations'], 'all parameter values, bins, redshifts and halo masses; all occupation models',
     TESTS + 'occupations are checked for shape and sign for one bin.',
     [HODF], [('HOD classes', HODF)])
prop('P11', 'Galaxy densities, fractions, biases, masses and stellar fractions are consistent',
     'Number densities, central and satellite fractions, effective biases, mean halo masses and stellar fractions are the mass-function-weighted averages of the same occupation functions that build the spectra, satellite and central fractions add up to one, and each average is normalised by the density of its own population. The spectra use these quantities, with the stellar fraction of the matter and of the galaxies taken from their own settings.',
     ['inputs', 'configurations'], 'all occupation models, parameter values, bins and redshifts',
     TESTS + 'averages are checked for shape only.',
     [HODF, PKF], [('averages in HOD', HODF), ('stellar fractions and occupation wiring in Spectra', PKF)])
prop('P12', 'Observable functions are the halo-mass integral of the conditional functions',
     'The stellar-mass or luminosity function of centrals, satellites and all galaxies equals the integral over halo mass of the conditional function times the halo mass function at the requested redshifts, on the observable grid requested for it, and the total is the sum of both populations. The observable grid of each bin spans that bin\'s limits, whether set by parameters or read from a file, in the requested units.',
     ['inputs', 'configurations'], 'all bin limits, observable units, redshift selections and conditional-function parameters',
     TESTS + 'observable functions are evaluated once for shape.',
     [HODF, PKF], [('observable functions and grids', HODF)])
prop('P13', 'Alignment amplitudes scale with luminosity, mass and redshift as chosen',
     'The alignment amplitudes of centrals and satellites are the user\'s amplitude times the chosen scaling: none, a single or broken power law of luminosity averaged over the luminosity distribution of that population at each redshift, or a power law of halo mass about its pivot. The linear-alignment factors carry the amplitude, the documented constant, the matter density and the inverse growth of their own redshift, once per aligned field.',
     ['inputs', 'configurations'], 'all amplitudes, slopes, pivots, luminosity tables and redshifts; all dependence options for centrals and satellites independently',
     TESTS + 'only shapes of the amplitudes are checked, for the options of one fixture.',
     [IAF, PKF], [('AlignmentAmplitudes', IAF), ('alignment factors and terms in Spectra', PKF)])
prop('P14', 'The satellite alignment profile is the published multipole expansion',
     'The density-weighted satellite ellipticity per halo mass and wavenumber is the sum over even multipoles up to the requested order of the angular coefficient times the radial Hankel integral of the profile-weighted radial alignment, with the inner core cut, amplitude, slope and virial truncation the user asked for and the profile normalised to the halo mass. Thinning the halo masses and interpolating back returns each mass and redshift its own value.',
     ['inputs', 'configurations'], 'all masses, concentrations, scale radii, wavenumbers, multipole orders and radial slopes; with and without truncation',
     TESTS + 'the profile is evaluated for shape with one order and slope.',
     [IAF], [('SatelliteAlignment', IAF)])
prop('P15', 'The non-linear bias correction emulates the cosmology the user gave',
     'Each parameter handed to the halo emulator is the user\'s parameter in the emulator\'s convention and order, moved to the nearest edge only if it lies outside the emulator\'s range, with the amplitude matched to the given sigma_8 or primordial amplitude. The correction at each redshift, wavenumber and pair of masses is the emulated halo power over the product of biases and linear power, minus one, symmetric in the masses and at its own grid point.',
     ['inputs', 'configurations'], 'all cosmological parameters inside and outside the emulator\'s range, all masses, redshifts and wavenumbers; redshift-dependent or fixed',
     TESTS + 'the emulator is exercised for one cosmology, well inside its range, and only the shape is checked.',
     [BNLF], [('NonLinearBias', BNLF)])
prop('P16', 'Resampling and mixing return each spectrum on the requested grid',
     'Every spectrum requested by name and contribution is the model\'s spectrum interpolated in redshift and wavenumber onto the requested grid, extrapolated as requested. With two populations the result is the sum weighted by each population\'s fraction at that redshift, once per galaxy field in the spectrum and never for matter.',
     ['inputs', 'configurations'], 'all grids, fractions, redshifts and observable bins, all requested subsets of spectra and contributions, one or two populations',
     TESTS + 'one population with unit fraction is sampled for a few spectra.',
     [ADDF], [('UpsampledSpectra', ADDF)])
prop('P17', 'Updating a model gives the same answers as building it anew',
     'After any update of parameters, every quantity equals that of a new object built with the same final parameters, whatever was evaluated before the update. No quantity computed before an update survives it if one of its inputs changed.',
     ['histories', 'inputs'], 'all sequences of evaluation and update of any parameters, for every public class and model configuration',
     TESTS + 'updates are tested for a single parameter of a single quantity.',
     [PKF, HMIF, IAF, BNLF, ADDF, HODF], [('tracked parameters and cached quantities of every class', HMIF), ('update paths of Spectra', PKF), ('UpsampledSpectra', ADDF)],
     technique='abstract interpretation of construct/evaluate/update histories under the exact semantics of the quantity cache, value-dependence versus cache-index inclusion, global value numbering')
prop('P18', 'Evaluating a model never changes its inputs, earlier results or other models',
     'Reading any quantity leaves every array, dictionary and grid the user passed in unchanged, and leaves every quantity read earlier unchanged. The value of a quantity does not depend on which quantities were read before it, and two models that live side by side do not influence each other.',
     ['histories', 'inputs'], 'all input values, all orders of evaluation, any pair of models of any configuration',
     TESTS + 'each test reads one quantity of a fresh object; aliasing and order effects are invisible there.',
     [PKF, HMIF, IAF, BNLF, ADDF, HODF], [('in-place array operations and aliases of inputs and cached quantities', PKF), ('cached quantities of every class', HMIF)],
     technique='alias and effect analysis over an abstract interpretation (storage tags on arrays and containers), evaluation-order comparison by global value numbering')
prop('P19', 'Every legal configuration yields every quantity on its documented grid',
     'For every legal combination of options each public quantity can be evaluated, is defined, and has one value for every observable bin, redshift, wavenumber and halo mass it is documented for, in that order of axes, for any grid lengths. No combination of legal options ends in an internal error.',
     ['configurations', 'inputs'], 'all legal combinations of mode, ingredient set, occupation model, alignment dependence, response, point mass and non-linear bias; all grid lengths above one',
     TESTS + 'the tests fix one set of grid lengths (one bin) and a few option combinations; transposed or collapsed axes of equal length pass.',
     [PKF, HMIF, IAF, BNLF, ADDF, HODF], [('public quantities of every class', PKF)],
     technique='symbolic shape inference by abstract interpretation over all option combinations')
prop('P20', 'Invalid or contradictory settings are refused before they are used',
     'Unknown modes, models and option values, out-of-range counts, wavenumber and redshift grids or tables of the wrong shape, and missing tables that the chosen options need are refused with an error when the model is built or updated, not silently replaced or used. Legal values of the same settings are accepted.',
     ['inputs', 'configurations'], 'all invalid values of each validated setting, at construction and at every later update',
     TESTS + 'a few invalid values are tried at construction; later updates and wrongly shaped tables hardly at all.',
     [PKF, HMIF, IAF, BNLF, ADDF, HODF], [('validation in the public classes', PKF), ('validation in HaloModelIngredients', HMIF), ('validation of alignment settings', IAF)],
     technique='typestate of settings: abstract interpretation of construction and update with invalid values, every path must reach a raise')
prop('P21', 'Parameters influence exactly the spectra they belong to',
     'Every parameter the user can set reaches every quantity it is documented to influence and no quantity it must not influence: occupation, Poisson and galaxy-profile parameters never reach matter-only spectra, alignment parameters reach only alignment spectra, feedback and damping parameters only the configurations that use them. No accepted parameter is without effect in the configuration that uses it.',
     ['inputs', 'configurations'], 'all parameter values, every public quantity and every mode',
     TESTS + 'tests hold the parameters fixed, so that a dropped or leaking parameter is invisible.',
     [PKF, HMIF, IAF, HODF], [('data flow from parameters to spectra', PKF)],
     technique='information-flow analysis: dependence sets of every output over the value graph compared with a table of required and forbidden flows')
prop('P22', 'Observable bins and redshifts do not influence each other',
     'The value of a galaxy quantity in one observable bin is the value a model with only that bin would give, and the value of a matter, halo or alignment-profile quantity at one redshift is the value a model with only that redshift would give, whatever the other bins and redshifts are. No mixing, reordering or averaging takes place between bins or between redshifts.',
     ['inputs', 'configurations'], 'all numbers and limits of bins, all redshift grids and their inputs, all modes',
     TESTS + 'the tests use a single bin and never compare redshifts computed together with redshifts computed apart.',
     [PKF, HMIF, IAF, HODF], [('per-bin and per-redshift broadcasting', PKF)],
     technique='metamorphic comparison of symbolic value graphs (all bins vs a single bin, all redshifts vs a single redshift) by global value numbering')
prop('P23', 'The CosmoSIS module hands every input to the model it belongs to',
     'Every option and every value read from the CosmoSIS data block reaches exactly the model setting of the same meaning, for the right galaxy sample, bin and observable, with the documented default when it is absent. A missing required input stops the run instead of being replaced, and every sample of a chain is evaluated with its own values, never with those of an earlier sample, except that the non-linear halo bias is renewed only at the chosen interval.',
     ['inputs', 'configurations', 'histories'], 'all block contents and option combinations of the module; first and every later sample of a chain',
     'No test touches the CosmoSIS modules, and the framework itself is not installed with the tests.',
     [CIF], [('setup and execute of the CosmoSIS module', CIF)],
     technique='abstract interpretation of setup/execute against a symbolic data block: the settings of every model object are compared by value numbering with the block entries they must come from')
prop('P24', 'The CosmoSIS module writes each result under its own name, bin and grid',
     'Every entry the CosmoSIS module writes equals the quantity its section and name announce, computed by a model with the same inputs, for the right galaxy bin and on the wavenumber, redshift and mass axes written beside it. Sections that were not requested are not written, inputs of later modules are not overwritten, and metadata such as the number of bins agrees with what was written.',
     ['inputs', 'configurations', 'histories'], 'all block contents, requested spectra and numbers of samples and bins; first and every later sample of a chain',
     'No test touches the CosmoSIS modules, and the framework itself is not installed with the tests.',
     [CIF], [('execute and the saving helpers of the CosmoSIS module', CIF)],
     technique='abstract interpretation of setup/execute against a symbolic data block: every written entry is compared by value numbering with the quantity of an independently built model')
prop('P25', 'Projected correlation functions and angles carry the stated axes and units',
     'The pipeline modules that follow the halo model write, for every bin, the Hankel transform (order zero for clustering, two for lensing, scaled by the mean density) of the supplied spectrum at exactly the separations written beside it and within the requested range, averaged over that bin\'s redshift distribution. Angles are converted exactly between the supported units, the correction to a data cosmology multiplies signal and separations by the stated distance ratios of the bin\'s redshift, and unsupported kinds, units or counts are refused.',
     ['inputs', 'configurations', 'histories'], 'all spectra, redshift distributions, grids, options, units, cosmologies and numbers of bins; first and later samples of a chain',
     'No test touches these modules; an axis off by one step, a wrong bin or a wrong unit still yields smooth, plausible curves.',
     [CPR + 'pk_to_real.py', CPR + 'correct_cosmo_real.py', CCT], [('Hankel transform module', CPR + 'pk_to_real.py'), ('data cosmology module', CPR + 'correct_cosmo_real.py'), ('angle module', CCT)],
     technique='abstract interpretation of setup/execute against a symbolic data block, outputs compared by value numbering with the stated formulas',
     note='The FFTLog transform itself is an uninterpreted function. ')
prop('N01', 'Mass and redshift integrals are numerically converged',
     'Refining the mass, wavenumber or redshift grid beyond the default resolution changes no spectrum by more than the accuracy the model claims. The same holds for widening the integration limits.',
     ['inputs', 'configurations'], 'all cosmologies and parameter values within the priors users sample',
     'Tests use one coarse grid.', [PKF, HMIF], [('quadrature over halo mass', PKF)],
     na='Quadrature error is a bound on floating-point values over continuous parameter ranges; no static argument over the source bounds it (it depends on the shapes of tabulated mass functions and spectra supplied at run time).')
prop('N02', 'Spectra are finite and non-negative where theory requires it',
     'For physically valid inputs the auto spectra are finite and non-negative at every redshift and wavenumber.',
     ['inputs'], 'all physically valid inputs',
     'Tests look at one cosmology.', [PKF, HMIF], [('spectra', PKF)],
     na='Sign and finiteness depend on the magnitudes of inputs, tabulated functions and interpolation; a sound interval analysis of the quadratures, fits and emulator calls yields bounds far too wide to decide anything.')
prop('N03', 'Predictions agree with the simulations the fits were calibrated on',
     'Matter and galaxy spectra agree with simulations and reference codes to the accuracy the papers quote.',
     ['inputs'], 'all cosmologies in the calibrated range',
     'No reference data are in the repository.', [PKF], [('spectra', PKF)],
     na='Needs reference data and numerical execution; outside static analysis.')
prop('N04', 'Evaluation is fast enough for sampling and memory stays bounded',
     'A change of one parameter recomputes only what depends on it and memory use does not grow along a chain.',
     ['histories'], 'all sequences of updates',
     'Tests run single evaluations.', [PKF], [('quantity cache', PKF)],
     na='Run time and memory are runtime quantities; the correctness side of the cache (no stale results) is decided by P17.')
