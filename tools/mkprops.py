"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/sorcha/"
P = []


def p(id, title, statement, over, q, why, files, mech, observe=(), tech="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), q=q, why=why,
                  files=[f if f.startswith('src/') else S + f for f in files], mech=mech, observe=list(observe), tech=tech, note=note))


p("C01", "Every detection is reported exactly once, whatever the chunk size",
  "With the random parts switched off, one run over a population produces the same set of rows with the same values for every serial chunk size, in every output format and for both surveys; each object read appears in exactly one chunk, and no detection is lost, repeated or altered by chunking. This holds when objects are ordered differently in the input files, when some objects have no ephemeris, and when the last chunk is short or whole chunks yield nothing.",
  "inputs configurations histories", "all populations, file orders, chunk sizes 1..n+1, ephemeris/orbit/parameter formats and output formats",
  "Tests run one or two fixed chunk sizes on the demo data; chunk boundaries interact with every reader, filter and writer.",
  ["sorcha.py", "des.py", "readers/CombinedDataReader.py", "readers/CSVReader.py", "readers/HDF5Reader.py", "readers/DatabaseReader.py", "modules/PPOutput.py"],
  [{"name": "chunk loop over objects", "where": S + "sorcha.py runLSSTSimulation"}, {"name": "read by object id within a block", "where": S + "readers/CombinedDataReader.py"}],
  ["rows of the output file", "rows of the statistics file"],
  "metamorphic trace monitor: the real pipeline is run at many chunk sizes and the recorded output event logs are compared (conservation, exactly-once)")

p("C02", "A run is reproducible from its seed and modules draw independently",
  "Two runs with the same inputs, configuration and seed give identical output files even in different processes, and a different seed changes the random parts. The random stream of one stage does not depend on whether, how often or in what order other stages draw.",
  "inputs configurations histories schedules", "all configurations and seeds, process restarts, orders of use of the per-module generators",
  "Tests check the generator class on two names; they never rerun a whole simulation in fresh processes with different hash seeds.",
  ["utilities/sorchaModuleRNG.py", "sorcha.py", "des.py", "modules/PPRandomizeMeasurements.py", "modules/PPFadingFunctionFilter.py"],
  [{"name": "per-module generator seeded from module name and base seed", "where": S + "utilities/sorchaModuleRNG.py"}],
  ["bytes of the output files of independent processes"],
  "replay monitor: fresh processes with perturbed hash seeds, thread counts and draw orders; byte comparison of outputs and of recorded draw streams")

p("C03", "The deterministic pipeline matches an independent reference",
  "With randomisation, fading and linking off, the rows a full run reports are exactly the observations that an independent computation of colours, phase curve, trailing, vignetting, uncertainty and configured cuts says are detected, with the values it computes. No stage that is switched off in the configuration has any effect, and no stage that is switched on is skipped.",
  "inputs configurations", "all combinations of the enabled stages, phase functions, filters, surveys and populations",
  "Tests check stages separately against recorded numbers; wiring between stages is only exercised by demo tests that need downloads.",
  ["sorcha.py", "des.py", "modules/PPApplyFOVFilter.py", "modules/PPAddUncertainties.py", "modules/PPCalculateApparentMagnitude.py"],
  [{"name": "stage sequence", "where": S + "sorcha.py runLSSTSimulation, des.py runDESSimulation"}],
  ["rows of the output file"],
  "differential monitor: whole runs of the real pipeline against an independent reference model")

p("C04", "Apparent magnitudes follow colours, phase function and distances",
  "For every observation the trailed-source magnitude before noise is the absolute magnitude in the main filter plus the colour offset of the observing filter, plus 5 log10 of heliocentric and topocentric distance in au, plus the selected phase function's term with the filter-specific parameters when given. Light-curve offsets are added only when a light-curve model is configured, and other columns are unaffected.",
  "inputs configurations", "all phase functions, filter sets, colours, distances, phase angles and input types (integers, floats)",
  "Tests check a few hand-made rows for one filter set.",
  ["modules/PPCalculateApparentMagnitude.py", "modules/PPCalculateApparentMagnitudeInFilter.py", "modules/PPApplyColourOffsets.py", "modules/PPGetMainFilterAndColourOffsets.py", "modules/PPCalculateSimpleCometaryMagnitude.py"],
  [{"name": "colour offset per filter", "where": S + "modules/PPApplyColourOffsets.py"}, {"name": "phase functions", "where": S + "modules/PPCalculateApparentMagnitudeInFilter.py"}],
  ["trailedSourceMagTrue, H_filter columns"],
  "differential monitor against independently written phase functions on random tables")

p("C05", "Trailing losses follow the published fit",
  "The loss of every row is 1.25 log10(1 + a x^2 / (1 + b x)) magnitudes with x the trail length over the seeing and the published constants for each of the two loss models; it is zero for a stationary source, never negative and never decreases with rate. Row order and index do not matter and the table is not modified.",
  "inputs", "all rates, exposure times, seeing values, tables and indexes",
  "Tests check three numbers.", ["modules/PPTrailingLoss.py"],
  [{"name": "calcTrailingLoss", "where": S + "modules/PPTrailingLoss.py"}], ["returned magnitudes"],
  "differential and monotonicity monitors on random tables")

p("C06", "Vignetting reduces depth as tabulated and never elsewhere",
  "The depth at a source is the field depth minus a vignetting loss that depends only on its angular distance from the pointing, matches the camera's tabulated curve, is zero at the centre and never brightens beyond the field depth. It is the same at every declination, across the RA wrap and at the poles.",
  "inputs", "all pointings and source positions within and beyond the field of view",
  "Tests check a handful of positions near the equator.", ["modules/PPVignetting.py"],
  [{"name": "vignettingEffects", "where": S + "modules/PPVignetting.py"}], ["fiveSigmaDepth_mag"],
  "differential and rotation-invariance monitors on random pointings")

p("C07", "Uncertainties and signal-to-noise follow magnitude and depth",
  "Each row's photometric and astrometric uncertainty and SNR is the survey's published function of its own magnitude, depth and seeing, with the configured error floors; a fainter source never has a smaller uncertainty or larger SNR. At the five-sigma depth SNR is about five, and rows do not influence each other.",
  "inputs configurations", "all magnitudes, depths, seeing values and configurations (trailing on/off, default SNR cut on/off)",
  "Tests compare single rows with recorded numbers.", ["modules/PPAddUncertainties.py"],
  [{"name": "uncertainties", "where": S + "modules/PPAddUncertainties.py"}], ["*Sigma and SNR columns"],
  "differential, monotonicity and row-independence monitors")

p("C08", "Measured positions and magnitudes scatter as their uncertainties say",
  "Randomised magnitudes are the true ones plus zero-mean Gaussian noise of the row's own sigma, and randomised positions scatter isotropically on the sphere about the true position with the row's astrometric sigma, at every declination, across RA 0/360 and at the poles. Results are valid sky coordinates, the true values stay available unchanged, and rows and the two coordinates are independent.",
  "inputs configurations", "all sky positions, sigmas, table sizes and seeds",
  "Tests fix one seed and a few rows, so they see neither distribution, poles nor wrap.", ["modules/PPRandomizeMeasurements.py", "modules/PPAddUncertainties.py"],
  [{"name": "randomizeAstrometry, randomizePhotometry", "where": S + "modules/PPRandomizeMeasurements.py"}],
  ["RA/Dec and magnitude columns before and after"],
  "statistical monitor over recorded residuals (chi-square, correlation and uniformity tests at 1e-9) plus exact range and frame conditions")

p("C09", "Each cut keeps exactly the rows its rule selects, unaltered",
  "The signal-to-noise, magnitude, saturation, default detection, distance and motion cuts each keep exactly the rows that satisfy their documented rule, once each, with all values unchanged. The result does not depend on row order, index, filter order or the presence of other rows, and a cut on an empty table is harmless.",
  "inputs configurations", "all tables (also empty, permuted, re-indexed) and limits, per-filter limits included",
  "Tests apply each cut to one small table.", ["modules/PPSNRLimit.py", "modules/PPMagnitudeLimit.py", "modules/PPBrightLimit.py", "modules/PPAddUncertainties.py", "modules/PPDistanceandMotionCuts.py"],
  [{"name": "limits", "where": S + "modules/PPBrightLimit.py"}], ["rows before and after each cut"],
  "conservation monitor with row tags around each cut")

p("C10", "Circular footprint keeps exactly the sources inside the radius",
  "With a circular field of view, an observation survives exactly when its great-circle distance from the pointing is within the configured radius, at every declination and across the RA wrap. With a fill factor, survivors are an independent random fraction of them of the configured size, and a fraction of one keeps all.",
  "inputs configurations", "all pointings, positions, radii and fill factors",
  "Tests use a few positions near one pointing.", ["modules/PPApplyFOVFilter.py"],
  [{"name": "PPCircleFootprint / PPSimpleSensorArea / PPGetSeparation", "where": S + "modules/PPApplyFOVFilter.py"}], ["surviving rows"],
  "conservation monitor with great-circle oracle; binomial monitor for the fill factor")

p("C11", "Camera footprint assigns each source to the detector it falls on",
  "A source is kept exactly when, projected gnomonically about the pointing and rotated by the camera angle, it lies inside a detector (by more than the configured edge distance when set), and its detector number is that of that detector. The answer is the same for all pointings, rotations, orders of detectors' corners, and for source batches of any size, and a source is never reported twice.",
  "inputs configurations", "all pointings including poles and RA wrap, rotations, detector tables, edge thresholds and batches",
  "Tests compare one pointing set with recorded results.", ["modules/PPFootprintFilter.py", "modules/PPApplyFOVFilter.py"],
  [{"name": "Footprint.applyFootprint, Detector.ison", "where": S + "modules/PPFootprintFilter.py"}], ["kept rows, detectorID"],
  "differential monitor against an exact polygon oracle on the tangent plane, with rotation and permutation metamorphic relations")

p("C12", "Per-visit footprints assign each source to the CCD that contains it",
  "With a per-visit footprint database, an observation survives exactly when its position lies inside the polygon of one of that visit's own CCDs, and the reported detector and limiting magnitude are that CCD's. Nearby CCDs of the same visit or of other visits never capture it.",
  "inputs configurations", "all visits, CCD layouts, positions, declinations and RA wrap",
  "Tests check two visits.", ["modules/PPVisitsFootprintFilter.py", "modules/PPApplyFOVFilter.py"],
  [{"name": "visits footprint lookup", "where": S + "modules/PPVisitsFootprint.py"}], ["kept rows, detectorID, depth"],
  "differential monitor against a brute-force spherical point-in-polygon oracle")

p("C13", "Fading function drops sources with the configured probability",
  "Each observation survives independently with probability peak/(1+exp((m - depth)/width)) for its own magnitude and depth (per-row parameters for DES). Survivors are unchanged, and rows far brighter than the depth survive with the peak probability.",
  "inputs configurations", "all tables, peaks, widths and seeds",
  "Tests fix a seed and a handful of rows.", ["modules/PPFadingFunctionFilter.py", "modules/PPDetectionProbability.py", "modules/DESFadingFunctionFilter.py"],
  [{"name": "PPFadingFunctionFilter", "where": S + "modules/PPFadingFunctionFilter.py"}], ["surviving rows"],
  "statistical monitor (binomial bounds per stratum) with row-tag conservation")

p("C14", "An object is linked exactly when its detections allow it",
  "An object is reported as linked exactly when enough nightly tracklets (enough detections, close enough in time, far enough apart on the sky) fall within a window of the configured number of nights, nights being local to the observatory. The date reported is that of the completing tracklet and no detection of a linked object is lost.",
  "inputs configurations histories", "all detection histories, tracklet and window parameters, night boundaries",
  "Tests use a few fixed histories.", ["modules/PPLinkingFilter.py", "modules/PPMiniDifi.py"],
  [{"name": "linkObservations, hasTracklet, trackletsInNights", "where": S + "modules/PPMiniDifi.py"}], ["object_linked, date_linked"],
  "offline history checker: brute-force linking specification over recorded detection logs")

p("C15", "Linking efficiency applies per object and independently of other objects",
  "Each linkable object is linked with the configured efficiency, independently of others; the verdict with full efficiency depends only on the object's own detections, not on row order, identifiers or which other objects are present. Unlinked objects are dropped entirely, or kept and flagged when so configured.",
  "inputs configurations", "all populations, identifiers (also long and non-ASCII), orders and seeds",
  "Tests use two or three objects.", ["modules/PPLinkingFilter.py", "modules/PPMiniDifi.py"],
  [{"name": "PPLinkingFilter", "where": S + "modules/PPLinkingFilter.py"}], ["surviving rows and flags"],
  "metamorphic and statistical monitors over linking runs")

p("C16", "DES discovery criteria select exactly the objects that satisfy them",
  "An object passes the DES discovery criteria exactly when it is detected on at least nine distinct nights, or on at least seven with an arc that still exceeds half a year when its first or its last night is left out and with three nights in a row no more than 60 days apart (90 days if it is never closer than 50 au). Objects are judged independently of each other and of row order, and all detections of a discovered object are kept unaltered.",
  "inputs configurations histories", "all detection histories and thresholds",
  "Tests use a few objects.", ["modules/DESDiscoveryFilter.py"],
  [{"name": "DESDiscoveryFilter", "where": S + "modules/DESDiscoveryFilter.py"}], ["surviving rows"],
  "offline history checker: brute-force specification over recorded detection logs")

p("C17", "Culling faint objects never removes a detectable one",
  "Objects removed before the ephemeris is generated because they are too faint are exactly those with a perihelion beyond 2 au whose brightest possible magnitude - at perihelion and opposition, with the colour of the filter and any brightening its light-curve or activity model allows - is more than 2 magnitudes fainter than the deepest visit in every observing filter. Running with and without culling therefore gives the same survivors, whichever chunks lose all, some or none of their objects.",
  "inputs configurations", "all populations, colours, filters, pointing depths",
  "Tests use one table.", ["modules/PPFaintObjectCullingFilter.py"],
  [{"name": "PPFaintObjectCullingFilter", "where": S + "modules/PPFaintObjectCullingFilter.py"}], ["surviving rows, later detections"],
  "soundness monitor: culled objects are photometered by an independent model and must be undetectable")

p("C18", "Orbit conversions agree with two-body dynamics and round-trip",
  "Converting any valid cometary, Keplerian or Cartesian element set to a state vector gives the state of the two-body orbit described, and converting it back returns the same elements, for elliptic, near-parabolic and hyperbolic orbits. Heliocentric/barycentric pairs differ only by the Sun's state.",
  "inputs", "all element sets in the six formats including e near and above 1, i near 0/180, anomalies in all quadrants",
  "Tests convert a few orbits.", ["ephemeris/orbit_conversion_utilities.py", "ephemeris/simulation_parsing.py"],
  [{"name": "universal_cartesian etc.", "where": S + "ephemeris/orbit_conversion_utilities.py"}], ["returned states and elements"],
  "differential monitor against an independent integrator and classical formulas, plus round trips")

p("C19", "Reported geometry and rates agree with the motion they describe",
  "Ephemeris rows derived from object and observatory state vectors are mutually consistent: RA/Dec, range, range rate, sky rates (including the cosine factor), phase angle and vector components all describe the same geometry, at every declination. Rates equal the numerical derivatives of the positions.",
  "inputs", "all object/observer states including the poles and RA wrap",
  "Tests check one case.", ["ephemeris/simulation_geometry.py", "ephemeris/simulation_driver.py"],
  [{"name": "calculate_rates_and_geometry", "where": S + "ephemeris/simulation_driver.py"}], ["ephemeris rows"],
  "consistency monitor with numerical differentiation")

p("C20", "The pixel index never hides an object that is in a field",
  "For every pointing, the objects proposed by the sky-pixel pre-selection include every object whose interpolated position is within the field radius plus the stated buffer at that time. The answer does not depend on the history of earlier queries.",
  "inputs histories", "all motions, speeds, pointing sequences, poles and RA wrap",
  "The one test needs data files that are not available and checks a single case.", ["ephemeris/pixel_dict.py"],
  [{"name": "PixelDict.get_designations", "where": S + "ephemeris/pixel_dict.py"}], ["candidate lists"],
  "completeness monitor: brute-force geometric oracle over query histories")

p("C21", "Observatory positions and time scales are right at every epoch",
  "The barycentric observatory position returned for a time is the Earth's position plus the rotated geocentric site vector of that observatory code, and TAI pointing times are converted to TDB correctly (to 0.06 s). Sites with a zero coordinate have their true position and codes without coordinates have none. The configured SPICE kernels load, from any data directory, with the most precise Earth orientation taking precedence.",
  "inputs", "all observatory codes and epochs", "Tests check one site at a few epochs.", ["ephemeris/simulation_parsing.py", "ephemeris/simulation_geometry.py"],
  [{"name": "Observatory", "where": S + "ephemeris/simulation_parsing.py"}], ["returned positions"],
  "differential monitor with synthetic kernels and an independent rotation model")

p("C22", "Generated ephemerides contain exactly the objects in each field",
  "Running with the built-in ephemeris generator yields one row for each (object, visit) pair whose light-time-corrected position lies in the configured field radius plus buffer, with positions and rates as an independent integration predicts, and no row twice. The result does not depend on how the population is split into chunks or on object order.",
  "inputs configurations", "all orbits, visits, field radii and chunkings",
  "The end-to-end ephemeris test cannot run without downloads and checks a single recorded table.", ["ephemeris/simulation_driver.py", "ephemeris/simulation_setup.py", "ephemeris/pixel_dict.py"],
  [{"name": "create_ephemeris", "where": S + "ephemeris/simulation_driver.py"}], ["ephemeris rows"],
  "differential monitor: real generator on synthetic kernels against an independent integrator")

p("C23", "A stored ephemeris can be used in place of generating it",
  "An ephemeris written to disk by one run and read back as external ephemerides by another gives the same rows and values, in every supported format. Files are appended chunk by chunk without losing or repeating rows, and headers appear once.",
  "inputs configurations histories", "all ephemeris tables, chunkings and formats", "Tests write one small table.",
  ["ephemeris/simulation_driver.py", "readers/CSVReader.py", "readers/HDF5Reader.py"],
  [{"name": "write_out_ephemeris_file", "where": S + "ephemeris/simulation_driver.py"}], ["file rows"],
  "round-trip monitor with row tags over chunk histories")

p("C24", "Output files contain exactly the surviving rows in the chosen form",
  "Every output format (CSV, SQLite, HDF5) holds the same rows in the same order with the requested columns and values, rounded as configured and never otherwise altered, including when written in many chunks with differing types or identifier lengths. Requesting an unavailable column is refused.",
  "inputs configurations histories", "all tables, column lists, decimals (zero included), formats and chunk histories",
  "Tests write one or two chunks of one table.", ["modules/PPOutput.py"],
  [{"name": "PPWriteOutput", "where": S + "modules/PPOutput.py"}], ["files read back by independent readers"],
  "round-trip monitor across formats and chunk histories")

p("C25", "The statistics file summarises exactly the detections reported",
  "For every object and filter the statistics file gives the number of observations, the extremes and median of apparent magnitude and phase angle, and the linked flag and date of exactly the detections passed on, one line per pair with detections, once per object over all chunks. A line for a pair without detections says so and claims nothing else.",
  "inputs configurations histories", "all tables and chunk histories", "Tests check one table.", ["modules/PPStats.py"],
  [{"name": "stats", "where": S + "modules/PPStats.py"}], ["statistics rows"],
  "differential monitor: recomputation from recorded detections")

p("C26", "Input files are read back exactly as written",
  "Every supported input format and separator yields each row exactly once with the values and identifiers of the file, for block reads of any size, for reads by object identifier and with comments, blank lines or unusual identifiers; reading is independent of caching. A malformed file is refused, not misread.",
  "inputs histories", "all files, formats, block sizes, identifier sets and read histories", "Tests read small well-formed files.",
  ["readers/CSVReader.py", "readers/HDF5Reader.py", "readers/DatabaseReader.py", "readers/OrbitAuxReader.py", "readers/ObjectDataReader.py", "readers/CombinedDataReader.py"],
  [{"name": "ObjectDataReader", "where": S + "readers/ObjectDataReader.py"}], ["returned tables"],
  "round-trip monitor over files and read histories")

p("C27", "Inconsistent or physically invalid inputs stop the run",
  "A population whose auxiliary files (orbits, physical parameters, complex parameters) hold different object identifiers, or whose orbit file mixes formats, lacks, misnames or adds columns, or contains missing, non-numeric, infinite or impossible elements (Keplerian e >= 1, e < 0, a < 0, q < 0), or whose parameter or ephemeris file lacks a required column, stops the run with an error in whatever chunk the fault lies, and no object of that chunk is reported. Files in the documented form are never refused for these reasons.",
  "inputs configurations", "all single-fault mutations of valid inputs at all positions", "Tests inject a few faults in tiny files.",
  ["readers/OrbitAuxReader.py", "readers/CombinedDataReader.py", "ephemeris/orbit_conversion_utilities.py"],
  [{"name": "input validation", "where": S + "readers/OrbitAuxReader.py"}], ["exit, absence of output rows"],
  "fault-injection monitor: single mutations of valid inputs, oracle = refused / accepted")

p("C28", "Pointing data are read and matched to observations exactly",
  "Every observation is joined to its own visit's metadata by identifier, with no loss, duplication or mix-up; visits outside the observing filters are excluded, and derived times (mid-exposure) follow from the stored ones. Ephemerides that do not belong to the pointing database are refused.",
  "inputs configurations", "all pointing tables, identifiers, filters and observation tables", "Tests use one database.",
  ["modules/PPReadPointingDatabase.py", "modules/PPMatchPointingToObservations.py"],
  [{"name": "PPMatchPointingToObservations", "where": S + "modules/PPMatchPointingToObservations.py"}], ["joined rows"],
  "conservation and differential monitor on generated pointing databases")

p("C29", "Invalid configurations are refused and valid ones taken literally",
  "Every configuration value is either used with exactly the meaning written in the file or, if missing-but-required, malformed, out of range or contradictory, refused with a clean exit before any simulation work. Defaults equal the documented ones. The log states the settings which are applied.",
  "configurations inputs", "all single mutations of valid configurations in every section, both surveys", "Tests check chosen keys one by one.",
  ["utilities/sorchaConfigs.py"], [{"name": "section dataclasses", "where": S + "utilities/sorchaConfigs.py"}], ["exit or resulting settings"],
  "fault-injection monitor over configuration mutations")

p("C30", "Existing results are never overwritten or mixed silently",
  "Without the force option a run refuses to start when its output, statistics, tally or ephemeris file exists, in any of the formats a run may write, and leaves every existing file untouched; with force only this run's own files are replaced. Files of other runs, whose names share a prefix or hold wildcard characters, and input files are never changed or removed. A run whose output, statistics and ephemeris would be written into the same file is refused. The commands which copy configurations and demo files keep existing files likewise unless forced.",
  "inputs configurations histories", "all output names, directories, formats and pre-existing files, with and without force", "Tests check one name.",
  ["utilities/fileAccessUtils.py", "utilities/sorchaArguments.py", "utilities/sorchaCommandLineParser.py", "src/sorcha_cmdline/run.py", "src/sorcha_cmdline/init.py"],
  [{"name": "file checks", "where": S + "utilities/sorchaCommandLineParser.py"}, {"name": "run command", "where": "src/sorcha_cmdline/run.py"}], ["directory contents before and after", "exit status"],
  "directory-state monitor (content snapshots before and after) around real invocations with planted decoy files")

p("C31", "Merging outputs into one database conserves every row",
  "Combining the SQLite outputs of several runs, and their whitespace-separated input tables, into one results database yields every row of every file exactly once, with the values and the types as written and matched to columns by name. Databases which are not Sorcha outputs and the results database itself, also one left by an earlier merge, contribute nothing.",
  "inputs histories", "all sets of output files, column orders and sets, file names, object names and re-runs", "Tests merge two identical small files.",
  ["utilities/createResultsSQLDatabase.py", "src/sorcha_cmdline/outputs.py"], [{"name": "create_results_table, create_inputs_table", "where": S + "utilities/createResultsSQLDatabase.py"}], ["database rows"],
  "conservation monitor: row multisets of generated file sets against those of the database the real command makes")

p("C32", "The log checker reports each run's true outcome",
  "Every log in the folder and its sub-folders is classified successful exactly when its run completed, and unsuccessful logs are reported with their last line, whether printed or written to a file. Each log appears once, whatever its name or content (empty, cut anywhere, not text), other files are not taken for logs, and an existing report is not overwritten. A run writes exactly one log, and its error log is empty if and only if it succeeded.",
  "inputs histories fault_sequences", "all log contents and names, runs which succeed, are refused, fail inside or are killed", "Tests use two logs.", ["utilities/check_output_logs.py", "src/sorcha_cmdline/outputs.py", "sorcha.py"],
  [{"name": "check_output_logs", "where": S + "utilities/check_output_logs.py"}, {"name": "run log", "where": S + "utilities/sorchaGetLogger.py"}], ["report rows", "log and error log of real runs"],
  "fault-injection monitor: logs of real runs (completed, refused, failed, killed) and logs cut at every point, against the known outcomes")

p("C33", "Light-curve and activity plugins are applied to the right rows",
  "A registered light-curve or activity model chosen in the configuration receives each observation exactly once, with the parameters of its own object and the geometry of its own visit, and its result is applied to exactly that observation; nothing else changes. Without a model a file of complex parameters changes nothing, and identity models leave everything unchanged. Unknown models, missing parameters and objects without parameters are refused. When ephemerides are calculated, no object which its model can make bright enough is dropped beforehand as too faint, and objects which can never be are dropped.",
  "inputs configurations", "all models, parameter tables, file orders, surveys and chunk sizes", "Tests use the identity and one sinusoid.",
  ["modules/PPCalculateApparentMagnitude.py", "modules/PPMatchPointingToObservations.py", "modules/PPFaintObjectCullingFilter.py", "lightcurves/lightcurve_registration.py", "lightcurves/base_lightcurve.py", "lightcurves/identity_lightcurve.py", "activity/activity_registration.py", "activity/base_activity.py", "activity/identity_activity.py"],
  [{"name": "plugin registries", "where": S + "lightcurves/lightcurve_registration.py"}, {"name": "application of the models", "where": S + "modules/PPCalculateApparentMagnitude.py"}, {"name": "cut of faint objects", "where": S + "modules/PPFaintObjectCullingFilter.py"}],
  ["calls of the recording models", "magnitudes with and without model"],
  "differential monitor with recording plugin models: their call log and the output rows are compared with the run without a model")


p("C34", "Auxiliary files in the cache are complete, current and from the right place",
  "After 'bootstrap' every auxiliary file missing from the cache is there, byte for byte as the server sends it, with the observatory codes unpacked and a complete meta kernel listing the kernels in order; files already there are neither fetched nor changed, and a complete cache makes no request. With force all files are fetched anew, whatever the cache contained. Other files are untouched and none are left behind. When the server fails, nothing incomplete is left and nothing missing is reported as found; once it recovers, a further bootstrap completes the cache. A run with ephemeris generation fetches its missing files from the addresses in its configuration, loads exactly those, and fetches nothing a second time; runs that start at the same time on one cache each load complete files.",
  "inputs configurations histories schedules fault_sequences", "all states of the cache, forces, failures of the server and their duration, names and addresses, concurrent first runs",
  "Tests have no network: the bootstrap command is excluded from them.",
  ["ephemeris/simulation_data_files.py", "ephemeris/simulation_setup.py", "ephemeris/simulation_parsing.py", "utilities/generate_meta_kernel.py", "utilities/retrieve_ephemeris_data_files.py", "utilities/sorchaConfigs.py", "src/sorcha_cmdline/bootstrap.py"],
  [{"name": "bootstrap command", "where": "src/sorcha_cmdline/bootstrap.py"}, {"name": "build_meta_kernel_file", "where": S + "utilities/generate_meta_kernel.py"}, {"name": "make_retriever", "where": S + "ephemeris/simulation_data_files.py"}],
  ["contents of the cache before and after", "requests received by the server", "frames and positions from the loaded kernels"],
  "fault-injecting file server on the loopback network; its log of requests and the contents of the cache are compared with the expected ones, under failures, recoveries and concurrent runs")


p("C35", "What is reported for an object does not depend on the other inputs",
  "With random parts off, the rows and statistics reported for an object are the same when the population is split over several runs (also after merging them with create-sqlite), when the rows of any input file are in another order, when visits without observations or unused columns are added, when observing filters after the first are listed in another order, when objects and visits are renamed, when the files are in other formats, when all times move by whole days and when the sky is turned about the pole. The same holds for generated ephemerides under splitting, reordering and renaming.",
  "inputs configurations", "all populations, surveys and configurations without random parts, and all such rearrangements",
  "Tests compare single outputs; no test compares two arrangements of one world.",
  ["sorcha.py", "des.py", "readers/CombinedDataReader.py", "readers/OrbitAuxReader.py", "readers/EphemerisReader.py", "readers/CSVReader.py", "readers/HDF5Reader.py", "modules/PPReadPointingDatabase.py", "modules/PPMatchPointingToObservations.py", "modules/PPLinkingFilter.py", "modules/PPApplyColourOffsets.py", "modules/PPFootprintFilter.py", "ephemeris/simulation_driver.py", "utilities/createResultsSQLDatabase.py"],
  [{"name": "chunk loop", "where": S + "sorcha.py"}, {"name": "joining of files by identifiers", "where": S + "readers/CombinedDataReader.py"}],
  ["rows of the output and statistics files of both arrangements"],
  "metamorphic monitor: complete runs on differently arranged but equivalent worlds; their recorded rows are compared")

p("C36", "Failures of the file system are never reported as success",
  "If any open, write, sync, truncate, close or unlink of an output, statistics, ephemeris or merged file fails, or any read of an input fails, then either the command ends with an error - non-zero status, a message, no 'completed' in its log - or its outputs are complete; rows are never silently lost. Calls that are interrupted or done in pieces change nothing. After a failure or a kill at any call, text outputs are a beginning of the complete ones and a database is intact with the first rows of the complete one.",
  "fault_sequences crash_points histories", "all positions of the failing call, kinds of failure (full disk, input/output error, no permission, interruption, partial call, kill), lasting or once, output formats and surveys",
  "Tests never make a system call fail.",
  ["modules/PPOutput.py", "modules/PPStats.py", "ephemeris/simulation_driver.py", "readers/CSVReader.py", "readers/HDF5Reader.py", "readers/DatabaseReader.py", "modules/PPReadPointingDatabase.py", "sorcha.py", "des.py", "utilities/createResultsSQLDatabase.py", "src/sorcha_cmdline/run.py", "src/sorcha_cmdline/outputs.py"],
  [{"name": "PPWriteOutput", "where": S + "modules/PPOutput.py"}, {"name": "statistics", "where": S + "modules/PPStats.py"}, {"name": "readers", "where": S + "readers"}],
  ["exit status and messages", "contents of the files left behind", "last line of the log"],
  "fault injection by a preloaded library that counts and disturbs the system calls on the files of a run; exit status, log and files are compared with the undisturbed run")

p("C37", "The logs of a run tell what it did",
  "Every run has one log and one error log. The detailed log has every stage applied, with the true numbers of rows before and after it in each chunk: what enters a stage is what left the one before, and no stage acts on more or less. The log says 'completed' exactly when the run exits with success; the error log is empty exactly then or holds the message with which a refused run ended. The log holds the seed of the run, and repeating the run with it gives the same output. The command 'sorcha VERB' runs the command of that name once, with the arguments given, and exits with its status.",
  "inputs configurations histories", "all surveys, configurations, chunk sizes and seeds; runs that succeed or are refused because of any spoilt input",
  "Tests do not read logs of whole runs.",
  ["sorcha.py", "des.py", "utilities/sorchaGetLogger.py", "utilities/sorchaModuleRNG.py", "utilities/sorchaCommandLineParser.py", "utilities/sorchaConfigs.py", "src/sorcha_cmdline/run.py", "src/sorcha_cmdline/main.py", "activity/base_activity.py", "lightcurves/base_lightcurve.py"],
  [{"name": "messages around each stage", "where": S + "sorcha.py runLSSTSimulation"}, {"name": "sorchaGetLogger", "where": S + "utilities/sorchaGetLogger.py"}],
  ["lines of the logs", "numbers of rows reported by runs with fewer stages", "exit status"],
  "trace checker over recorded logs: counts are compared with runs in which the later stages are off, outcomes with exit status and error log, seeds by repeating the run")


def main():
    import subprocess
    done = {f[:-3].upper() for f in os.listdir(os.path.join(V, "checks")) if f.startswith("c") and f.endswith(".py")}
    for d in P:
        seen = []
        for f in d["files"]:
            if f not in seen:
                seen.append(f)
                if not os.path.exists(os.path.join("/repo", f)):
                    print("missing anchor", d["id"], f)
        d["files"] = seen
        if len(d["title"]) > 80:
            print("title too long", d["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d in P:
            if d["id"] in done:
                f.write(json.dumps({"id": d["id"], "title": d["title"], "statement": d["statement"],
                                    "quantifier": {"over": d["over"], "text": d["q"]}, "why_tests_cant": d["why"],
                                    "anchors": {"files": d["files"], "mechanism": d["mech"], "observe_at": d["observe"],
                                                "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
           "notes": "See DESIGN.md. No hooks were needed in /repo: the monitors observe public functions, files and processes."}
    for d in P:
        if d["id"] in done:
            man["checks"].append({"property": d["id"], "quick_cmd": f"./run.sh {d['id']}",
                                  "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {d['id']}",
                                  "technique": "runtime monitoring: " + d["tech"], "level": "exploration",
                                  "level_note": d["note"] or "Held on every execution observed; no claim beyond the explored workloads. Trusts the independent oracle in checks/, numpy, pandas and the Python runtime."})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(man["checks"]), "checks; missing:", [d["id"] for d in P if d["id"] not in done])


main()
