"""The properties: text, anchors."""
P = {}
NA = {}


def prop(pid, title, statement, forall, tests, files, mech, over=('inputs',)):
    P[pid] = dict(title=title, statement=statement, forall=forall, tests=tests, files=files, mech=mech, over=list(over))


prop('P01', 'The richness solver returns a self-consistent richness',
     'For any galaxies (signal, background, radius, weight) and mask correction, the solver either reports no detection (richness -1, all '
     'membership probabilities zero) or a richness whose expected galaxy count, computed from the returned radius and including the mask '
     'correction, equals it within the solver tolerance. Every returned membership probability and weight lies in [0,1] (weight at most '
     'probability times input weight), is zero outside the cluster radius (softened by the radial scale), and inputs whose lengths disagree are refused.',
     'all galaxy arrays, mask polynomials, radius scalings and radial softenings',
     'tests check one fixed galaxy list with one richness; the fixed point must hold for every list, including empty, masked, very small and very large richness',
     ['redmapper/solver_nfw/solver_nfw.c', 'redmapper/solver_nfw/nfw_weights.c', 'redmapper/solver_nfw/solver_nfw_pywrap.c'],
     [('bisection on richness', 'solver_nfw.c:solver_nfw'), ('membership weights', 'nfw_weights.c'), ('argument checks', 'solver_nfw_pywrap.c')])

prop('P02', 'Red-sequence chi-squared is the quadratic form of the stated covariance',
     'For every galaxy, redshift row, covariance, slope and photometric error, the computed chi-squared equals the quadratic form of the colour '
     'residuals with the inverse of intrinsic plus photometric colour covariance (with or without the photometric and reference-magnitude slope terms), and the '
     'likelihood is -0.5*chi-squared - 0.5*ln|covariance|. The value for one galaxy does not depend on the other galaxies, on the evaluation mode '
     '(one galaxy many redshifts, many galaxies one redshift, paired) or on the memory layout of the inputs; mismatched input shapes are refused without reading outside the arrays.',
     'all magnitudes errors, colours, slopes, covariances and shapes within the bounds',
     'tests compare a handful of galaxies in one band setup with stored numbers; the algebra must hold for every covariance and for every mode',
     ['redmapper/chisq_dist/chisq_dist.c', 'redmapper/chisq_dist/chisq_dist_pywrap.c', 'redmapper/chisq_dist/chisq_dist_lib.py'],
     [('chi-squared kernel', 'chisq_dist.c'), ('shape and layout handling', 'chisq_dist_lib.py, chisq_dist_pywrap.c')])

prop('P03', 'Cluster richness bookkeeping is consistent',
     'Measuring a cluster richness hands the solver exactly the filter products of the selected neighbours (radial, luminosity and colour filters, '
     'background at the cluster redshift, faint-end weight times free probability, mask correction). With a detection the cluster stores the solved richness '
     'and radius, a scale value with scale times summed membership equal to the richness, the member quantities of the selected neighbours and zeros for all others, '
     'and the stated statistical-plus-mask error; without one, richness, error and scale are -1 and no neighbour keeps any earlier membership.',
     'all neighbour lists, subsets, previous values, solver answers and mask samples',
     'the repository tests of this code need a data file that is absent; even with it they use one cluster',
     ['redmapper/cluster.py'],
     [('richness', 'Cluster.calc_richness'), ('masking error', 'Cluster.calc_lambdacerr')])

prop('P04', 'Cluster geometry stays in step with its redshift',
     'After any sequence of redshift assignments the angular scale, characteristic magnitude and physical neighbour radii of a cluster are those of its '
     'current redshift (floored at 0.01, radii floored at 1e-6 Mpc), and negative redshifts are refused. A neighbour search queries the requested radius in '
     'degrees or Mpc and keeps exactly the matches not fainter than the limit with their catalogue index and distance. A copied cluster has equal values and '
     'shares no mutable data with the original or the galaxy catalogue.',
     'all redshifts, radii, magnitude limits, match lists and sequences of assignments',
     'tests use one cluster and one redshift; stale radii only show after particular histories',
     ['redmapper/cluster.py', 'redmapper/catalog.py'],
     [('redshift setter', 'Cluster.redshift'), ('neighbour search', 'Cluster.find_neighbors'), ('copy', 'Cluster.copy')], over=('inputs', 'histories'))

prop('P05', 'Membership filters and the mask correction follow their definitions',
     'The faint-end weight lies in [0,1], is zero beyond the limiting magnitude, one more than five errors inside the effective limit and the error-function '
     'smoothing in between; the radial, luminosity and chi-squared filters equal their closed forms with the flat core and the outer cut. The mask correction is '
     'the cubic through one minus detected over expected mask galaxies per radius bin, a mask point is inside exactly when its coverage beats its random number, '
     'and mask points are placed around the cluster at its angular scale.',
     'all magnitudes, errors, limits, radii, redshift scales and mask samples',
     'tests evaluate a few points and one mask sample',
     ['redmapper/utilities.py', 'redmapper/mask.py'],
     [('faint-end weight', 'utilities.calc_theta_i'), ('filters', 'utilities.nfw_pdf, schechter_pdf, chisq_pdf'), ('mask correction', 'mask.Mask.calc_maskcorr, mask.HPMask.compute_radmask')])

prop('P06', 'Percolation lets each galaxy count at most once across clusters',
     'Clusters are processed in decreasing likelihood (or richness in a double run, or catalogue order when identifiers are kept), each seeing for every galaxy the '
     'free probability one minus what earlier accepted clusters took, never below zero or above one. An accepted cluster takes the membership probability of exactly its '
     'members bright enough and inside its mask radius; a rejected cluster takes nothing, keeps no members and has its richness and redshift reset to -1. Seeds are '
     'exactly those finite, in the padded redshift range and above the seed cuts, with unique identifiers.',
     'all cluster sequences, accept/reject patterns, overlapping memberships and seed catalogues within the bounds',
     'tests of the runners need absent data; double counting only shows for overlapping clusters in particular orders',
     ['redmapper/cluster_runner.py', 'redmapper/run_percolation.py', 'redmapper/run_colormem.py'],
     [('processing loop', 'ClusterRunner.run'), ('seed selection', 'RunPercolation._more_setup'), ('double run order', 'RunColormem._doublerun_sort')], over=('inputs', 'histories'))

prop('P07', 'Reported catalogues and member lists match what was measured',
     'The output catalogue keeps exactly the clusters above the minimum scaled richness (and maximum mask fraction), and the member list has one row per member '
     'of a kept cluster with its own probabilities, radius, identifiers and photometry, and none of other clusters. Clusters entirely masked or without depth are '
     'skipped and reset; mask fractions, richness derivatives and corrected redshifts (value, error and p(z)) are those of the final cluster. '
     'Photometry of matched centres lands on the matched cluster only, and identifiers are unique or refused.',
     'all cluster and member values, match lists, masks and correction tables within the bounds',
     'tests of the runners need absent data and check a few stored rows',
     ['redmapper/cluster_runner.py'],
     [('members and post-processing', 'ClusterRunner.run, ClusterRunner._postprocess'), ('identifiers', 'ClusterRunner._generate_mem_match_ids')], over=('inputs', 'histories'))

prop('P08', 'A percolated cluster is re-centred, re-measured or cleanly rejected',
     'Processing a seed rejects it exactly when the seed galaxy is already claimed, the richness at the seed or at the chosen centre is too small, no redshift or no centre is found, '
     'or no member is left; a rejected seed is reset. An accepted one reports the position, photometry and zred of the chosen centre, richness and redshift measured at '
     'that centre, the candidates with their identifiers and probabilities, richness at each alternative centre with the probability-weighted mean and scatter, and the '
     'membership-weighted connectivity.',
     'all sequences of richness, redshift and centring outcomes and all free probabilities',
     'tests of percolation need absent data; the failure paths depend on the order of outcomes over the iterations',
     ['redmapper/run_percolation.py', 'redmapper/cluster.py'],
     [('per-seed procedure', 'RunPercolation._process_cluster')], over=('inputs', 'histories'))

prop('P09', 'The chosen centre is the most likely eligible galaxy',
     'Central-galaxy selection considers only galaxies that are bright, likely-member and inside the cluster radius as each method states, orders candidates by decreasing '
     'centre likelihood without repetition, and reports the first as the centre with its own position. Centre probabilities lie in [0,1] and sum to one over the candidates, '
     'satellite and foreground shares fill the rest, and empty slots are zero. The brightest-galaxy, spectroscopic, random-satellite and random-position methods pick an eligible centre or report failure, '
     'and no method alters the galaxies.',
     'all galaxy positions, magnitudes, redshifts, memberships and centring parameters within the bounds',
     'tests check one cluster per method against stored numbers',
     ['redmapper/centering.py'],
     [('wcen', 'CenteringWcenZred.find_center'), ('other methods', 'CenteringBCG, CenteringSpecBCG, CenteringRandomSatellite, CenteringRandom')])

prop('P10', 'Background lookups return the density of the bin a galaxy falls in',
     'A background lookup returns the tabulated (finely interpolated, never negative) galaxy density of the bin containing the galaxy redshift, chi-squared or colour and '
     'magnitude, and infinite background where the galaxy lies outside the table or where the table has no data. The lookup of one galaxy does not depend on the other '
     'galaxies, and two-colour backgrounds do not depend on the order the colours are named in.',
     'all tables, magnitudes, chi-squared values, colours and redshifts within the bounds, bin edges included',
     'tests look up a few galaxies well inside the tables',
     ['redmapper/background.py'],
     [('chi-squared background', 'Background.sigma_g_lookup'), ('zred background', 'ZredBackground.sigma_g_lookup'), ('colour background', 'ColorBackground.lookup_diagonal, lookup_offdiag')])

prop('P16', 'Interpolation reproduces its nodes and stays on its segments',
     'Linear interpolation returns the node values at the nodes and lies on the segment of the enclosing (or nearest) interval elsewhere. The cubic spline '
     'passes through all its nodes and, when clamped, is constant outside its range.',
     'all node values, evaluation points and orderings within the bounds',
     'tests evaluate a few points of smooth tables',
     ['redmapper/utilities.py'],
     [('linear interpolation', 'utilities.interpol'), ('cubic spline', 'utilities.CubicSpline')])

prop('P12', 'The cluster redshift is the self-consistent maximum of the member likelihood',
     'The cluster redshift is iterated until richness and redshift agree, using only galaxies inside the radius and magnitude limit weighted by membership, and is reported as invalid (-1) when '
     'richness is too low, too few galaxies remain or the iteration leaves the allowed range. Its p(z) is evenly binned, non-negative, integrates to one, reaches down to negligible probability on both sides '
     'where the model allows, and has the redshift at its peak; the error is positive. The richness-dependent correction shifts the redshift by the interpolated offset, never lowers the error, and '
     'carries p(z) along with its shape and unit integral.',
     'all likelihoods, memberships, radii, magnitudes and correction tables within the bounds',
     'tests need absent data and compare a few stored clusters',
     ['redmapper/zlambda.py'],
     [('iteration', 'Zlambda.calc_zlambda'), ('p(z)', 'Zlambda._zlambda_calc_pz_and_check'), ('correction', 'ZlambdaCorrectionPar.apply_correction')], over=('inputs', 'histories'))

prop('P13', 'The red-sequence model honours its calibration and looks up the nearest bin',
     'The red-sequence model built from a calibration passes through every node, has a symmetric invertible intrinsic covariance with a positive floor on its diagonal, and marks redshifts beyond the nodes as extrapolated. '
     'A lookup by redshift or magnitude uses the nearest bin of the table, with scalars and arrays treated alike, and the luminosity normalisation is the running integral of the luminosity function. '
     'Each chi-squared or likelihood evaluation is given the model row of the requested redshift and the photometry of the requested galaxy.',
     'all calibrations, redshifts and magnitudes within the bounds',
     'tests compare one stored calibration at a few indices',
     ['redmapper/redsequence.py'],
     [('construction', 'RedSequenceColorPar.__init__'), ('lookup', 'RedSequenceColorPar.zindex, refmagindex, lumrefmagindex'), ('evaluation', 'RedSequenceColorPar.calculate_chisq')])

prop('P14', 'A galaxy zred is bounded, corrected once and marked when invalid',
     'A galaxy outside the magnitude range of the model gets -1 in all redshift fields, and corrections leave it so. Any other galaxy gets the peak of its redshift likelihood with an error of at least 0.005, '
     'and the corrected redshifts and errors follow the tabulated corrections at the corrected (zred) or uncorrected (zred2) redshift including the magnitude slopes, identically one galaxy at a time or '
     'in bulk. Sampled redshifts follow the cumulative distribution of the p(z).',
     'all magnitudes and straight correction curves, distributions and random draws within the bounds',
     'tests compare stored galaxies and cannot reach rejected galaxies or sloped second corrections',
     ['redmapper/zred_color.py', 'redmapper/utilities.py'],
     [('zred', 'ZredColor.compute_zred, ZredColor.compute_zreds'), ('sampling', 'utilities.sample_from_pdf')])

prop('P17', 'Volume limits, depths and areas describe the survey that was observed',
     'The volume-limit redshift of a position is the first fine redshift at which a galaxy at the luminosity limit becomes fainter than the depth in the reference band or any required band; '
     'pixels missing from a required map, positions outside the map and positions beyond the poles have no volume. The area at a redshift is the covered area of the pixels reaching beyond it. '
     'Depth lookups return the values of the pixel of each position, mask points without depth take the typical depth of the others, and the area deeper than a magnitude starts at '
     'the whole area and shrinks with magnitude.',
     'all depths, coverage fractions, colours, characteristic magnitudes and positions within the bounds',
     'tests compare a stored mask at a few positions',
     ['redmapper/volumelimit.py', 'redmapper/depthmap.py'],
     [('volume limit', 'VolumeLimitMask._build_mask, calc_zmax, get_areas'), ('depth', 'DepthMap.calc_maskdepth, calc_areas, get_depth_values')])

prop('P18', 'Random points follow the mask and their weights restore the lost ones',
     'Random-point generation returns exactly the number of points asked for, each accepted by the coverage of its own position, with a redshift (and richness and identifier) taken from one '
     'object of the sample and below the volume limit at its own position, and no generated position is used twice. Random weighting keeps exactly the randoms in the redshift range whose parent cluster is in the '
     'richness selection and which are detected themselves, and weights them by the number of randoms of the same parent over the number detected. The masked fraction and scale factor of a random are those of its own position, redshift and radius.',
     'all coverage fractions, volume limits, random draws, richnesses and mask fractions within the bounds',
     'tests draw one seeded sample and check counts and a few areas',
     ['redmapper/randoms.py', 'redmapper/redmagic/redmagic_randoms.py', 'redmapper/volumelimit.py'],
     [('generation', 'GenerateRandoms.generate_randoms, RedmagicGenerateRandoms.generate_randoms'), ('weighting', 'RandomWeigher.weight_randoms')], over=('inputs', 'histories'))

prop('P19', 'redMaGiC selection applies every cut and keeps each galaxy intact',
     'A galaxy is selected as redMaGiC exactly when its redshift, chi-squared, luminosity at the initial and at the corrected redshift and the volume limit of its position all pass. '
     'Selected galaxies keep their own identity, position, photometry and spectroscopic redshift, carry the afterburner-corrected redshift, error and samples where enabled, and their luminosity '
     'at the corrected redshift; the input galaxies are not altered. Every sample of the calibration is used under its own name, with its own calibration and volume limit.',
     'all redshifts, chi-squared values, magnitudes, volume limits and calibration values within the bounds',
     'tests compare counts for one stored calibration',
     ['redmapper/redmagic/redmagic_selector.py'],
     [('selection', 'RedmagicSelector.select_redmagic_galaxies')])

prop('P20', 'Consolidation keeps every cluster once, with its members',
     'Consolidating per-pixel catalogues keeps exactly the clusters that lie in their own pixel and pass the mask, richness and volume-limit cuts, with unchanged values. '
     'Identifiers are unique, ranked by likelihood over the whole sample, and every member entry refers to the cluster it belonged to, with no member lost, duplicated or orphaned; a selection nobody passes writes nothing. '
     'Centres and members carry the redshift of the nearest good spectrum (or true galaxy) within the matching radius, or -1, and a completed consolidation is not redone.',
     'all pixel assignments, richnesses, mask fractions, redshifts, scale values and likelihoods within the bounds',
     'tests of the runs need absent data; consolidation is exercised on at most one pixel',
     ['redmapper/redmapper_run.py', 'redmapper/pipeline/redmapperconsolidatetask.py'],
     [('run', 'RedmapperRun._consolidate'), ('tasks', 'RedmapperConsolidateTask.run, RuncatConsolidateTask.run')], over=('inputs', 'histories'))
prop('P21', 'Catalogues keep every row and column as stored',
     'Merging arrays, adding fields, appending and extending keep every existing value in its row and column, new fields start at zero, and clashing names or unequal lengths are refused without loss. '
     'Selecting by mask, index list or slice returns exactly those rows in that order; setting a column or an entry changes that column or row alone, with names independent of case. '
     'Writing puts exactly the requested rows in the file.',
     'all column values, selections and row choices within the bounds',
     'tests use one fixed catalogue and a few of the operations',
     ['redmapper/catalog.py'], [('container', 'catalog.DataObject, catalog.Catalog, catalog.Entry')], over=('inputs', 'histories'))

prop('P22', 'Zred runs give each galaxy its own redshift and complete tables',
     'Running zred over a galaxy file or a pixelized table writes, for every division into chunks and number of processes, exactly one row per galaxy, in the same order, holding the values computed for that galaxy. '
     'The master table lists every pixel file with its number of rows, and missing or mismatched pixel files are refused. '
     'Concurrent distributed tasks never create the master table before every pixel file is complete, and the last to finish creates it.',
     'all divisions of the galaxies, process counts, pixel contents and interleavings of two tasks within the bounds',
     'tests run one fixed file in one process and never run two tasks concurrently',
     ['redmapper/zred_runner.py', 'redmapper/pipeline/zredtask.py'],
     [('catalogue', 'ZredRunCatalog.run'), ('table', 'ZredRunPixels.run, ZredRunPixels.make_zred_table'), ('tasks', 'RunZredPixelTask.run')], over=('inputs', 'schedules'))

prop('P23', 'Every pass of the finder measures each seed and keeps only valid ones',
     'First-pass seeds are exactly the galaxies (or listed seeds) inside the redshift, brightness, chi-squared and mask limits, each with its own values; likelihood, scan and colour runs select theirs the same way. '
     'Each pass measures richness and redshift at the redshift reached so far for at most the allowed number of iterations, records the last measurement, and rejects poor, masked or out-of-range clusters with all measured values reset. '
     'The likelihood of a cluster is the sum of its member and central terms; a redshift scan records every step and refines at the most likely one, storing only real centre identifiers; colour runs use the colour of the redshift range and keep members of kept clusters only.',
     'all seed values, measured richnesses, redshifts, memberships and mask fractions within the bounds',
     'tests run one fixed catalogue through each pass (most need absent data) and compare stored numbers',
     ['redmapper/run_firstpass.py', 'redmapper/run_likelihoods.py', 'redmapper/runcat.py', 'redmapper/run_zscan.py', 'redmapper/run_colormem.py', 'redmapper/cluster_runner.py'],
     [('first pass', 'RunFirstPass._more_setup, RunFirstPass._process_cluster'), ('likelihoods', 'RunLikelihoods._more_setup, RunLikelihoods._process_cluster, RunLikelihoods._postprocess'), ('catalogue', 'RunCatalog._process_cluster'),
      ('scan', 'RunZScan._more_setup, RunZScan._process_cluster'), ('colour', 'RunColormem._process_cluster, RunColormem._postprocess')])

prop('P24', 'Runs cover each pixel once and survive an interruption',
     'A run splits its region into pixels that together contain every galaxy pixel exactly once, with none empty or outside, as finely as the number of processes allows; each is processed once with the requested options and exactly the pixels that produced results are consolidated. '
     'If processing of a pixel is interrupted before any of its files is written, starting it again leaves the same files as an undisturbed run, repeats no completed pass, and never pairs a catalogue with members of another run. '
     'A pixel in which some pass finds nothing ends there without an error and reports only the files it made.',
     'all interruption points, outcomes of the passes, process counts and occupied pixels within the bounds',
     'tests run one pixel once to the end',
     ['redmapper/redmapper_run.py', 'redmapper/pipeline/redmappertask.py', 'redmapper/cluster_runner.py'],
     [('split', 'RedmapperRun._get_pixel_splits, RedmapperRun._get_subpixels'), ('chain', 'RedmapperRun._worker, RedmapperRun._percolation_only_worker'), ('driver', 'RedmapperRun.run'),
      ('tasks', 'RunRedmapperPixelTask.run, RuncatPixelTask.run, RunZmaskPixelTask.run, RunZScanPixelTask.run'), ('output', 'ClusterRunner.output')], over=('inputs', 'crash_points', 'schedules'))

prop('P25', 'Calibration fits minimise the stated likelihood of their data',
     'Each calibration fit (colour against redshift and magnitude, colour correlations, redshift corrections, error scaling, two-component colour mixture, cluster redshift and centring models) minimises exactly its documented statistic of the data it was given: the negative log-likelihood of each galaxy or cluster under the current relations, with its own errors, probability and background, plus the stated priors and penalties. '
     'The relations being fitted take the trial values, those held fixed keep theirs. '
     'The search starts at the given values, stays within the stated limits, sees the same value each time at the same point, and returns each block of parameters under its own name (mixture components ordered by mean).',
     'all trial parameters and data within the bounds, and all combinations of fitted relations listed',
     'tests fit one simulated sample and compare the result to a few decimals',
     ['redmapper/fitters.py', 'redmapper/calibration/zlambdacal.py', 'redmapper/calibration/centeringcal.py'],
     [('colour', 'RedSequenceFitter, MedZFitter, RedSequenceOffDiagonalFitter'), ('corrections', 'CorrectionFitter, ZLambdaFitter'), ('errors', 'ErrorBinFitter'), ('mixture', 'EcgmmFitter'),
      ('centring', 'WcenFgFitter, WcenCFitter, WcenCwFitter')], over=('inputs', 'configurations'))

prop('P26', 'Each calibration step trains on its eligible objects, with their own data',
     'Spectroscopic seeds and red training galaxies are exactly the galaxies matched to a spectrum within the redshift, error and magnitude limits (and, for red galaxies, within the colour limits of the colour of their redshift range), each carrying its own photometry and the redshift of its own spectrum. '
     'Training members are exactly the likely members of clusters passing the richness, scale and redshift-consistency cuts, with the redshift of their own cluster. '
     'The cluster-redshift and centring calibrations use exactly the clusters passing their cuts and outlier rejection, give each fit the right values of those clusters, apply each fitted correction to the original redshifts, refuse redshift ranges without clusters, and record every result under its own name, which the configuration then takes over unchanged.',
     'all values entering the cuts, matchings and memberships within the bounds',
     'tests run one small sample per step and compare a few numbers',
     ['redmapper/calibration/selectspecseeds.py', 'redmapper/calibration/selectspecred.py', 'redmapper/calibration/prepmembers.py', 'redmapper/calibration/zlambdacal.py', 'redmapper/calibration/centeringcal.py', 'redmapper/configuration.py'],
     [('seeds', 'SelectSpecSeeds.run'), ('red galaxies', 'SelectSpecRedGalaxies.run'), ('members', 'PrepMembers.run, read_members'), ('cluster redshifts', 'ZLambdaCalibrator.run'), ('centring', 'WcenCalibrator.run, Configuration.set_wcen_vals')], over=('inputs', 'configurations'))

prop('P27', 'A calibration uses the products of its own steps and survives interruption',
     'Each calibration iteration trains on the members found by the previous one, and every later step of an iteration (redshifts, backgrounds, cluster finding, centring, redshift correction, new members) uses the products of the same iteration, the same region and the intended seeds and centring; corrections that make a cluster redshift negative are refused. '
     'The configuration written for the cluster finder names the products of the last iteration and covers the whole survey. '
     'Whatever the moment of an interruption, no incomplete product is left under the name that marks its step as complete, a second start ends with the same files as an undisturbed calibration, and completed steps are not repeated.',
     'all places of an interruption, all outcomes of the cuts, within the bounds',
     'no test runs the calibration driver; the restart logic needs an interruption at a particular write',
     ['redmapper/calibration/calibrate.py', 'redmapper/calibration/redsequencecal.py', 'redmapper/redmapper_run.py', 'redmapper/color_background.py', 'redmapper/calibration/selectspecred.py'],
     [('data flow and restart', 'RedmapperCalibrator.run, RedmapperCalibrationIteration.run, RedmapperCalibrationIterationFinal.run'), ('finder configuration', 'RedmapperCalibrator.output_configuration'), ('red sequence', 'RedSequenceCalibrator.run'), ('catalogue', 'RedmapperRun._consolidate, RedmapperRun.run'), ('colour background', 'ColorBackgroundGenerator.run')],
     over=('inputs', 'crash_points', 'configurations'))

prop('P28', 'A configuration holds what its file and galaxy table say, or is refused',
     'A configuration holds the values of its file and of the header of its galaxy table (survey, area, depth, bands, zeropoints, truth information), with the documented derived values: cushioned redshift range, border, radii, file names, the settings of the current pixel. '
     'Unknown, missing or inconsistent settings (colours that do not fit the bands, run modes or redMaGiC and volume-limit lists of different lengths, reversed ranges, masks without a file, missing area or truth information) are refused when it is built. '
     'Values set later are checked in the same way, a copy or a written configuration file holds the same values, and a file check succeeds exactly if the files and their parts are there.',
     'all areas, limits, redshift ranges, orders of the bands and combinations of settings within the bounds',
     'tests build two configurations from fixed files',
     ['redmapper/configuration.py'],
     [('building', 'Configuration.__init__, Configuration._galfile_stats, Configuration._set_vars_from_dict, Configuration._set_lengths'), ('checks', 'Configuration.validate, ConfigField.validate, Configuration.check_files'), ('derived values', 'Configuration.zrange_cushioned, Configuration.compute_border, Configuration.redmapper_filename'), ('copies', 'Configuration.copy, Configuration.output_yaml')],
     over=('inputs', 'configurations'))

prop('P29', 'The red-sequence model is fit to the right galaxies, one colour at a time',
     'The pivot magnitudes, median colours, widths, means, slopes, scatters and error ratios of each colour are fit to the galaxies near the red sequence of that colour, with the weights, errors, background, magnitude offsets and luptitude corrections of the same galaxies; '
     'colours are fit outwards from the reference band, each fit starts from the one before, and the error ratio of a band shared with a finished colour is carried over. '
     'The covariance is symmetric with the fitted variances on the diagonal and the configured correlation off it, the volume factor is the ratio of comoving shells, and the redshift corrections are fit to the most likely galaxies without gross outliers. '
     'The saved table carries the header the model reader needs.',
     'all colours, magnitudes, redshifts, likelihoods and positions of the reference band within the bounds',
     'the test of the calibration compares a few numbers of one data set',
     ['redmapper/calibration/redsequencecal.py'],
     [('start values and medians', 'RedSequenceCalibrator._compute_startvals, RedSequenceCalibrator._calc_pivotmags, RedSequenceCalibrator._calc_medcols'), ('fits', 'RedSequenceCalibrator._calc_diagonal_pars, RedSequenceCalibrator._compute_single_lupcorr'), ('covariance', 'RedSequenceCalibrator._calc_offdiagonal_pars, RedSequenceCalibrator._calc_volume_factor'), ('corrections', 'RedSequenceCalibrator._calc_corrections'), ('saving', 'RedSequenceCalibrator.save_pars')],
     over=('inputs', 'configurations'))

prop('P30', 'The redMaGiC calibration and run cover their sample, each galaxy once',
     'The calibration of each redMaGiC sample uses exactly the galaxies within the redshift, chi-squared and luminosity cuts, each with its own data, redshift limit and the redshift and error of the cluster it is a probable member of; the cost compares the number of selected galaxies per comoving volume of the observed area with the target density, and the afterburner uses only selected training galaxies. '
     'What is recorded for a sample (under its name) are its own settings and its last fits, and the run over the survey uses the configuration that was written for it. '
     'That run writes each selected galaxy of each pixel once into the catalogue of its sample, makes the randoms of that catalogue, and never overwrites an existing catalogue unless asked to.',
     'all redshifts, magnitudes, chi-squared values, memberships, cut parameters and selections within the bounds',
     'the test runs the calibration on one small catalogue and compares a few numbers',
     ['redmapper/redmagic/redmagic_calibrate.py', 'redmapper/redmagic/redmagictask.py', 'redmapper/utilities.py'],
     [('cost and fits', 'RedmagicParameterFitter.__call__, RedmagicParameterFitter.fit, RedmagicParameterFitter.fit_bias_eratio'), ('calibration', 'RedmagicCalibrator.run'), ('run', 'RunRedmagicTask.run')],
     over=('inputs', 'configurations'))

prop('P31', 'A run works on the galaxies, models, masks and depths its settings name',
     'The set-up of a run reads the background, model, correction, mask and depth named by its configuration, keeps exactly the galaxies of its region within the magnitude and chi-squared limits (with or without temporary files), uses the radii of its pass and a search radius that holds the largest cluster, mask and background annulus, and refuses to guess missing redshifts, depths or mask galaxies. '
     'The Monte-Carlo mask galaxies carry consistent positions, weights and numbers within each radius for each sample of galaxies. '
     'Without a depth map the depth around a cluster is fit to the galaxies with usable errors, falling back to that of the whole region, and photometric errors follow the stated noise model with independent noise for every galaxy.',
     'all magnitudes, chi-squared values, radii and combinations of settings within the bounds',
     'the tests that use the mask galaxies are not run in this checkout, and no test covers the settings of a run one by one',
     ['redmapper/cluster_runner.py', 'redmapper/mask.py', 'redmapper/depth_fitting.py', 'redmapper/utilities.py'],
     [('set-up', 'ClusterRunner._setup'), ('mask galaxies', 'Mask.gen_maskgals, Mask.read_maskgals'), ('mask', 'get_mask, HPMask.__init__'), ('depth', 'DepthLim.__init__, DepthLim.calc_maskdepth, calcErrorModel'), ('errors', 'applyErrorModel, apply_errormodels')],
     over=('inputs', 'configurations'))

prop('P32', 'Training richness and local background use the right galaxies and densities',
     'The single-colour richness of the first training pass fits a straight colour-magnitude line to the galaxies within the radius, magnitude and colour range and close to the central colour, rejects the cluster when there are too few or the central galaxy is not among them, and solves for the richness with every neighbour weighted by its own distance from that line, its radius and luminosity, against the colour background of the same colour. '
     'Membership and colour probabilities, radius and scale recorded are those of that solution, or zero when there is none. '
     'The local background of a cluster is the density of the galaxies in the annulus that are brighter than the luminosity limit and the depth, per unmasked area of the annulus, relative to the density which the background predicts for the same limits.',
     'all radii, chi-squared values, masks, depths, solutions and grids of colours and magnitudes within the bounds',
     'no test computes a local background, and the test of the single-colour richness compares one cluster',
     ['redmapper/cluster.py'],
     [('single colour', 'Cluster.calc_richness_fit'), ('background filters', 'Cluster.calc_cbkg_density, Cluster.calc_zred_bkg_density'), ('local background', 'Cluster.compute_bkg_local')],
     over=('inputs', 'configurations'))

prop('P33', 'Maps read for a region cover the region and its border',
     'When a depth map, footprint mask or volume-limit map is read for a region of the sky, every position of the region and within its border has the value that the whole map gives it, whatever the resolutions of region and map, and with no region the whole map is read. '
     'A volume-limit map made without a depth map allows the full redshift range inside the footprint and nothing outside it. '
     'Files that are missing or of another format are refused, and converting an old map keeps every value in its own pixel.',
     'all positions, pixels and map values within the bounds, for several region and map resolutions and border sizes',
     'the maps of the tests cover one small region, without a border at the resolutions where it matters',
     ['redmapper/utilities.py', 'redmapper/depthmap.py', 'redmapper/mask.py', 'redmapper/volumelimit.py'],
     [('pixels of a region', 'get_healsparse_subpix_indices'), ('reading', 'DepthMap.__init__, HPMask.__init__, VolumeLimitMask._read_mask'), ('conversion', 'convert_depthfile_to_healsparse, convert_maskfile_to_healsparse')],
     over=('inputs', 'configurations'))

prop('P34', 'M* and template colour tables return their tabulated values',
     'The characteristic magnitude of a survey and band is the spline through the table of that survey and band, and unknown surveys or bands are refused. '
     'The template colour of two neighbouring bands is the linear interpolation in redshift of the column of exactly that pair, whatever the names and case of the bands, and any other pair is refused.',
     'all table values, redshifts and band lists within the bounds',
     'tests look up a few redshifts in two tables',
     ['redmapper/utilities.py'],
     [('M*', 'MStar.__init__, MStar.__call__'), ('colours', 'RedGalInitialColors.__init__, RedGalInitialColors.__call__')],
     over=('inputs', 'configurations'))

prop('P35', 'The predicted memory of a tiling is that of its fullest tile',
     'The memory prediction lists every tiling from nside 2 to that of the galaxy table, with the number of tiles which hold galaxies and the memory of the fullest one: the galaxies of its table pixels times the size of a row '
     'without truth columns (and with the redshift row when asked for), times the border factor.',
     'all numbers of galaxies per pixel within the bounds, for several tables and tilings',
     'no test predicts memory; it failed for every table',
     ['redmapper/pipeline/mempredict.py'],
     [('prediction', 'MemPredict.predict_memory')],
     over=('inputs', 'configurations'))

prop('P11', 'The background counts every galaxy once, per unit area, cell and bin',
     'The generated galaxy background is the number of galaxies of the calibration sample in each redshift, magnitude and chi-squared cell, shared between neighbouring cells in proportion to closeness (cloud-in-cell), per unit area, magnitude and chi-squared, '
     'with galaxies outside the range or outside the requested pixel not counted. '
     'The result does not depend on how galaxies are stored in pixel files or on the number of worker processes. The zred background obeys the same counting in zred and magnitude, with its floor applied.',
     'all galaxy magnitudes, redshifts, chi-squared values, pixels and worker counts within the bounds',
     'tests need absent data and compare a stored background in a few cells',
     ['redmapper/background.py', 'redmapper/utilities.py'],
     [('counting', 'BackgroundGenerator.run, BackgroundGenerator._worker'), ('assignment', 'utilities.cic'), ('zred', 'ZredBackgroundGenerator.run')], over=('inputs', 'schedules'))

prop('P15', 'Galaxy files keep every galaxy once, in its pixel, and read back as written',
     'Ingesting galaxies in any sequence of chunks, serially or by concurrent writers, stores each galaxy inside the mask exactly once with its values unchanged in the file of its own pixel, and the master table counts them. '
     'Catalogues with non-finite or inconsistent values, duplicate or already-used identifiers, or missing columns are refused. '
     'Reading a whole table, a list of pixels or a pixel with border returns exactly the galaxies of those pixels, once each, each with its own redshift and truth values whatever the column order of the files; invalid pixel requests are refused.',
     'all galaxy values, positions, chunkings, writer interleavings and pixel requests within the bounds',
     'tests ingest one fixed table and read one fixed pixel',
     ['redmapper/galaxy.py'],
     [('ingestion', 'GalaxyCatalogMaker.append_galaxies, finalize_catalog'), ('reading', 'GalaxyCatalog.from_galfile')], over=('inputs', 'histories', 'schedules'))
