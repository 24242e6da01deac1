"""writes /verif/properties.jsonl (single source of the property texts)"""
import json
P = []
HISTORY = {f'C{i:02d}' for i in (*range(5, 18), *range(19, 25))}


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    if id in HISTORY:
        d['statement'] = statement.rstrip('.') + '; results follow the arguments and the current configuration and never depend on earlier calls or other objects.'
        d['quantifier']['text'] = text.rstrip('.') + '; every order of two argument sets or configurations on one object, of two objects, and changes in place between calls.'
        if 'histories' not in over:
            d['quantifier']['over'] = list(over) + ['histories']
    P.append(d)


SIM = 'simcats/_simulation.py'
p('C01', 'Voltage limits and argument validation gate every measurement',
  'A measurement (CSD or sensor scan) is simulated only if every swept and every fixed gate voltage lies inside the configured limits (bounds inclusive) and the argument shapes and resolutions are valid; anything else raises ValueError before any part of the simulation runs. Every request that is valid and inside the limits is accepted, whichever sweep direction is used and whichever limits are left unset.',
  ['inputs', 'configurations'], 'all limit intervals, sweep ranges (both directions), fixed voltages incl. None, integer and 1-/2-element resolutions, CSD and sensor scans',
  'The tests try a handful of out-of-range sweeps; the guarantee is over all real sweeps, all combinations of unset limits and missing voltages.',
  [SIM], [('limit comparisons', 'Simulation.measure'), ('limit comparisons incl. fixed gates', 'Simulation.measure_sensor_scan'), ('limit setters', 'Simulation.volt_limits_* setters')])
p('C02', 'Measurement pipeline: order and data flow of all distortion stages',
  'A measurement composes: ideal occupations, then each occupation distortion in list order, then the sensor potential, then each potential distortion in list order (for every potential of a sensor that has several), then the sensor response, then each response distortion in list order; each stage receives exactly the output of the previous one and the sweep ranges of this measurement. The returned response, occupations, lead transitions and metadata are the final outputs of that chain. A sensor scan uses at every pixel the occupations the ideal CSD has at the fixed double-dot voltages (none without ideal CSD or voltages), skips the occupation distortions, and computes its labels from the undistorted potentials.',
  ['inputs', 'configurations', 'histories'], 'all pipeline stage behaviours (arbitrary stage functions), up to 2 distortions per stage, 1D and 2D, both sensor kinds',
  'Tests compare a few fixed configurations with stored data; they never vary the number, order or behaviour of stages.',
  [SIM], [('stage loops', 'Simulation.measure'), ('stage loops', 'Simulation.measure_sensor_scan')])
p('C03', 'Configuration isolation: setters copy, inputs untouched, metadata is a snapshot',
  'The simulation owns copies of everything it is configured with: changing a caller object after assignment, or an object read from the returned metadata, never changes the simulation or a later measurement, and changing the simulation never changes metadata already returned. Caller-supplied sweep ranges, resolutions and occupation arrays are never modified by a measurement. Assigning an object that does not implement the required interface, or malformed limits, is refused with ValueError and leaves the old configuration in place.',
  ['inputs', 'histories', 'configurations'], 'all configuration setters, all values, any later mutation of the caller object',
  'Needs histories of assign-mutate-measure; tests only check one assignment per interface.',
  [SIM, 'simcats/distortions/_distortion_interfaces.py'], [('deepcopy in setters and metadata', 'Simulation setters, measure, measure_sensor_scan')])
p('C04', 'Regenerated CSD structure reproduces earlier distortions with their noise frozen',
  'When an occupation distortion asks the simulation for CSD structure at other voltages or resolutions during a measurement, it gets the ideal structure for those arguments with exactly the earlier occupation distortions of the list applied, in order, re-using the noise they drew in the current measurement (no new random draws), and none of the later ones. Outside that request noise is never frozen: each measurement draws fresh noise.',
  ['inputs', 'histories', 'schedules'], 'all positions in a list of up to 3 occupation distortions, all requested ranges, repeated requests and repeated measurements',
  'Tests never nest a structure request inside a list of several distortions and cannot see which noise was reused.',
  [SIM, 'simcats/distortions/_transition_blurring.py', 'simcats/distortions/_dot_jumps.py'], [('generate_csd closure', 'Simulation.measure'), ('freeze', 'occupation distortions')])
p('C05', 'Ideal CSD: orientation, resolution and sweep-direction equivariance',
  'The ideal CSD for given sweep ranges has first axis gate 2 and second axis gate 1 with evenly spaced voltages including both ends; reversing a sweep range mirrors occupations and lead transitions along that axis and changes nothing else; a 1D scan sweeps both gates simultaneously. Equal start and stop voltages, where a sweep is required, and unusable resolutions are refused with ValueError, and the caller arrays stay unchanged.',
  ['inputs', 'configurations'], 'all sweep ranges, directions, resolutions (integer, one- or two-element), any TCT configuration',
  'Tests compare four directions for one configuration; equivariance is over all ranges and resolutions.',
  ['simcats/ideal_csd/geometric/_ideal_csd_geometric.py', 'simcats/ideal_csd/geometric/_ideal_csd_geometric_class.py'],
  [('sorting and flipping', 'ideal_csd_geometric'), ('delegation', 'IdealCSDGeometric.get_csd_data')])
p('C06', 'Occupations: total charge counts the transitions passed, split between dots',
  'At every pixel the two dot occupations are between 0 and their sum, and away from the smooth tunnel coupling their sum equals exactly the number of total-charge transitions lying between the pixel and the empty region; below the first transition both are zero. Inside a charge region the split moves from dot 2 to dot 1 monotonically along the region by one electron per inter-dot transition with the configured smooth profile, for 1D and 2D scans alike. A window reaching beyond the last configured transition is refused with IndexError rather than silently miscounted.',
  ['inputs', 'configurations'], 'all pixel positions, any number (bounded) of transitions with arbitrary shapes in order, all rotations used, all supported smoothing profiles',
  'Tests compare stored images of one configuration and never the counting rule over arbitrary transitions.',
  ['simcats/ideal_csd/geometric/_get_electron_occupation.py', 'simcats/ideal_csd/geometric/_initialize_tct_functions.py'], [('region masks and splitting', 'get_electron_occupation')])
p('C07', 'Lead transition masks label exactly the total-charge transitions',
  'In a 1D scan a pixel is labelled exactly where the number of electrons changes between neighbours, on the higher-occupation pixel, with the label being that higher number; in a 2D scan every transition that crosses the image is labelled with its number at the pixels nearest to it (where two transitions share a pixel the later number wins) and no pixel off every transition is labelled. Labels do not depend on the sweep direction and are zero elsewhere.',
  ['inputs', 'configurations'], 'all ranges, resolutions and transition shapes within bounds, both sweep directions',
  'Tests compare stored masks for one configuration.',
  ['simcats/ideal_csd/geometric/_generate_lead_transition_mask.py', 'simcats/ideal_csd/geometric/_ideal_csd_geometric.py'], [('index computation', 'generate_lead_transition_mask')])
p('C08', 'TCT curve: continuous wavefront with the configured slopes',
  'A total-charge-transition curve evaluated at any x values (scalar-like, 1D, any order) is a single continuous function: outside the configured double-dot region it is a straight line with the first lead slope on one side and the second lead slope on the other; inside it alternates between the two slopes and smooth bends around each interdot anchor, periodically in the interdot displacement vector. Evaluation is pointwise (independent of the other points), leaves its input unchanged and gives the same result for every accepted parameter layout.',
  ['inputs', 'configurations'], 'all x, all valid parameter rows (bounded number of peaks), all accepted array layouts',
  'Tests evaluate a few fixed parameter sets.',
  ['simcats/ideal_csd/geometric/_tct_bezier.py'], [('piecewise evaluation', 'tct_bezier')])
p('C09', 'Bezier anchors: complete, consistent with the TCT and its slopes',
  'For every total-charge transition n the anchor table has an entry for each of its interdot transitions; the outer anchors are symmetric about the middle anchor in the sense of the parameters and lie on the two lead lines meeting at the middle anchor, and consecutive interdot transitions are connected by the lead slopes so that the table agrees with the transition curve. Row n of the parameters alone determines entry n, every accepted parameter layout gives the same table, the parameters stay unmodified and the limit on the number of transitions is honoured.',
  ['inputs', 'configurations'], 'all valid parameter tables with up to 4 transitions', 'Tests only look at one parameter table.',
  ['simcats/ideal_csd/geometric/_calculate_all_bezier_anchors.py', 'simcats/ideal_csd/geometric/_tct_bezier.py'], [('anchor recurrences', 'calculate_all_bezier_anchors')])
p('C10', 'Generic sensor potential is the exact lever-arm sum at every pixel',
  'The sensor potential at every pixel equals the configured offset plus the dot lever-arms times that pixel\'s occupations plus the gate lever-arms times that pixel\'s gate voltages, for 1D and 2D scans, every sweep direction and resolution; gate 1 varies along the second axis, gate 2 along the first. The sensor owns its lever-arms (changing the arrays they were configured with has no effect later) and occupation inputs are not modified.',
  ['inputs', 'configurations'], 'all lever-arms, offsets, occupations, sweep ranges; 1D and 2D shapes', 'Tests pin a few numbers.',
  ['simcats/sensor/_sensor_generic.py'], [('meshgrid and dot products', 'SensorGeneric.sensor_potential')])
p('C11', 'Generic sensor response: sum of peaks, each maximal at mu0, symmetric, bounded',
  'The response is pointwise the sum over the configured peaks of a curve that equals offset+height at mu0, is symmetric about mu0, decreases monotonically away from it and stays between offset and offset+height (Lorentzian: half the height at a distance of gamma; Gaussian: height/e at a distance of sigma); without peaks the potential itself is returned. Each value depends only on the potential at that pixel and the inputs stay unmodified.',
  ['inputs', 'configurations'], 'all peak parameters and potentials', 'Tests evaluate only default parameters.',
  ['simcats/sensor/_sensor_generic.py', 'simcats/sensor/_sensor_peak_lorentzian.py', 'simcats/sensor/_sensor_peak_gaussian.py'], [('sum over peaks', 'SensorGeneric.sensor_response'), ('peak functions', 'sensor_function')])
p('C12', 'Scan sensor potentials: lever-arm sums for both barriers and the dot',
  'The scan sensor returns one potential per sensor part (dot, both barriers), each pixel being the offset plus dot, gate and sensor-gate lever-arm terms evaluated at that pixel\'s occupations and voltages; swept gates take evenly spaced voltages along their axis, fixed gates their constant value and unset gates contribute nothing. Requests that sweep plunger and sensor gates at once in conflicting ways, or occupations of unsupported dimension, are refused with ValueError.',
  ['inputs', 'configurations'], 'all lever-arms, offsets, occupations, voltages, all combinations of swept/fixed/unset gates', 'Tests cover a few fixed scans.',
  ['simcats/sensor/_sensor_scan_sensor_generic.py'], [('potential computation', 'SensorScanSensorGeneric.sensor_potential')])
p('C13', 'Scan sensor response: series conductance of barriers and dot',
  'The scan sensor response is the conductance of barrier 1, the dot and barrier 2 in series: never negative, never above any single contribution nor above the series conductance of the two barriers, zero as soon as one of them pinches off, and unchanged when both barriers exchange roles. The dot contributes the maximum of its peaks and the final rise, the latter placed at the dot potential at which both barriers become fully conductive. The potentials passed in are not modified, and evaluating a response twice gives the same result.',
  ['inputs', 'configurations', 'histories'], 'all conductances (arbitrary barrier/peak functions), 1D and 2D', 'Tests evaluate default scans only.',
  ['simcats/sensor/_sensor_scan_sensor_generic.py'], [('series formula', 'SensorScanSensorGeneric.sensor_response')])
p('C14', 'Sensor scan labels follow the conduction thresholds and peak positions',
  'In the sensor-scan labels a pixel is non-conductive, in the Coulomb-peak regime, or fully conductive exactly according to the pinch-off and fully-conductive thresholds of both barriers and the dot evaluated at that pixel, and a Coulomb-peak label appears only in the conducting regime, carries the number of the peak (counted from 1 in ascending potential), and sits in every row at the pixel whose dot potential is nearest to the peak. The labels are the same for every listing order of peaks and do not change when they are computed again. Labels of a plunger sweep are refused with ValueError.',
  ['inputs', 'configurations', 'histories'], 'all voltages, thresholds, peak lists within bounds', 'Label tests do not exist beyond smoke tests.',
  ['simcats/sensor/_sensor_scan_sensor_generic.py'], [('label masks', 'get_sensor_scan_labels')])
p('C15', 'Barrier working points are the inverse of the barrier potentials',
  'The sensor-gate voltages reported for a pair of barrier potentials (pinch-off and fully-conductive working points) are those at which the sensor potentials of the two barriers equal the requested values, given the dot occupations and plunger voltages of the (first pixel of the) scan.',
  ['inputs', 'configurations'], 'all regular lever-arm matrices, offsets, occupations, voltages', 'No test evaluates the inverse relation.',
  ['simcats/sensor/_sensor_scan_sensor_generic.py'], [('linear solve', '_calc_point_from_barrier_potentials')])
p('C16', 'Logistic barrier and rise functions: monotone, bounded, exact inverse and thresholds',
  'The generalised logistic function increases (for positive growth) from its lower to its upper asymptote and its inverse recovers the argument; a barrier function reports a pinch-off and fully-conductive potential at which it has risen by exactly the configured percentages of its range, a multi-step barrier is the pointwise sum of its steps, and a final rise is shifted so that it becomes fully conductive at the requested potential. Parameters for which this is impossible (non-positive asymmetry, malformed parameter lists) are refused with ValueError.',
  ['inputs', 'configurations'], 'all admissible parameters and potentials', 'Tests do not evaluate these functions over their parameter space.',
  ['simcats/support_functions/_generalized_logistic_function.py', 'simcats/sensor/barrier_function/_barrier_function_glf.py', 'simcats/sensor/barrier_function/_barrier_function_multi_glf.py', 'simcats/sensor/_sensor_rise_glf.py'],
  [('glf / inverse_glf', 'generalised logistic function'), ('pinch_off, fully_conductive', 'barrier functions'), ('offset shift', 'SensorRiseGLF.sensor_function')])
p('C17', 'Peak deformation shifts the peak centre geometrically and leaves the peak intact',
  'A deformed sensor peak uses at every pixel a centre that is a function of the signed distance to the direction of fully open barriers only: it equals the peak\'s own centre at distance zero, is symmetric for the circular deformation (following a circle of the configured radius, beyond the radius keeping the largest displacement) and linear through the configured angle for the linear one, and stays defined for every distance. The distance is the signed one of the pixel to the line through the pinch-off working point along the sensor dot lever-arms. Evaluating a response or labels never changes the peak\'s stored centre.',
  ['inputs', 'configurations', 'histories'], 'all radii, angles, distances', 'No test varies the deformation.',
  ['simcats/sensor/deformation/_sensor_peak_deformation_circle.py', 'simcats/sensor/deformation/_sensor_peak_deformation_linear.py', 'simcats/sensor/_sensor_scan_sensor_generic.py'],
  [('calc_mu', 'deformation classes'), ('temporary mu0', 'sensor_response')])
p('C18', 'Parameter samplers stay inside their (narrowed) range and remember the last sample',
  'Every value a parameter sampler returns lies in its total range and, when fluctuation is limited, inside one fixed sub-range of exactly the configured relative width that lies in the total range; the reported last sample is the value most recently returned. This holds for every random stream, including the truncated and reversed variants; a requested width of at least the total range means the total range.',
  ['inputs', 'histories', 'configurations'], 'all ranges, widths, random streams (bounded rejection retries), sequences of draws', 'Tests check p-values of unseeded samples.',
  ['simcats/support_functions/_parameter_sampling.py'], [('range narrowing and rejection', 'sampling classes')])
p('C19', 'Additive sensor noise: shape preserving, additive, linear in its strength, off at zero',
  'White and pink noise return the undistorted data plus a noise field of the same shape that is proportional to the configured or sampled strength and otherwise independent of the data; pink noise runs continuously along the measurement direction (row after row), the data passed in is left unchanged, and zero strength leaves the data as is. The strength is sampled once per measurement and the value used is reported.',
  ['inputs', 'configurations'], 'all data, strengths, random streams; 1D and 2D shapes', 'Tests compare seeded outputs or check sizes.',
  ['simcats/distortions/_white_noise.py', 'simcats/distortions/_pink_noise.py'], [('noise addition', 'noise_function')])
p('C20', 'Random telegraph noise: alternating undisturbed and burst segments along the sweep',
  'Random telegraph noise partitions the pixels in measurement order into alternating undisturbed and burst segments whose lengths are the drawn ones; within one burst segment a single constant is added and undisturbed pixels keep their value, every pixel belongs to exactly one segment, and the mean segment length given in voltage is converted with the pixels per voltage of the swept gate (at least one pixel; with both gates swept the larger pixel density in 2D, the larger range in 1D). The constant of a burst is height plus std times a normal value of its own. It works for every resolution and sweep, leaves the input unchanged, and an inactive distortion leaves the data as is.',
  ['inputs', 'configurations', 'histories'], 'all random streams (bounded number of segments), data, sweep ranges, 1D and 2D shapes incl. non-square', 'Tests check statistics of one configuration.',
  ['simcats/distortions/_random_telegraph_noise.py'], [('segment loop', 'noise_function')])
p('C21', 'Dot jumps shift structure consistently along the sweep',
  'Dot jumps replace the structure in each jump block (blocks of lines along the configured axis, in ascending voltage) by the structure of the same system displaced by the whole number of pixels drawn for that block toward lower voltage of the axis: occupations of both dots and the lead transitions are displaced by the same amount, structure from outside the window is that of the system there, pixels outside the blocks stay as they were, and the mean distance is lam converted with the pixels per voltage of the axis. This holds for every sweep direction, resolution, 1D and 2D scans; there are no jumps along an axis that is not swept, an inactive distortion changes nothing, and a frozen application repeats the same jumps.',
  ['inputs', 'configurations', 'schedules'], 'all jump streams (bounded), sweep directions, shapes incl. non-square', 'Tests run one seeded case.',
  ['simcats/distortions/_dot_jumps.py'], [('jump noise and shifting', 'OccupationDotJumps.noise_function')])
p('C22', 'Transition blurring: scaled to the voltage axis, neutral at zero width, lead labels kept',
  'Blurring convolves the occupations of each dot with the configured normalised kernel along the sweep (the last axis) with a width that is the sampled voltage width converted with the pixels per voltage of the swept gate (1D scans of both gates: the larger pixel density); borders are continued as documented, total weight is preserved so lines of constant occupation and line mean values are unchanged, zero or negative widths leave the occupations as they are and lead-transition labels are never altered. One width is sampled per measurement; a frozen repeat reuses it.',
  ['inputs', 'configurations', 'histories'], 'all widths, occupations, sweep ranges and shapes incl. non-square', 'Tests use square images and default widths.',
  ['simcats/distortions/_transition_blurring.py', 'simcats/support_functions/_fermi_filter1d.py'], [('kernel width', 'noise_function')])
p('C23', 'Geometry helpers: rotation, signed distance, intersections, pixel-to-voltage map',
  'Rotation is a counter-clockwise isometry about the origin undone by the negative angle; the signed distance is the Euclidean distance to the line, zero exactly on it and positive on its right side; returned intersection points lie on both shapes and are returned exactly when they exist (otherwise none, or ValueError for parallel lines and unusable arguments). Below-line tests and the pixel-to-voltage map agree with the line equations for every accepted form of line.',
  ['inputs'], 'all points, lines, circles, angles', 'No tests exist for most helpers.',
  ['simcats/support_functions/_linear_algebra.py', 'simcats/support_functions/_rotate_points.py', 'simcats/support_functions/_signed_dist_points_line.py', 'simcats/support_functions/_pixel_volt_transformation.py'],
  [('formulas', 'support functions')])
p('C24', 'Smoothing profiles: cumulative functions and Fermi filter are normalised and symmetric',
  'Each cumulative profile is non-decreasing from 0 to 1, equals one half at its centre (for positive width), is point-symmetric about it and depends only on the distance from the centre relative to its width, degenerating to a step for zero width. The Fermi filter has non-negative weights that sum to one and are symmetric, so constants stay constant and a mirrored input gives the mirrored output.',
  ['inputs', 'configurations'], 'all widths, centres, data within bounds', 'No tests target these functions.',
  ['simcats/support_functions/_cumulative_distribution_functions.py', 'simcats/support_functions/_fermi_filter1d.py'], [('profiles', 'cdf functions'), ('kernel', 'fermi_filter1d')])
p('C25', 'Re-centring the sensor hits the requested potential',
  'After re-centring the sensor potential offset for given gate voltages, the sensor potential at the start voltages of the given sweep ranges equals the requested value for the occupations found there, and nothing else of the simulation is changed.',
  ['inputs', 'configurations'], 'all lever-arms, voltages, targets and ideal-CSD contents', 'No test covers it beyond a smoke run.',
  ['simcats/support_functions/_reset_offset_mu_sens.py'], [('offset update', 'reset_offset_mu_sens')])
p('C26', 'Random configuration sampler always yields admissible configurations',
  'Whatever the random stream, a sampled configuration respects the documented parameter ranges, and its parts fit together: lead slopes and inter-dot geometry are ordered as required, peaks are ordered and spaced within limits, lever-arm signs are right, and distortion strengths are within their (quality-limited) ranges; unsupported options raise ValueError.',
  ['inputs', 'configurations'], 'all random streams within the distribution supports (bounded rejection loops)', 'Tests sample a few random configurations.',
  ['simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py'], [('sampling', 'sampler functions')])
p('C27', 'Reproducible randomness: every random choice comes from the generator handed in',
  'All random choices of a parameter sampler, a noise distortion, a dot-jump distortion and the noise functions behind them are drawn from the generator the object (or call) was given, in the constructor or by assignment: two objects configured equally with generators in the same state return the same results, use after use, whatever other generators, numpy\'s global random state or other objects do in between, and reading properties or printing an object draws nothing. The same holds for a whole measurement whose distortions use such generators.',
  ['inputs', 'configurations', 'histories'], 'all random streams of the given generator and of every other source of randomness', 'Tests compare single seeded runs with stored data; they cannot see a draw from another source that happens not to matter there.',
  ['simcats/support_functions/_parameter_sampling.py', 'simcats/distortions/_white_noise.py', 'simcats/distortions/_pink_noise.py', 'simcats/distortions/_random_telegraph_noise.py', 'simcats/distortions/_dot_jumps.py'],
  [('generator handling', 'rng arguments and properties')])
p('C28', 'Plots show every value at the voltages it was measured at',
  'A plotted CSD shows each value at the tick voltages it was measured at: gate 1 along the horizontal axis, gate 2 along the vertical one (1D: both gates per tick), for every sweep direction; with sorting the lowest voltages come first and the data are turned along with them (1D: by gate 1, both gates together), without sorting everything appears as measured. The requested number of ticks is spread evenly over the axis, gate names, unit, title and sensor label appear where they belong, the plot is saved exactly when and where requested, and the data and ranges passed in are not modified.',
  ['inputs', 'configurations'], 'all data, sweep ranges, directions and tick counts within bounds', 'No test covers plotting.',
  ['simcats/support_functions/_plotting.py'], [('flips and ticks', 'plot_csd')])

if __name__ == '__main__':
    with open('/verif/properties.jsonl', 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    print(len(P))
