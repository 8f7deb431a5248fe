# Further properties (exec'd by gen.py).
O = 'src/paper/main_collect_all.py'
R = 'src/paper/main_render_lambda_figure.py'

prop('P24', 'Target search and straight line fits meet their contracts',
     'Searching from a start in steps of one sign along a monotone function returns a point on that side of the start where the function is within the tolerance of the target, keeps a start that is already good enough, and asks no points on the other side; when a function never gets there it fails with an error instead of searching forever. '
     'The least squares fit through a point that is not above or below all data (with a slope) goes through the point (has the slope) and no other such line has a smaller sum of squared residuals, which is what the cost function computes. '
     'The range of plausible outputs at an input (of plausible slopes) contains the best fit\'s, and at both ends the best line with that output (slope) costs exactly the given increase more than the best line, to within the tolerance of the search.',
     'inputs', 'every start, step, target, tolerance and monotone function; every set of outputs, required point, slope and cost increase',
     'Tests fit a few fixed points.',
     U, [('target search', f'{U}: binary_intercept'), ('fits', f'{U}: least_squares_cost, least_squares_through_point, least_squares_with_slope'), ('ranges', f'{U}: least_squares_output_range, least_squares_slope_range')],
     observe=['results of these functions'])

prop('P25', 'Problem descriptions are true of their circuits; the catalogue is complete',
     'The description of a honeycomb problem states the layout\'s width, height, noise and observable, the style as honeycomb_<style>, the sub-rounds divided by three and rounded up as rounds, the reported code distance and number of qubits, and the decoder asked for; its circuit maker yields the circuit of exactly that layout, whenever it is called. '
     'The collection script offers every combination of listed decoder, noise strength, size (4u x 6u for u=1..5, 36u sub-rounds), style (SI1000, SD6, EM3_v2) and observable exactly once, followed by every surface code combination (distances 3 to 19 in fours, SD6 and SI1000, X and Z, 2dd-1 qubits, 3d rounds), none without a directory; a surface code circuit is the stored circuit of that style, observable and distance with that style\'s noise of that strength. '
     'Running the script with a problem number samples exactly that problem of the catalogue, otherwise all, appending to the named file, with the given limits, or 10^8 shots and 1000 errors divided (rounding down) by the case reduction.',
     'configurations inputs', 'every number of sub-rounds, noise strength, style, size, observable, decoder; every problem number and limit',
     'No test looks at the descriptors or the collection script.',
     f'{L} {O}', [('descriptor', f'{L}: as_decoder_problem, as_decoder_problem_desc, code_distance_1qdep, num_qubits'), ('catalogue', f'{O}: honeycomb_problems, surface_code_problems, surface_code_problem, surface_code_circuit'), ('script', f'{O}: main, collect_data')],
     observe=['DecodingProblem.desc, DecodingProblem.circuit_maker(), arguments of collect_simulated_experiment_data'])

prop('P26', 'Extrapolations combine both observables and count qubits correctly',
     'Data is grouped by noise strength; at each distance the error rate per code cell is that of either observable failing, both per-cell rates being the conversions of the recorded total rates to the number of cells (rounds per distance, rounded up), the other observable standing in for a missing one, and distances with an error-free observable left out; fewer than three distances for either observable is low confidence. '
     'Straight line fits are of the logarithm of that rate against distance; the projected error follows the fit, the projected distance for a target error is where the fit reaches it, errors count as suppressed when the slope is below -0.02 with an intercept below -0.1 or the slope is below -1, and lambda is exp(-2 slope) for the low, middle and high plausible slope (one without a fit). '
     'The required number of qubits is that of the projected distance rounded up, 2dd-1 for the surface code and proportional to dd for the honeycomb code with the distance rounded up to a multiple of four, and its range uses the plausible distances at the target.',
     'inputs configurations', 'every count of shots and errors, every set of error rates, target, plausible slopes and distances',
     'There is no test of the extrapolation code.',
     R, [('combination', f'{R}: LambdaGroup.combo_data, groups_from_data'), ('projections', f'{R}: linear_fit_d_to_log_err, projected_error, projected_distance, projected_lambda_range'), ('qubit counts', f'{R}: _d_to_q, projected_required_qubit_count, projected_qubit_count_range')],
     observe=['LambdaGroup'])

prop('P27', 'Detection fractions are counted over all shots and detectors and recorded',
     'Collecting detection fractions samples every problem once with the requested number of shots and records shots times detectors as samples and those without a detection event as correct, under the problem\'s identifying values with observable "-" and decoder "detection_fraction" and the time it took. '
     'Records are complete lines under a header naming the columns, readable by the reader, kept if a later problem fails, and existing contents are kept unless discarding was asked for.',
     'inputs crash_points', 'every sampled outcome, descriptor, time; every point of failure; file absent, kept, discarded, none',
     'No test covers this collection.',
     K, [('collection', f'{K}: collect_detection_fraction_data')], observe=['the statistics file and standard output'])

prop('P28', 'The figures show exactly the recorded data in the panel that names it',
     'The error rate plot has one curve and one band per problem family (descriptions equal up to noise), labelled with its rounds and size, through the per-cell rates at every noise strength with errors in increasing order, the band spanning the converted interval of likelihood ratio 1/1000 at every noise strength, however many families there are, on logarithmic axes whose tick labels name the ticks; a figure is saved and shown exactly as asked, and every figure script reads exactly the named csv files and those of the named directories and saves each of its figures under that figure\'s name. '
     'In the threshold and line fit figures every panel shows exactly the data of the noise model heading its column and of the code, decoder and observable naming its row. '
     'In the lambda and teraquop figures every noise model\'s panel has one labelled curve per code and decoder with data, showing the extrapolated value (target 1e-12) and its plausible range at the noise strengths where errors are suppressed and marking the points with low confidence; the detection fraction figure shows the recorded fraction against distance, one curve per style and noise strength.',
     'inputs configurations', 'every recorded count, interval and rate; every combination of style, observable, decoder, noise strength and size; missing data',
     'No test looks at any figure.',
     f'{G} {R} src/paper/main_render_threshold_figure.py src/paper/main_render_detection_fraction_figure.py',
     [('error rate plot', f'{G}: plot_data'), ('threshold figure', 'src/paper/main_render_threshold_figure.py: plot_thresholds'), ('lambda, teraquop, line fits', f'{R}: plot_lambda_combo, plot_teraquop_combo, plot_lambda_line_fits_combo'), ('detection fractions', 'src/paper/main_render_detection_fraction_figure.py: plot_detection_fraction')],
     observe=['calls to the plotting library'])

prop('P29', 'The shipped surface code circuits are the experiments they are named after',
     'With either noise style at any strength, the circuit of a shipped distance d (3, 7, 11, 15, 19) and basis uses 2dd-1 qubits, each at most once per time step, measures dd-1 stabilizers in each of 3d rounds and then every data qubit, and has (dd-1)3d detectors and one observable made of d data qubit measurements, all independent. '
     'Without noise no measurement randomness flips any of them. '
     'Under the noise that the script adds, no fewer than d failing operations (any Pauli a channel can apply) flip the observable without flipping a detector, and some d do.',
     'configurations fault_sequences', 'every noise strength, both styles and bases, every shipped distance; every set of fewer than d faults',
     'No test reads these circuits.',
     f'{O} src/paper/surface_code_circuits', [('circuit', f'{O}: surface_code_circuit'), ('data', 'src/paper/surface_code_circuits')], observe=['stim circuit'])

prop('P30', 'The noisy honeycomb circuits tolerate the stated number of failing operations',
     'Under the circuit-level noise of every style, the number of failing operations (a flipped measurement, or any Pauli or correlated error that a noise channel can apply) needed to flip the tracked observable without flipping a detector is at least data_width for the vertical and data_height/2 for the horizontal observable in the styles with ancilla qubits (SD6, PC3, SI1000), and at least data_width/2 and data_height/3 in the direct measurement styles (EM3, EM3_v2). '
     'From four sub-rounds on, exactly that many can do it.',
     'configurations fault_sequences', 'every set of failing operations, every noise strength, all styles and observables, lattice sizes and numbers of sub-rounds',
     'The tests only sample a few circuits and look at detector counts.',
     f'{L} {C} {N}', [('circuit', f'{C}: generate_honeycomb_circuit'), ('layout', f'{L}: HoneycombLayout'), ('noise', f'{N}: NoiseModel.noisy_circuit')], observe=['stim circuit'])

prop('P31', 'One failing operation has a small footprint that matching can explain',
     'Under the circuit-level noise of every style, on lattices at least four qubits wide, a failing operation flips at most four detectors (six in EM3_v2), whose labels differ by at most 4 in time and, around the torus, by at most 2 in either coordinate (4 across and 3 down in EM3 and EM3_v2). '
     'In every style but EM3 the flipped detectors split into disjoint groups of one or two, each of them exactly what some failing operation flips, the flips of the observable adding up. '
     'Every detector is flipped by some failing operation, and failing operations that flip two detectors pair it with at most 12 others (18 in EM3 and EM3_v2).',
     'configurations fault_sequences', 'every failing operation, every noise strength, all styles and observables, lattice sizes and numbers of sub-rounds',
     'The tests look at the degree of one graph and at whether stim accepts some sizes.',
     f'{L} {C} {N}', [('circuit', f'{C}: generate_honeycomb_circuit'), ('layout', f'{L}: HoneycombLayout'), ('noise', f'{N}: NoiseModel.noisy_circuit')], observe=['stim circuit'])
