"""Writes properties.jsonl and MANIFEST.json.  Run from /verif: python3 tools/gen.py"""
import ast, json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (pid, len(title))
    a = {'files': files.split(), 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    a['observe_at'] = list(observe)
    a['hook_needed'] = None
    P.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over.split(), 'text': text}, 'why_tests_cant': why, 'anchors': a})


L, C, T, N = 'src/honeycomb_layout.py', 'src/honeycomb_circuit.py', 'src/measure_tracker.py', 'src/noise.py'
D, K, U, G = 'src/decoding.py', 'src/collect_data.py', 'src/probability_util.py', 'src/plotting.py'

prop('P01', 'The layout is a honeycomb torus',
     'For every accepted size (even width, height divisible by six; other sizes are refused) the data qubits are the width x height lattice sites, each plaquette is surrounded by six distinct data qubits joined by six edges, three of each of the two edge classes other than its own, and every data qubit lies in exactly one edge of each of the three classes. '
     'There are width*height/2 edges per class with one measure qubit exactly at each edge centre, width*height/6 plaquettes per colour, and indices number the positions consecutively, data qubits first in position order. '
     'Edge queries by sub-round depend on the sub-round modulo three only, bases cycle X, Y, Z, and the reported number of qubits is the number of positions the style uses.',
     'configurations inputs', 'every even width, every height divisible by six, every qubit, edge, plaquette and sub-round number',
     'The tests look at one or two sizes (2x6, 4x6); wrap-around coincidences and row/column arithmetic differ between sizes.',
     L, [('position and edge generation', f'{L}: HoneycombLayout.all_edges, round_edges, _hex_center_categories'), ('indices', f'{L}: q2i, data_qubit_indices, measure_qubit_indices, used_qubit_indices'), ('neighbourhoods', f'{L}: first/second/all_edges_around_hex, qubits_around_hex'), ('size check', f'{L}: __post_init__')],
     observe=['attributes and methods of HoneycombLayout'])

prop('P02', 'Torus coordinates wrap consistently; an edge is always the same object',
     'Wrapping a position lands in the fundamental cell, is idempotent, and gives the same result for positions that differ by whole periods, so that edges and plaquettes reached through any periodic image are the same. '
     'Edges are equal, and hash alike, exactly when their unordered endpoints and their centre agree, whatever order the endpoints are given in, and inequality is the negation of equality.',
     'inputs configurations', 'every position, every period multiple, every lattice size, every pair of edges',
     'Edge identity keys the measurement history; tests compare a handful of edges on one size.',
     L, [('wrap', f'{L}: HoneycombLayout.wrap'), ('edge identity', f'{L}: Edge.__init__, __eq__, __ne__, __hash__')],
     observe=['HoneycombLayout.wrap, Edge'])

prop('P03', 'The tracked logical observable is the right one before every sub-round',
     'Before every sub-round the tracked observable is a uniform Pauli on distinct data qubits of a non-contractible path around the torus that commutes with all plaquette stabilizers and with the edges of the sub-round about to be measured, is not a product of stabilizers, and recurs every six sub-rounds. '
     'Multiplying it by the path edges measured in a sub-round gives exactly its form before the next sub-round, and the vertical and horizontal observables (numbers 0 and 1) each go exactly once around their own direction; which one is used follows the requested kind.',
     'configurations inputs', 'every size, every sub-round number, both observables',
     'The existing tests evaluate specific sub-rounds of one layout; the recurrence must hold for every sub-round and size.',
     L, [('observable patterns', f'{L}: obs_h_before_sub_round, obs_v_before_sub_round, obs_before_sub_round'), ('paths', f'{L}: obs_h_edges, obs_v_edges, obs_h_qubits, obs_v_qubits, obs_index')],
     observe=['HoneycombLayout.obs_before_sub_round and obs_* attributes'])

prop('P04', 'Without noise every detector and the logical observable are deterministic',
     'In every generated circuit - any style, size, observable and number of sub-rounds - every annotated detector and the annotated logical observable is a parity of measurement outcomes whose noise-free value is fixed: no reset, no random measurement outcome and no choice made earlier in the circuit can change it. '
     'This holds whatever noise strength the circuit was generated with.',
     'configurations inputs', 'every number of sub-rounds n >= 1, noise strength, style, observable; every random outcome of the intermediate measurements',
     'Tests ask stim for the error model of a few (size, sub-round) pairs; the pipelining and loop folding of each style depends on the number of sub-rounds.',
     f'{C} {T} {L}', [('rounds of each style', f'{C}: generate_rounds_sd6/pc3/em3/SI1000'), ('detector bookkeeping', f'{C}: _sub_round_measurements_and_detectors, fault_tolerant_init, fault_tolerant_measurement'), ('records', f'{T}: MeasurementTracker')],
     observe=['the stim.Circuit returned by HoneycombLayout.make_circuit()'])

prop('P05', 'Every style performs the same honeycomb measurement protocol',
     'Whatever the style, the circuit measures in sub-round k the parity XX, YY or ZZ (cycling, starting with XX) of every edge of class k mod 3, in that order, after fault tolerant preparation of the tracked observable\'s starting basis, and finally measures all data qubits in the basis the tracked observable has then. '
     'The joint distribution of all edge outcomes and final outcomes equals that of this ideal protocol, with exactly one measurement per edge per sub-round plus one per data qubit, for every number of sub-rounds, except that SI1000 refuses numbers that are not multiples of three (and zero is refused).',
     'configurations inputs', 'every style, observable, size, number of sub-rounds, noise strength',
     'Tests check gate counts and detectors of some circuits; nothing compares what the circuits measure with the protocol.',
     f'{C} {L}', [('sub-round circuits', f'{C}: generate_rounds_*, _sub_round_2q_ops, _cycle_data, generate_cycle_SI1000'), ('preparation and final measurement', f'{C}: fault_tolerant_init, fault_tolerant_measurement')],
     observe=['the stim.Circuit returned by make_circuit()'])

prop('P06', 'Detectors are complete, correctly labelled, and the observable is complete',
     'For every number of sub-rounds the circuit annotates exactly the detectors the protocol provides - every comparison of a plaquette stabilizer with its previous value (or with the known initial or final value) that has one - each once, at the position of its plaquette (or edge) and with the time coordinate of the sub-round in which it is completed, and the records it names multiply to that stabilizer comparison. '
     'The logical observable annotation consists of the final data measurements of the tracked observable and every edge outcome on its path since the start, under the observable\'s number.',
     'configurations inputs', 'every number of sub-rounds, style, observable, size, noise strength',
     'Tests compare a few golden circuits; missing or mislabelled detectors elsewhere only lower the decoding performance silently.',
     f'{C} {T}', [('detector annotations', f'{C}: _sub_round_measurements_and_detectors, fault_tolerant_measurement'), ('time shifts', f'{C}: SHIFT_COORDS'), ('observable annotations', f'{C}: OBSERVABLE_INCLUDE')],
     observe=['DETECTOR, SHIFT_COORDS and OBSERVABLE_INCLUDE instructions of make_circuit()'])

prop('P07', 'The reported code distance protects the observable and is tight',
     'Fewer single-qubit Pauli faults on data qubits between time steps than the reported code distance never flip the logical observable without flipping a detector. '
     'The reported distance is min(width, two thirds of the height) for every size, is the one written to the problem description, and is attained.',
     'fault_sequences configurations', 'every set of data-qubit Pauli faults below the distance, every fault time, style, observable; sizes as bounded',
     'Tests count the shortest graphlike error of a few circuits; the distance claim quantifies over all fault sets.',
     f'{L} {C}', [('reported distance', f'{L}: code_distance_1qdep'), ('fault detection', f'{C}: detector annotations')],
     observe=['make_circuit(), code_distance_1qdep, as_decoder_problem_desc'])

prop('P08', 'Each qubit does at most one thing per time step; cycles take the promised time',
     'In every generated circuit no qubit takes part in two operations within one time step (between two consecutive ticks). '
     'The number of time steps grows with the number of sub-rounds exactly as the style promises (SD6 two steps per sub-round, PC3 and the EM3 styles one, SI1000 ten per three, plus a constant), and exactly the qubits whose coordinates are annotated are used.',
     'configurations inputs', 'every style, number of sub-rounds, size, observable',
     'Noise models act per time step, so a collision silently changes the noise; tests only inspect a few circuits.',
     f'{C} {L}', [('interleaving', f'{C}: _sd6_pipeline_step, _sub_round_2q_ops, generate_rounds_pc3, generate_cycle_SI1000'), ('two-colouring', f'{L}: _data_qubit_parity, data_qubit_indices_1st/2nd')],
     observe=['make_circuit()'])

prop('P09', 'Each noise model attaches exactly its specified noise',
     'For every circuit and strength each noise model adds, per operation kind, exactly the channel of its specification (depolarizing after unitary gates, flips before measurements and after resets, the correlated channel for parity measurements) with exactly the specified probability, on exactly the targets of that operation, and idling and resonator-idling depolarization to exactly the qubits of the circuit (in the given system qubits) left alone during the time step. '
     'Nothing is added at strength zero beyond zero-probability channels, annotations get no noise, an operation the model has no rule for is refused, and loops are treated as their unrolled bodies.',
     'inputs programs', 'every noise strength (including a different strength per gate kind), every combination of operations in a time step, every model, full honeycomb circuits of any length',
     'Tests compare three small golden circuits with fixed strengths.',
     N, [('per gate rules', f'{N}: NoiseModel.SD6/PC3/EM3_v1/EM3_v2/SI1000, noisy_op'), ('idling', f'{N}: noisy_circuit'), ('moment splitting', f'{N}: noisy_circuit, iter_moments')],
     observe=['NoiseModel.noisy_circuit, HoneycombLayout.noise_model'])

prop('P10', 'Adding noise never changes the ideal computation',
     'Removing the added noise channels from a noisy circuit leaves a circuit with the same operations, targets (inversions included), order, time steps, loops, detectors, observables, coordinates and measurement records as the original; a parity measurement may be expanded into an equivalent measurement through a helper qubit that is no qubit of the circuit. '
     'With strength zero the noisy circuit has the same measurement distribution as the original.',
     'programs inputs', 'every circuit with supported operations, any repeat count and nesting, every inversion pattern, every strength and model',
     'Tests use circuits without inverted targets, nested loops or helper-qubit coincidences.',
     N, [('circuit rewriting', f'{N}: noisy_circuit, noisy_op'), ('parity measurement expansion', f'{N}: mpp_ops with measurement depolarization')],
     observe=['NoiseModel.noisy_circuit'])

prop('P11', 'The correlated parity measurement noise is the uniform mixing channel',
     'With total mixing probability p, a noisy parity measurement applies with probability p a uniformly random element of (two-qubit Paulis) x (result flip) after an ideal parity measurement and otherwise nothing, with exactly one result per parity measured, inverted exactly when the targets ask for it. '
     'The conversion from total to per-component probability is exact for every p in [0, 1] and every number of bits, and the helper qubit and other qubits are left as they were.',
     'inputs', 'every p in [0, 1], all nine basis pairs, every inversion pattern, any state of the helper qubit',
     'Tests compare one golden expansion and one probability.',
     N, [('expansion', f'{N}: append of the correlated channel'), ('probability conversion', f'{N}: mixing probability to component probability')],
     observe=['noisy circuits of EM3_v2 containing MPP'])

prop('P12', 'Measurement bookkeeping names exactly the right records',
     'Whatever sequence of measurements, dummy values, obstacles and groups has been recorded, the record targets handed out for a list of (current or previous) entries denote exactly the parity of those entries\' outcomes, naming no record twice, and refer only to existing records. '
     'A detector appears exactly when all of its entries are available - an obstacle, or a group containing one, makes it unavailable - with the coordinates given (shifted as requested), and asking never changes what is recorded.',
     'histories programs', 'every program of bookkeeping steps up to the stated length, all outcomes',
     'Tests contain two short fixed histories.',
     T, [('history', f'{T}: MeasurementTracker.add_measurements, add_dummies, add_group'), ('lookup', f'{T}: get_record_targets, append_detector, Prev')],
     state=[('history', 'per key, the list of record sets (or obstacle) in order', f'{T}: MeasurementTracker')], observe=['MeasurementTracker'])

prop('P13', 'The matching graph says exactly what the error model says',
     'The graph built from a detector error model has a node for every detector plus one marked boundary node and an edge for exactly the symptom pairs (single symptoms: to the boundary) some error or suggested decomposition part can cause with nonzero probability, whose probability is that of an odd number of the contributing independent errors, whose weight is its log likelihood ratio, and whose observables are those of the first contributing error. '
     'Repeat blocks and detector/coordinate shifts count as their unrolled form, nodes carry the annotated coordinates, errors with more than two symptoms and no decomposition are refused, and padding edges are never preferred to an edge of the model.',
     'inputs programs', 'every error probability, coordinate, repeat count and shift; every combination of up to three errors per level',
     'Tests build one graph from one model with fixed numbers.',
     D, [('flattening', f'{D}: iter_flatten_model'), ('graph construction', f'{D}: detector_error_model_to_nx_graph'), ('matching library input', f'{D}: detector_error_model_to_pymatching_graph')],
     observe=['detector_error_model_to_nx_graph, detector_error_model_to_pymatching_graph'])

prop('P14', 'Matching decodes every shot from its own symptoms on the model\'s graph',
     'For any batch of shots the matching library is given, once per shot and in order, exactly that shot\'s detector symptoms (boundary nodes silent, observables never) on the graph of the given error model. '
     'Row i of the result has one column per observable of the model and holds the library\'s answer for shot i, observables the library does not mention counting as not flipped.',
     'inputs', 'every symptom matrix, every answer of the matching library, every number of shots, detectors and observables within bounds',
     'Tests decode one random circuit and look at the error rate.',
     D, [('decoding', f'{D}: decode_using_pymatching')], observe=['decode_using_pymatching'])

prop('P15', 'Correct shots are exactly those whose every observable was predicted',
     'The number of correct shots returned equals the number of sampled shots whose predicted observables all equal the sampled ones, with exactly the requested number of shots sampled from the given circuit. '
     'The decoder sees the detectors only, with the decomposed error model of the given model circuit (or of the sampled circuit if none is given), each decoder name selects its own decoder, and unknown names and model circuits that do not match are refused.',
     'inputs', 'every sample, every prediction, every decoder name, with and without a separate model circuit',
     'Tests bound the error rate of a few noisy circuits statistically.',
     D, [('sampling and counting', f'{D}: sample_decode_count_correct')], observe=['sample_decode_count_correct'])

prop('P16', 'The external decoder gets exactly the model and symptoms; answers land right',
     'The external decoding program is run once with the decomposed error model and one line per shot listing exactly that shot\'s symptoms (detectors, never observables), correlated mode exactly when asked for, and its answer on line i becomes the prediction for shot i, one column per observable. '
     'A missing or failing program or a missing or malformed answer is reported and never turned into predictions; the temporary files are removed afterwards (the case that failed may be preserved elsewhere for debugging).',
     'inputs fault_sequences', 'every symptom matrix and answer, every failure of the program',
     'The program is not installed where the tests run, so the tests skip it.',
     D, [('external decoder', f'{D}: decode_using_internal_decoder')], observe=['decode_using_internal_decoder; files and command line handed to the program'])

prop('P17', 'Sampling respects its budget and stopping rules for every batch history',
     'A problem is sampled in batches of at least one and at most the batch limit of shots, never exceeds the maximum number of shots, and is finished exactly when it has the maximum shots, or has the minimum shots together with either the required logical errors and the required spread of the error rate, or at least ten errors at an error rate of 48% or more. '
     'No batch is taken once it is finished, it is not left before, and every problem is sampled with its own circuit and decoder, one after another in the order given.',
     'histories inputs', 'every minimum, maximum, batch limit and required errors; every sequence of batch outcomes',
     'Tests run one small problem; the rules interact over the history of outcomes.',
     K, [('batching loop', f'{K}: collect_simulated_experiment_data')], observe=['calls to the sampler made by collect_simulated_experiment_data'])

prop('P18', 'Every completed batch is recorded faithfully and survives later failures',
     'After every completed batch the statistics file holds exactly one further complete line for it, under a header naming the columns, whose values are the problem\'s identifying values, the shots and correct shots of the batch and the time it took, readable by the reader. '
     'A failure or interruption at any later point (sampling, circuit construction, keyboard) loses none of the lines already there; existing contents are kept unless discarding was asked for; no file is touched if none is named.',
     'crash_points histories', 'every point of failure, every outcome, every problem description, file absent, kept, discarded or not asked for',
     'Tests look at the file after one successful run.',
     K, [('recording', f'{K}: collect_simulated_experiment_data, CSV_HEADER')], observe=['the statistics file'])

prop('P19', 'Reading and aggregating recorded statistics loses and invents nothing',
     'Reading any set of statistics files yields exactly the recorded problems, each with the sums of the shots, correct shots and times of its rows, never mixing problems that differ in any identifying field, independent of column order and of how a number is spelled. '
     'The aggregation tool prints one line per problem with those sums, in a form that reads back as the same data, for files and for directories searched recursively.',
     'inputs', 'every count, time and noise strength; rows equal or different in any single field; files, nested directories, column orders',
     'There is no test of aggregation and one fixed example of reading.',
     f'{K} src/paper/aggregate_csv_data.py', [('reader', f'{K}: read_recorded_data'), ('aggregation', 'src/paper/aggregate_csv_data.py: main')], observe=['read_recorded_data; standard output of the aggregation tool'])

prop('P20', 'Grouping, merging and filtering conserve statistics; remaining work adds up',
     'Grouping and filtering keep every selected problem with its statistics unchanged, grouping puts each problem under exactly its label, merging sums shots, correct shots and times per label, labels come out in sorted order, and the original data set is left alone; changing named fields of a problem description (falsy values included) changes exactly those. '
     'A problem counts as finished exactly when its shots or errors reach their limits or its error rate reaches the threshold with at least ten shots; then nothing remains, otherwise the missing shots and errors remain, and the estimated time is the smaller of the two extrapolations (infinite if unknown); no data counts as error rate one.',
     'inputs', 'every grouping function, every count, time, limit and threshold',
     'Tests do not exercise these operations beyond single examples.',
     K, [('data set algebra', f'{K}: ProblemShotData, ShotData, DecodingProblemDesc.with_changes'), ('remaining work', f'{K}: RemainingWork')], observe=['ProblemShotData, ShotData, RemainingWork, DecodingProblemDesc'])

prop('P21', 'Monotone search finds the best point; error-rate intervals are right',
     'Searching a nondecreasing function over an integer interval returns a point of the interval whose value is as close to the target as any, asking only points of the interval and only logarithmically many of them; an infinite value is never preferred to a finite one. '
     'The error rate interval of recorded shots lies in [0, 1], contains the observed rate, starts at 0 without errors and ends at 1 if all shots are errors, and otherwise its ends are where the likelihood relative to the maximum reaches the requested ratio, to within a hundredth of an error.',
     'inputs', 'every nondecreasing function, target and interval; every number of errors, ratio and likelihood shape',
     'Tests search two fixed functions and compare two intervals.',
     f'{U} {K}', [('search', f'{U}: binary_search'), ('interval', f'{K}: ShotData.likely_error_rate_bounds')], observe=['binary_search, ShotData.likely_error_rate_bounds'])

prop('P22', 'Binomial log likelihoods and log factorials are accurate everywhere',
     'The log factorial is accurate to within 0.005 for every n and exact (to rounding) below twenty. '
     'The log likelihood of seeing h hits in n samples equals ln(binomial(n, h) p^h (1-p)^(n-h)) to within 0.02 (relative 1e-5 for large values) for every p, p outside [0, 1] counting as the nearer end, is minus infinity exactly for impossible outcomes, never undefined, works element by element on arrays, and leaves its input alone.',
     'inputs', 'every n (unbounded), every probability including the ends and beyond, every pair of counts with hits <= samples',
     'Tests compare a handful of numbers.',
     U, [('likelihood', f'{U}: log_binomial'), ('Stirling', f'{U}: log_factorial')], observe=['log_binomial, log_factorial'])

prop('P23', 'Total logical error rates convert exactly to per-piece rates',
     'The per-piece error rate is the one for which that many independent pieces, each flipping with it, flip in total with the given rate: an odd number of flips has exactly the total probability. '
     'It is monotone, maps 0 to 0, one half to one half, is the identity for one piece, and treats rates above one half by mirror symmetry.',
     'inputs', 'every error rate in [0, 1], every number of pieces within bounds',
     'Tests evaluate a few numbers.',
     G, [('conversion', f'{G}: total_error_to_per_piece_error')], observe=['total_error_to_per_piece_error'])

exec(open(os.path.join(ROOT, 'tools', 'more_props.py')).read()) if os.path.exists(os.path.join(ROOT, 'tools', 'more_props.py')) else None

NOT_APPLICABLE = globals().get('NOT_APPLICABLE', [])
na = {x['property'] for x in NOT_APPLICABLE}

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        assert len([s for s in p['statement'].split('. ') if s.strip()]) <= 3, p['id']
        f.write(json.dumps(p) + '\n')

checks = []
for p in sorted(P, key=lambda p: p['id']):
    if p['id'] in na:
        continue
    src = open(os.path.join(ROOT, 'checks', p['id'].lower() + '.py')).read()
    env = {}
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ('BOUNDS', 'OUTSIDE', 'ASSUMPTIONS'):
            env[n.targets[0].id] = ast.literal_eval(n.value)
    note = ('Z3 decides the property for every value within the bounds, on the encoding obtained by executing the current source symbolically. '
            f"Bounds: {env['BOUNDS']}. Outside: {env['OUTSIDE']}. ")
    if env['ASSUMPTIONS']:
        note += f"Assumes: {'; '.join(env['ASSUMPTIONS'])}."
    checks.append({'property': p['id'], 'quick_cmd': f"bash run.sh {p['id']} quick", 'thorough_cmd': f"bash run.sh {p['id']} thorough",
                   'technique': 'symbolic execution of the real Python source with SMT (z3) verdicts, counterexamples replayed on the real code',
                   'level': 'model_checking', 'level_note': note, 'evidence_file': f"evidence/{p['id']}.json"})
man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': NOT_APPLICABLE,
       'notes': 'Checks import nothing from /repo at build time: every run re-reads /repo/src and encodes it anew. No hooks in /repo are needed.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(checks), 'checks')
