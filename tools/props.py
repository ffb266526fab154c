NS = 'pipedream_solver/nsuperlink.py'
SL = 'pipedream_solver/superlink.py'

NG = 'pipedream_solver/ngeometry.py'
GE = 'pipedream_solver/geometry.py'

prop('C01', 'Cross-section formulas of every conduit shape',
     'For every size of section and every pair of end depths, the flow area, wetted perimeter, top width and hydraulic radius of each of the ten regular shapes are the textbook values at the mean '
     'depth, kept between the bottom and the top of the section. Closed shapes that surcharge keep a top width equal to their slot, and no depth, including below the bottom and above '
     'the crown, leaves the formulas undefined.',
     ['inputs'], 'all depths (negative, partial, surcharged) and all positive sizes',
     SUITE + 'a formula that is wrong only in one range of depth or for one shape moves results slightly.',
     [NG], [('<Shape>_A_ik, _Pe_ik, _B_ik, _R_ik', NG)])
prop('C02', 'Vectorised section formulas agree with the scalar ones',
     'For every array length, the vectorised geometry of every shape computes, at each position, the textbook area, wetted perimeter, top width and hydraulic radius of the depths and sizes at that position, '
     'independently of the other positions.',
     ['inputs', 'configurations'], 'all array lengths, depths and positive sizes',
     SUITE + 'the two implementations drift apart silently.',
     [GE], [('geometry.<Shape>.A_ik/Pe_ik/B_ik/R_ik', GE)])
prop('C03', 'Surveyed transects and table interpolation',
     'For every polyline transect with non-decreasing stations and every water level, the area, top width and wetted perimeter are the sums over the wetted part of every segment. '
     'For every increasing table and argument, interpolation returns the end values outside the table, and the straight line or the nearest value between two points inside it.',
     ['inputs'], 'all transects with any number of points, all water levels, all tables',
     SUITE + 'no test has an irregular channel, and partial wetting of a segment has many cases.',
     [NG], [('Transect_A_ik, Transect_B_ik, Transect_Pe_ik', NG), ('interpolate_geometry', NG)])
prop('C04', 'Every link, superlink end and orifice gets the section of its own shape',
     'For every network mixing any shapes, the area, wetted perimeter, radius and top width of each link, of each superlink end and the opening of each orifice are those of its own shape, its own sizes and the depths at its own ends; '
     'links with a surveyed transect interpolate linearly in the table of their own transect, which is sampled from that transect.',
     ['inputs', 'configurations'], 'all networks, shape mixtures (including elliptical and irregular links anywhere), tables, depths and gate positions',
     SUITE + 'the tests use one or two shapes, so a mix-up between shapes, ends or tables is never seen.',
     [NS], [('link_hydraulic_geometry', NS), ('upstream_hydraulic_geometry', NS), ('downstream_hydraulic_geometry', NS), ('orifice_hydraulic_geometry', NS), ('configure_hydraulic_geometry', NS)],
     note='shape codes, default slots and transect tables set at construction are checked on random models, not proved')
prop('C05', 'Superjunction storage follows its area and volume curves',
     'For every superjunction and head, the storage surface area and stored volume are those of its own curve at the depth above the invert (at least the minimum depth): the power-law area '
     'and its integral, or linear interpolation of the table with the area held constant outside it. Tabulated volumes are the integral of the tabulated area over depth, '
     'and every superjunction uses its own table.',
     ['inputs', 'configurations'], 'all heads, curve parameters, numbers of superjunctions and tables, table lengths (areas and volumes not decreasing with depth)',
     SUITE + 'no test has tabular storages, and interpolation and extrapolation must hold at every depth.',
     [NS], [('compute_storage_areas', NS), ('compute_storage_volumes', NS), ('configure_storages', NS), ('numba_compute_tabular_storage_areas', NS)],
     note='laying out the tables at construction is checked on random models, not proved')
prop('C06', 'Link momentum coefficients encode the Saint-Venant momentum balance',
     'For every pipe network, state and time step, the momentum coefficients the compiled solver computes for each link are '
     'those of the semi-implicit momentum equation: upwinded convection from the node velocities, inertia over the time step, '
     'friction by the link\'s own method (Manning, Hazen-Williams or Darcy-Weisbach), local control-structure losses, and '
     'gravity/bed-slope forcing. A time step passed by the caller takes the place of the model\'s own.',
     ['inputs', 'configurations'], 'all link counts, layouts, hydraulic states, friction methods and time steps',
     SUITE + 'coefficient errors only shift results and no assertion would see them.',
     [NS], [('link_coeffs', NS), ('numba_a_ik/b_ik/c_ik/P_ik', NS), ('friction_slope', NS)])
prop('C07', 'Node continuity coefficients encode storage and inflow at every node',
     'For every network, state and time step, the continuity coefficients of every internal node equal the surface storage of the half links '
     'adjoining it (including the end segments of the superlink) plus its own surface area, over the time step, and the '
     'lateral inflow plus that storage times the previous depth.',
     ['inputs', 'configurations'], 'all layouts, states, lateral inflows and time steps',
     SUITE + 'mass stored at nodes is never compared with geometry.',
     [NS], [('node_coeffs', NS), ('numba_node_coeffs', NS)])
prop('C08', 'Recurrences along a superlink are an exact elimination of its interior equations',
     'For every superlink of any length and any coefficients with non-vanishing pivots, the forward and backward recurrences express each link flow '
     'as a linear function of one neighbouring depth and one end depth that satisfies that link\'s momentum '
     'equation exactly once continuity at the neighbouring nodes holds.',
     ['inputs', 'configurations'], 'all superlink lengths, all coefficient values',
     SUITE + 'the recurrences are loops over arbitrarily many links; a test samples a few lengths.',
     [NS], [('forward_recurrence', NS), ('backward_recurrence', NS)])
prop('C09', 'Superlink ends tie flow to superjunction heads consistently',
     'For every network, state, time step and end boundary method, the end-depth relations encode entrance/exit loss (plus slope, friction and '
     'inertia for the momentum method) opposing the flow at each end, and the end flow coefficients are the exact solution of '
     'the recurrences with those relations: substituting them back satisfies both end equations for all upstream and downstream heads.',
     ['inputs', 'configurations'], 'all networks, states, time steps, both boundary methods and both end-equation variants',
     SUITE + 'a sign or scale error in one end coefficient still runs to completion.',
     [NS], [('superlink_upstream_head', NS), ('superlink_downstream_head', NS), ('superlink_flow_coefficients', NS)])
prop('C10', 'Superjunction equations are the mass balance of every superjunction',
     'For every network topology (including parallel, self-returning and flow-control elements), state, inflow and boundary setting, row j of the '
     'assembled system states that stored volume change of superjunction j equals inflow plus flow of all entering elements minus flow of all leaving '
     'ones, each taken as a linear function of the two heads it joins. Rows of boundary superjunctions prescribe the given head and nothing else.',
     ['inputs', 'configurations', 'histories'], 'all topologies, element mixes, states, inflows and boundary settings; any previously assembled matrix on the same topology',
     SUITE + 'a balance holds for every graph, and tests contain only a few small ones.',
     [NS], [('sparse_matrix_equations', NS), ('numba_create_A_matrix', NS), ('numba_create_OWP_matrix', NS), ('numba_add_at', NS)])

prop('C11', 'Superjunction heads solve the assembled system within physical limits',
     'For every network, the heads of a step are the solution of the whole assembled system (pipes, orifices, weirs and pumps together), limited to lie between '
     'the invert and the invert plus the maximum depth of each superjunction. Solving in banded form uses a band that covers every pair of '
     'connected superjunctions and gives the same system.',
     ['inputs', 'configurations'], 'all networks, assembled systems, depth limits and bandwidths',
     SUITE + 'banded and dense solution are never compared, and a wrong band only shows for some numberings.',
     [NS, SL], [('solve_sparse_matrix', NS), ('solve_banded_matrix', NS), ('numba_create_banded', NS), ('_compute_bandwidth', SL)],
     note='that scipy solves the system handed to it is assumed; that the band covers every connection is checked on random networks, not proved')

prop('C12', 'Orifice discharge and its linearisation follow the orifice law',
     'For every orifice, pair of heads, opening and storage, the discharge is the orifice law of the active regime (submerged both sides, one side, '
     'overflow or dry), runs from the higher to the lower head, is zero for a one-way orifice with adverse heads, and never exceeds the water stored at its source over the time '
     'step. The linear coefficients handed to the network equations are the same law linearised about the previous discharge.',
     ['inputs', 'configurations'], 'all heads, geometries, openings, orientations, storages and time steps',
     SUITE + 'regime boundaries and reversed flow are not exercised.',
     [NS], [('orifice_flow_coefficients', NS), ('solve_orifice_flows', NS)])
prop('C13', 'Weir discharge and its linearisation follow the weir law',
     'For every weir, pair of heads and gate setting, the effective head is the head above the raised crest (or the head difference when both sides are above it), and the discharge is the '
     'combined rectangular/triangular weir law for that head, signed from the higher to the lower side. The linear coefficients handed to the network equations are the same '
     'law linearised about the previous discharge.',
     ['inputs', 'configurations'], 'all heads, geometries and gate settings',
     SUITE + 'regime boundaries and reversed flow are not exercised.',
     [NS], [('weir_flow_coefficients', NS), ('solve_weir_flows', NS)])
prop('C14', 'Pump discharge and its linearisation follow the pump curve',
     'For every pump, pair of heads and control signal, the pump delivers the flow of its curve at the head difference clipped to the operating range and '
     'nothing when the inlet is not submerged. The linear coefficients handed to the network equations are the curve linearised about the previous '
     'flow inside the range and constant outside it.',
     ['inputs', 'configurations'], 'all heads, pump curves and control signals',
     SUITE + 'the operating-range limits are not exercised.',
     [NS], [('pump_flow_coefficients', NS), ('solve_pump_flows', NS)])
prop('C15', 'Flows and depths inside superlinks follow from the new heads',
     'For every network and state, end flows and end depths are the linear responses to the new heads. Going down every superlink, each link flow and interior depth then '
     'satisfies the recurrence relations, with depths kept between the minimum depth and the maximum depth of the superlink.',
     ['inputs', 'configurations'], 'all superlink lengths, coefficients, heads and depth limits',
     SUITE + 'the recovery is a loop of unbounded length whose errors only shift results.',
     [NS, SL], [('solve_superlink_flows', SL), ('solve_superlink_depths', SL), ('solve_internals_backwards', NS), ('solve_internals_forwards', NS),
     ('numba_solve_internals', NS), ('superlink_flow_from_recurrence', NS)],
     note='the least-squares variant is checked on random networks, not proved')

NQ = 'pipedream_solver/nquality.py'
prop('C20', 'Water quality equations of links and junctions are contaminant mass balances',
     'For every water quality model, hydraulic state, diffusion, decay and time step, the equation of every link, superlink end and junction states that the change of stored contaminant '
     'mass equals upwind advection plus diffusion in, minus the same out, minus decay, plus direct inflow, with both neighbours of an interface exchanging the same flux. '
     'Flows at the interfaces and flow areas are those of the hydraulic state, including filling and emptying during the step.',
     ['inputs', 'configurations'], 'all networks of supported sections, hydraulic states, diffusion and decay constants, time steps',
     SUITE + 'three water quality scripts are only run to completion.',
     [NQ], [('import_hydraulic_states', NQ), ('link_coeffs', NQ), ('node_coeffs', NQ), ('geometry_WQ1', NQ), ('geometry_WQ2', NQ)])
prop('C21', 'Water quality recurrences eliminate the inside of a superlink exactly',
     'For every superlink of any length with non-vanishing pivots, the water quality recurrences express each concentration inside it through one neighbour and one end so that all link '
     'and junction balances hold, and the concentrations at its two ends are the exact response to the two superjunction concentrations.',
     ['inputs', 'configurations'], 'all superlink lengths and coefficient values with non-vanishing pivots (positive diffusion at the ends)',
     SUITE + 'the recurrences are loops over arbitrarily many links.',
     [NQ], [('forward_recurrence', NQ), ('backward_recurrence', NQ), ('boundary_coefficients', NQ)])
prop('C22', 'Superjunction concentrations solve the contaminant mass balance of the network',
     'For every topology, state, inflow and boundary setting, row j of the assembled water quality system is the contaminant mass balance of superjunction j over its superlinks and flow '
     'controls (upwind, with end diffusion), and rows of boundary superjunctions prescribe the given concentration. The concentrations are the solution of the whole system, limited to the allowed range, in dense and banded form.',
     ['inputs', 'configurations', 'histories'], 'all topologies, element mixes, states, inflows and boundary settings; any previously assembled matrix on the same topology',
     SUITE + 'a balance holds for every graph, and tests contain only a few small ones.',
     [NQ], [('sparse_matrix_equations', NQ), ('solve_sparse_matrix', NQ), ('solve_banded_matrix', NQ), ('numba_create_A_matrix', NQ), ('numba_create_OWP_matrix', NQ)],
     note='that scipy solves the system handed to it is assumed')
prop('C23', 'Concentrations inside superlinks follow from the superjunctions and stay in range',
     'For every water quality model, concentrations at superlink ends are the linear response to the new superjunction concentrations, those inside satisfy the recurrence relations, '
     'and every concentration of the state lies within the configured minimum and maximum. A step uses the given inputs, or the inflows of the hydraulic model by default.',
     ['inputs', 'configurations', 'histories'], 'all superlink lengths, coefficients, limits and inputs',
     SUITE + 'limits and internal recovery only show for some states.',
     [NQ], [('solve_boundary_states', NQ), ('solve_internals_backwards', NQ), ('solve_internals_forwards', NQ), ('numba_solve_internals', NQ), ('step', NQ)],
     note='whole steps are checked on random models, not proved')

prop('C16', 'A time step runs every stage in order, once per iteration, and keeps its books',
     'For every configuration of devices, solver and internal method, a step computes sections and coefficients, assembles, solves and recovers in dependency order, each stage once per iteration with the '
     'inputs and time step given. Time and step count advance by exactly one step however many iterations are made (at least one, at most those asked for), and the states '
     'recorded for the step are those before it. Spin-up makes the steps asked for and restarts time and count.',
     ['inputs', 'configurations', 'histories'], 'all device and solver configurations, inputs, time steps, numbers of iterations, tolerances and intermediate states',
     SUITE + 'a stage skipped, repeated, or run on stale inputs still gives plausible numbers.',
     [SL], [('step', SL), ('_setup_step', SL), ('_solve_step', SL), ('save_state', SL), ('spinup', SL)],
     note='stages are called through contracts (order, arguments, frame); the frame is checked syntactically on attribute writes and on random models for writes through references')
prop('C17', 'A saved state is a complete independent copy, and resuming from it repeats the run',
     'For every model, saving records every hydraulic state as a copy, and loading a saved or given state restores all of it (but excluded entries) as copies before sections and velocities are '
     'recomputed from it. A run resumed from a saved state, in the same or an identically built model, repeats the original.',
     ['inputs', 'configurations', 'histories'], 'all states and device configurations; for resumed runs, random models and runs',
     SUITE + 'no test saves or loads a state.',
     [SL], [('save_state', SL), ('load_state', SL), ('link_hydraulic_geometry', NS)],
     note='that a resumed run repeats the original is checked on random models, not proved')

BOUNDED = 'contract-based bounded checking: machine-checked contracts evaluated on real calls over random models (not proved)'
prop('C18', 'Movable junctions follow the water surface without changing the flow state',
     'For every model with movable junctions, repositioning places the movable junction of a superlink where the downstream head meets the bed if that lies inside the superlink, and at its home position '
     'otherwise. Other junctions stay; order, link lengths, inverts on the bed, interpolated depths and the flow of split or joined links are kept, and superlinks not asked for are untouched.',
     ['inputs', 'configurations', 'histories'], 'any number of superlinks and links, any heads, flows and positions; sequences of moves',
     SUITE + 'no test moves a junction.',
     [NS], [('reposition_junctions', NS), ('numba_reposition_junctions', NS)],
     note='proved for every superlink, position and downstream head from the layout and the bed of a built model (uneven inverts excluded) and the contract of numpy sorting; the same statements are evaluated on '
          'real models and sequences of moves, where layout and bed are established, not assumed. A target exactly on another junction is excluded (either order is right). ' + PROOF)
prop('C19', 'A constructed model is the network described by its tables',
     'For every valid pair of link and junction tables, each superlink has the end elevations, offsets, shapes and coefficients given for its own ends, with the higher end upstream, and its interior '
     'junctions evenly spaced on the line between them. The numbering used by all computations is consistent, input tables are not modified, and renumbering for the banded solver changes numbers only.',
     ['inputs', 'configurations'], 'random networks, tables and options',
     SUITE + 'the few example networks all slope in their nominal direction.',
     [SL], [('_configure_internals_variable', SL), ('__init__', SL), ('configure_hydraulic_geometry', NS)], level='exploration', tech=BOUNDED,
     note='construction from tables runs through pandas, which is outside the engine; contracts are checked on real constructions')

NI = 'pipedream_solver/ninfiltration.py'
IN = 'pipedream_solver/infiltration.py'
prop('C24', 'Infiltration respects the water available and the capacity of the soil',
     'For every valid soil state, rainfall and time step, each infiltration step takes no more water than rainfall and ponding supply and never a negative amount while it rains, adds exactly rate times step to '
     'the cumulative infiltration, lowers the moisture deficit of the upper layer by the water taken, and turns the remaining rain into runoff. Cumulative infiltration, moisture deficits and ponding depth stay within '
     'their physical ranges in wet and dry weather, the ponding depth grows only where more rain falls than infiltrates, and no element affects another.',
     ['inputs', 'states', 'histories'], 'any number of soil elements in any mixture of regimes, any rainfall and step',
     SUITE + 'no test exercises infiltration at all.', [NI, IN],
     [('saturated_case', NI), ('unsaturated_case_1', IN), ('unsaturated_case_2', IN), ('unsaturated_case_3', NI), ('step', NI), ('compute_runoff', IN), ('compute_ponding_depth', IN)])
prop('C25', 'Infiltration follows the Green-Ampt equations in every regime',
     'For every valid soil state, rainfall and time step, each element follows the law of its regime: light rain infiltrates entirely; on a ponding surface the cumulative infiltration solves the integrated Green-Ampt equation, '
     'limited by the water available; ponding that begins within a step infiltrates everything until then and follows the equation afterwards; dry weather lets the soil recover and begins a new event after the recovery time. '
     'An element is treated as saturated exactly while its infiltration capacity does not exceed the available rainfall.',
     ['inputs', 'states', 'histories'], 'any number of soil elements in any mixture of regimes, any rainfall and step',
     SUITE + 'no test exercises infiltration at all.', [NI, IN],
     [('saturated_case', NI), ('unsaturated_case_1', IN), ('unsaturated_case_2', IN), ('unsaturated_case_3', NI), ('step', NI), ('run_green_ampt_newton', NI), ('integrated_green_ampt', IN)],
     note='the zero returned by the bounded iteration is an assumed contract, checked on real calls only; everything else is discharged')

SI = 'pipedream_solver/simulation.py'
NU = 'pipedream_solver/nutils.py'
prop('C26', 'A simulation drives the model with its forcing data at the end of each step',
     'For every table of forcing data and every step, the model receives inflows, boundary stages and interior inflows sampled at the time the step ends: exactly the tabulated values at their times, linear (or nearest) in between, '
     'and the first or last value outside the table. Values given explicitly take precedence, each column reaches its own junction even if the model renumbers junctions, and the caller\'s tables are not modified.',
     ['inputs', 'histories', 'configurations'], 'tables of any length, any time, step and combination of given and tabulated forcing',
     SUITE + 'the smoke tests use constant or smooth forcing, for which sampling errors do not show.', [SI, NU, 'pipedream_solver/utils.py'],
     [('interpolate_sample', NU), ('_step', SI), ('step', SI), ('record_state', SI)],
     note='sampling and what one step passes to the model are proved; column order and recorded states of whole simulations are checked on real runs')
prop('C27', 'Adaptive steps respect their limits and are accepted by their error',
     'For every error history and every setting, the proposed step size lies between the minimum and the maximum step and follows the stated controller; the error estimate is the chosen norm of the difference between one coarse and several fine steps '
     'relative to the tolerance of the heads. A step advances time by exactly the accepted size from the state before the step, and is repeated with half the size only while its error exceeds the tolerance, retries remain and the minimum is not reached.',
     ['inputs', 'histories', 'configurations'], 'any error and step history, limits, norms, subdivisions and retries',
     SUITE + 'no test uses subdivisions, retries or the step-size controllers.', [SI],
     [('compute_step_size', SI), ('filter_step_size', SI), ('_scaled_error', SI), ('_normed_error', SI), ('step', SI)],
     note='controllers and error norms are proved; retries and restored states of whole steps are checked on real runs')
