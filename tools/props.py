"""The properties: one record each, written to properties.jsonl by
gen_manifest.py.  P(id, title, statement, over, quantifier text, why, files,
mechanism [(name, where)], observe_at, level_note)."""
PROPS = []


def P(id, title, statement, over, q, why, files, mech, observe, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q,
                      why=why, files=files, mech=mech, observe=observe,
                      note=note))


SR = 'ghedt/search_routines.py'
UT = 'ghedt/utilities.py'
DO = 'ghedt/domains.py'
CO = 'ghedt/coordinates.py'
FR = 'ghedt/feature_recognition.py'
GF = 'ghedt/gfunction.py'
GH = 'ghedt/ground_heat_exchangers.py'
DE = 'ghedt/design.py'
OU = SR
PL = 'ghedt/peak_load_analysis_tool/'

P('C01', '1D field search returns a feasible field of its domain',
  'When the one-dimensional search returns, the selected key names a field of '
  'the domain, the selected coordinates and the returned exchanger are that '
  'field, and its excess temperature at the maximum height is at most zero.  '
  'It raises an error only when no end of the domain brackets a solution.',
  ['inputs'], 'every assignment of excess temperatures to the fields, exactly '
  'zero included, and every domain length within the bounds',
  'the tests run four designs with one physical load each; the outcome depends '
  'on the order of signs met by the bisection',
  [SR, UT], [('Bisection1D.search', SR), ('check_bracket', UT), ('sign', UT)],
  ['Bisection1D.selection_key', 'Bisection1D.ghe'],
  'thermal response replaced by an arbitrary function of field and height')
P('C02', '1D field search returns the smallest feasible field',
  'If a larger field never has a larger excess temperature, the '
  'one-dimensional search selects the first feasible field of the domain.',
  ['inputs'], 'every strictly decreasing sequence of excess temperatures',
  'the tests pin one selected field per load; off-by-one selections for other '
  'positions of the threshold are not visited',
  [SR], [('Bisection1D.search', SR)], ['Bisection1D.selection_key'],
  'needs the stated monotonicity, which the docs give as the premise')
P('C03', 'Nested 2D search returns a feasible field of the nested domain',
  'When the nested search over lists of fields returns, the selected field is '
  'a member of the inner list it reports, its excess temperature at the '
  'maximum height is at most zero, and no list outside the nested domain is '
  'ever searched.  If larger fields never have a larger excess temperature, '
  'the list searched is the first whose largest field is feasible and the '
  'field selected the smallest feasible one of that list.', ['inputs'],
  'every assignment of excess temperatures to the fields of every nested '
  'domain within the bounds',
  'one test with one load; the path through outer and inner search depends on '
  'the signs', [SR], [('Bisection2D.__init__', SR)],
  ['Bisection2D.selection_key', 'Bisection2D.selected_coordinates'],
  'thermal response arbitrary')
P('C04', 'Zoned 2D search returns the cheapest feasible field it sized',
  'When the zoned search returns, every candidate it sized came from the '
  'nested domain, and the selected field is a candidate whose total drilled '
  'length is the least among the feasible ones it sized.  The walk over the '
  'lists goes on while the drilled length does not rise and the next list can '
  'be solved, for up to seven lists, whatever the size of the fields.',
  ['inputs'],
  'every assignment of excess temperatures and required heights to the fields '
  'of every nested domain within the bounds',
  'one test with one load; the tie and order cases of the final selection are '
  'not visited', [SR], [('BisectionZD.search_successive', SR)],
  ['BisectionZD.selection_key', 'BisectionZD.selected_coordinates'],
  'thermal response and sizing arbitrary')
P('C05', 'Flow is conserved between system, boreholes and g-functions',
  'With a per-borehole design flow every borehole carries that flow and the '
  'system carries it times the number of boreholes; with a system flow every '
  'borehole carries an equal share.  The mass flow used for borehole models '
  'and for every g-function is the volumetric borehole flow (L/s) times the '
  'fluid density over 1000, and any other flow keyword is refused.',
  ['inputs', 'configurations'], 'every flow, fluid density and field size',
  'tests use a single flow and never compare the flow seen by g-functions, '
  'search and exchanger', [SR, GH],
  [('Bisection1D.retrieve_flow', SR), ('BaseGHE.__init__', GH),
   ('GHE.compute_g_functions', GH)],
  ['arguments of compute_live_g_function', 'BaseGHE.V_flow_borehole'],
  'borehole model classes replaced by recorders')
P('C06', 'Sizing returns a height inside the limits that meets the limit',
  'Sizing leaves the exchanger at a height between the minimum and the maximum '
  'height.  If the required height is inside the limits the excess temperature '
  'there is zero within the solver tolerance; if even the minimum height is '
  'more than enough the result is the minimum height, and if the maximum '
  'height is not enough it is the maximum height; the stored temperatures '
  'belong to the returned height.', ['inputs'],
  'every decreasing response of the excess temperature to the height, and all '
  'height limits', 'tests size only designs with an interior solution',
  [GH, PL + 'equivalance.py'],
  [('GHE.size', GH), ('solve_root', PL + 'equivalance.py')],
  ['GHE.bhe.b.H', 'GHE.hp_eft'],
  'simulation replaced by an arbitrary decreasing function of the height; '
  'brentq by its contract')
P('C07', 'Near-square domains are ordered, square and bounded',
  'The near-square domain holds, in strictly increasing borehole count, the '
  'fields n by n and n by n+1 for every n from the lower to the upper bound, '
  'with boreholes exactly one spacing apart.', ['inputs'],
  'every spacing and every pair of bounds',
  'tests build one domain and compare nothing in it', [DO],
  [('square_and_near_square', DO)], ['returned domain'],
  'bounds enumerated up to the stated limit, spacing symbolic')
P('C08', 'Uniform rectangular domains fit the land and grow',
  'Every field of the rectangular domain lies inside the land, its spacing is '
  'the same in both directions and within the minimum and maximum spacing, and '
  'the fields are in strictly increasing borehole count.', ['inputs'],
  'every land size and spacing range', 'tests pin one land size', [DO, CO],
  [('rectangular', DO)], ['returned domain'],
  'row counts bounded, lengths and spacings symbolic')
P('C09', 'Bi-rectangle domains fit the land within both spacing limits',
  'Every field of the bi-rectangle domains lies inside the land, keeps at '
  'least the minimum spacing and at most the direction\'s maximum spacing in '
  'each direction, and each inner domain is in strictly increasing borehole '
  'count.', ['inputs'], 'every land size and spacing range, either orientation',
  'tests pin one land size and one orientation', [DO, CO],
  [('bi_rectangular', DO), ('bi_rectangle_nested', DO)], ['returned domains'],
  'row counts bounded, lengths and spacings symbolic')
P('C10', 'Bi-zoned domains fit the land within the spacing limits',
  'Every field of the bi-zoned domains lies inside the land with distinct '
  'boreholes no closer than the minimum spacing, every zone is wound around '
  'the land perimeter whichever side is longer, and each inner domain is in '
  'non-decreasing borehole count.', ['inputs'],
  'every land size and spacing range, either orientation',
  'tests pin one land size and one orientation', [DO, CO],
  [('bi_rectangle_zoned_nested', DO), ('zoned_rectangle_domain', DO),
   ('zoned_rectangle', CO)], ['returned domains'],
  'row counts bounded, lengths and spacings symbolic')
P('C11', 'Coordinate generators give the shape that was asked for',
  'The rectangle, open rectangle, L, U and zoned generators return exactly '
  'the lattice points of their shape: distinct points, the whole perimeter '
  'parts the shape names, nothing outside the bounding rectangle, for every '
  'valid row count and spacing.', ['inputs'],
  'every row count within the bounds and every positive spacing',
  'the tests draw a few shapes and check counts of two', [CO],
  [('rectangle', CO), ('open_rectangle', CO), ('U_shape', CO),
   ('L_shape', CO), ('zoned_rectangle', CO)], ['returned coordinates'],
  'row counts bounded, spacings symbolic')
P('C12', 'Swapping the sides of the land transposes the design domain',
  'Describing the same land with length and width exchanged yields the same '
  'domain with x and y exchanged (or the very same fields up to that '
  'exchange), field by field.', ['inputs'],
  'every land size and spacing range',
  'no test compares the two orientations', [DO, CO],
  [('rectangular', DO), ('bi_rectangle_nested', DO),
   ('bi_rectangle_zoned_nested', DO), ('transpose_coordinates', CO)],
  ['returned domains'], 'row counts bounded, lengths and spacings symbolic')
P('C13', 'Polygon constraints keep boreholes on the property and off no-go zones',
  'After the land and building polygons are applied, every remaining borehole '
  'lies inside or on the property outline and not inside a building outline, '
  'no borehole that satisfies both is dropped, and the order within a field '
  'is kept.', ['inputs'], 'every borehole position against each outline',
  'one polygon and one drawn picture; no assertion about the excluded points',
  [FR, DO], [('remove_cutout', FR), ('polygonal_land_constraint', DO)],
  ['returned fields'],
  'point-in-polygon of the imaging library replaced by the exact predicate; '
  'outlines from a list')
P('C14', 'Domain ordering and size arithmetic lose nothing',
  'Ordering a domain by borehole count returns every field exactly once in '
  'non-decreasing count; row counts, side lengths and polygon areas computed '
  'by the helpers are mutually consistent.', ['inputs'],
  'every sequence of field sizes, row count and spacing',
  'no test calls these helpers with ties or non-trivial numbers', [DO, UT],
  [('reorder_domain', DO), ('length_of_side', UT), ('number_of_boreholes', UT),
   ('polygonal_area', UT)], ['return values'], 'sizes bounded')
P('C15', 'Heat rejection and extraction split the load exactly',
  'Splitting an hourly load gives non-negative rejection and extraction '
  'series whose difference is the load (in kW), with at most one of them '
  'non-zero in any hour.', ['inputs'], 'every hourly load',
  'tests read one load file', [PL + 'ground_loads.py'],
  [('split_heat_and_cool', PL + 'ground_loads.py')],
  ['hourly_rejection_loads', 'hourly_extraction_loads'],
  'series length bounded; the split is element-wise')
P('C16', 'Monthly totals, peaks and peak days summarise the right hours',
  'For every month the totals, averages and peaks of rejection and extraction '
  'are those of exactly the hours of that month, the peak day is the day of '
  'the peak hour, and the load window used for the peak duration contains '
  'that hour.', ['inputs'],
  'every value and position of the hourly loads',
  'tests pin two loads; month borders and peaks in the last hour of a day are '
  'not sampled', [PL + 'ground_loads.py'],
  [('split_load_by_month', PL + 'ground_loads.py'),
   ('process_two_day_loads', PL + 'ground_loads.py')],
  ['monthly_*', 'two_day_hourly_peak_*'],
  'all hours outside a symbolic set of hours are fixed numbers')
P('C17', 'The hybrid load conserves monthly energy',
  'In every simulated month the hybrid time-step load integrates to the '
  'month\'s total load, for a constant base load and for one or two peaks in '
  'the month, on the same or on different days.', ['inputs'],
  'every monthly total, peak, peak day and duration',
  'tests pin two loads', [PL + 'ground_loads.py'],
  [('process_monthly_loads', PL + 'ground_loads.py')], ['load', 'hour'],
  'monthly quantities symbolic, months bounded')
P('C18', 'The hybrid time axis increases and ends at the horizon',
  'The hybrid time steps are strictly increasing, start where the first '
  'simulated month does, end with the '
  'last hour of the last simulated month, contain each month end, and have one '
  'load per step; the step-change series sums to the last load.', ['inputs'],
  'every monthly total, peak, peak day and duration and every horizon',
  'tests pin two loads and one horizon', [PL + 'ground_loads.py'],
  [('process_monthly_loads', PL + 'ground_loads.py')],
  ['hour', 'load', 'sfload'], 'months bounded')
P('C19', 'Peak durations are found for every load',
  'The duration of each monthly peak is a number from 0 to 48 hours whose '
  'equivalent square pulse raises the fluid temperature at the wall as much as '
  'the hourly loads do, and finding it never fails.', ['inputs'],
  'every 48 hour load window and every short-time g-function that increases',
  'tests pin two loads', [PL + 'ground_loads.py'],
  [('find_peak_durations', PL + 'ground_loads.py'),
   ('perform_hrly_LT_Sim / simulate_hourly', PL + 'ground_loads.py')],
  ['monthly_peak_cl_duration', 'monthly_peak_hl_duration'],
  'simulated temperature responses are symbolic')
P('C20', 'Calendar helpers agree with a 365-day calendar',
  'First and last hour of a simulated month, days in a month and the month and '
  'hour-range helpers describe a calendar of 365-day years in which '
  'consecutive months tile the time axis without gap or overlap; a peak load '
  'is centred on noon of its day.', ['inputs'],
  'every month of the simulated horizon', 'tests never call them directly',
  [PL + 'ground_loads.py'],
  [('firstmonthhour', PL + 'ground_loads.py'),
   ('lastmonthhour', PL + 'ground_loads.py'),
   ('monthdays', PL + 'ground_loads.py')], ['return values'],
  'months bounded')
P('C21', 'Simulated temperatures are the temporal superposition of the loads',
  'The borehole wall and entering-fluid temperatures of every time step are '
  'the ground temperature plus the exact superposition of all earlier load '
  'steps with the g-function plus the borehole resistance term; they are '
  'causal, scale linearly with the load and vanish for zero load.',
  ['inputs'], 'every load series, time axis and increasing g-function',
  'tests compare one sized height', [GH],
  [('BaseGHE._simulate_detailed', GH)], ['GHE.hp_eft', 'GHE.dTb'],
  'number of steps bounded')
P('C22', 'Hourly simulation covers exactly the requested months',
  'The hourly simulation runs for every number of months, returns one '
  'temperature per simulated hour, repeats the yearly load, and reports the '
  'maximum and minimum over the simulated hours; hourly and hybrid simulation '
  'both begin with the loads of the start month.',
  ['inputs', 'configurations'],
  'every horizon in months within the bounds and every load',
  'tests use whole years only', [GH], [('GHE.simulate', GH)],
  ['GHE.hp_eft', 'return value'], 'horizon bounded')
P('C23', 'g-function interpolation is exact and history independent',
  'At a stored ratio the interpolated g-function equals the stored curve, '
  'between stored ratios it is bounded as the stored curves bound it for '
  'linear interpolation, one call never changes the result of a later one, and '
  'a lone stored curve is used only at its own ratio.',
  ['inputs', 'histories'],
  'every stored set of curves, queried ratio and order of queries',
  'tests query one stored set once', [GF],
  [('GFunction.g_function_interpolation', GF)], ['returned curve'],
  'up to five stored curves with a few values')
P('C24', 'Borehole radius correction follows ln(r/r*)',
  'Correcting a g-function from radius r* to r subtracts ln(r/r*) from every '
  'value, correcting to the same radius changes nothing, two corrections '
  'compose, and the exact inverse restores the curve; an exchanger uses '
  'the long-time curve corrected to the radius of its own borehole.',
  ['inputs'],
  'every curve and every pair of positive radii',
  'never asserted by a test', [GF],
  [('GFunction.borehole_radius_correction', GF)], ['returned curve'],
  'logarithm as an uninterpreted function with its functional equation')
P('C25', 'A stored g-function database loads back unchanged',
  'Loading a g-function library file keeps every curve, height, burial depth, '
  'radius, spacing and borehole location of the file, for any key order and '
  'either library format.', ['inputs', 'configurations'],
  'every numeric content of a library entry', 'tests load two files', [GF],
  [('GFunction.configure_database_file_for_usage', GF)],
  ['GFunction attributes'], 'entry sizes bounded')
P('C26', 'Short- and long-time g-functions join into one increasing time axis',
  'Combining a short-time-step and a long-time-step g-function gives '
  'strictly increasing times, keeps every long-time value, keeps exactly the '
  'short-time values earlier than the first long time, and never fails.',
  ['inputs'], 'every pair of time axes and curves, overlapping or not, touching included',
  'tests combine one pair', [GH], [('BaseGHE.combine_sts_lts', GH)],
  ['returned interpolator'], 'lengths bounded')
P('C27', 'The equivalent borehole preserves volumes and resistances',
  'Converting a multiple U-tube or coaxial exchanger to an equivalent single '
  'U-tube keeps fluid and pipe-wall volume, flow, fluid, soil, height and '
  'depth; the two legs lie in the borehole without overlap and the borehole '
  'grows only if they do not fit; film plus wall resistance is matched by the '
  'pipe conductivity (within a hundredth to ten times that of the wall alone) '
  'and the effective borehole resistance by the grout conductivity (0.01 to '
  '7 W/mK), or the closest bound is taken; the original '
  'exchanger is left unchanged.', ['inputs'],
  'every tube geometry, resistance and fluid within physical ranges',
  'tests pin three exchangers', [PL + 'equivalance.py'],
  [('compute_equivalent', PL + 'equivalance.py'),
   ('equivalent_single_u_tube', PL + 'equivalance.py')],
  ['returned exchanger'], 'borehole thermal models arbitrary')
P('C28', 'Root solving returns a root, or the better bound',
  'The bounded root solver returns a value inside its bounds: the root within '
  'tolerance when the bounds bracket one (a bound that is itself the root '
  'included), otherwise the bound whose sign of the residual it documents, and '
  'it never fails for a finite continuous function.', ['inputs'],
  'every function shape seen through its values and every pair of bounds',
  'exercised only through two designs', [PL + 'equivalance.py'],
  [('solve_root', PL + 'equivalance.py')], ['return value'],
  'brentq replaced by its contract')
P('C29', 'Exchanger models share the flow and survive updates',
  'Each U-tube of a borehole carries the borehole flow (in series) or the '
  'borehole flow divided by the number of parallel tubes, its film and wall '
  'resistances are those of that flow, fluid and pipe, and updating an '
  'exchanger for a new flow, fluid or pipe conductivity, or asking for the '
  'borehole resistance at another flow or fluid, gives the same resistances '
  'as building it afresh with them.',
  ['inputs', 'histories'], 'every flow, pipe and fluid, and every order of '
  'one or two updates',
  'tests never update an exchanger and compare',
  [PL + 'borehole_heat_exchangers.py'],
  [('update_thermal_resistance', PL + 'borehole_heat_exchangers.py'),
   ('compute_resistances', PL + 'borehole_heat_exchangers.py')],
  ['m_flow_pipe', 'R_fp', 'R_ff', 'R_f', 'R_p',
   'compute_effective_borehole_resistance'],
  'film coefficient and borehole resistance arbitrary functions')
P('C30', 'Reynolds numbers are those of the pipe cross section',
  'The reported Reynolds number is the mass flow times the hydraulic diameter '
  'over viscosity and flow area, for round pipes and annuli, positive, '
  'proportional to flow and independent of the fluid density.', ['inputs'],
  'every flow and geometry', 'tests never assert it',
  [PL + 'borehole_heat_exchangers.py'],
  [('compute_Reynolds', PL + 'borehole_heat_exchangers.py'),
   ('compute_Reynolds_concentric', PL + 'borehole_heat_exchangers.py')],
  ['return value', 'printed report'], 'pi as its float value')
P('C31', 'Pipe placement keeps legs apart and inside the borehole',
  'Placed pipe legs come in distinct, evenly spread positions on one circle '
  'around the borehole axis; the two legs of a tube (positions j and j + n '
  'of n tubes, as the borehole models pair them) face each other with the '
  'requested spacing between their outer walls.',
  ['inputs'], 'every shank spacing, pipe radius and number of tubes within '
  'the bounds',
  'tests place one and two tubes once', [PL + 'media.py'],
  [('Pipe.place_pipes', PL + 'media.py')], ['returned positions', 'Pipe.pos'],
  'tube count bounded')
P('C32', 'The short-time borehole model conserves energy',
  'The radial model of the short-time response steps an implicit '
  'discretisation that conserves energy: what leaves a cell enters its '
  'neighbour, heat enters the fluid core only, the far field keeps its '
  'temperature, every step of 120 s starts from the last one. Soil and grout '
  'cells tile their layers with the layer\'s heat capacity, the layers have '
  'the film, wall and borehole resistances of both legs, the fluid layer '
  'stores the heat of the fluid. The g-values are 2 pi k_s times the fluid '
  'temperature rise per unit heat less the borehole resistance, at strictly '
  'increasing times up to the final time, whatever was calculated before.',
  ['inputs', 'histories'],
  'every thermal property, resistance and height within physical ranges and '
  'every temperature field',
  'tests pin curves of three exchangers',
  [PL + 'radial_numerical_borehole.py'],
  [('RadialNumericalBH', PL + 'radial_numerical_borehole.py')],
  ['system handed to the tridiagonal solver', 'g_sts, lntts, g'],
  'borehole geometries enumerated')
P('C33', 'The excess temperature is the worst violation of the limits',
  'The excess of a simulation is the larger of the amount the highest '
  'temperature exceeds the upper limit and the lowest falls short of the lower '
  'limit; it is at most zero exactly when every temperature is inside the '
  'limits.', ['inputs'], 'every pair of temperatures and limits',
  'tests never reach the lower limit', [GH], [('GHE.cost', GH), ('GHE.simulate', GH)],
  ['return value'], 'none')
P('C34', 'A design builds the domain and search its routine describes',
  'Design.find_design builds the domain from the land and spacing limits it '
  'was given, hands every design input (flow and flow kind, borehole, '
  'exchanger, fluid, pipe, grout, soil, simulation parameters, loads, '
  'simulation method) unchanged to the search, chooses the matching search: '
  'one-dimensional for near-square and rectangle, nested for bi-rectangle, '
  'zoned for bi-zoned; an unknown routine, an unknown simulation method and '
  'a missing geometric constraint are refused with an error.',
  ['inputs', 'configurations'], 'every numeric input of the designs',
  'tests compare four final designs', [DE],
  [('Design.find_design', DE), ('Design.__init__', DE)],
  ['arguments of the search constructors'], 'searches replaced by recorders')
P('C35', 'The exported design document carries the design',
  'The document oak_ridge_export writes holds the height and number of '
  'boreholes of the selected design, the equivalent single U-tube (r_b, r_in, '
  'r_out, s, pos, m_flow_borehole, k_g, k_s, k_p), and g-function pairs of '
  'that design at strictly increasing times: all long-time pairs and a sample '
  'of at least thirty (or nearly all, when there are fewer) of the short-time '
  'pairs; it is written whatever the number of short-time values.',
  ['inputs'], 'every numeric design and number of short-time values',
  'tests never read the export', [SR], [('oak_ridge_export', SR)],
  ['written document'], 'g-function values symbolic')
P('C36', 'Long-term g-functions are computed for the design\'s own field',
  'Every long-term g-function is asked for with one borehole of the given '
  'height, depth, radius, tilt and orientation at every given place, the '
  'diffusivity of the ground, the given boundary condition, method and '
  'segments, and, for equal inlet temperatures, one exchanger per borehole '
  'carrying the flow of a borehole in a network that carries their sum.  The '
  'times asked for are the common ln(t/ts) axis at each height, and every '
  'curve is kept under its own height.  Unknown boundary conditions and '
  'segment options are refused.', ['inputs'],
  'all places, heights, materials, flows and times within the bounds',
  'the tests compare one stored field; a wrong diffusivity, flow or time '
  'scale of another option is not visible', [GF],
  [('calculate_g_function', GF), ('compute_live_g_function', GF),
   ('GFunction.configure_database_file_for_usage', GF)],
  ['arguments of pygfunction.gfunction.gFunction', 'GFunction.g_lts'],
  'the g-function itself is pygfunction\'s and arbitrary here')
P('C37', 'Printed reports state the design',
  'The printed report of a design states its own number of boreholes, height, '
  'spacing, months, limits, highest, lowest and excess temperature, all '
  'coordinates and points of its own g-function; the report of an exchanger '
  'states its flows, materials, geometry and resistances; the monthly table '
  'states total, peak, average, peak day and duration of each load and month.',
  ['inputs'], 'all values of the quantities stated',
  'no test reads a report', [GH, PL + 'media.py',
                             PL + 'borehole_heat_exchangers.py',
                             PL + 'ground_loads.py'],
  [('GHE.__repr__', GH), ('BaseGHE.__repr__', GH),
   ('BasePipe.__repr__', PL + 'borehole_heat_exchangers.py'),
   ('HybridLoad.create_dataframe_of_peak_analysis', PL + 'ground_loads.py')],
  ['repr() of GHE, exchangers, media, parameters'],
  'numbers are compared to four decimals')
P('C38', 'Field spacing and rescaling agree',
  'Rescaling a stored field to another spacing multiplies every coordinate by '
  'the ratio of the spacings, loses no borehole and leaves the stored field '
  'alone.  The spacing of a field is the distance of its first two boreholes, '
  'never below the borehole radius, which is the spacing of a lone borehole.  '
  'A domain passes the check of its excess temperatures exactly if they never '
  'rise.', ['inputs'], 'all fields, spacings and temperatures within the bounds',
  'no test rescales a field', [GF, UT, DO],
  [('GFunction.correct_coordinates', GF), ('borehole_spacing', UT),
   ('verify_excess', DO)], ['return values'], '')
P('C39', 'Hourly loads rebuilt from monthly quantities keep hours and peaks',
  'The hourly loads rebuilt from monthly quantities have a value for every '
  'hour of the year; each month has its average load but for one '
  'uninterrupted peak of its own height and (rounded) duration, about noon of '
  'its peak day, covering that day if longer, and inside the month.  The '
  'synthetic doubling profile has month i at i kW, with i hours of twice '
  'that, for extraction, and the reverse for rejection, in the units asked '
  'for.', ['inputs'],
  'all averages, peaks and durations, peak days at the ends and in the middle '
  'of every month', 'no test rebuilds hourly loads', [PL + 'ground_loads.py'],
  [('synthetic_load_function', PL + 'ground_loads.py'),
   ('HybridLoad.hourly_load_representation', PL + 'ground_loads.py'),
   ('create_synthetic_doubling_load_profile', PL + 'ground_loads.py')],
  ['returned hourly lists'], '')
P('C40', 'Plots show the data they are made of',
  'The plot of the hourly loads shows heat extraction positive and rejection '
  'negative, each at its own hours and under its own name; the plot of the '
  'two-day simulations shows the temperatures and peak duration of the month '
  'and load asked for, which are kept under the number of their month; plots '
  'of g-functions, fields and outlines show every curve, borehole and closed '
  'outline given and leave the data alone.', ['inputs'],
  'all loads, temperatures, places and curves within the bounds',
  'no test draws a plot', [PL + 'ground_loads.py', GF, CO],
  [('HybridLoad.visualize_hourly_heat_extraction', PL + 'ground_loads.py'),
   ('HybridLoad.visualize_fluid_simulation_results', PL + 'ground_loads.py'),
   ('Loads.find_peak_durations', PL + 'ground_loads.py'),
   ('GFunction.visualize_area_and_constraints', GF)],
  ['what the axes are given'], 'matplotlib\'s drawing is not judged')
P('C41', 'An exchanger is built from the design\'s own parts',
  'Building an exchanger passes on the materials given, gives every borehole '
  'its share of the system flow, derives the equivalent from that exchanger, '
  'the short-time response from that equivalent, and the hybrid load from '
  'both, with the positive part of the hourly loads (kW) as extraction and '
  'the negative part as rejection.  The hybrid load summarises each load over '
  'its own months with the response of the borehole (2 pi k, effective '
  'resistance), starts at the start month and ends at the end month; a series '
  'that is not a year of the calendar given is refused.', ['inputs'],
  'all flows, conductivities, resistances and load values within the bounds, '
  'common and leap years',
  'the tests build exchangers from one input each', [GH, PL + 'ground_loads.py'],
  [('GHE.__init__', GH), ('BaseGHE.__init__', GH),
   ('HybridLoad.__init__', PL + 'ground_loads.py'),
   ('Loads.__init__', PL + 'ground_loads.py')],
  ['constructor arguments and attributes'], '')

P('C42', 'The hybrid load keeps the peaks of the first and last year',
  'In each of the first twelve and last twelve simulated months the hybrid '
  'load applies the monthly peak of rejection and of extraction, each at its '
  'full height with its own sign, for its own duration and inside its month '
  '(two peaks of the same day excepted, which cancel), a lone peak about noon '
  'of its day if it fits there; in the months between, the load is the '
  'average of the month throughout.', ['inputs'],
  'every peak day and duration of a month, horizons and start months within '
  'the bounds',
  'tests pin two loads and one horizon; a peak dropped in one month shifts '
  'no pinned value when that month does not govern',
  [PL + 'ground_loads.py'],
  [('process_monthly_loads', PL + 'ground_loads.py'),
   ('peak_hour_range', PL + 'ground_loads.py')],
  ['hour', 'load'], 'months bounded')

P('C43', 'Designing leaves its inputs alone and can be repeated',
  'Setting up, simulating, sizing and designing change none of the inputs '
  'they are given (loads, land, materials, parameters, coordinates, curves), '
  'the height of the borehole excepted; doing the same thing again with the '
  'same inputs, whatever was done in between, gives the same result: the same '
  'temperatures at the same height, the same hybrid load, the same domain, '
  'the same selected field and height.', ['inputs', 'histories'],
  'all loads, land sides, temperatures and heights within the bounds; '
  'repetitions with other calls between',
  'the tests run each routine once; a state kept from the last run or an '
  'input changed in place shows only on the next use',
  [GH, SR, DE, 'ghedt/domains.py', GF, PL + 'ground_loads.py'],
  [('GHE.simulate', GH), ('Design.find_design', DE),
   ('compute_live_g_function', GF), ('HybridLoad', PL + 'ground_loads.py')],
  ['return values', 'input objects'], '')

P('C44', 'Stored documents and inputs read back unchanged',
  'What is written as a document or an input file reads back equal under the '
  'name it was given, however long the earlier content of the file; files '
  'written are complete when the call returns, names with dots and folders '
  'are kept, and creating a folder that exists leaves its content.',
  ['inputs', 'histories'],
  'all numbers in documents and inputs within the bounds',
  'no test writes twice to a file or reads an input file back', [UT],
  [('js_dump', UT), ('js_load', UT), ('create_input_file', UT),
   ('read_input_file', UT)], ['files', 'return values'], '')
