"""Writes /verif/properties.jsonl (kept as a script so that the statements are
readable; the output is committed)."""
import json
import os

S = 'pysnobal/point/snobal.py'
ST = 'pysnobal/point/snow_state.py'
IN = 'pysnobal/point/input.py'
LB = 'pysnobal/point/libsnobal.py'
PY = 'pysnobal/pysnobal.py'
FN = 'pysnobal/core/functions.py'
SN = 'pysnobal/core/snow.py'
INI = 'pysnobal/pysnobal_core_config.ini'

GOLD = ('The suite runs one season of one site with one configuration against '
        'a gold CSV (normal output mode only) and a few constructor values; ')

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c)
                            for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))


OUT = ['output records (CSV and in-memory) in normal and all mode']
HIST = ('every initial snowpack (bare, one layer, two layers, any wetness and '
        'temperature), every weather history and every run-step division')

prop('C01', 'Snow water mass is conserved',
     'Over every output record the change of the snowpack mass equals the precipitation received plus the net vapour exchange minus the surface water input. On snow-free ground all precipitation that is not kept as snow leaves as surface water input in the same interval. This holds however the step was divided and whether the snowpack appeared, changed layers, or disappeared during it.',
     ['inputs', 'histories', 'configurations'], HIST,
     GOLD + 'no test adds up the masses, and most transitions (layer loss, disappearance inside a divided step, rain on a vanishing pack) never occur there.',
     [S, ST, SN], [('mass balance order and precipitation bookkeeping', S + ' mass_balance, precip_event'), ('water of a vanishing pack', S + ' adj_layers'), ('runoff', S + ' runoff'), ('evaporation', S + ' evap_cond')], OUT,
     [('m_s', 'snow mass kg/m2', ST), ('h2o_total', 'liquid water in the step', ST)])

prop('C02', 'The reported energy budget closes and is zero without snow',
     'In every output record the active-layer energy change equals the sum of net radiation, sensible heat, latent heat, advected heat and the heat conducted into the active layer, and the snowcover energy change equals the active-layer change plus the soil heat flux minus the heat conducted into the active layer. With a single layer the soil flux and the flux into the active layer are the same. For a run step that starts without snow on the ground every energy term is zero.',
     ['inputs', 'histories', 'configurations'], HIST,
     GOLD + 'the terms are compared with stored numbers, never with each other, and only for the states of that season.',
     [S, ST], [('energy balance sum', S + ' energy_balance'), ('time averaging', ST + ' time_average, value_to_bar'), ('zeroing', S + ' energy_balance else branch')], OUT)

prop('C03', 'Energy changes cold content first, then melts; water refreezes',
     'In every run step a layer\'s energy input first removes its cold content and only the surplus melts ice, at the latent heat of fusion. Liquid water available to a layer (shared between layers by depth) that is still colder than freezing refreezes and releases its latent heat until the water or the cold content is used up. The layer and mean temperatures reported afterwards are the ones that correspond to the remaining cold contents and masses.',
     ['inputs', 'histories', 'configurations'], HIST,
     GOLD + 'melt and refreezing in the same step, lower-layer melt and exact exhaustion of cold content are not tested at all.',
     [S, ST, SN], [('melt and refreezing', S + ' snowmelt'), ('temperatures', ST + ' adjust_layer_temps'), ('melt energy', SN + ' melt, new_tsno')], OUT)

prop('C04', 'Snowpack state stays within physical bounds',
     'In every output record all numbers are finite; snow temperatures do not exceed freezing and cold contents are not positive; masses, depths, liquid water, melt and runoff are not negative; and density is at most 600 kg/m3 and positive exactly when there is snow. Liquid water never exceeds the holding capacity reported with it, and the saturation stays between 0 and 1. Evaporation never removes more mass than exists.',
     ['inputs', 'histories', 'configurations'], HIST,
     GOLD + 'bounds are not asserted; extreme but legal forcing (heavy rain on thin snow, dry storms, dense packs) is absent.',
     [S, ST], [('density clip', S + ' adj_snow'), ('water floor', S + ' evap_cond'), ('capacity clip', S + ' runoff'), ('layer existence', ST + ' calc_layers')], OUT)

prop('C05', 'Layers always partition the snowcover consistently',
     'In every output record the layer depths add up to the total depth, each layer mass is density times its depth, the layer masses add up to the total mass, and the surface layer is at most the configured maximum active depth whenever a lower layer exists. Whenever the depth changes, a lower layer exists exactly when the snow below that depth has at least the configured minimum mass (judged before the step\'s runoff leaves), and there is no snowcover at all when the total is at or below that minimum. A newly formed lower layer starts at the snowcover mean temperature, and an absent layer is reported with zero depth, mass and cold content at 75 degrees below freezing.',
     ['inputs', 'histories', 'configurations'], HIST,
     GOLD + 'four constructor-level cases of the layer split are tested, none of the 0/1/2 transitions inside a running model.',
     [ST, S], [('layer split', ST + ' calc_layers, layer_mass'), ('layer creation/removal', S + ' adj_layers, init_snow')], OUT)

prop('C06', 'A vanished snowcover leaves nothing behind',
     'When the snowcover is gone, every snow quantity in the output (mass, depth, density, cold content, liquid water and its saturation and capacity) is zero and the temperatures have the no-snow value. From then on the model behaves exactly as if it had started on bare ground with the same forcing: later snowfall builds the same snowpack regardless of what lay there before. A trace of snow too light to form a snowcover leaves as surface water input.',
     ['inputs', 'histories'], 'every initial snowpack and weather history that leads to snow-free ground, followed by every weather continuation up to the depth explored',
     GOLD + 'comparing the continuation with a fresh model is not done anywhere.',
     [S, ST], [('reset on disappearance', S + ' adj_layers'), ('new pack', S + ' precip_event, init_snow')], OUT)

prop('C07', 'Run steps are divided exactly as the mass thresholds say',
     'A normal run step is run undivided unless a layer is lighter than the normal threshold when it starts; then it is divided into medium steps, and each medium step at whose start a layer is lighter than the medium threshold is divided into small steps. Snow-free ground is never divided. The run steps of a data step follow each other without gap or overlap and together cover it exactly, for all step lengths and thresholds that divide evenly.',
     ['inputs', 'histories', 'configurations'], 'every combination of step lengths and thresholds, every layer configuration and mass around the thresholds, including masses crossing a threshold inside a data step',
     GOLD + 'all-mode output, the only place where the division shows, has no working test; one configuration only.',
     [S, PY, INI], [('recursive division', S + ' divide_tstep, below_thold'), ('step table', PY + ' parse_time_steps')], OUT)

prop('C08', 'Forcing is interpolated linearly, precipitation split evenly',
     'Each run step sees radiation, air temperature, vapour pressure, wind and soil temperature linearly interpolated between the two data records at the time the run step starts. Precipitation of the first record is spread evenly over the data step so that its total mass, snow mass, rain mass and snow depth are preserved, with constant snow fraction, density and temperature. This holds for every pattern of undivided, medium and small run steps inside a data step.',
     ['inputs', 'histories', 'configurations'], 'every pair of weather records and every division pattern of the data step (all patterns of medium and small steps enumerated)',
     GOLD + 'the interpolated forcing is never observed and mixed medium/small patterns are not compared with the exact values.',
     [IN, S], [('increments', IN + ' InputDeltas, add_deltas, update_precip_deltas'), ('use of increments', S + ' do_tstep, divide_tstep')], OUT)

prop('C09', 'Normal output aggregates exactly the run steps of all-mode output',
     'For the same inputs, each normal-mode record holds the snowpack state of the last all-mode record of that data step, the time-weighted mean of the energy terms of its run steps, and the sums of their evaporation, melt and surface water input. The output mode has no influence on the simulated snowpack. Nothing carries over from one record\'s averages and sums into the next.',
     ['inputs', 'histories', 'configurations'], HIST,
     GOLD + 'the all-mode test cannot run (its gold file is missing), so the two modes are never compared.',
     [S, ST, FN], [('averaging', ST + ' time_average, value_to_bar'), ('output reset', S + ' output, do_tstep')], OUT)

prop('C10', 'Output times match the data, one record per step',
     'For evenly spaced input in the simulated period, normal mode writes exactly one record per data step, stamped with the end of that step, that is with the time of the second of the two data rows. All mode writes one record per run step, stamped with its end, strictly increasing, the last one of each data step carrying the same time as the normal record. No time is skipped, repeated or shifted, whatever the start date, time zone or step lengths.',
     ['inputs', 'histories', 'configurations'], 'every length of input, start/end window relative to the data, time zone, data interval and step division',
     GOLD + 'one window with hourly steps is compared; all mode, windows starting before the data and other intervals are not.',
     [S, PY], [('clock', S + ' do_tstep'), ('window clipping', PY + ' read_input_data'), ('output', PY + ' output_to_file')], OUT)

prop('C11', 'Precipitation phase and new-snow properties',
     'Precipitation is divided by the snow fraction into snow and rain; rain is never colder than freezing; snow falling with rain or at or above freezing arrives at freezing and saturated with water, colder snow arrives dry at the precipitation temperature. Snow on bare ground forms a pack with exactly the given mass, snow density and those properties, and snow on snow adds exactly its mass, its depth and the liquid water it holds. Records without precipitation add nothing, whatever their other precipitation columns say.',
     ['inputs', 'histories'], 'every combination of mass, snow fraction, temperature and snow density, on bare ground and on every kind of snowpack',
     GOLD + 'four phase cases are checked on the input object; the effect on the snowpack and the boundaries are not.',
     [IN, S], [('phase split', IN + ' precipitation_inputs'), ('event', S + ' precip_event')], OUT)

prop('C12', 'Net radiation follows the surface temperature',
     'The net radiation of a run step with snow is the net solar radiation plus snow emissivity (0.98) times the difference of incoming thermal radiation and black-body emission at the surface temperature at the start of the step. It depends on nothing else.',
     ['inputs', 'histories'], 'every surface temperature, solar and thermal radiation and every position inside a divided data step',
     GOLD + 'only values of one season; rounding to three decimals hides small errors and no relation is asserted.',
     [S], [('net radiation', S + ' net_radiation')], OUT)

prop('C13', 'Turbulent fluxes solve the stability equations or fail loudly',
     'The sensible and latent heat fluxes of a run step with snow solve the Monin-Obukhov bulk equations for that step\'s wind, air and surface temperature and humidity, measurement heights (above ground, or above the snow when configured as relative) and roughness, independently of earlier steps. Air humidity above saturation is treated as saturation without altering the data. When the iteration does not converge the failure is reported instead of a flux, and neutral stability gives the log-profile fluxes.',
     ['inputs', 'histories', 'configurations'], 'every combination of wind, temperatures, humidity, heights, roughness and pressure on the grids explored, and every previous step\'s result as starting point',
     'The gold rows for the flux routine are wrapped in approx() without comparison, so they assert nothing; convergence and starting-value independence are untested.',
     [LB, S], [('flux iteration', LB + ' hle1, psi'), ('heights, clipping, warm start', S + ' h_le')], OUT)

prop('C14', 'Heat conduction between soil and snow layers',
     'The soil heat flux and the flux between the layers are the steady-state conduction between the two adjacent media, with snow conductivity from the density and with vapour diffusion included at each side\'s temperature and the site\'s air pressure. Heat always flows from the warmer to the colder medium, grows with the temperature difference, and is zero for equal temperatures. The flux reported for the active layer is the soil flux when there is one layer and the inter-layer flux when there are two.',
     ['inputs', 'histories', 'configurations'], 'every soil and layer temperature (including exactly freezing), density, depth, soil sensor depth and elevation on the grids explored',
     GOLD + 'no unit test of conduction; soil warmer/colder/equal and exactly-freezing branches are not distinguished.',
     [S, LB, ST], [('conduction', S + ' g_soil, g_snow, heat_transfer'), ('effective conductivity', LB + ' efcon, ssxfr'), ('snow conductivity', ST + ' kts')], OUT)

prop('C15', 'Heat advected by precipitation',
     'The advected heat of a run step with snow is the heat that the rain and the snow of that run step bring relative to the surface temperature, using the specific heat of water and ice at their own temperatures, divided by the run step length. Over a data step it is independent of how the step is divided except through the surface temperature, and it is zero without precipitation.',
     ['inputs', 'histories'], 'every precipitation mass, phase and temperature, every surface temperature and every division of the data step',
     GOLD + 'advected heat is a few rows of one season.',
     [S, SN, FN], [('advection', S + ' advec'), ('heat storage', SN + ' heat_stor; ' + FN + ' cp_ice, cp_water')], OUT)

prop('C16', 'Evaporation and condensation at the surface and the soil',
     'The vapour exchange of a run step is the turbulent mass flux (the latent heat flux divided by the latent heat) plus the diffusive flux between the soil and the lowest layer, each times the step length, limited to the snow that exists. Liquid water takes part first, in the ratio of vaporization to sublimation heat, never becoming negative, and half of the exchanged ice changes the depth. There is no vapour exchange without snow.',
     ['inputs', 'histories', 'configurations'], HIST,
     GOLD + 'vapour exchange with the soil, with water present and with almost no snow left is not isolated.',
     [S, FN, LB], [('vapour exchange', S + ' evap_cond'), ('vapour flux', FN + ' vapor_flux, diffusion_coef')], OUT)

prop('C17', 'Snow compaction by time, load and liquid water',
     'Snow lighter than 550 kg/m3 compacts each run step by temperature metamorphism and overburden at the documented rates scaled by the step length, snow at or above that density does not; adding liquid water (melt or rain) raises the density towards 550 by the documented half-saturation curve. Compaction never changes mass, never lowers density, and the depth always follows as mass over density. No adjustment lets the density exceed 600 kg/m3.',
     ['inputs', 'histories', 'configurations'], 'every density (including around 100, 550 and 600), mass (including beyond 2000 kg/m2), temperature, water added and step length on the grids explored',
     GOLD + 'one shallow season; heavy, dense and very light packs do not occur.',
     [S], [('time compaction', S + ' time_compact'), ('water compaction', S + ' h2o_compact'), ('clip', S + ' adj_snow')], OUT)

prop('C18', 'Liquid water is held up to capacity, the excess runs off',
     'At the end of each run step with snow the pack holds the liquid water present up to the capacity given by the configured volume ratio, its depth and its dry density, and exactly the excess leaves as surface water input and mass. Reported water, saturation, volume ratio and capacity agree with each other. Without snowcover, at the start or the end of the step, all liquid water leaves.',
     ['inputs', 'histories', 'configurations'], HIST,
     GOLD + 'capacity and saturation are not in the CSV and are never checked.',
     [S, SN], [('runoff', S + ' runoff'), ('capacity', SN + ' h2o_left')], OUT)

prop('C19', 'Saturation vapour pressure functions agree and behave',
     'Saturation vapour pressure over ice and over water follow the Goff-Gratch formulas at every temperature, increase strictly with temperature, and the ice function equals the water function above freezing without a jump at freezing beyond 0.1 %. The scalar and the array version give the same values for arrays of any shape, including empty ones, and neither changes its argument. Impossible (negative) temperatures give an error in the scalar and not-a-number in the array version.',
     ['inputs'], 'every temperature of a dense grid over 150-380 K and around freezing and boiling, and every small array shape and mixture of cold, freezing, warm and impossible values',
     'The suite checks one value at freezing.',
     [LB], [('scalar', LB + ' sati, satw'), ('array', LB + ' sati_np, satw_np')], ['function results'])

prop('C20', 'Every documented configuration option takes effect as described',
     'Each option of the configuration file (elevation, time window and zone, measurement heights and their meaning, run-step lengths and thresholds, maximum liquid water, maximum active depth, input/output files, output mode, output format, initial snow properties) has the documented effect on the simulation, with the documented default when omitted. Changing one option changes nothing that another option governs, and section order or letter case of the file does not matter.',
     ['configurations', 'inputs'], 'every option alone and every pair of options, each at default and non-default values, through configuration files',
     'One configuration file is used, almost entirely defaults.',
     [PY, INI, S], [('parsing', PY + ' parse_params, parse_time_steps, read_config_file'), ('use', S + ' __init__')], ['output CSV of runs that differ in configuration'])

prop('C21', 'Input data are read, unit-converted and clipped faithfully',
     'A simulation uses exactly the input rows from the start date to one data step past the end date, in time order whatever their order in the file, with every named column meaning the same regardless of column order and extra columns ignored. Temperatures are converted from Celsius, timestamps are taken in the configured time zone, and rain is not colder than freezing. Rows outside the window never influence the result.',
     ['inputs', 'configurations'], 'every permutation of a short file\'s rows, column orders, every start/end window, several time zones and every phase case',
     'One ordered file with one window is read.',
     [PY], [('reading', PY + ' read_input_data, map_input_data')], ['output CSV of runs on permuted, clipped or extended files'])

prop('C22', 'The output file reports the simulated values, units and format',
     'The output CSV has the documented columns in the documented order, indexed by time, each column holding the quantity it names (fluxes as interval means in W/m2, evaporation, melt and surface water input as interval sums, temperatures in Celsius). With formatting on every number is the simulated value rounded to the documented number of digits and nothing else changes; with formatting off it is the full value. Formatting and mode never change the simulation.',
     ['inputs', 'configurations', 'histories'], 'every column in every snow regime (bare, one layer, two layers, melting, refreezing), both formats and both modes',
     'One formatted file is compared; an unformatted or all-mode file never.',
     [PY, S], [('output', PY + ' output_to_file; ' + S + ' output')], ['output CSV against in-memory records and an independent model'])

prop('C23', 'Runs are deterministic and independent of each other',
     'Running the same simulation twice, in the same process, on the same object, or interleaved step by step with other simulations of different sites in any order, gives identical results. A run changes neither its configuration, parameters, input data nor initial conditions.',
     ['schedules', 'histories', 'configurations'], 'every interleaving of the data steps of two simulations up to the explored length, every order of repeated runs, and every mutable argument',
     'Each test builds one model and runs it once.',
     [S, PY, IN, ST, LB], [('per-instance state', S + ' __init__; ' + PY + ' run'), ('no shared mutable defaults', IN + '; ' + ST)], ['output records; argument snapshots'])

prop('C24', 'Cached derived quantities are never stale',
     'The saturation vapour pressures reported for the air, the soil and the snow layers always belong to their current temperatures, and the number of layers always belongs to the current depths, after every sequence of assignments, increments, resets, re-layering and reads in any order. Reading a derived quantity never changes the state.',
     ['histories'], 'every sequence of operations (set, increment, reset, relayer, read, copy) up to the explored depth on both objects that cache',
     'One set-read-set sequence without an assertion on the second value (approx() alone is always true).',
     [ST, IN], [('cache flags', ST + ' t_s_0, t_s_l, layer_count; ' + IN + ' t_a, t_g')], ['property reads'])

prop('C25', 'Invalid input is rejected, valid input is not',
     'Heights not above the roughness length, non-positive absolute temperatures or pressures, vapour pressure at or above air pressure or clearly above saturation, snowfall without a positive density, run steps that do not divide evenly, a missing configuration file, missing required entries and unusable configuration objects raise an error instead of producing output. Inputs within those limits are accepted. A rejected call leaves the caller\'s data unchanged.',
     ['inputs', 'configurations'], 'every combination of boundary values (below, at, above each limit) of all checked arguments',
     'No test exercises an error path.',
     [LB, IN, PY, 'pysnobal/utils.py'], [('flux input checks', LB + ' hle1'), ('snow density', IN + ' precipitation_inputs'), ('time steps and files', PY + ' parse_time_steps, read_config_file'), ('range check', 'pysnobal/utils.py check_range')], ['raised errors'])

prop('C26', 'Physical formulas agree cell by cell on scalars and grids',
     'Every thermodynamic and snow formula (specific and latent heats, densities, mixing ratio, humidity, diffusion, vapour flux, pressure, conductivity, dry density, retained water, melt, heat storage, temperature from cold content, time average) has its published value on scalars and gives, on arrays and labelled grids of any shape, exactly that value in each cell. It keeps the shape and labels and does not modify its arguments.',
     ['inputs'], 'every formula on the full product of small value grids per argument, as scalars, arrays and labelled grids',
     'Formulas are reached only through one season of scalar simulation.',
     [FN, SN, ST, 'pysnobal/spatial/snow_state.py'], [('formulas', FN + '; ' + SN), ('grid state', 'pysnobal/spatial/snow_state.py')], ['function results'])

prop('C27', 'Air pressure follows the hydrostatic standard atmosphere',
     'The site air pressure is sea-level pressure at zero elevation, decreases strictly with elevation, and equals the hydrostatic integral over a layer with linear temperature, also for a zero lapse rate, to which small lapse rates converge continuously. Integrating over a layer in parts gives the same as at once. The simulation uses the pressure of the configured elevation everywhere.',
     ['inputs', 'configurations'], 'every elevation from below sea level to 8 km, lapse rate (negative, zero, positive) and base state on the grids explored',
     'One elevation is simulated; the zero-lapse branch is never run.',
     [FN, S], [('pressure', FN + ' hysat; ' + S + ' __init__')], ['function results; model pressure; fluxes at different elevations'])

prop('C28', 'The simulation starts from the configured snowpack',
     'Initial depth, density, temperatures (Celsius), water saturation and roughness from the configuration are the state the first run step starts from, split into layers with masses, cold contents and liquid water that follow from them. A lower layer without a temperature of its own starts at the average temperature, and an initial snowpack lighter than the minimum mass starts as bare ground. The configured roughness is used by the flux calculation throughout.',
     ['configurations', 'inputs'], 'every combination of depth, density, temperatures, saturation and roughness on the grid, for different active depths and thresholds',
     'Every test starts on bare ground.',
     [S, PY], [('initial state', S + ' create_snow_state, init_snow; ' + PY + ' parse_params, run')], ['first output record; state before the first step'])

prop('C29', 'The simulation never looks ahead',
     'Output up to a given time depends only on the initial state, the configuration and the data rows up to that time: changing, adding or removing later rows or the end date does not change earlier records. A longer run therefore reproduces a shorter one record by record.',
     ['histories', 'inputs', 'configurations'], 'every pair of weather histories with a common prefix in the explored tree, and every end date of a short file',
     'Each test runs one window once.',
     [S, PY], [('step loop', PY + ' run; ' + S + ' do_data_tstep')], OUT)

prop('C30', 'A gridded run equals independent point runs per cell',
     'Running the gridded model gives in every cell the same output as a point run with that cell\'s forcing, elevation and initial snow.',
     ['inputs', 'configurations'], 'every assignment of cell states and forcings to the cells of a small grid',
     'The gridded test asserts True only.',
     ['pysnobal/ipysnobal.py', 'pysnobal/spatial/isnobal.py'], [('gridded model', 'pysnobal/spatial/isnobal.py')], ['gridded output'])

if __name__ == '__main__':
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    print(len(P))
