TRUST = ('Sampled, not exhaustive: a clean batch is evidence for the sampled cases only. Real: all of '
         'gnome (Python and native code), real files on disk. Stub: the gridded package (absent here), so '
         'py_gnome currents and winds read from gridded files are replaced by steady currents and point '
         'winds; the native gridded movers read generated NetCDF files.')
WHY = ('The stable tests exercise only single classes and helper functions; none of them runs a model '
       'through a history. ')

prop('C01', 'Rewinding a model restores its initial state completely',
     'After rewinding, a model behaves exactly as if it had just been built with its current '
     'settings: a run after the rewind reproduces, bit for bit, the elements, mass balance and output '
     'of that configuration run in a fresh process. This holds whatever happened before the rewind: '
     'completed, partial, failed or interrupted runs, and settings or components changed, added or '
     'removed in between.',
     ['histories', 'fault_sequences', 'configurations'],
     'every configuration, every history of runs, changes, failures and interruptions before the rewind',
     WHY + 'State can survive a rewind in any component, and only after a particular history.',
     ['model.py', 'spill_container.py', 'spills/spill.py', 'spills/release.py', 'movers/movers.py',
      'weatherers/core.py', 'outputters/outputter.py', 'utilities/cache.py'],
     [('Model.rewind', 'model.py'), ('rewind of each component', 'spills/release.py')],
     ['model.step()', 'element arrays', 'mass balance', 'current_time_step'],
     ('seeded histories with failures at arbitrary call points against a fresh-process reference',
      TRUST))

prop('C02', 'Oil mass is conserved in every step',
     'At every step the mass released so far equals the mass still carried by elements plus everything '
     'the mass balance reports as removed (evaporated, naturally or chemically dispersed, skimmed, burned, '
     'observed beached, off the map). No element mass is ever negative, no reported removal shrinks, and '
     'the mass reported floating and beached is that of the elements in that state.',
     ['configurations', 'histories', 'fault_sequences', 'inputs'],
     'every combination of spills, substances, maps and supported weatherers (evaporation, natural '
     'dispersion, emulsification, skimming, burning, chemical dispersion, observed beaching), at every '
     'step of every run, including runs after failed or interrupted ones',
     WHY + 'Mass is moved between accounts by many processes whose order and overlap is configuration dependent.',
     ['model.py', 'weatherers', 'ops/aggregated_data.py', 'spill_container.py', 'spills/gnome_oil.py'],
     [('Model.weather_elements and the mass balance', 'model.py'), ('weatherers', 'weatherers/core.py')],
     ['mass arrays', 'mass balance'],
     ('seeded configurations and histories with component failures; balance checked at every step', TRUST))

prop('C03', 'Spills release exactly what, when and where they were told to',
     'At every time each spill has released exactly the number of elements its release settings '
     'prescribe for that time, all of them by the end of its release, located on the prescribed '
     'geometry, and the released amount equals the amount of the spill. A spill that is switched off '
     'releases nothing, and uncertain copies release as the forecast does.',
     ['configurations', 'histories', 'inputs'],
     'every release kind, time window, time step, amount and unit, at every step',
     WHY + 'Time windows and time steps combine freely; rounding shows only at particular alignments.',
     ['spills/release.py', 'spills/spill.py', 'spill_container.py', 'model.py'],
     [('Release.num_elements_after_time and release_elements', 'spills/release.py'),
      ('Model.release_elements', 'model.py')],
     ['num released per spill', 'initial positions', 'mass of new elements'],
     ('seeded schedules and histories against a reference release schedule', TRUST))

prop('C04', 'Elements keep their identity and their data stays aligned',
     'At every step all per-element data of a spill has one entry per element; an element keeps its '
     'identity, spill and initial mass for life, ages by one time step per step and is neither '
     'duplicated nor resurrected. Positions are finite.',
     ['histories', 'configurations', 'fault_sequences'],
     'every element of every run, also after failed and interrupted runs followed by a rewind',
     WHY + 'Alignment breaks only when elements are removed or added between particular operations.',
     ['spill_container.py', 'spills/le.py', 'model.py', 'array_types.py'],
     [('SpillContainer release and removal of elements', 'spill_container.py'),
      ('LEData', 'spills/le.py')],
     ['element arrays'],
     ('seeded runs with failures; per-identity history checked at every step', TRUST))

prop('C05', 'Every step is run once, in order, at the right time, to the end',
     'A run performs exactly the steps its start time, duration and time step prescribe, calling every '
     'mover, weatherer, environment object and outputter once per step in order and with the right model '
     'time (weatherers once per substep, the substeps together being the step), and then ends and tells '
     'them so; running, stepping, '
     'iterating, extending, rewinding and changing the time settings in any order keeps this true, '
     'forwards and backwards in time. A step in which a mover or weatherer fails does not advance '
     'the clock.',
     ['histories', 'fault_sequences', 'configurations'],
     'every sequence of stepping, full runs, iteration, extension, rewinds, setting changes and failures',
     WHY + 'The clock is one mutable automaton driven by many operations.',
     ['model.py', 'utilities/time_utils.py'],
     [('Model.step, rewind, full_run, setters', 'model.py')],
     ['model.model_time', 'calls received by user components'],
     ('seeded operation sequences with component failures against a reference automaton', TRUST))

prop('C07', 'Output appears exactly at the steps the settings ask for',
     'Each outputter writes at the first and last step if asked to, and in between at its first '
     'output time and then once per output interval, and at no other step; when switched off it writes '
     'nothing. The same holds for backwards runs, for runs after failed runs, and for output written '
     'after the run has finished.',
     ['configurations', 'histories', 'fault_sequences'],
     'every outputter kind, interval, start time and flag combination and every history before the run',
     WHY + 'The schedule is mutable state that failing runs leave half advanced.',
     ['outputters/outputter.py', 'outputters/netcdf.py', 'outputters/kmz.py', 'outputters/shape.py',
      'outputters/binary.py', 'outputters/oil_budget.py', 'outputters/geo_json.py', 'model.py'],
     [('Outputter.prepare_for_model_step, write_output, write_output_post_run', 'outputters/outputter.py')],
     ['records in the returned output and in the files'],
     ('seeded settings and histories with failures against a reference output schedule', TRUST))

prop('C08', 'NetCDF output holds exactly the elements of every written step',
     'A NetCDF file reads back, record by record, the time, the elements and the mass balance the model '
     'had at each step that was written, for the forecast and the uncertainty separately, and nothing '
     'else. Runs that fail or are killed leave a readable file with every step completed before, and '
     'a later run replaces it completely.',
     ['histories', 'crash_points', 'configurations', 'fault_sequences'],
     'every output setting, history and failure or kill point',
     WHY + 'Nothing reads back a file after a failed, killed, extended or repeated run.',
     ['outputters/netcdf.py', 'outputters/outputter.py', 'utilities/cache.py'],
     [('NetCDFOutput.prepare_for_model_run and write_output', 'outputters/netcdf.py'),
      ('NetCDFOutput.read_data', 'outputters/netcdf.py')],
     ['netcdf files', 'NetCDFOutput.read_data'],
     ('seeded runs ended by completion, failure or process kill; files compared with recorded history',
      TRUST))

prop('C06', 'The element cache returns every step exactly, and nothing else',
     'Reading a step of the current run from the element cache yields exactly the elements, mass '
     'balance and time the model had at that step, for the forecast and the uncertainty, from memory '
     'or from disk, however often it is read and whatever readers do to the copy they got. Steps that '
     'were not run since the last rewind, or not cached, are refused. Other models, discarded models '
     'and failing disks never change what is returned.',
     ['histories', 'fault_sequences', 'schedules'],
     'every sequence of steps, rewinds, reads, switches and interleaved models, with disk faults while '
     'caching',
     WHY + 'The cache is shared mutable state between model, outputters and the file system.',
     ['utilities/cache.py', 'model.py', 'spill_container.py'],
     [('ElementCache.save_timestep, load_timestep, rewind', 'utilities/cache.py')],
     ['ElementCache.load_timestep', 'outputter.cache'],
     ('seeded schedules with injected disk faults; every read compared with the recorded history',
      TRUST))

prop('C10', 'A saved model loads as the same model',
     'Saving a model at any moment and loading it, in any process and after the original input files '
     'are gone, yields a model with the same settings and components which runs exactly as the '
     'original does after a rewind. Saving does not disturb the model or its run. A save file that was '
     'damaged is refused or still loads as the same model.',
     ['configurations', 'histories', 'fault_sequences'],
     'every configuration, name, shared reference and data file; saved at any point, by any route',
     WHY + 'A setting left out of a schema, or two components mixed up, shows only in particular models.',
     ['gnomeobject.py', 'model.py', 'persist', 'utilities/save_updater.py', 'spills/release.py',
      'movers', 'weatherers', 'environment', 'outputters'],
     [('GnomeId.save and load', 'gnomeobject.py'), ('schemas', 'persist/base_schema.py')],
     ['Model.save', 'Model.load', 'the run of the loaded model'],
     ('seeded models saved after seeded histories, loaded in a fresh process and compared run by run; '
      'bit flips and truncation of the file', TRUST))

prop('C11', 'A save replaces the save file completely or not at all',
     'When saving fails or the process dies at any point of a save, the file still loads as the '
     'model saved before or as the new one, never as a mixture and never as nothing; a save that '
     'reported success loads as the model that was saved. The model being saved is unharmed, later '
     'saves succeed, and a failed load does not harm the file.',
     ['crash_points', 'fault_sequences'],
     'every file operation and call of a save: disk errors, full disks, torn writes, process kills, '
     'interrupts, failed allocations and components that cannot be saved',
     WHY + 'Nothing injects a failure while saving.',
     ['gnomeobject.py', 'model.py', 'persist/base_schema.py'],
     [('GnomeId.save', 'gnomeobject.py')],
     ['Model.save', 'Model.load'],
     ('seeded fault at a seeded file operation or call of a save, then load in a fresh process', TRUST))

prop('C12', 'Elements beach, refloat and leave the map as the geography says',
     'An element never passes through land or outside the map: in every step its path stays in the '
     'water, or it is stopped at the shore and marked on land, or it is removed as off the map and its '
     'mass booked. A beached element stays where it is until it refloats at its last position in the '
     'water, on average after the refloat half-life of the map (0: at once, -1: never). Elements released on land '
     'are beached there. The map answers '
     'questions about land, water and bounds consistently with its polygons.',
     ['configurations', 'histories', 'inputs'],
     'every map, path, half-life and time step; every element in every step of every run',
     WHY + 'Paths that slip past land depend on the geometry of one step relative to the raster.',
     ['maps/map.py', 'cy_gnome/cy_land_check.pyx', 'model.py', 'spill_container.py'],
     [('RasterMap.beach_elements and refloat_elements', 'maps/map.py'),
      ('find_first_pixel', 'cy_gnome/cy_land_check.pyx')],
     ['positions', 'status_codes', 'map.on_land, in_water, on_map'],
     ('seeded coastlines, forcings and histories; every element path checked against the geometry in '
      'every step', TRUST))

prop('C13', 'Components act exactly while they are on and active',
     'A mover or weatherer that is off, or whose active range does not meet the run, changes nothing '
     'compared to a model without it; before its active range begins it changes nothing either. A mover '
     'moves elements in exactly the steps whose middle lies in its active range while it is on, '
     'whenever it is switched or its range changed during the run. A skimmer or observed beaching has '
     'removed, at every time, the share of its amount due by then. The order in which weatherers are '
     'added makes no difference.',
     ['configurations', 'histories', 'fault_sequences'],
     'every component, active range relative to run and steps, and sequence of switches',
     WHY + 'Windows begin and end anywhere within a step, and components share random numbers and state.',
     ['gnomeobject.py', 'movers/movers.py', 'weatherers/core.py', 'weatherers/cleanup.py',
      'weatherers/manual_beaching.py', 'model.py', 'utilities/inf_datetime.py'],
     [('Process.prepare_for_model_step', 'movers/movers.py'),
      ('RemoveMass', 'weatherers/cleanup.py')],
     ['element arrays', 'mass balance'],
     ('seeded windows, switches and histories against a run without the component and against the '
      'prescribed amount', TRUST))

prop('C09', 'KMZ, binary, shapefile, GeoJSON and budget files hold exactly what was written',
     'Each file or set of files left by the KMZ, binary (Gnome Analyst), shapefile, GeoJSON, oil budget '
     'and mass balance outputters can be read and holds, for exactly the steps that were due, the time '
     'and the elements (or the mass balance) the model had at that step, forecast and uncertainty told '
     'apart. This holds for completed, failed and extended runs, for repeated runs, which replace the '
     'earlier output completely, and for output written after the run; files of other outputs in the '
     'same folder are left alone.',
     ['histories', 'fault_sequences', 'configurations'],
     'every output setting and history of complete, failing, interrupted, repeated and extended runs',
     WHY + 'Nothing reads a file back after a failed, extended or repeated run.',
     ['outputters/kmz.py', 'outputters/binary.py', 'outputters/shape.py', 'outputters/geo_json.py',
      'outputters/oil_budget.py', 'outputters/weathering.py', 'outputters/outputter.py',
      'utilities/shapefile_builder.py'],
     [('write_output and post_model_run of each outputter', 'outputters/outputter.py'),
      ('KMZOutput', 'outputters/kmz.py'), ('BinaryOutput', 'outputters/binary.py'),
      ('ShapeOutput', 'outputters/shape.py'), ('OilBudgetOutput', 'outputters/oil_budget.py')],
     ['files on disk read without gnome'],
     ('seeded runs ended by completion, failure, extension or post-run output; files compared with '
      'recorded history', TRUST))

prop('C14', 'Uncertainty never changes the forecast',
     'Running a model with uncertainty leaves the forecast elements and the mass balance exactly as '
     'they are in a run of the same model without uncertainty, in every step, for models whose '
     'forecast involves no random processes. This holds when uncertainty is switched on or off '
     'between runs, and after failed and interrupted runs.',
     ['configurations', 'histories', 'fault_sequences'],
     'every configuration whose forecast has no random processes and every history before the run',
     WHY + 'The two sets of elements share every mover, weatherer and map, and what leaks from one to '
     'the other depends on the order of release, removal and beaching.',
     ['model.py', 'spill_container.py', 'movers', 'weatherers/core.py', 'maps/map.py',
      'environment/running_average.py'],
     [('SpillContainerPair', 'spill_container.py'), ('Model.step', 'model.py')],
     ['element arrays of the forecast', 'mass balance of the forecast'],
     ('seeded configurations and histories with failures and interrupts, each step compared with the '
      'run without uncertainty in a fresh process', TRUST))

prop('C15', 'Collections of components stay consistent ordered lists',
     'After any sequence of adding, removing, replacing and reassigning, valid or rejected, a '
     'collection of components (OrderedCollection, and the movers, environment and spills of a model) '
     'has each element once, in the order a list would have it; length, iteration, access by index '
     '(also negative), slice and id, index() and membership agree, and registered callbacks get exactly '
     'the events that happened. The uncertain spills of a model always mirror the forecast spills.',
     ['histories', 'fault_sequences'],
     'every sequence of operations, with rejected elements, failing callbacks and running models',
     WHY + 'The list, the index and the holes left by removals only diverge after particular sequences.',
     ['utilities/orderedcollection.py', 'spill_container.py', 'model.py'],
     [('OrderedCollection', 'utilities/orderedcollection.py'),
      ('SpillContainerPair', 'spill_container.py')],
     ['every read operation of the collection', 'callbacks'],
     ('seeded operation histories with failing callbacks against a reference list', TRUST))

prop('C16', 'Models in one process do not affect each other',
     'Several models in one process, stepped in any interleaving, rewound, failed, rebuilt and '
     'discarded, or run in threads, each produce exactly the forecast they produce alone in a '
     'process, for models whose forecast involves no random processes.',
     ['schedules', 'histories', 'fault_sequences', 'configurations'],
     'every interleaving of the operations of two or three models, and of their threads at every '
     'entry into a function',
     WHY + 'Class attributes, module state, caches and native objects are shared by all models of a '
     'process, and the web client of GNOME runs many.',
     ['model.py', 'gnomeobject.py', 'utilities/cache.py', 'movers', 'maps/map.py', 'weatherers/core.py',
      'environment'],
     [('Model', 'model.py'), ('ElementCache', 'utilities/cache.py'),
      ('native movers', 'cy_gnome/cy_mover.pyx')],
     ['element arrays and mass balance of the forecast of each model'],
     ('seeded interleavings of models, and of threads under a seeded preemptive scheduler, against '
      'each model alone', TRUST))

prop('C17', 'The model broadcaster returns the answers of the models asked and cleans up',
     'A command given to a ModelBroadcaster is answered by the model variations it addresses and by '
     'no other: each answer equals what that variation of the model (wind and spill amount changed as '
     'asked) answers directly, in order. Errors of a variation are raised with their type and stop the '
     'broadcaster; when consumers are slow, die or cannot be started the command ends within its time '
     'limit without an answer. Afterwards no consumer process and no socket file is left, and the '
     'model of the parent process goes on as if nothing had happened.',
     ['schedules', 'fault_sequences', 'crash_points', 'histories'],
     'every sequence of commands, message delay, slow or dying consumer and time limit',
     WHY + 'No stable test starts a broadcaster at all.',
     ['multi_model_broadcast.py', 'utilities/cache.py', 'environment/wind.py', 'spills/spill.py'],
     [('ModelBroadcaster', 'multi_model_broadcast.py'), ('ModelConsumer', 'multi_model_broadcast.py')],
     ['ModelBroadcaster.cmd', 'processes', 'socket files', 'model of the parent'],
     ('seeded commands on a simulated host (processes, sockets and clock) with seeded delays, slow and '
      'killed consumers, against each variation of the model run directly',
      TRUST + ' The sockets, event loop, process start and clock of the broadcaster are simulated; the '
      'consumers are real forks with real models.'))

prop('C18', 'A data file is downloaded completely or not at all',
     'get_datafile returns only when the file is there with all the bytes the server has for it. '
     'However a download ends (connection refused, broken off or ended early at any byte, an error '
     'of the server, a full disk, an interrupt or the end of the process), the name asked for is '
     'afterwards either absent or the complete file, also while another process downloads the same '
     'file; a file that was there is neither changed nor asked for, an error is reported to the '
     'caller, and the next call without a fault succeeds.',
     ['fault_sequences', 'crash_points', 'schedules', 'inputs'],
     'every sequence of calls, every connection and disk fault at every byte or file operation, every '
     'file size',
     'The tests need the network and only download one file completely; no test breaks a download '
     'off, and a partial file is taken for the data by every later run.',
     ['utilities/remote_data.py'],
     [('get_datafile', 'utilities/remote_data.py')],
     ['get_datafile', 'the file and its folder', 'requests the server gets'],
     ('seeded sequences of downloads from a simulated server with seeded connection, disk and process '
      'faults, against the bytes the server holds', TRUST + ' The server and its connections are '
      'simulated below http.client; urllib and http.client are real.'))

prop('C19', 'A model given JSON is the model the JSON describes',
     'A model built from the JSON of a model (deserialize) has the same settings, the same sharing of '
     'components, and the same run. Updating a model (update_from_dict) at any moment of its history with '
     'the JSON of another state of it (settings changed, components changed, added, removed or '
     'reordered), in one piece, with only what differs, or component by component, gives it exactly these '
     'settings and the run that goes with them, and keeps the components it had as the same objects; '
     'updating it with its own JSON changes nothing and is not reported as a change. An update that was '
     'interrupted or refused is made good by repeating it correctly.',
     ['histories', 'fault_sequences', 'inputs'],
     'every model, every chain of changes, every order and form of updates, every moment of a run, every '
     'interruption',
     'Tests update single objects with single values; no test updates a whole model in the middle of a '
     'history and runs it, and none looks at what a second mention of an object does.',
     ['model.py', 'gnomeobject.py', 'persist/base_schema.py', 'environment/wind.py'],
     [('Model.update_from_dict', 'model.py'), ('GnomeId.update_from_dict', 'gnomeobject.py'),
      ('ObjTypeSchema.process_subnode', 'persist/base_schema.py')],
     ['Model.serialize, deserialize, update_from_dict', 'element data and mass balance of the run'],
     ('seeded chains of changes made directly in one process, given as JSON to a model of another process '
      'between steps, failures and interruptions; JSON, objects and complete run compared', TRUST))

prop('C20', 'The images of a run show its elements at the steps due',
     'After a run (complete, failed or continued, and whatever was run, interrupted, failed or changed '
     'before) the folder of a Renderer holds the map and one image in each format for every step that was '
     'due, nothing of earlier runs, and what the user keeps there unchanged. Each image shows every element '
     'of that step in the viewport at its place, in the colour and shape of its kind and on top as asked '
     'for, the land where the map has land, the time of the step, and nothing else; an animation is '
     'complete and has a frame for every different step. This holds for every viewport, zoom or shift, also '
     'in the middle of a run.',
     ['histories', 'fault_sequences', 'inputs'],
     'every model, image size, viewport, format, output schedule and history of runs, failures, interrupts '
     'and changes of the view',
     'Tests draw images for people to look at, and check that files exist; no test reads an image back and '
     'compares it with the elements, or looks at the folder after a run that failed.',
     ['outputters/renderer.py', 'utilities/map_canvas.py', 'utilities/projections.py',
      'outputters/outputter.py'],
     [('Renderer.write_output', 'outputters/renderer.py'),
      ('Renderer.clean_output_files', 'outputters/renderer.py'),
      ('MapCanvas.rescale', 'utilities/map_canvas.py'),
      ('FlatEarthProjection.set_scale', 'utilities/projections.py')],
     ['image files and animation of the run', 'step information of the Renderer'],
     ('seeded histories of runs, failures, interrupts and view changes; the decoded images compared pixel '
      'by pixel with the state recorded at every step', TRUST + ' Images are decoded by an independent '
      'reader; the contents of GIF frames are not compared (py_gd merges and crops them). Grid lines are '
      'switched off.'))

prop('C21', 'Uncertain elements are perturbed as the uncertainty settings say',
     'In an uncertain run every element of the uncertain set moves with the forecast field perturbed by a value '
     'of its own: none before uncertain_time_delay, afterwards drawn within the limits that were set '
     '(along/across a current, speed and angle of a wind, the scale of a simple mover), kept by that element '
     'whatever other elements are released or removed, and all drawn again together when, and only when, '
     'uncertain_duration has passed since the last draw. This holds for native and Python movers, forward '
     'and backward runs, and whatever was run, interrupted, failed or set before.',
     ['histories', 'fault_sequences', 'inputs'],
     'every uncertain model, setting, release and removal of elements, direction of time and history of runs, '
     'failures, interrupts and changes of the settings',
     'Tests look at the numbers of one call of a mover with made-up arrays; none runs an uncertain model in '
     'which elements are released and removed, or compares the perturbation of an element over several steps.',
     ['movers/movers.py', 'movers/c_current_movers.py', 'movers/c_wind_movers.py',
      'movers/py_current_movers.py', 'movers/py_wind_movers.py', 'movers/simple_mover.py',
      '../lib_gnome/CurrentMover_c.cpp', '../lib_gnome/WindMover_c.cpp'],
     [('CyMover.model_step_is_done', 'movers/movers.py'),
      ('CurrentMover._update_uncertainty', 'movers/py_current_movers.py'),
      ('WindMover.update_uncertainty', 'movers/py_wind_movers.py')],
     ['perturbation of every uncertain element in every step, from where it went and where the forecast went'],
     ('seeded models with one uncertain mover in a uniform field through seeded histories; the perturbation of '
      'every element recovered from its path and judged in every step', TRUST + ' Fields are uniform (and the '
      'wind above 1 m/s, below which gnome adds diffusion instead); IceMover, IceWindMover and CurrentCycleMover '
      'are not exercised.'))

prop('C22', 'Windage, diffusion and rise act as their settings say',
     'In every step in which a wind mover acts on an element in the water, it drifts with its windage times the '
     'wind. Elements are released with windages of their own, drawn within windage_range; with a '
     'windage_persist of at most 900 s all are drawn again in every such step, each independently, within the '
     'range scaled by sqrt(windage_persist / time step), and otherwise (-1 or longer) kept for life. '
     'A RandomMover moves every surface element in every step independently, without a preferred direction, by '
     'at most sqrt(6 D dt) on each axis with that variance (times the uncertain_factor for uncertain '
     'elements), a RandomMover3D those it may move by its coefficients above and below the mixed layer, '
     'never above the surface; a RiseVelocityMover raises each element by its rise velocity, to the surface at '
     'most. The settings in force are those last set, whatever was run, failed or interrupted before.',
     ['histories', 'fault_sequences', 'inputs'],
     'every setting, release and removal of elements, time step, direction of time and history of runs, failures, '
     'interrupts and changes of the settings before and during a run',
     'Tests call a mover once with made-up arrays or check moments of one function; none follows the windage '
     'and displacement of every element of both containers through the steps of runs with histories.',
     ['utilities/rand.py', 'spills/initializers.py', 'movers/c_wind_movers.py', 'movers/py_wind_movers.py',
      'movers/random_movers.py', 'movers/vertical_movers.py', '../lib_gnome/Random_c.cpp',
      '../lib_gnome/RandomVertical_c.cpp', '../lib_gnome/RiseVelocity_c.cpp'],
     [('random_with_persistance', 'utilities/rand.py'), ('InitWindages', 'spills/initializers.py'),
      ('Random_c::GetMove', '../lib_gnome/Random_c.cpp')],
     ['windages and positions of every element in every step'],
     ('seeded models with wind, random walk and rise through seeded histories; windage and displacement of every '
      'element judged in every step, moments and independence of the draws with 6.5 sigma limits',
      TRUST + ' Steady uniform wind; RandomMover3D and RiseVelocityMover in forward runs only; '
      'no IceAwareRandomMover.'))

prop('N01', 'Physical formulas give the published values',
     'Each formula for the physics of oil and movement (spreading, evaporation and emulsification '
     'rates, vapour pressure, viscosity, density, droplet sizes, rise velocity, windage) gives the '
     'value of the published model it implements, for every oil and environment.',
     ['inputs'], 'every oil, temperature, wind and size',
     'Tests sample a few values.',
     ['weatherers/spreading.py', 'weatherers/evaporation.py', 'spills/gnome_oil.py'],
     [('FayGravityViscous', 'weatherers/spreading.py')], ['values returned'],
     na='Each formula is a pure function of its arguments: no schedule, clock, I/O, randomness or '
        'fault takes part, so simulation has nothing to vary. (What the formulas feed, mass balance, '
        'rewind and isolation, is claimed in C01, C02, C14 and C16.)')

prop('N02', 'Time series, grids and units are interpolated and converted correctly',
     'Winds, tides, currents and their units are read from files and interpolated in time and '
     'space to the values their data define.',
     ['inputs'], 'every file, time and position', 'Tests sample a few files.',
     ['environment/timeseries_objects_base.py', 'environment/wind.py', 'environment/tide.py'],
     [('Timeseries', 'environment/timeseries_objects_base.py')], ['values returned'],
     na='Reading and interpolating are pure functions of the file contents and the arguments; the '
        'gridded package that does most of it is not installed here. Nothing for a schedule or a '
        'fault to decide.')
