#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the property list is kept here for readability)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mechanism)))
A = 'dedop/proc/sar/algorithms/'

prop('C01', 'Region-of-interest selection delivers exactly the in-region bursts, in order',
 "When at least one burst lies inside the region of interest, reading an L1A product delivers every burst whose latitude and longitude lie inside the configured limits (bounds inclusive, each limit optional, all bursts when no limit is set) exactly once, in file order, and no burst outside the limits; bursts marked as empty (zero latitude and longitude) are not delivered as data. The reported number of records and the first and last measurement times span exactly from the first to the last in-region burst.",
 ['inputs', 'configurations'], "for every product length, every lat/lon track and every combination of present/absent region limits",
 "The reader tests open one file with one configuration; no test sets region limits, so boundary records, holes in the region and one-sided limits are never reached.",
 ['dedop/data/input/l1a/l1a_dataset.py', 'dedop/data/input/input_dataset.py'],
 'contract on construction (index range = hull of the ROI filter), on stepping (one record consumed, delivered iff in ROI and valid) and on length/first/last time')

prop('C02', 'Block-wise reading is transparent',
 "The value read for any variable at any record is the value stored in the product at that record, whatever the block size and whatever order records were read in before.",
 ['inputs', 'histories'], "for every file length, block size, variable and every sequence of accesses",
 "Tests read a few records in ascending order from one short file; block boundaries, last partial block and backward jumps are not exercised.",
 ['dedop/data/input/netcdf_reader.py'],
 'representation invariant of the block cache: cache[v][i] = file[v][block start + i]; every read preserves it and returns file[v][index]')

prop('C03', 'L1A records are converted to physical burst quantities consistently',
 "For every L1A record the delivered burst carries that record's values: angles given in degrees are converted to radians, the I/Q samples are combined as complex numbers and scaled back by the gain given in dB (20 log10), the window delay is twice the tracker range corrected by the projected centre-of-gravity offset divided by the speed of light, calibration tables are those of the record and the configured table index, the speed is the norm of the velocity and the Doppler angle is the angle between the velocity and its part perpendicular to the local vertical (negative when acute), and the burst position is recomputed from latitude, longitude and altitude with the surface point vertically below it by the window delay.",
 ['inputs', 'configurations'], "for every record content and constants set",
 "Only sampled records of one test product are compared, with gains and attitude values that hide sign, unit and table-selection errors.",
 ['dedop/data/input/l1a/l1a_dataset.py', 'dedop/model/l1a_processing_data.py', 'dedop/proc/geo/lla2ecef.py'],
 'functional contract of record construction over the raw values of one record, for arbitrary raw values')

prop('C04', 'Every delivered burst is calibrated and processed exactly once',
 "For every input sequence, including time gaps between bursts and records skipped by the reader, each delivered burst is calibrated exactly once and enters the processing queue exactly once, in order, and the run does not end before the whole input has been consumed. A gap longer than one and a half burst intervals finishes all pending surfaces before a new surface is started directly under the first burst after the gap.",
 ['inputs', 'histories'], "for every sequence of burst times and skipped records",
 "The end-to-end test runs one gap-free product; gap handling, skipped records at the start or in the middle and short tail segments are never executed.",
 ['dedop/proc/sar/processor.py'],
 'loop invariant of the main processing loop over ghost counters (delivered, calibrated, queued) and the gap state')

prop('C05', 'Each surface is output once, in order, to every product, or rejected as thin',
 "Every surface location created in a run is taken up exactly once and in creation order; it is written as one record to the L1B product and, when enabled, as the same-numbered record to the L1B-S product if its stack holds at least half the configured number of looks (rounded down), and is written to neither otherwise. No surface is left unprocessed at the end of a completed run.",
 ['inputs', 'histories', 'configurations'], "for every sequence of bursts, gaps, stack sizes and product selections",
 "One end-to-end run on a short product is compared by file existence only.",
 ['dedop/proc/sar/processor.py', 'dedop/data/output/netcdf_writer.py'],
 'loop invariant relating surfaces created, retired and written; record index invariant of the writers')

prop('C06', 'Runs are independent of earlier runs',
 "Processing a product with a processor that has already processed other products (completely, cancelled or failed) gives the same outputs as processing it with a freshly created processor.",
 ['histories'], "for every history of earlier runs of the same processor object",
 "Tests create one processor and run it once.",
 ['dedop/proc/sar/processor.py', A + 'surface_locations.py'],
 'frame contract: the run starts from an initial state that does not depend on the prior values of the queues, counters, trend and focusing state')

prop('C07', 'New surfaces lie one azimuth beam resolution further along the track',
 "The first surface (and the first after a gap) lies vertically below the current burst at the depth given by its window delay and takes over its position, velocity, attitude and time. Afterwards a new surface is created exactly when the current burst's ground point has moved at least one angular azimuth resolution away from the last surface as seen from the satellite position of that surface; its time, positions, velocity, altitude rate and attitude are then all linearly interpolated between the previous and current burst at the same ratio, namely where the angle reaches that resolution, and its geodetic coordinates and window delay correspond to its interpolated positions.",
 ['inputs'], "for every last surface and pair of consecutive bursts",
 "Tests compare four recorded cases; each interpolated field has only one sampled value.",
 [A + 'surface_locations.py', 'dedop/model/surface_data.py'],
 'functional contracts of first/next surface computation and of the angular resolution, over arbitrary real inputs')

prop('C08', 'Target focusing moves one surface to the closest approach of the target',
 "With surface focusing enabled, the surface preceding the first surface that moves away from the target is moved, once per run, onto the along-track line at the orthogonal projection of the target; its geodetic coordinates and window delay are those of the moved position and it is flagged as focused. With focusing disabled no surface position is ever altered.",
 ['inputs', 'histories', 'configurations'], "for every target position and every sequence of surfaces",
 "One recorded focusing case is tested.",
 [A + 'surface_locations.py'],
 'contract: (moved - target) is orthogonal to the along-track direction, moved is collinear with the two surfaces; the once-only flag; frame for all other surfaces')

prop('C09', 'Beams are attributed to the surfaces they observe',
 "For every burst, the surfaces it contributes to are exactly the first contiguous run, in queue order, of surfaces whose beam angle (the angle between velocity and line of sight) less the Doppler angle lies within the unambiguous Doppler interval, limited to the last ones when more than the number of pulses are visible. Each such surface, and no other, records that burst with the position of its own beam angle in the burst's list, and the absolute look index is that position re-centred on the middle pulse, counted from the far end while the number of visible surfaces is growing.",
 ['inputs', 'histories'], "for every queue of surfaces, burst geometry and history of visible-surface counts",
 "Tests check recorded angle lists; visibility holes, overflow beyond the pulse count and partially visible queues are not reached.",
 [A + 'beam_angles.py', 'dedop/proc/sar/processor.py', 'dedop/model/surface_data.py', 'dedop/model/l1a_processing_data.py'],
 'loop invariants over the surface queue (parallel lists, window of last N), functional contract of the angle, trend and index bookkeeping')

prop('C10', 'A stack is the contiguous set of looks nearest nadir with matching look data',
 "The gathered stack holds at most the configured number of looks; when more contributing looks exist, the kept ones are consecutive, in order, and start at the earliest of the looks with the smallest absolute look angles. For every kept look the beam samples, beam angle, sampling interval, Doppler angle, look angle (right angle plus Doppler angle minus beam angle), pointing angle (look angle minus pitch), look index and burst counter all belong to that same burst and beam; unused places are zero (look index: fill value), and the burst nearest to broadside is reported as the closest one.",
 ['inputs', 'configurations'], "for every set of contributing bursts and beams, look limit and sample count",
 "Tests use two recorded stacks with default sizes.",
 [A + 'stack_gathering.py'],
 'functional contract with parallel-loop summary per look, argmin invariant for the closest burst')

prop('C11', 'Azimuth processing applies the selected window, steering phase and beam order',
 "Each pulse is multiplied by the configured azimuth window (none: 1 everywhere; boxcar, Hamming 0.54-0.46cos and Hann 0.5-0.5cos: centred, of the configured width, zero outside) and by the phase exp(-j 4 pi/lambda v cos(angle) PRI p) of its pulse number, then transformed over pulses with a centred, energy-preserving transform. In exact mode, row k of the result is the centre row obtained by steering to beam angle k; in approximate mode one steering to the near-nadir beam is used and the rows are shifted so that row k still belongs to beam angle k.",
 ['inputs', 'configurations'], "for every waveform, pulse/sample count, window, width, angle list and trend",
 "Tests cover one waveform with the default configuration; windows, widths and the growing-list offset are not compared value by value.",
 [A + 'azimuth_processing.py'],
 'functional contracts per element (window, phase shift, placement) with the transform as an assumed dependency contract')

prop('C12', 'Geometry corrections align every look to the surface window delay',
 "For each look in the stack the Doppler, slant-range and window-delay corrections follow their defining formulas in range samples of that look (each range correction zero when its switch is off), the reported range is the distance between that look's satellite position and the surface, and the corrected beam is the input beam rotated by 2 pi/N times the summed corrections times the sample number. Corrections change only phase, so the energy of every look is preserved, and places beyond the stack stay zero.",
 ['inputs', 'configurations'], "for every stack, geometry and switch setting",
 "Tests compare recorded values of one stack with default switches.",
 [A + 'geometry_corrections.py'],
 'functional contract per beam and sample; unit modulus lemma from cos^2+sin^2=1')

prop('C13', 'Range compression is a centred orthonormal transform and its square modulus',
 "For every look the range-compressed complex beam is the centred orthonormal transform of the corrected beam zero-padded to the configured factor, and the power beam is exactly its squared modulus, so the total power of each look equals that of its input; each look depends only on its own input.",
 ['inputs', 'configurations'], "for every stack size, sample count and zero-padding factor",
 "One recorded beam stack with zero-padding 2 is compared.",
 [A + 'range_compression.py'],
 'functional contract per beam with an assumed contract (Parseval, linearity) for the dependency transform')

prop('C14', 'Stack masks blank exactly the samples wrapped around by the range shift',
 "With masking enabled a sample of a look is kept exactly when it was not wrapped around by that look's total range correction rounded to whole samples, and the look angle lies inside the configured limits (if both are given); masked beams are the input beams with blanked samples set to zero. The per-look mask length is the last sample index for looks kept to the end, one past the last kept sample otherwise, and zero for fully blanked looks; with masking disabled everything is kept unchanged.",
 ['inputs', 'configurations'], "for every shift (sign, magnitude, ties), stack size, zero-padding and angle limits",
 "Tests compare one recorded stack; shifts beyond the window, exact boundary shifts and angle limits are not reached.",
 [A + 'stack_masking.py'],
 'functional contracts for each mask, their combination and the trailing-zero search (loop invariant)')

prop('C15', 'Multilooking averages the unmasked looks',
 "The multilooked waveform is, sample by sample, the mean over the looks with a non-zero mask length of the antenna-weighted beams - over the unmasked samples only, if zeros are to be avoided - with antenna weights interpolated linearly in the angle table and clamped at its ends. The start/stop angles, look count and trimmed vectors describe the first and last such look, and are zero when there is none.",
 ['inputs', 'configurations'], "for every stack, mask, weight table and switch setting",
 "Recorded cases only; antenna weighting and zero avoidance are not compared against values, and interior masked looks are not reached.",
 [A + 'multilooking.py'],
 'loop invariants (partial sums, counters, first/last index), functional contract of table interpolation')

prop('C16', 'Sigma-zero scaling follows the radar equation per look, averaged over the stack',
 "For every look the sigma-zero scaling factor follows the radar equation in dB with that look's range, velocity and pulse interval, the configured instrument constants and the gain of the burst closest to nadir; the surface's factor is the mean over the stack.",
 ['inputs', 'configurations'], "for every stack geometry and instrument characterisation",
 "One recorded stack; errors in terms that are constant there are invisible.",
 [A + 'sigma_zero_scaling.py'],
 'functional contract per look over uninterpreted log10/sqrt with algebraic normalisation')

prop('C17', 'Calibration corrections act per pulse and per range gate, and are switchable',
 "When enabled, the burst calibration multiplies every pulse by the square root of its own power correction, its own phase rotation and the inverse fixed gain (AGC less sigma-zero calibration, in dB), identically for all samples; the range-transfer calibration divides each range gate of the centred range spectrum of every pulse by the square root of the gate's gain profile. When disabled, the waveform is left unchanged.",
 ['inputs', 'configurations'], "for every waveform, correction table and switch setting",
 "Calibrations are only exercised inside one end-to-end run without value checks.",
 ['dedop/proc/sar/cal/cal1_algorithm.py', 'dedop/proc/sar/cal/cal2_algorithm.py'],
 'functional contracts per element; in-place update frame')

prop('C18', 'Geodetic conversions are inverse to each other and on the ellipsoid',
 "Conversion from geodetic to Cartesian coordinates follows the ellipsoid definition, and conversion back returns the same latitude, longitude (modulo a full turn) and altitude to within a centimetre for all points from the surface to satellite altitude, including the poles, the equator and the date line, for single points and for arrays alike. Angle normalisation returns an equivalent angle within half a turn of zero.",
 ['inputs'], "for every position and for arrays of any length",
 "Tests check a handful of positions; poles, signs and array/scalar agreement are sampled once or not at all.",
 ['dedop/proc/geo/lla2ecef.py', 'dedop/proc/geo/ecef2lla.py', 'dedop/proc/geo/normalize.py'],
 'functional contracts of both conversions (scalar and array) and of normalisation; lemma that the closed-form inverse is exact on the ellipsoid; bounded check of its accuracy at altitude')

prop('C19', 'Output time tags are consistent across TAI and UTC',
 "Every output record carries the surface time, and the UTC day and second-of-day of that same instant: seconds lie within the day (leap-second days included), passing the end of the day moves to the next day's start, and the tags are derived from the burst before the surface - also for the first surface of a run or after a gap. The first and last measurement time in a product's global attributes are the times of the first and last input burst of the run, as UTC in ISO format.",
 ['inputs', 'histories'], "for every surface time, burst UTC and day length",
 "No test has a surface crossing midnight or a leap second, nor checks the first record's UTC.",
 ['dedop/data/output/l1b_writer.py', 'dedop/data/output/l1bs_writer.py', A + 'surface_locations.py', 'dedop/util/time.py', 'dedop/proc/sar/processor.py'],
 'functional contracts of the time fields of the writers and of the UTC reference stored with each surface')

prop('C20', 'Product records hold the surface\'s own values in the documented units',
 "Every record written to the L1B and L1B-S products goes to its own consecutive record number in all variables and holds the values of the surface being written: angles in degrees where declared, closest-burst values from the burst nearest to broadside, stack vectors hold the value of each look in its own place, and scaled waveforms/IQ samples that multiply back with their stored scale factor to the processed values within one quantisation step.",
 ['inputs', 'histories'], "for every surface content and any number of written records",
 "Output tests write one record with a few fields.",
 ['dedop/data/output/netcdf_writer.py', 'dedop/data/output/l1b_writer.py', 'dedop/data/output/l1bs_writer.py'],
 'contract of record writing: (variable, record index) map update with frame; field contracts per product')

prop('C21', 'Auxiliary files yield typed parameter values or a clear error',
 "A parameter read from a characterisation, configuration or constants file is the value in the file converted to the declared type, or its declared default when it is optional and absent; a missing required parameter, a wrong file version or an unconvertible value raises an error, unknown entries raise a warning and nothing else. Values of one file never influence another file object, and explicitly supplied values override the file.",
 ['inputs', 'histories'], "for every file content and any set of file objects alive at once",
 "Tests read the shipped files and a few parameters.",
 ['dedop/conf/auxiliary_file_reader.py', 'dedop/conf/auxiliary_parameter.py', 'dedop/conf/characterization.py', 'dedop/conf/configuration.py', 'dedop/conf/constants.py'],
 'contract of descriptor access over an arbitrary file dictionary; derived-parameter formulas')

prop('C22', 'Algorithms take every parameter from the configuration they were given',
 "Each processing step uses, for each of its declared parameters, the value in the configuration object it was constructed with, or the declared default when the configuration does not provide it; declared parameters include inherited ones with the most derived declaration winning, and one step's parameters never alter another's.",
 ['configurations', 'programs'], "for every class hierarchy of processing steps and configuration content",
 "Tests declare one or two sample classes.",
 ['dedop/util/parameter.py', 'dedop/proc/sar/base_algorithm.py'],
 'contract on parameter collection over an arbitrary class hierarchy and configuration')

prop('C23', 'Configuration upgrade preserves user values and yields the current format',
 "Upgrading a configuration file of any older version produces a file that declares the current version, in which parameters added or changed since that version (and not removed again later) have their default definition, parameters removed since then are gone, and every other parameter keeps the user's value unchanged. Upgrading a file that is already current or newer changes nothing, and the shipped defaults themselves are never altered.",
 ['inputs', 'histories'], "for every configuration content, every starting version and every change log",
 "One upgrade case is tested with default content.",
 ['dedop/ui/workspace_manager.py'],
 'loop invariants over the change log and over parameter keys, pointwise in an arbitrary key')

prop('C24', 'Workspace operations touch only the workspace or configuration they name',
 "Creating, copying, renaming or deleting a workspace or configuration, and adding or removing inputs and outputs, affects exactly the named item inside the workspaces directory and leaves every other workspace, configuration and file unchanged. It fails without any effect if the workspace or configuration it works on does not exist, if the workspace or configuration it would create already exists with content, or if a name is empty or would point outside its parent directory.",
 ['inputs', 'histories'], "for every tree of existing workspaces/configurations, every operation and every name",
 "Tests run single operations on fresh workspaces with well-behaved names.",
 ['dedop/ui/workspace_manager.py'],
 'frame contracts over a file-system map: every path without the target prefix is unchanged')

prop('C25', 'Listings are complete, sorted and filtered; generated names never collide',
 "Listing workspaces, configurations, inputs, outputs or notebooks returns exactly the existing items of that kind that match the given pattern or any of the given patterns, each once and in sorted order. Creating an inspection or comparison notebook never overwrites an existing file, and the current workspace or configuration reported is the one last selected.",
 ['inputs', 'histories'], "for every directory content, pattern set and history of selections",
 "Tests list directories of a few files with at most one pattern.",
 ['dedop/ui/workspace_manager.py'],
 'contracts of the listing functions over an arbitrary directory listing; loop variant/invariant of name generation')

prop('C26', 'Progress monitoring is proportional and cancellation is never lost',
 "For every sequence of start, progress, child-monitor and done calls, the percentage shown is the accumulated work over the announced total, child progress counts in proportion to the work assigned to the child, and a requested cancellation is visible to the task and all child tasks from then on.",
 ['histories', 'schedules'], "for every sequence of monitor calls and nesting depth",
 "Tests check two fixed call sequences.",
 ['dedop/util/monitor.py'],
 'state invariants of monitors and child monitors; frame on the cancel flag')

prop('C27', 'A run processes every selected input once per selected configuration',
 "`dedop run` processes every selected input (those given with -i, else all L1A files of the workspace) exactly once and in order with every selected configuration (all of the workspace with -a, else the one given with -c, else the current one, else a default configuration that is created). Each configuration is run with its own CHD, CNF and CST files, the chosen or its own output directory and the skip option, and by default the processor receives each of these in its own role. With -a and -c together, without inputs or without configurations, and if the workspace does not exist, nothing is processed and an error is reported; a processing error stops the run and is reported.",
 ['inputs', 'histories'], "for every set of workspaces, configurations, inputs and command options",
 "Tests of the command line cannot be imported here; upstream they run one or two configurations with fixed options.",
 ['dedop/cli/main.py'],
 'loop contracts over the configurations and the inputs with ghost positions; every call of the processor is an event with obligations')

prop('C28', 'Management commands act on the selected item, and remove only after confirmation',
 "The workspace, config, input and output commands act on the workspace and configuration named, else on the current ones (else, where a command falls back to them, on the defaults it creates), and change nothing else. Removing a workspace, configuration or inputs and cleaning outputs happens only after the confirmation option or the answer yes. Copy and rename never target an existing name: a taken name is replaced by a free one, a free name is used as given. The current selection is updated exactly when the current item is removed (to default, else the first remaining, else none) or renamed, or when an item is added or selected. Inspect and compare act on the files named: a path as it is, a bare file name below the outputs of its workspace and configuration. A failing operation is reported as an error and nothing after it is done; commands that only show something change nothing.",
 ['inputs', 'histories'], "for every set of workspaces, configurations and files, every sequence of commands, option and answer",
 "Tests of the command line cannot be imported here; upstream they run fixed command lines on fresh workspaces.",
 ['dedop/cli/main.py', 'dedop/ui/workspace_manager.py'],
 'contract of every command over an arbitrary workspace manager (operations by contract, effects recorded); loop contract of name generation')

prop('C29', 'Settings come from the local, then the user configuration file, then the default',
 "The value of a setting is what dedop-config.py in the working directory assigns to it, else what ~/.dedop/config.py assigns, else the default given with the request. A file that is missing contributes nothing; one that cannot be read or fails while being executed contributes nothing and only leads to a warning. If the user's file does not exist it is created from the template; an existing one is never modified, and no other file is written. The files are read at first use and the same settings are given from then on. A configuration file yields exactly the variables it assigns. A setting that is a path has ~ expanded, unset paths stay None, and an empty setting name is refused.",
 ['inputs', 'histories'], "for every state of the two configuration files and their directories, every content and every setting name",
 "Tests read one inline configuration and ask for a setting that is not defined.",
 ['dedop/util/config.py'],
 'contracts on all five functions over two arbitrary directories and arbitrary assignments, pointwise in an arbitrary setting name; compile and exec by contract')

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
