#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['CHECLabPy/' + f for f in files],
                     state=[dict(name=a, meaning=b, where='CHECLabPy/' + c) for a, b, c in state],
                     mechanism=[dict(name=a, where='CHECLabPy/' + b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

p('C01', 'Rows stored in an HDF5 table come back complete, in order, unchanged',
  'Every row appended to a table of an HDF5 file being created is read back from the finished file exactly once, in the order it was appended, with the same columns, values and column types, however the appends were split up, interleaved with other tables, or flushed to disk early because a table\'s buffered data became large. '
  'Batches beyond half a GB are not kept in memory. Writing or appending one table never changes the content of another, and writing a whole table replaces everything previously given for that table, including rows that were not flushed yet.',
  ['histories', 'inputs', 'configurations'],
  'Any sequence of append/write calls over any set of tables with consistent columns (integers, floats, booleans, timestamps, fixed-width text), any split into data frames and any point at which the buffer limit is reached; appending to a table after a whole-table write of the same name is outside the contract.',
  'No test opens the HDF5 writer at all; the flush path needs 0.5 GB of buffered rows.',
  ['core/io/hdf5_writer.py', 'core/io/hdf5_reader.py'],
  [('per-table buffer list and flush', 'core/io/hdf5_writer.py:_append_to_store'), ('buffer limit', 'core/io/hdf5_writer.py:append'), ('whole-table write', 'core/io/hdf5_writer.py:write')],
  [('df_list', 'rows accepted but not yet on disk, per table', 'core/io/hdf5_writer.py')], ['HDF5Reader.read of the finished file'])

p('C02', 'File metadata and size accounting are faithful',
  'For every table name and metadata name, the metadata read back from a finished file is exactly the union of everything added under that pair, the last value winning per entry, with no leakage between pairs and whether or not a table of that name exists; only the reserved names "info" and "mapping" are refused, with a ValueError and no effect. '
  'A file lists exactly the non-empty tables as tables, each with a byte count that matches the size of its rows, and the overall byte count is the sum of those. '
  'A camera mapping stored in the file comes back equal together with its own metadata and is never listed as a table or as metadata.',
  ['histories', 'inputs'],
  'Any sequence of metadata additions (any mix of table names, metadata names, entry names and picklable values), interleaved with table operations and mapping storage, in create and in append sessions.',
  'No test touches metadata; the merge and override behaviour depends on the whole history of calls.',
  ['core/io/hdf5_writer.py', 'core/io/hdf5_reader.py', 'core/io/hdf5_appender.py'],
  [('metadata dictionaries saved at close', 'core/io/hdf5_writer.py:_save_metadata'), ('contents scan', 'core/io/hdf5_reader.py:_generate_contents_list'), ('byte counting', 'core/io/hdf5_writer.py:finish')],
  [('metadata', 'pending metadata per table and name', 'core/io/hdf5_writer.py')], ['HDF5Reader.get_metadata', 'HDF5Reader.metadata_keys', 'HDF5Reader.dataframe_keys', 'HDF5Reader.get_mapping'])

p('C03', 'An interrupted writing session still leaves a complete, readable file',
  'When an exception is raised at any point inside the context of an HDF5 writer or appender, that same exception reaches the caller and the file left behind can be opened and contains every row, table and metadata entry that had been accepted before that point, exactly as if the session had been closed normally there.',
  ['crash_points', 'histories'],
  'Every position in every sequence of writer/appender operations at which an exception can be raised, including a refused operation itself.',
  'No test leaves a writer context through an exception; there is one behaviour per position in every history.',
  ['core/io/hdf5_writer.py', 'core/io/hdf5_appender.py'],
  [('finish called from __exit__', 'core/io/hdf5_writer.py:__exit__'), ('appender __exit__', 'core/io/hdf5_appender.py:__exit__')],
  [], ['exception seen by the caller', 'content of the file afterwards'])

p('C04', 'Append sessions extend a file without disturbing what it holds',
  'After any series of sessions that create a file and then reopen it for appending, each table holds the rows of all sessions in session order, tables and metadata not touched by a session are unchanged, and metadata entries added later are merged into the existing ones with the later value winning; this also holds for a table name that so far only carried metadata. '
  'Byte counts always describe the whole table and the whole file rather than the last session, and opening a file that does not exist for appending or reading raises FileNotFoundError without creating it.',
  ['histories', 'inputs'],
  'Any number of append sessions, with any appends, whole-table writes and metadata additions to existing or new table names, including sessions that do nothing and sessions ended by an exception.',
  'No test uses the appender; the property relates several sessions on one file.',
  ['core/io/hdf5_appender.py', 'core/io/hdf5_writer.py', 'core/io/hdf5_reader.py'],
  [('merge with existing metadata', 'core/io/hdf5_appender.py:_save_metadata'), ('append to existing tables', 'core/io/hdf5_appender.py:_append_to_store'), ('byte totals', 'core/io/hdf5_appender.py:finish')],
  [], ['HDF5Reader on the file after each session'])

p('C05', 'All ways of reading a table agree',
  'Whole-table reads, row-range and column selections, single-column reads, column lists and iteration in chunks of any size (or of the default size, about 2 GB) present the same rows, in the same order and without loss or duplication, and the reported row count and column names match them; chunks never exceed the requested size. '
  'Reading a table or metadata that does not exist raises KeyError, and reading a table larger than 8 GB in one go raises MemoryError unless explicitly forced. Opening a file, for reading or appending, warns exactly when it was made by another major version of the package.',
  ['inputs', 'configurations'],
  'Any appended table, any start/stop/columns selection, any chunk size of at least one row.',
  'No test reads an HDF5 file; boundaries (partial last chunk, empty ranges, default chunking of big tables) are not sampled.',
  ['core/io/hdf5_reader.py', 'core/io/dl1_reader.py'],
  [('chunk iteration', 'core/io/hdf5_reader.py:iterate_over_chunks'), ('size guard', 'core/io/hdf5_reader.py:read'), ('column access', 'core/io/hdf5_reader.py:select_columns')],
  [], ['HDF5Reader methods'])

p('C06', 'DL1 events are addressed consistently',
  'In a DL1 file, reading one event by its event number, reading it by its position, iterating over all events, iterating over a list of event numbers, and iterating over rows or chunks all yield the same rows as the stored table: exactly the rows of that event, one per pixel, each event exactly once and in file order, whatever the event numbering (gaps included). '
  'An event number that is not in the file raises IndexError, and module or superpixel information is returned for exactly the requested slot, with IndexError for any slot or superpixel number at or beyond the camera\'s count.',
  ['inputs', 'histories'],
  'Any DL1 file with any number of events, pixels and modules, any event numbering, and any order of queries on one reader.',
  'No test opens a DL1 file; the lookup relies on row positions that only hold together across writer, metadata and reader.',
  ['core/io/dl1_reader.py', 'core/io/hdf5_reader.py'],
  [('event lookup', 'core/io/dl1_reader.py:event_lookup'), ('row arithmetic', 'core/io/dl1_reader.py:select_event_index'), ('range checks', 'core/io/dl1_reader.py:get_sp_dac')],
  [('_event_lookup', 'cached event numbers', 'core/io/dl1_reader.py')], ['DL1Reader methods'])

p('C07', 'DL1 extraction keeps exactly one row per pixel of every good event',
  'The DL1 file produced from a waveform file contains, for every event that is neither stale nor missing packets and for every pixel, exactly one row carrying that event\'s number, times, first cell and true charge and that pixel\'s extracted values, ordered by event then pixel, and nothing for skipped events. '
  'Its metadata states the numbers of processed and skipped events, the times of the first and last processed event, the camera geometry, configuration and per-module settings of the input; simulated input additionally yields one simulation and one pointing row per processed event. '
  'Every file named is extracted independently of the others; extraction alters neither the input waveforms nor the input file, and an output named automatically never replaces its input.',
  ['inputs', 'histories', 'configurations'],
  'Any pattern of good/stale/missing-packet events, any number of events and pixels, real or simulated input, any limit on the number of events, any column configuration, any buffer flush position.',
  'Nothing executes extract_dl1; the property spans reader, time calibration, baseline, reducer chain, writer and DL1 reader.',
  ['scripts/extract_dl1.py', 'core/io/hdf5_writer.py', 'core/io/dl1_reader.py', 'core/chain.py'],
  [('event loop and skip accounting', 'scripts/extract_dl1.py:write_dl1_file'), ('row preparation and ordering', 'scripts/extract_dl1.py:_prepare_before_append'), ('metadata collection', 'scripts/extract_dl1.py:DL1Extractor')],
  [], ['DL1Reader on the produced file'])

p('C08', 'Waveform readers give every event once and keep event details attached',
  'For a waveform file of N events (after the optional limit on events), iteration yields events 0..N-1 in order, indexing gives the same event as iteration, negative indices count from the end, slices and lists give the same events as individual indexing, any other index raises IndexError, and an index of another type raises TypeError. '
  'Each event carries its own event number, first cell, stale and missing-packet flags, trigger time, CPU time and true charge, and views, slices and results of arithmetic on its waveforms keep them. '
  'R0 and R1 readers refuse files of the other level with IOError, a missing file raises FileNotFoundError, per-module queries at or beyond the camera\'s count raise IndexError, and the generic factory picks a reader that accepts the file; a reader accepts exactly the files that carry its format\'s mark, compressed or not and whatever their name. '
  'The reader reports the run, the camera\'s version, its mapping, reference pulse and numbers of pixels, modules, samples and cells as the file and the camera configuration give them, and leaves out as many events at either end of the file as the caller says.',
  ['inputs', 'histories'],
  'Any number of events, any limit, any index/slice/list, any access order, R0 or R1 data.',
  'The existing reader tests need data files and the TARGET libraries and cannot run here; they only sample index 1.',
  ['core/io/waveform.py', 'core/io/tio.py'],
  [('index handling', 'core/io/waveform.py:__getitem__'), ('attribute propagation', 'core/io/waveform.py:__array_finalize__'), ('event limit', 'core/io/tio.py:__init__'), ('level check', 'core/io/tio.py:ReaderR1')],
  [], ['TIOReader/ReaderR0/ReaderR1 against a stand-in for the TARGET libraries', 'a WaveformReader subclass'])

p('C09', 'Exactly the requested columns are extracted',
  'A reducer chain built without a configuration file extracts exactly the columns that are on by default, changed by explicit keyword settings; built with a configuration file, exactly the columns the file (overridden by keyword settings) switches on and no other; a reducer none of whose columns is requested is not constructed. '
  'Every setting that is not a column name reaches the reducers as their configuration with the same precedence, and the configuration the chain reports is the merged one.',
  ['configurations', 'inputs'],
  'All combinations of default, file and keyword settings over all column names known to the package and user-defined ones, including empty files.',
  'The one chain test uses two toy columns and no configuration file.',
  ['core/chain.py', 'core/reducer.py'],
  [('configuration merge', 'core/chain.py:__init__'), ('chain construction', 'core/chain.py:_build_chain'), ('column activation', 'core/reducer.py:get_active_columns')],
  [], ['WaveformReducerChain.process keys', 'WaveformReducerChain.config'])

p('C10', 'Column values depend on the event alone and inputs are never modified',
  'Processing an event through a reducer chain returns, for each active column, a value that depends only on that event\'s waveforms and the configuration: not on events processed before, not on which other columns are active, and not on how often the event is processed. '
  'The waveforms passed in are never modified, and values already returned for earlier events do not change afterwards.',
  ['histories', 'configurations', 'inputs'],
  'All sequences of events (any waveforms, any dtype the reducers accept) through one chain, all sets of active columns.',
  'The only test of this needs a data file that is absent; it samples one event and one reducer.',
  ['core/reducer.py', 'core/chain.py', 'waveform_reducers/average_wf.py', 'waveform_reducers/cross_correlation.py', 'waveform_reducers/timing.py', 'waveform_reducers/superpixel.py'],
  [('copy before processing', 'core/reducer.py:_prepare'), ('per-event state', 'core/reducer.py:process')],
  [('waveforms', 'waveforms of the current event', 'core/reducer.py')], ['WaveformReducerChain.process results', 'input arrays afterwards'])

p('C11', 'Column names are unique and owned by the class that defines them',
  'Over any history of reducer class definitions, each column name belongs to a single defining class: a second, different definition of the name is refused with AttributeError unless it re-defines the same qualified name, a class\'s column list holds exactly the columns it defines itself and not those it inherits, and the set of classes offered to the chain contains every concrete reducer at any depth of inheritance exactly once per class name and no abstract one. '
  'Accessing a column of a reducer that has not been given an event raises ValueError.',
  ['histories', 'programs'],
  'All sequences of class definitions with any inheritance structure and any overlap of column names.',
  'Tests define three fixed classes; the registry is global mutable state that depends on the whole history.',
  ['core/reducer.py', 'core/__init__.py'],
  [('column registry', 'core/reducer.py:column'), ('metaclass column list', 'core/reducer.py:WaveformReducerMeta'), ('subclass discovery', 'core/__init__.py:child_subclasses')],
  [('column.registry', 'all column names defined so far', 'core/reducer.py')], ['class attributes', 'exceptions', 'child_subclasses'])

p('C12', 'Pulse parameters follow their documented definitions',
  'For every event the extracted values equal their definition evaluated on that event: window charges sum exactly the configured window around the maximum of the camera-average waveform (that position clamped to 10 samples from either end), the saturation sum runs from the configured distance before that position to the end, baselines and waveform statistics cover the first 20, last 20 and all samples, superpixel values are taken from the four pixels of each superpixel, and flasher flags name the module with the highest mean peak only if all four exceed 30 mV. '
  'Pulse times are the quadratic interpolation about the maximum inside the window, widths and rise times the interpolated level crossings nearest the peak, and cross-correlation columns the correlation with the reference pulse at the common or per-pixel maximum, with the sample itself returned when the maximum has no neighbours.',
  ['inputs', 'configurations'],
  'All waveforms of any size the reducers accept, pulses anywhere including at the edges, ties, flat waveforms, all window settings that stay within the waveform.',
  'No test computes a single extracted value.',
  ['waveform_reducers/average_wf.py', 'waveform_reducers/common.py', 'waveform_reducers/saturation.py', 'waveform_reducers/superpixel.py', 'waveform_reducers/flag_flasher.py', 'waveform_reducers/timing.py', 'waveform_reducers/cross_correlation.py', 'waveform_reducers/sliding_window.py'],
  [('integration window', 'waveform_reducers/average_wf.py:charge_averagewf'), ('pulse timing', 'waveform_reducers/timing.py:obtain_pulse_timing'), ('cross correlation', 'waveform_reducers/cross_correlation.py:_prepare')],
  [], ['values returned by WaveformReducerChain.process'])

p('C13', 'Amplitude matching steps DACs safely and terminates',
  'In every run of the amplitude matching each superpixel\'s DAC changes only by the step of its current stage (10, then 5, then 1) towards the target amplitude or back to its previous value when the distance to the target grew, stages only ever advance within a pass, a finished superpixel keeps its DAC for the rest of the pass, every DAC handed out lies between 10 and 255, and masked or out-of-range superpixels are set to 255 and finished. '
  'The run goes through a first pass, a second pass with single steps only, and then reports completion, from which point on it returns the same DACs.',
  ['histories', 'inputs', 'configurations'],
  'All sequences of measured amplitudes (any camera response), all start values within 10..255, all masks given per superpixel or per pixel, with or without an illumination profile.',
  'No test exists for the amplitude matcher; behaviour depends on the whole measurement history.',
  ['calib/amplitude_matcher.py'],
  [('per-superpixel step rule', 'calib/amplitude_matcher.py:_get_next_dac_nb'), ('pass control', 'calib/amplitude_matcher.py:process')],
  [('stage', 'step stage per superpixel', 'calib/amplitude_matcher.py'), ('global_stage', 'current pass', 'calib/amplitude_matcher.py'), ('previous_distance', 'distance at the previous iteration', 'calib/amplitude_matcher.py')],
  ['values returned by process for successive R0 files'])

p('C14', 'Pixel masks survive loading, merging, converting and committing',
  'Loading a mask file gives exactly the dead, low and bad-HV flags in it (a superpixel being bad when any of its pixels is), merging gives the union with the masks already held, and saving and reloading masks reproduces them; the combined mask is the union of all three with bad-HV spread over the four pixels of each superpixel. '
  'With no file named, the latest mask file is used, which after a commit is the committed one. '
  'Converting superpixels or modules to pixels gives exactly their 4 or 64 consecutive pixels, in the order given. '
  'Plotting the masks colours exactly the flagged pixels, by their kind: dead, over that low, over that bad HV.',
  ['histories', 'inputs'],
  'All mask contents, all sequences of load, merge, modify, commit and reload, any set of mask files present, all lists of superpixels and modules.',
  'No test loads a mask file.',
  ['calib/pixel_masks.py', 'utils/files.py'],
  [('load and merge', 'calib/pixel_masks.py:_load_file'), ('save', 'calib/pixel_masks.py:_save_to_file'), ('latest file', 'utils/files.py:sort_file_list'), ('display', 'calib/pixel_masks.py:plot')],
  [('dead/low/bad_hv', 'current masks', 'calib/pixel_masks.py')], ['PixelMasks attributes', 'mask files'])

p('C15', 'Spectrum-fit parameters are kept consistent through updates and configs',
  'For any list of fit parameters, shared or one-per-illumination, the flat parameter order, the fit settings (initial value, limits, fixed flag) and the per-illumination lookup always describe the same assignment: each shared parameter has one position used by all illuminations, each multi parameter one position per illumination, positions are consecutive in declaration order, and updates or re-declarations take effect everywhere at once. '
  'Saving a fitter\'s configuration and loading it into another fitter reproduces bins, range, initial values, limits and fixed flags, a partial configuration changes only what it names, and settings that were loaded or updated from a previous result are the ones the next fit uses.',
  ['histories', 'configurations', 'inputs'],
  'All parameter lists and numbers of illuminations, all sequences of update, load, save, fit and update-initial operations.',
  'Tests check one list of two parameters and one update; the configuration test cannot pass and never fits after loading.',
  ['core/spectrum_fitter.py'],
  [('parameter bookkeeping', 'core/spectrum_fitter.py:_prepare_parameters'), ('configuration load/save', 'core/spectrum_fitter.py:load_config'), ('update from result', 'core/spectrum_fitter.py:update_initial')],
  [('minuit_kwargs', 'settings handed to the minimiser', 'core/spectrum_fitter.py'), ('lookup', 'position of each parameter per illumination', 'core/spectrum_fitter.py')],
  ['SpectrumParameterCollection attributes', 'SpectrumFitter configuration files and fit results'])

p('C16', 'Per-pixel spectrum fits do not depend on order or parallelism',
  'The result of fitting one pixel\'s charges (histogram, parameter values, errors, fitted curve) is determined by those charges and the fitter settings alone: it is the same whichever fits the fitter performed before, and fitting all pixels sequentially or over any number of processes gives the same result for every pixel, each pixel present exactly once and paired with its own charges. '
  'Each histogram counts every charge inside the configured range exactly once per illumination, and the stored fit tables are in pixel order.',
  ['schedules', 'histories', 'inputs'],
  'All orders of fits, all numbers of worker processes and their schedules, all numbers of pixels and illuminations.',
  'Tests perform single fits in a fresh fitter and never touch the per-pixel applier or the script.',
  ['core/spectrum_fitter.py', 'scripts/extract_spe.py'],
  [('apply rebuilds all fit state', 'core/spectrum_fitter.py:apply'), ('worker pool', 'scripts/extract_spe.py:multiprocess'), ('result table', 'scripts/extract_spe.py:main')],
  [('charge_hist_y', 'histograms of the latest fit', 'core/spectrum_fitter.py')], ['PixelFitApplier results', 'output file of extract_spe'])

p('C17', 'Charge resolution and statistics equal their batch definition',
  'For any sequence of contributions, the streaming charge resolution and charge statistics equal the values computed from all contributions at once, per pixel and for the camera: the count, the summed squared deviation and the resolution derived from them (with the Poisson term only for simulated truth, and without entries of zero true charge), and the count, sums, mean and standard deviation. '
  'The result does not depend on the order or grouping of contributions or on when intermediate results are combined, asking for the result repeatedly returns the same answer, and contributions may continue afterwards.',
  ['histories', 'inputs', 'configurations'],
  'All sequences of add and finish calls with any pixels, true charges/amplitudes and measured charges, any memory-triggered combination point.',
  'No test uses these classes; the combination path needs 1 GB of contributions.',
  ['utils/resolutions.py'],
  [('combine by group', 'utils/resolutions.py:_amalgamate'), ('memory limit', 'utils/resolutions.py:add'), ('derived quantities', 'utils/resolutions.py:finish')],
  [('_df', 'combined sums', 'utils/resolutions.py'), ('_df_list', 'contributions not yet combined', 'utils/resolutions.py')],
  ['data frames returned by finish'])

p('C18', 'The subtracted baseline is the rolling average it claims to be',
  'The baseline subtracted from the k-th processed event is, per pixel, the mean of the first samples over the most recently processed events including this one, up to the configured number of events, slots not replaced yet holding the file\'s first events; the returned waveforms are the input minus that per-pixel constant and the input is unchanged.',
  ['histories', 'inputs', 'configurations'],
  'All sequences of processed events (also far more than the window, and files shorter than the window), all window lengths and sample counts.',
  'No test uses the baseline subtraction; window wrap-around needs more than 50 events.',
  ['utils/waveform.py'],
  [('ring buffer', 'utils/waveform.py:BaselineSubtractor')],
  [('baseline_waveforms', 'ring buffer of baseline samples', 'utils/waveform.py'), ('iev', 'number of processed events', 'utils/waveform.py')],
  ['BaselineSubtractor.subtract', 'BaselineSubtractor.baseline'])

p('C19', 'Waveform alignment and averages are exact',
  'Shifting waveforms by any number of samples moves every sample by exactly that number and fills vacated samples with the fill value; aligning an event puts the maximum of its average waveform at the requested sample; the file-average waveforms (for the camera and per pixel) are the mean over all events of baseline-subtracted, aligned waveforms; and the dead-pixel list contains exactly the pixels whose average-waveform peak is below the given fraction of the mean peak, using at most the given number of events.',
  ['inputs', 'configurations'],
  'All waveform arrays, all shifts smaller than the waveform length in either direction, all target samples, all fractions and event limits.',
  'No test uses these functions.',
  ['utils/waveform.py'],
  [('shift', 'utils/waveform.py:shift_array'), ('alignment', 'utils/waveform.py:shift_waveform'), ('averages', 'utils/waveform.py:get_average_wf'), ('dead pixels', 'utils/waveform.py:obtain_dead_pixel_list_r1')],
  [], ['function results'])

p('C20', 'Calibrations apply the right correction to the right pixel',
  'Time calibration replaces each sample of a pixel by the waveform of that same pixel linearly interpolated at the time shifted by that pixel\'s correction (extrapolated from the outermost two samples at the edges), for any real correction including whole samples and zero, leaving the input unchanged. '
  'Amplitude calibration returns (value - pedestal of the pixel) / conversion x flat-field coefficient of the pixel for scalars and arrays alike, folding and unfolding an illumination profile are inverse to each other, and the online waveform calibration calibrates a copy using the event\'s first cell for every pixel.',
  ['inputs'],
  'All waveforms (single and double precision), all corrections, all pixel selections and repetitions.',
  'No test uses the calibrators; whole-sample corrections do not occur in the shipped table.',
  ['calib/time_calibrator.py', 'calib/amplitude_calibrator.py', 'calib/illumination_profile.py', 'calib/waveform.py'],
  [('interpolation', 'calib/time_calibrator.py:apply_t_cor'), ('coefficients per pixel', 'calib/amplitude_calibrator.py:__call__')],
  [], ['function results'])

p('C21', 'Camera geometry groupings are consistent',
  'From a pixel mapping, the superpixel and module mappings contain each superpixel or module once, in increasing number, located at the mean position of exactly its own pixels, with the slot of its pixels, the row and column of the coarser grid, and grid dimensions and size scaled accordingly, while the pixel mapping and its metadata stay unchanged. '
  'Rows and columns recovered from pixel positions on a grid (with module gaps and empty corners) are those of the grid.',
  ['inputs'],
  'All camera layouts built of 8x8-pixel modules, any pixel numbering order, any grid pitch.',
  'No test uses the mapping functions.',
  ['utils/mapping.py'],
  [('grouping', 'utils/mapping.py:get_superpixel_mapping'), ('grid recovery', 'utils/mapping.py:get_row_column')],
  [], ['returned data frames and arrays'])

p('C22', 'A camera image always shows the values last given to it',
  'After any sequence of image updates, limit changes, limit resets, log scaling, highlights and text, each pixel of the camera display shows the value last set for it (masked where not finite; grid displays place it at the pixel\'s row and column and leave the missing corners blank), an image of the wrong size is refused without effect, and the colour range is the data range of the current image while automatic (its positive part under log scaling) and otherwise the limits set explicitly, until they are reset or log scaling takes the range from the image again. '
  'Highlights outline exactly the given pixels and leave the image itself unchanged, and labels are placed at their own pixel.',
  ['histories', 'inputs'],
  'All sequences of operations on one or several displays, all image contents including non-finite and integer values, patch-based and grid-based displays.',
  'No test creates a camera image.',
  ['plotting/camera.py'],
  [('image setter', 'plotting/camera.py:image'), ('limit control', 'plotting/camera.py:set_limits_minmax'), ('highlight', 'plotting/camera.py:highlight_pixels')],
  [('autoscale', 'whether limits follow the data', 'plotting/camera.py'), ('_image', 'current image', 'plotting/camera.py')],
  ['display arrays, limits, text positions'])

p('C23', 'Configuration and run files are read completely and in the right order',
  'Reading a high-voltage configuration file gives, for every module and superpixel, exactly the DAC and on/off value stated for it (the last one stated, zero if none) whatever the order of lines; run lists give every run with its own columns and the file path belonging to that run number; file lists are ordered by the numbers in their names numerically and text otherwise. '
  'The generated extractor configuration lists every column of every available reducer exactly once with its default setting, and loading it activates exactly the columns it marks as on.',
  ['inputs', 'configurations'],
  'All file contents in the supported formats, all file name sets, generated configurations with and without documentation.',
  'No test reads any of these files.',
  ['utils/files.py', 'scripts/generate_dl1_config.py'],
  [('line patterns', 'utils/files.py:extract_hv_cfg'), ('natural ordering', 'utils/files.py:natural_keys'), ('config generation', 'scripts/generate_dl1_config.py:main')],
  [], ['function results', 'generated file'])

p('C24', 'Running mean and variance match the batch values',
  'Feeding any sequence of samples one by one through the online statistics update gives, after every sample, the count of samples so far, their mean and their sum of squared deviations from that mean, for scalars and for any interleaving of independent streams.',
  ['histories', 'inputs'],
  'All sample sequences.',
  'No test uses the online algorithm.',
  ['stats/welfords.py'],
  [('Welford update', 'stats/welfords.py:welfords_online_algorithm')],
  [], ['returned triple'])

p('C25', 'Stored monitor data is matched to the right device and event',
  'For a DL1 file with embedded monitor tables, each monitor column is found in the table that has it (camera, then module, then pixel; KeyError if none), column reads equal the stored table, reshaped reads give one row per monitor event and one column per device, averages are per device over all monitor events, and matching a monitor column to waveform events gives for each DL1 row the monitor value at that row\'s monitor index.',
  ['inputs'],
  'All monitor tables with any number of monitor events and devices, any index assignment in the DL1 table.',
  'No test opens monitor data.',
  ['core/io/dl1_reader.py'],
  [('table search', 'core/io/dl1_reader.py:get_key_for_column'), ('matching', 'core/io/dl1_reader.py:get_matched_monitor_column')],
  [], ['DL1Reader.monitor', 'DL1Reader.get_matched_monitor_column'])

p('C26', 'Simulated-event reading places every pixel and event correctly',
  'Waveforms and true charges read from simulated events are re-ordered so that each camera pixel of the package\'s mapping holds the samples of the simulated pixel at the same position, event number, time, simulation and pointing information always belong to the event being read, and iterating or indexing in any order gives the same event content.',
  ['inputs', 'histories'],
  'All pixel numberings of the simulated camera, all access orders, any event limit.',
  'The simulation reader cannot run without ctapipe; no test exists.',
  ['core/io/simtel.py', 'utils/mapping.py'],
  [('pixel re-ordering', 'core/io/simtel.py:__init__'), ('per-event containers', 'core/io/simtel.py:_fill_event_containers')],
  [('pixel_order', 'simulated pixel for each camera pixel', 'core/io/simtel.py')],
  ['SimtelReader against a stand-in for ctapipe and the TARGET libraries'])

p('C27', 'ROOT conversion keeps every value',
  'Converting a DL1 file gives one ROOT file, at the path asked for or the input path with its last extension replaced, closed after writing, whose metadata tree has one entry for every metadata entry (text as text, nothing as the word None, times as nanoseconds, other values as numbers) and whose data and mapping trees have every row, column, number type and value of the tables, times as nanoseconds; '
  'the input is unchanged, and a missing input is reported without writing anything.',
  ['inputs', 'configurations'],
  'All DL1 files without embedded monitor tables (the conversion of those is an open TODO in the script), all metadata mixes, all column types, all option forms.',
  'The script needs ROOT; no test runs it.',
  ['scripts/convert_hd52root.py'],
  [('metadata branches', 'scripts/convert_hd52root.py'), ('table conversion', 'scripts/convert_hd52root.py:Write2TTree')],
  [('meta_strings', 'text holders bound to branches', 'scripts/convert_hd52root.py')],
  ['trees recorded by stand-ins for ROOT and root_numpy'])

p('C28', 'Waveform plots show every pixel in its place',
  'A camera waveform figure has exactly one panel per module (or per pixel), at the grid position of that module or pixel with row 0 at the bottom and labelled with its number; plotting adds to each panel exactly the waveforms of its own pixels, the camera average and the module average, lists exactly the pixels of that module whose peak is below the stated fraction of the peak of the camera average, shades pixel panels by their peak and cuts no waveform off; '
  'highlighting outlines exactly the selected pixels, resetting restores the module outlines, and figures do not affect each other. A single-waveform figure shows the curves, titles and units it was given and is written to the path asked for.',
  ['inputs', 'histories'],
  'All camera layouts (gaps, any numbering), all waveforms, all sequences of plots and highlights on several figures.',
  'No test creates a waveform figure.',
  ['plotting/waveform.py', 'utils/mapping.py'],
  [('module panels', 'plotting/waveform.py:CameraTMWaveformPlotter'), ('pixel panels', 'plotting/waveform.py:CameraPixelWaveformPlotter'), ('single plot', 'plotting/waveform.py:WaveformPlotter')],
  [('ax_dict', 'panel of each module or pixel', 'plotting/waveform.py')],
  ['curves, positions, texts, limits and outlines of the panels'])

p('C29', 'Sensor data-sheet conversions invent no numbers',
  'Converting one named photosensor characteristic gives, for each of the four characteristics, the linear interpolation between the two data-sheet rows around the value (the row itself at a row), no number where the sheet has no entry around it, and for values outside the sheet an error or no number; the value asked about is returned unchanged; anything but exactly one named value (zero included as a value) is refused with ValueError.',
  ['inputs', 'configurations'],
  'All sheets (rows in any order, rising or falling columns, missing entries), all values inside, at and outside the rows, single values and arrays.',
  'No test uses the converter.',
  ['calib/sipm_data_sheet.py', 'calib/data/__init__.py'],
  [('conversion', 'calib/sipm_data_sheet.py:SiPMDataSheetConverter.__call__')],
  [('df', 'the data sheet', 'calib/sipm_data_sheet.py')],
  ['returned dictionaries', 'plotted curves'])

p('C30', 'Spectrum models are the distribution of the counting process',
  'The SiPM and MAPM spectra are, for any illumination, crosstalk, gain and widths, a sum of normal peaks at the pedestal plus k times the gain, of variance pedestal variance plus k times the gain variance, each weighted with the probability that exactly k cells fire when a Poisson number of cells each start a geometric crosstalk chain (crosstalk zero for the MAPM), so that the area is one and the mean is the pedestal plus the mean number of cells times the gain, '
  'up to terms below the stated significance; the binomial, Poisson and normal functions obey their defining laws, x log y is zero at x = 0 (NaN for NaN). The likelihood of histograms is minus twice the sum over illuminations and bins of the Poisson log-probability of each bin under the spectrum scaled to the histogram, and is least at the parameters that made the histogram.',
  ['inputs'],
  'All parameter values within and beyond the default limits, all evaluation points in any order, one or several illuminations.',
  'Tests compare densities at a few points and the spectra not at all.',
  ['stats/pdf.py', 'spectrum_fitters/gentile.py', 'spectrum_fitters/mapm.py'],
  [('densities', 'stats/pdf.py'), ('SiPM model', 'spectrum_fitters/gentile.py:sipm_gentile_spe'), ('MAPM model', 'spectrum_fitters/mapm.py:mapm_spe'), ('likelihood', 'spectrum_fitters/gentile.py:SiPMGentileFitter._get_likelihood')],
  [], ['function results', 'spectra and likelihoods of the fitters'])

p('C31', 'Reducer steps run once per event in order, and factories make the class named',
  'For every event each reducer that has an active column prepares itself exactly once with that event, then evaluates each of its active columns exactly once and none that is inactive, then performs its closing step exactly once, so that a reducer which keeps state between events returns values which follow from the sequence of events alone. This holds for users\' reducers at any depth of inheritance of these steps, on their own or in a chain configured by arguments or by file; an error raised by a step reaches the caller and the events after it are processed as usual. '
  'A factory makes a new instance of exactly the class named, with the arguments it was given, and refuses any other name with KeyError.',
  ['histories', 'programs'],
  'All inheritances of reducer steps, active columns, sequences of events and failing steps; all class trees and names asked of a factory.',
  'Tests process one event with built-in reducers, never count how often a step runs, and ask a factory for one name.',
  ['core/reducer.py', 'core/chain.py', 'core/factory.py'],
  [('event processing', 'core/reducer.py:WaveformReducer.process'), ('chain', 'core/chain.py:WaveformReducerChain.process'), ('factory', 'core/factory.py:Factory.produce')],
  [('reducer state', 'whatever a reducer keeps from event to event', 'core/reducer.py')], ['calls of the steps of user-defined reducers', 'returned values', 'exceptions', 'types of products'])

p('C32', 'Charge resolution plots show the binned table and the defined curves',
  'A charge resolution plot of a pixel or of the camera shows, for each of the 99 logarithmic bins between 0.1 p.e. and the largest charge of that pixel or camera that contain a charge, one point at the mean charge and the mean resolution of exactly the rows in the bin (rows with a true charge of 0.001 p.e. and less left out), with an error bar of the quadratic sum of the rows\' 1/sqrt(charge) divided by their number; the charge mean plot shows mean value over mean charge and a line at one over the range of all charges plotted so far. '
  'The plot relative to the requirement shows the same points and curves divided by the requirement. The requirement, goal and Poisson curves have their defined values for every charge up to the charge they are defined for, that charge included, and none beyond. The tables plotted and the charges given for a curve stay as they were, and a plot shows the tables last set.',
  ['every input', 'histories'],
  'All tables of charges and values, all pixels, all sequences of setting tables, plotting and drawing curves, for the three plotters.',
  'No test draws a resolution plot; one example could not settle binning, limits of definition or a later table.',
  ['plotting/resolutions.py'],
  [('points', 'plotting/resolutions.py:bin_points'), ('curves', 'plotting/resolutions.py:ChargeResolutionPlotter.limit_curves'), ('charge mean', 'plotting/resolutions.py:ChargeMeanPlotter.finish')],
  [('tables set and range plotted', 'df_pixel, df_camera, x_min, x_max', 'plotting/resolutions.py')], ['points, error bars and labels of the figure', 'curves of the figure', 'the tables afterwards'])

p('C33', 'Spectrum plots show the fits they are given',
  'A spectrum figure shows for every illumination the histogram with the given edges and contents and the fit curve with the given points, both in one colour that no other illumination has, a legend entry with that illumination\'s fitted average and its error, and a table that gives for every parameter its initial value, its fitted value and the fitted value\'s error. '
  'Plotting a fit file produces, in the directory named, for every parameter one camera figure of its values and one of its errors, each pixel showing its own, and a histogram which counts every pixel exactly once and states mean and standard deviation of the values, and the spectrum figure of the pixel asked for, each under its own name and title; the file stays as it is. '
  'The plot mode of the extraction shows for a pixel what a normal run with the same input and configuration stores for it, and the file of a normal run states the initial values used.',
  ['every input', 'programs'],
  'All fits, parameter names and orders, numbers of illuminations and pixels, fit files and configurations.',
  'No test draws a spectrum or runs the plot program; an example cannot settle which illumination, parameter or pixel a number on the figure belongs to.',
  ['plotting/spe.py', 'plotting/setup.py', 'scripts/plot_spe.py', 'scripts/extract_spe.py'],
  [('spectrum figure', 'plotting/spe.py:SpectrumFitPlotter.plot'), ('plots of a file', 'scripts/plot_spe.py:main'), ('plot mode', 'scripts/extract_spe.py:main')],
  [('fit files', 'tables values, errors, arrays and metadata', 'scripts/extract_spe.py')], ['artists of the figures as saved or shown', 'names of the figures saved', 'contents of the fit file'])

p('C34', 'Probability functions are the distributions they name',
  'The binomial coefficient is the number of choices, exact up to the size of a float and one at either end; the Poisson function is the Poisson distribution of the given mean for every count from zero into the tails, its values sum to one, and its logarithm is its logarithm, a mean of zero included (certain at zero, impossible otherwise); the normal function is the normal density of the given mean and standard deviation, symmetric, of area one, out to seven standard deviations; '
  'x log y is zero wherever x is zero, not a number where y is not, and the logarithm of y to the power x elsewhere. Single numbers and arrays give the same.',
  ['every input'],
  'All counts, means, widths and points, as single numbers and as arrays.',
  'Tests compare each function with a reference at one or two points, which cannot settle small and large means, the tails or the ends of the range.',
  ['stats/pdf.py'],
  [('binomial', 'stats/pdf.py:binom'), ('Poisson', 'stats/pdf.py:poisson'), ('Poisson logarithm', 'stats/pdf.py:poisson_logpmf'), ('normal', 'stats/pdf.py:normal_pdf'), ('x log y', 'stats/pdf.py:xlogy')],
  [], ['returned values'])

out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, (q['id'], len(q['title']))
        f.write(json.dumps(q) + '\n')
print(len(P), 'properties')
