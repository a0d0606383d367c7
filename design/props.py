# per property: (what is specified, oracle and observation)
ST = 'Abstract file: rows per table, metadata entries per (table, name), mapping, session state. Operations append (flushing or not), write, add_metadata, add_mapping, close (normally, finish, by exception, after a refused call), further append sessions. '
T = {
'C01': (ST + 'The concrete machine with buffers (MC_Store) refines the row log.', 'After every session the finished file is read with HDF5Reader and compared row by row through a code per value (10 column types, NaN, infinities, missing times, rows without any value); flushes are forced with index labels that claim to be large; weak references show that large batches are let go.'),
'C02': (ST, 'Metadata read back must be exactly the merged entries (24 kinds of values), with the listed names, byte counts bounded by the column widths and their total; reserved names are refused.'),
'C03': (ST + 'Every prefix of every enumerated session is an interruption point.', 'The exception must pass unchanged (nine types, BaseExceptions included) and the file must then hold everything added before it.'),
'C04': (ST + 'Histories over several sessions.', 'The whole file is compared after every session, so anything lost, duplicated or left stale by a later session is seen where it happens.'),
'C05': (ST + 'Reader queries (read, select, columns, names, rows, chunks) as functions of the rows; majors of versions.', 'Each query of the real reader is compared with the value the abstract rows give; size guard with rows that claim 8-19 GB; files given another version in their attributes must be announced by a warning exactly when the major differs.'),
'C06': ('A DL1 file as a sequence of event blocks with any numbering; readers and iterators as positions in it.', 'Rows from every access path (number, position, iterators running interleaved, lists, chunks) against the block of the model; module queries against the metadata.'),
'C07': ('The extraction as a machine over WfUtils (rolling baseline), Calib (time correction) and column definitions: an event is skipped or adds one row per pixel; counters and times follow.', 'The real script (main() and classes) runs on generated files; every value of five columns, the baseline, types, counts, times, metadata, mapping, file names and the untouched input are compared; buffer flushes forced anywhere.'),
'C08': ('A reader is a prefix of an event sequence; index, slice (Python semantics written in TLA+), list, iterators, module queries; which files a reader accepts.', 'Every returned event is identified by a code over all its samples and its details; events handed out earlier and arrays derived from them (20 operations) are looked at again.'),
'C09': ('Merging of defaults, file and keyword settings; which reducers are built and with what.', 'Columns returned by process(), the reported configuration and the constructor arguments seen by three user-defined reducers.'),
'C10': ('A memo: a value is a function of (settings, event, column).', 'Same code for the same key whenever it occurs; the input and all earlier results are compared again after each event; events in single and double precision, with offsets that single precision cannot hold.'),
'C11': ('A registry of classes: who owns which column after any history of definitions, refused ones included.', 'Columns on offer, reported columns and the value each instance gives for each column.'),
'C12': ('A definition of every column in integer/rational arithmetic (means, RMS, averages, cross correlation, peaks and neighbours, interpolated times, widths, saturation, superpixels).', 'Values from WaveformReducerChain, scaled and compared within stated tolerance; TLC-enumerated pulse placements include edges, ties, flat tops.'),
'C13': ('The matcher as a state machine per superpixel: DAC, stage, done flags; allowed steps and termination.', 'Every measure/step of the real matcher compared; the final DACs, masks and completion; termination model-checked for every falling response.'),
'C14': ('Objects and files: masks in memory, files per module type and name, commits and reloads.', 'All masks of all objects after each operation, files in a scratch copy of the package.'),
'C15': ('Parameter collections (value, limits, fixed, error, multi) over illuminations; configurations saved, loaded, partially loaded; update_initial.', 'The settings a fit really uses are observed inside the likelihood and minimiser call of a test fitter whose minimum is known; layout of lookup and names; saved files.'),
'C16': ('Fit results as a function of (settings, charges).', 'Sequential, repeated, interleaved, multi-process and script fits all give the memoised result; histograms recomputed from the charges.'),
'C17': ('Batch definition of resolutions and statistics over all contributions; amalgamation as a combination of partial sums.', 'Every finish()/result against the batch definition, the memory limit reached with labels that claim to be large; earlier results looked at again.'),
'C18': ('The rolling baseline as a window of events and its running sum.', 'Window, baseline and subtracted waveforms after every event, exactly.'),
'C19': ('Shift, alignment, averages and dead pixels as functions of integer arrays.', 'Results of the real functions, the inputs unchanged; files through the stand-in reader.'),
'C20': ('Linear interpolation between samples in rational arithmetic; amplitude, illumination and online calibration formulas.', 'Calibrated waveforms per event compared in exact rationals; instances and earlier results independent.'),
'C21': ('Groups of pixels (module, superpixel, row/column ranks), their positions and metadata; conversion forth and back.', 'Every row of the grouped mappings of random layouts; grid indices of every pixel.'),
'C22': ('Displays: image, limits policy (auto, explicit, percentile, log, colour bar), highlights, annotations, several displays at once.', 'Colours, limits, texts and outlines read back from the matplotlib objects after every operation.'),
'C23': ('Meaning of lines of high-voltage files, run lists, natural order, generated configuration files.', 'What the real readers return; the generated file loaded through the chain (also with columns inverted).'),
'C24': ('The update recurrence; exact rational model of it (MC_Stats).', 'Every returned triple of interleaved streams.'),
'C25': ('Monitor tables at camera, module or pixel level and a monitor index per DL1 row.', 'Row-wise joins and averages against the table the column belongs to.'),
'C26': ('Simulated files: a permutation of pixels, events with times and information; readers as in C08.', 'Position of every pixel\'s samples and true charge, all simulation/pointing/header entries, in any access order.'),
'C27': ('The trees a conversion must produce.', 'The real script as a program with stand-ins for ROOT that record branches, fills and arrays.'),
'C28': ('Figures: panel positions, curves, dim lists, outlines, per figure.', 'Panels of real matplotlib figures read back after each operation.'),
'C29': ('Interpolation in a table with missing entries, in rationals.', 'Answers of the converter for any sheet put in a scratch copy of the package, and for the bundled sheet; the plotted curves.'),
'C30': ('The counting process itself (Poisson number of geometric chains) in exact rationals; MC_Counting shows the closed form the code uses equals the enumeration of all outcomes.', 'Spectra of the code are decomposed peak by peak by the driver (positions, widths, weights in fixed point) and judged by TLC with the closed form; density laws by recurrence; likelihood by definition.'),
'C31': ('The steps of one event per reducer class (prepare, columns, post) over any inheritance, and the factory as a partial map from names to classes (Lifecycle.tla).', 'The log of the steps of user classes generated from the histories (TLC enumerates the failing step and the sequence of events), returned values, and the products of the factory.'),
'C32': ('The tables set, the 99-bin averaging, error bars and the three curves in integer arithmetic; range plotted so far (ResPlot.tla).', 'Points, bars, labels and curves read back from the artists of the real figures, the tables compared afterwards.'),
'C33': ('Fit files as values; what a figure shows as a function of a fit: outlines, curves, colours, legend, table, images, bars, statistics, titles (SpePlot.tla).', 'The artists of every figure saved or shown, by the plotter itself, by plot_spe and by extract_spe -p, against the file content.'),
'C34': ('Each function determined by neighbour relations (binomial and Poisson recurrences, equal second ratios of a normal density), sums and ends (Pdf.tla); MC_Pdf checks that the relations fix the triangle of binomial coefficients.', 'Values, ratios of neighbours and sums of the real compiled functions in fixed point, from scalars and arrays.'),
}
