"""Which specification, driver, models and generators decide each property."""
CONTENT = ['opens', 'listed', 'rows', 'cols', 'index', 'meta', 'metanames', 'nbytes', 'total', 'mapping']
ST = dict(driver='store', trace='Trace_Store', init='StoreInit', step='StoreStep')
MC_STORE = dict(module='MC_Store', spec='Spec', name='MC_Store',
                consts=dict(Keys='{"data","t1"}', Names='{"m1"}', Entries='{"e1"}', MaxRows=4, MaxOps=5, MaxSess=3),
                inv=['RowsInv', 'MetaInv', 'ClosedInv'], prop=['NeverLost'],
                thorough=dict(consts=dict(Keys='{"data","t1"}', Names='{"m1"}', Entries='{"e1","e2"}', MaxRows=5,
                                          MaxOps=6, MaxSess=4)))


def gen_store(name, ops, maxops, maxsess, minsess, hows, max=None, mkeys='{"data","t1"}', names='{"metadata"}',
              entries='{"a"}', **kw):
    return dict(module='Gen_Store', spec='Spec', name=name, inv=['Emit'], max=max,
                consts=dict(Keys='{"data","t1"}', MKeys=mkeys, Names=names, Entries=entries, MaxOps=maxops,
                            MaxSess=maxsess, MinSess=minsess, Hows=hows, Ops=ops), **kw)


NORMAL, EXC = '{"normal"}', '{"exc"}'
PROPS = {
    'C01': dict(
        technique='TLA+ file model (Store.tla): TLC-enumerated write histories replayed, traces validated by TLC',
        note='All histories of 3 append/write calls (flush or not at each append) on 2 tables are enumerated and replayed, plus seeded '
             'random histories with up to 20 calls, 4 tables and 10 column types; the buffered writer model refines the row log for all '
             'histories within the MC_Store constants. Trusts pandas/PyTables and the column-type codes of the driver.',
        parts=[dict(ST, clauses=['open', 'accept', 'released', 'opens', 'listed', 'rows', 'cols', 'index'], mc=[MC_STORE],
                    gen=[gen_store('Gen_Store_rows', '{"append","write"}', 3, 1, 1, NORMAL),
                         gen_store('Gen_Store_rows4', '{"append","write"}', 4, 1, 1, NORMAL, tiers=['thorough'])])]),
    'C02': dict(
        technique='TLA+ file model (Store.tla): TLC-enumerated metadata/table histories replayed, traces validated by TLC',
        note='All histories of 3 operations out of metadata additions, appends and writes over 2 keys and up to 2 sessions (sampled in '
             'the quick tier), plus random histories with 24 kinds of metadata values.',
        parts=[dict(ST, clauses=['open', 'accept', 'reserved', 'opens', 'listed', 'meta', 'metanames', 'nbytes', 'total', 'mapping'],
                    mc=[MC_STORE],
                    gen=[gen_store('Gen_Store_meta', '{"append","write","meta","mapping"}', 3, 2, 1, NORMAL, max=500,
                                   names='{"metadata","cfg"}', thorough=dict(max=6000)),
                         gen_store('Gen_Store_metaonly', '{"meta"}', 3, 1, 1, NORMAL, names='{"metadata","cfg"}', entries='{"a","b"}',
                                   max=300, thorough=dict(max=None))])]),
    'C03': dict(
        technique='TLA+ file model (Store.tla): every interruption point of TLC-enumerated sessions replayed and trace-validated',
        note='Every prefix of every enumerated session is ended by an exception (the histories of length 1..3 are all prefixes), with nine '
             'exception types, in create and append sessions; the content left behind is compared with the abstract file.',
        parts=[dict(ST, clauses=['open', 'accept', 'same_exc'] + CONTENT, mc=[MC_STORE],
                    gen=[gen_store('Gen_Store_x1', '{"append","write","meta"}', 1, 2, 1, '{"exc","refused"}'),
                         gen_store('Gen_Store_x2', '{"append","write","meta"}', 2, 2, 1, '{"exc","refused"}', max=300,
                                   thorough=dict(max=None)),
                         gen_store('Gen_Store_x3', '{"append","write","meta","mapping"}', 3, 2, 1, EXC, max=300,
                                   thorough=dict(max=6000))])]),
    'C04': dict(
        technique='TLA+ file model (Store.tla): TLC-enumerated create/append session histories replayed and trace-validated',
        note='All histories of 3 operations distributed over 2 or 3 sessions (sampled in the quick tier), plus random histories of up to 5 '
             'sessions; after every session the whole file is compared with the abstract file.',
        parts=[dict(ST, clauses=['open', 'accept', 'missing'] + CONTENT, mc=[MC_STORE],
                    gen=[gen_store('Gen_Store_sess', '{"append","write","meta"}', 3, 3, 2, NORMAL, max=600,
                                   thorough=dict(max=None)),
                         gen_store('Gen_Store_sess4', '{"append","write","meta"}', 4, 3, 2, NORMAL, max=6000, tiers=['thorough'])])]),
    'C05': dict(
        technique='TLA+ file model (Store.tla): reader queries on replayed files validated by TLC against the abstract rows',
        note='Random tables and 12 random queries per file (row ranges, column selections, all chunk sizes around the table size, default '
             'chunk size, absent names), tables claiming 8-19 GB for the size guard.',
        parts=[dict(ST, clauses=['open', 'accept', 'unknown_key', 'q_read', 'q_select', 'q_selcols', 'q_column', 'q_ncolumns',
                                 'q_nrows', 'q_names', 'q_chunkrows', 'q_chunksize', 'q_chunkdefault', 'unknown_meta', 'big_guard',
                                 'big_chunks', 'big_nonempty', 'version', 'version_warning'], mc=[MC_STORE])]),
}

COLS12 = ['baseline_start_mean', 'baseline_end_mean', 'waveform_mean', 'baseline_start_rms', 'baseline_end_rms', 'waveform_rms',
          'waveform_max', 't_averagewf', 'charge_averagewf', 'saturation_sum', 't_event', 't_pulse', 't_pulse_amp', 'fwhm', 't_rise',
          't_cc', 'charge_cc', 'height_cc', 't_cc_local', 'charge_cc_local', 'height_cc_local', 't_cc_nn', 'charge_cc_nn',
          'height_cc_nn', 't_sliding', 'charge_sliding', 't_sliding_local', 'charge_sliding_local', 't_sliding_nn',
          'charge_sliding_nn', 't_local', 'charge_local', 't_nn', 'charge_nn', 'sp_argmax', 'sp_max', 'flasher_unit']
PROPS['C12'] = dict(
    technique='TLA+ definitions of every column (Reducers.tla): TLC-enumerated pulse placements and random waveforms run through the '
              'reducer chain, results validated by TLC',
    note='Every placement of 7 pulse shapes in waveforms of 20 and 31 samples under 4 settings (sampled in the quick tier), plus random '
         'integer waveforms up to 128 samples in float32/float64. The definitions themselves are checked by TLC on all short waveforms. '
         'ctapipe is a stand-in; the NNLS columns are not covered (they cannot run with the installed numba).',
    parts=[dict(driver='reducers', trace='Trace_Reducers', init='ReducersInit', step='ReducersStep',
                clauses=['no_error', 'columns_returned'] + COLS12,
                mc=[dict(module='MC_Reducers', spec='Spec', name='MC_Reducers', consts=dict(N=6, Vals='0..4'),
                         inv=['InterpNear', 'WidthPos', 'CorrId', 'SlideMax', 'VarOk', 'SumSplit'],
                         thorough=dict(consts=dict(N=7, Vals='{0,1,3,4,6}')))],
                gen=[dict(module='Gen_Reducers', spec='Spec', name='Gen_Reducers', inv=['Emit'], max=280,
                          consts=dict(Ns='{20,31}', Shapes='0..6', Settings='0..3'), thorough=dict(max=None))])])

CH = dict(driver='chain', trace='Trace_Chain', init='ChainInit', step='ChainStep')
MC_CHAIN = dict(module='MC_Chain', spec='Spec', name='MC_Chain', consts=dict(Names='{"t_cc","fwhm","waveform_max","window_size"}'),
                inv=['KwWins', 'FileNext', 'DefaultsLast', 'NothingElse'],
                thorough=dict(consts=dict(Names='{"t_cc","fwhm","waveform_max","window_size","ua1"}')))
PROPS['C09'] = dict(
    technique='TLA+ configuration model (Chain.tla): random default/file/keyword settings built with the real chain, traces validated by TLC',
    note='Up to 4 chains per history from settings over all 50 known column names, 3 user-defined reducers and 6 settings, with and without '
         'file, reference pulse, mapping and ctapipe; the merge rules are model-checked over all settings of 4 names. The NNLS columns are '
         'never switched on.',
    parts=[dict(CH, clauses=['refused', 'columns', 'config', 'constructed', 'settings'], mc=[MC_CHAIN])])
PROPS['C10'] = dict(
    technique='TLA+ memo model (Chain.tla): interleaved events, column sets and instances replayed on real chains, traces validated by TLC',
    note='Random sequences of up to 10 events through up to 12 chains; a value is identified by (settings, event, column), the input and '
         'every earlier result are looked at again after every event. Values are compared within 1e-6.',
    parts=[dict(CH, clauses=['processed', 'columns_returned', 'same_value', 'input_unchanged', 'earlier_results'], mc=[MC_CHAIN])])
PROPS['C11'] = dict(
    technique='TLA+ registry model (Registry.tla): TLC-enumerated histories of class definitions executed, traces validated by TLC',
    note='All histories of 3 definitions over 2 names and 2 columns with single inheritance (sampled in the quick tier) plus random ones '
         'of up to 8 definitions with multiple inheritance; ownership invariants checked by TLC on every history. Left out: '
         'the columns of a class body refused half way.',
    parts=[dict(driver='registry_cls', trace='Trace_Registry', init='RegistryInit', step='RegistryStep',
                clauses=['unique_column', 'own_columns', 'no_double', 'offered', 'offered_once', 'not_prepared', 'owned_values'],
                gen=[dict(module='Gen_Registry', spec='Spec', name='Gen_Registry', inv=['Emit', 'OwnerInv'], prop=['Stable'], max=500,
                          consts=dict(Names='{"A","B"}', Cols='{"a","b"}', MaxDefs=3, Plain='FALSE'), thorough=dict(max=8000)),
                     dict(module='Gen_Registry', spec='Spec', name='Gen_Registry_plain', inv=['Emit', 'OwnerInv'], prop=['Stable'],
                          max=500, consts=dict(Names='{"A","B"}', Cols='{"a"}', MaxDefs=4, Plain='TRUE'), thorough=dict(max=8000))])])

PROPS['C13'] = dict(
    technique='TLA+ state machine (Matcher.tla): TLC-enumerated measurement sequences and simulated cameras run through the real matcher, '
              'every step validated by TLC; safety and termination model-checked',
    note='All sequences of 5 (thorough: 6) measurement outcomes out of 5, packed 64 to a camera, with random start DACs and masks, plus '
         'simulated cameras (linear, exponential, constant, inverted, noisy) run to completion. TLC checks the range/step/stage '
         'invariants for any measurements and termination for every falling response and start value.',
    parts=[dict(driver='matcher', trace='Trace_Matcher', init='MatcherInit', step='MatcherStep',
                clauses=['no_error', 'shape', 'dac', 'range', 'completed', 'average', 'start_kept', 'terminates'],
                mc=[dict(module='MC_Matcher', spec='Spec', name='MC_Matcher',
                         consts=dict(Starts='{10,12,19,100,246,255}', Dists='0..2', MaxIt=7, Targets='{0}'),
                         inv=['Safe', 'Masked', 'SecondPass', 'Completed'], prop=['Moves'],
                         thorough=dict(consts=dict(Starts='{10,14,19,20,100,246,250,255}', Dists='0..3', MaxIt=9, Targets='{0}'))),
                    dict(module='MC_Matcher', spec='PSpec', name='MC_Matcher_plant',
                         consts=dict(Starts='{10,11,57,100,133,254,255}', Dists='0..1', MaxIt=0,
                                     Targets='{-5,18,20,23,101,102,200,203,266,301,402,505,510,520}'),
                         inv=['Safe', 'Good'], prop=['Terminates', 'Moves'],
                         thorough=dict(consts=dict(Starts='10..255', Dists='0..1', MaxIt=0,
                                                   Targets='{-5,18,20,23,101,102,200,203,266,301,402,505,510,520}')))],
                gen=[dict(module='Gen_Matcher', spec='Spec', name='Gen_Matcher', inv=['Emit'], pack='pack',
                          consts=dict(Outs='{-3,-1,0,1,3}', Len0=5), thorough=dict(consts=dict(Outs='{-3,-1,0,1,3}', Len0=6)))])])

PROPS['C14'] = dict(
    technique='TLA+ model of mask files and objects (Masks.tla): TLC-enumerated and random histories run in a scratch copy of the package, '
              'traces validated by TLC',
    note='All histories of 3 (thorough: 4) operations over two objects and three files (sampled), plus random ones of up to 10 operations, '
         'three objects and five files; after every operation every object is compared. Commits carry the real time, so several commits '
         'of one run usually share one file name, as in the package.',
    parts=[dict(driver='masks', trace='Trace_Masks', init='MasksInit', step='MasksStep',
                clauses=['no_error', 'masks', 'all_mask', 'latest', 'commit_file', 'convert', 'plot'],
                gen=[dict(module='Gen_Masks', spec='Spec', name='Gen_Masks', inv=['CommitLatest', 'Names', 'MergeLaws', 'Emit'],
                          consts=dict(MaxOps=3), max=350, thorough=dict(consts=dict(MaxOps=4), max=5000))])])

SP = dict(driver='spectrum', trace='Trace_Spectrum', init='SpectrumInit', step='SpectrumStep', timeout=800)
MC_SPEC = dict(module='MC_Spectrum', spec='Spec', name='MC_Spectrum', consts=dict(MaxP=3, MaxN=3, MaxOps=3), inv=['Layout', 'SaveLoad'],
               thorough=dict(consts=dict(MaxP=4, MaxN=4, MaxOps=4)))
PROPS['C15'] = dict(
    technique='TLA+ model of fit parameters and configurations (Spectrum.tla): TLC-enumerated histories run on real fitters, every state '
              'and fit validated by TLC; layout laws model-checked',
    note='All histories of 3 (thorough: 4) operations (update, save, load, partial configuration, fit, update-initial) over two fitters and '
         'one file (sampled in the quick tier) with random settings, plus random histories with up to 3 fitters, 6 parameters and 4 '
         'illuminations. The settings used by a fit are observed at the likelihood of a test fitter with a known minimum.',
    parts=[dict(SP, clauses=['no_error', 'params', 'bins_range', 'flat_names', 'fit_settings', 'lookup', 'lookup_typed', 'result_names', 'fixed',
                             'limits', 'minimum', 'first_call', 'fit_lookup', 'hist_axis', 'not_fitted'], mc=[MC_SPEC],
                gen=[dict(module='Gen_Spectrum', spec='Spec', name='Gen_Spectrum', inv=['Emit'], consts=dict(MaxOps=3), max=220,
                          pack='concretise', thorough=dict(consts=dict(MaxOps=4), max=4000))])])
PROPS['C16'] = dict(
    technique='TLA+ memo model of fits (Spectrum.tla): interleaved, sequential, multi-process and script fits of the same charges, traces '
              'validated by TLC',
    note='Random histories of fits on two fitters, all-pixel fits sequentially and over 1-3 worker processes and through the script, with up '
         'to 9 pixels and 3 illuminations; a result is identified by (settings, charges), histograms are recomputed from the charges. The '
         'delivered SiPM (thorough: and MAPM) fitters are run on simulated spectra. Worker schedules are those the system produces.',
    parts=[dict(SP, clauses=['no_error', 'histogram', 'hist_axis', 'curve', 'result_names', 'each_pixel', 'pixel_order', 'same_result',
                             'pixels_agree', 'physics', 'minimum'], mc=[MC_SPEC])])

WF = dict(driver='wfreader', trace='Trace_WfReader', init='WfInit', step='WfStep')
PROPS['C08'] = dict(
    technique='TLA+ reader model (WfReader.tla): TLC-enumerated access histories run on real readers, traces validated by TLC; addressing laws '
              'model-checked',
    note='All histories of 3 (thorough: 4) accesses (index, slice, list, whole and step-wise iteration with two iterators) on a file of three '
         'events and three limits (sampled), plus random histories on R0/R1 files of up to 9 events. The TARGET libraries are stand-ins '
         'which accept indices within the file only; integer indices are Python integers.',
    parts=[dict(WF, clauses=['absent', 'level', 'opens', 'n_events', 'attributes', 'iteration', 'details', 'index', 'out_of_range', 'slice', 'list', 'type',
                             'module_range', 'module', 'derived', 'held', 'compatible', 'picked', 'file_kept', 'skips'],
                mc=[dict(module='MC_WfReader', spec='Spec', name='MC_WfReader', consts=dict(MaxLen=4, B=6),
                         inv=['InRange', 'Monotone', 'Full', 'Reverse', 'Split', 'Signed'], thorough=dict(consts=dict(MaxLen=9, B=12)))],
                gen=[dict(module='Gen_WfReader', spec='Spec', name='Gen_WfReader', inv=['Emit'], consts=dict(MaxOps=3), max=400,
                          pack='concretise', thorough=dict(consts=dict(MaxOps=4), max=8000))])])

WU = dict(driver='wfutils', trace='Trace_WfUtils', init='WfUtilsInit', step='WfUtilsStep')
MC_WU = dict(module='MC_WfUtils', spec='Spec', name='MC_WfUtils', consts=dict(Vals='{0,1,3}', MaxFile=3, MaxBase=4, MaxOps=4),
             inv=['Rolling', 'Shifts', 'AlignMax'], thorough=dict(consts=dict(Vals='{0,1,3}', MaxFile=4, MaxBase=5, MaxOps=7)))
PROPS['C18'] = dict(
    technique='TLA+ rolling-baseline machine (WfUtils.tla): TLC-enumerated and random event sequences run through the real subtractor, every '
              'step validated by TLC; equivalence to the definition model-checked',
    note='All sequences of 4 (thorough: 6) events of 3 values for files of 0..3 events and windows 1..4, plus random ones with up to 70 '
         'processed events (window 50), 4 pixels and 5 sample types. Integer samples, results compared exactly.',
    parts=[dict(WU, clauses=['no_error', 'window', 'initial', 'baseline', 'subtracted', 'input_unchanged', 'earlier_results'], mc=[MC_WU],
                gen=[dict(module='Gen_WfUtils', spec='Spec', name='Gen_WfUtils', inv=['Emit'], max=500, pack='concretise',
                          consts=dict(Vals='{0,4,9}', Files='0..3', Bases='1..4', Len0=4),
                          thorough=dict(consts=dict(Vals='{0,4,9}', Files='0..4', Bases='1..5', Len0=6), max=6000))])])
PROPS['C19'] = dict(
    technique='TLA+ definitions (WfUtils.tla) of shifting, alignment, averages and dead pixels: random arrays and files run through the real '
              'functions, results validated by TLC',
    note='Random integer waveforms in 5 sample types, shifts and target samples including the extremes, files of 1-8 events. Where a pixel sits '
         'exactly on the dead threshold either answer is accepted.',
    parts=[dict(WU, clauses=['no_error', 'shift', 'align', 'average', 'average_pixel', 'dead', 'input_unchanged'], mc=[MC_WU])])

PROPS['C20'] = dict(
    technique='TLA+ definitions (Calib.tla) of time, amplitude, illumination and online calibration: random calibration histories run through the '
              'real calibrators, every result validated by TLC; interpolation laws model-checked',
    note='Random histories of calibrations over up to 8 pixels with rational corrections of denominators up to 100 (whole, zero, beyond either '
         'end), integer samples, 2-16 samples, single and double precision. TARGET libraries are stand-ins.',
    parts=[dict(driver='calib', trace='Trace_Calib', init='CalibInit', step='CalibStep',
                clauses=['no_error', 'input_unchanged', 'earlier_results', 'time', 'time_type', 'amplitude', 'amplitude_shape', 'fold',
                         'unfold_fold', 'fold_unfold', 'online', 'online_type', 'modules'],
                mc=[dict(module='MC_Calib', spec='Spec', name='MC_Calib', consts=dict(Vals='{0,1,5}', N=4, Den=4, MaxA=20),
                         inv=['Whole', 'Between', 'Line', 'Cont'], thorough=dict(consts=dict(Vals='{0,1,5}', N=6, Den=5, MaxA=40)))])])

STT = dict(driver='stats', trace='Trace_Stats', init='StatsInit', step='StatsStep')
MC_STATS = dict(module='MC_Stats', spec='Spec', name='MC_Stats', consts=dict(Vals='{0,1,4}', MaxN=5, Pix='{0,1}', Xs='{0,2}', MaxC=3),
                inv=['WelfordExact', 'Streaming'], thorough=dict(consts=dict(Vals='{0,1,4}', MaxN=7, Pix='{0,1}', Xs='{0,2}', MaxC=4)))
PROPS['C17'] = dict(
    technique='TLA+ streaming model (Stats.tla): TLC-enumerated and random contribution histories run through the real classes, every result '
              'validated by TLC against the batch definition; combination model-checked',
    note='All histories of 3 (thorough: 5) contributions, forced memory-limit combinations and results over 2 pixels and 2 true charges, plus '
         'random histories with up to 50 pixels and several objects at once. The 1 GB limit is reached with index labels that claim to be '
         'large. Resolutions compared at 1/100 (squared).',
    parts=[dict(STT, clauses=['no_error', 'keys', 'resolution_pixel', 'resolution_camera', 'statistics_pixel', 'statistics_camera', 'earlier_results'],
                mc=[MC_STATS],
                gen=[dict(module='Gen_Stats', spec='Spec', name='Gen_Stats', inv=['Emit'], consts=dict(MaxOps=3), max=500, pack='concretise',
                          thorough=dict(consts=dict(MaxOps=5), max=8000))])])
PROPS['C24'] = dict(
    technique='TLA+ model of the update (Stats.tla): TLC-enumerated and random interleavings of streams fed to the real function, every returned '
              'triple validated by TLC; recurrence model-checked in exact rational arithmetic',
    note='All interleavings of two streams over 3 values of length 3 (thorough: 5), random streams of up to 60 samples with offsets up to 1e8 '
         '(mean compared at 1/1000, m2 at 1/10).',
    parts=[dict(STT, clauses=['no_error', 'count', 'mean', 'm2'], mc=[MC_STATS],
                gen=[dict(module='Gen_Welford', spec='Spec', name='Gen_Welford', inv=['Emit'], consts=dict(Vals='{0,1,7}', MaxOps=3), pack='streams',
                          max=400, thorough=dict(consts=dict(Vals='{0,1,7}', MaxOps=5), max=8000))])])

PROPS['C21'] = dict(
    technique='TLA+ geometry model (Mapping.tla): random camera layouts grouped and gridded by the real functions, every result validated by TLC; '
              'grid laws model-checked over all small layouts',
    note='Random layouts of up to 5x5 modules of 8x8 pixels with gaps, missing corners, shuffled pixel, superpixel and slot numbering and slots that '
         'are not consecutive; layouts have a complete row and column. Positions compared at 1 micrometre (summed over the group).',
    parts=[dict(driver='mapping', trace='Trace_Mapping', init='MappingInit', step='MappingStep',
                clauses=['no_error', 'mapping_unchanged', 'each_once', 'group', 'slot', 'grid', 'other_metadata', 'rowcol', 'positions_unchanged',
                         'geometry', 'roundtrip', 'counts'],
                mc=[dict(module='MC_Mapping', spec='Spec', name='MC_Mapping', consts=dict(R=2, C=3, P=10, G=3), inv=['Ranks', 'Centre'],
                         thorough=dict(consts=dict(R=3, C=3, P=10, G=3)))])])

PROPS['C23'] = dict(
    technique='TLA+ definitions (Files.tla) of high-voltage tables, run lists, natural order and the extractor configuration: random files read by '
              'the real functions, every result validated by TLC; order and fold laws model-checked',
    note='Random high-voltage files of up to 600 lines in any order, run lists of the two formats opened with and without readers, lists of up to '
         '15 file names, generated configurations with and without documentation (also for user-defined reducers), loaded with up to 3 columns '
         'inverted. A column without an entry in the default settings may be marked either way.',
    parts=[dict(driver='files', trace='Trace_Files', init='FilesInit', step='FilesStep',
                clauses=['no_error', 'dac', 'hvon', 'runs', 'columns', 'values', 'paths', 'readers', 'permutation', 'natural_order', 'each_column_once',
                         'default_setting', 'activates'],
                mc=[dict(module='MC_Files', spec='Spec', name='MC_Files', inv=['Order', 'LastStated'],
                         consts=dict(Nums='{1,2,10}', Texts='{<<>>,<<97>>,<<97,98>>,<<98>>}', MaxLines=2),
                         thorough=dict(consts=dict(Nums='{1,2,10}', Texts='{<<>>,<<97>>,<<97,98>>,<<98>>}', MaxLines=3)))])])

DL = dict(driver='dl1', trace='Trace_DL1', init='DL1Init', step='DL1Step')
MC_DL1 = dict(module='MC_DL1', spec='Spec', name='MC_DL1', consts=dict(MaxEv=3, MaxPix=2, MaxList=2),
              inv=['Complete', 'ChunkSize', 'ByNumber', 'Selection', 'OnePerPixel'], thorough=dict(consts=dict(MaxEv=4, MaxPix=2, MaxList=3)))
PROPS['C06'] = dict(
    technique='TLA+ model of a DL1 file and its readers (DL1.tla): TLC-enumerated and random access histories with interleaved iterators run on real '
              'files, traces validated by TLC; addressing laws model-checked',
    note='All histories of 3 (thorough: 4) accesses on a file of three events with two running iterators (sampled), plus random histories on files '
         'of up to 8 events and 6 pixels with any event numbering, written in up to 4 parts, with several readers. Negative slots are not covered.',
    parts=[dict(DL, clauses=['opens', 'attributes', 'columns', 'n_rows', 'event', 'no_event', 'position', 'lookup', 'iterate_events', 'iterate_selected',
                             'iterate_rows', 'iterate_chunks', 'table', 'select', 'column', 'module_range', 'module'],
                mc=[MC_DL1],
                gen=[dict(module='Gen_DL1', spec='Spec', name='Gen_DL1', inv=['Emit'], consts=dict(MaxOps=3), max=400, pack='concretise',
                          thorough=dict(consts=dict(MaxOps=3), max=9000))])])

PROPS['C25'] = dict(
    technique='TLA+ model of DL1 files with monitor tables (DL1.tla): random files and access histories run on the real readers, traces validated '
              'by TLC; addressing laws model-checked',
    note='Random monitor tables of up to 5 monitor events, 12 modules and 4 pixels with up to 4 columns each, shared between tables or not, random '
         'monitor indices per DL1 row; averages compared at 1/1000.',
    parts=[dict(DL, clauses=['opens', 'm_absent', 'm_attrs', 'm_print', 'm_key', 'm_column', 'm_column_absent', 'm_array', 'm_average', 'm_table',
                             'm_table_size', 'm_matched', 'm_matched_absent'], mc=[MC_DL1])])

PROPS['C22'] = dict(
    technique='TLA+ state machine of camera displays (Camera.tla): TLC-enumerated and random operation histories on several displays run on real '
              'matplotlib figures, traces validated by TLC; range laws model-checked',
    note='All histories of 3 operations on a patch and a grid display of two pixels (sampled), plus random histories on up to 3 displays of up to 64 '
         'pixels and the full camera of 2048 pixels. Grid displays have a pixel at every cell other than the corners of a 6x6 camera; log scaling '
         'is used with images that have a positive value; a range without data is not judged; with a colour bar a range of one value may be extended.',
    parts=[dict(driver='camera', trace='Trace_Camera', init='CameraInit', step='CameraStep',
                clauses=['no_error', 'refused', 'given_image', 'image', 'range', 'texts', 'highlight', 'painted', 'shapes', 'position', 'colorbar', 'cmap',
                         'edge_labels', 'led', 'up', 'saved'],
                mc=[dict(module='MC_Camera', spec='Spec', name='MC_Camera', consts=dict(MaxOps=3, Vals='{-8,16,-999999998}'), view='View',
                         inv=['Follows', 'Explicit', 'SameValues'], prop=['Refuses', 'Apart'],
                         thorough=dict(consts=dict(MaxOps=4, Vals='{-8,16,-999999998}')))],
                gen=[dict(module='MC_Camera', spec='Spec', name='Gen_Camera', inv=['Emit'], consts=dict(MaxOps=3, Vals='{-8,16,-999999998}'), max=300,
                          pack='concretise', thorough=dict(consts=dict(MaxOps=3, Vals='{-8,16,-999999998}'), max=6000))])])

PROPS['C26'] = dict(
    technique='TLA+ model of simulated files and their readers (Simtel.tla over WfReader.tla): TLC-enumerated and random access histories on files with '
              'permuted pixel numberings run through the real reader, traces validated by TLC; the re-ordering law model-checked for all numberings',
    note='Files of up to 5 events of the 2048-pixel camera in any pixel numbering (random, by row, by column, by module, few swaps), plain and gzip, '
         'up to 3 readers and 2 iterators; all histories of 3 (thorough: 4) accesses (sampled). ctapipe and the TARGET libraries are stand-ins; '
         'header, simulation and pointing entries compared at 1/8.',
    parts=[dict(driver='simtel', trace='Trace_Simtel', init='SimInit', step='SimStep',
                clauses=['opens', 'absent', 'n_events', 'attributes', 'mapping', 'module', 'iteration', 'index', 'out_of_range', 'slice', 'list',
                         'details', 'pixels', 'information', 'header', 'held'],
                mc=[dict(module='MC_Simtel', spec='Spec', name='MC_Simtel', consts=dict(NPix=4), inv=['Positions', 'EachOnce', 'Inverse'],
                         thorough=dict(consts=dict(NPix=5)))],
                gen=[dict(module='Gen_Simtel', spec='Spec', name='Gen_Simtel', inv=['Emit'], consts=dict(MaxOps=3), max=60, pack='concretise',
                          thorough=dict(consts=dict(MaxOps=4), max=900))])])

PROPS['C07'] = dict(
    technique='TLA+ machine of the extraction (Extract.tla over WfUtils.tla and Calib.tla): TLC-enumerated patterns of bad events, limits and early flushes '
              'and random files run through the real script, every value of the DL1 files validated by TLC; completeness of the buffered writing model-checked',
    note='All patterns of up to 3 (thorough: 4) good/stale/incomplete events with every limit and every set of early flushes (sampled), plus random '
         'R1 files of up to 6 events of 64 or 128 pixels and simulated files of 2048 pixels, through main() and the classes, with several '
         'configurations, files per run and output names. TARGET libraries and ctapipe are stand-ins; five columns are compared value by value.',
    parts=[dict(driver='extract', trace='Trace_Extract', init='ExtractInit', step='ExtractStep',
                clauses=['no_error', 'input_unchanged', 'files', 'name', 'rows', 'details', 'columns', 'values', 'baseline', 'true_charge', 'types',
                         'counts', 'times', 'attributes', 'modules', 'config', 'mapping', 'simulation'],
                mc=[dict(module='MC_Extract', spec='Spec', name='MC_Extract', consts=dict(MaxEvents=4, NPix=2),
                         inv=['OneRowEach', 'Counters', 'FirstLast', 'Complete'], prop=['Terminates'], thorough=dict(consts=dict(MaxEvents=5)))],
                gen=[dict(module='Gen_Extract', spec='Spec', name='Gen_Extract', inv=['Emit'], consts=dict(MaxEvents=3), max=60, pack='concretise',
                          thorough=dict(consts=dict(MaxEvents=4), max=900))])])

PROPS['C28'] = dict(
    technique='TLA+ model of waveform figures (WfPlot.tla): random histories of figures, plots and highlights run through the real plotters, panels read back '
              'and validated by TLC; panel placement and outline laws model-checked',
    note='Module figures of cameras of up to 5 modules of 64 pixels (with gaps), pixel figures of 6x6 modules of 1 or 4 pixels in any numbering, integer '
         'waveforms of 5-16 samples, up to two figures at once. A peak exactly on the threshold is accepted either way.',
    parts=[dict(driver='wfplot', trace='Trace_WfPlot', init='PlotInit', step='PlotStep',
                clauses=['no_error', 'panels', 'labels', 'outlines', 'waveforms', 'colours', 'averages', 'dim', 'limits', 'highlight', 'other_figures', 'curve',
                         'axes', 'saved'],
                mc=[dict(module='MC_WfPlot', spec='Spec', name='MC_WfPlot', consts=dict(Side=2, NR=3, NC=2), inv=['Placed', 'Separate', 'Outlines'],
                         thorough=dict(consts=dict(Side=2, NR=4, NC=2)))])])

PROPS['C29'] = dict(
    technique='TLA+ model of the sensor data sheet (SiPM.tla): TLC-enumerated patterns of missing entries and question places, and random sheets and '
              'questions, run through the real converter on a scratch copy of the package; answers validated by TLC; interpolation laws model-checked',
    note='All 3-row sheets with up to two entries missing at either end of two columns and every place of a question (sampled; thorough: all), random '
         'sheets of 3-9 integer rows in any order, rising or falling, with missing entries, several converters, and the bundled sheet between all rows.',
    parts=[dict(driver='sipm', trace='Trace_SiPM', init='SiInit', step='SiStep',
                clauses=['opens', 'one_value', 'columns', 'answers', 'consistent', 'bundled', 'plot'],
                mc=[dict(module='MC_SiPM', spec='Spec', name='MC_SiPM', consts=dict(Vals='{-2,0,1,3}', Rows=3),
                         inv=['Between', 'Itself', 'AtRow', 'Missing', 'Back'], thorough=dict(consts=dict(Vals='{-2,0,1,3,4}', Rows=3)))],
                gen=[dict(module='Gen_SiPM', spec='Spec', name='Gen_SiPM', inv=['Emit'], consts=dict(Rows=3), max=1500, pack='concretise',
                          thorough=dict(consts=dict(Rows=3), max=20000))])])

PROPS['C27'] = dict(
    technique='TLA+ model of the conversion (RootConv.tla): TLC-enumerated mixes of metadata and random DL1 files converted by the real script run as a '
              'program, trees recorded by stand-ins for ROOT validated by TLC; completeness of the metadata tree model-checked',
    note='All mixes of up to 3 (thorough: 4) metadata entries of four kinds with and without event times (sampled), random tables of up to 24 rows of seven '
         'number types. ROOT and root_numpy are stand-ins recording what they are given; files with embedded monitor tables are not converted by the '
         'script (its own TODO) and are excluded; strings up to 60 characters.',
    parts=[dict(driver='rootconv', trace='Trace_RootConv', init='RcInit', step='RcStep',
                clauses=['no_error', 'missing_input', 'input_unchanged', 'written', 'trees', 'meta_strings', 'meta_numbers', 'data', 'mapping'],
                mc=[dict(module='MC_RootConv', spec='Spec', name='MC_RootConv', consts=dict(Keys=3, Kinds='{"str","none","num","time"}'),
                         inv=['AllKept', 'Nothing', 'Every'], prop=['Ends'], thorough=dict(consts=dict(Keys=4, Kinds='{"str","none","num","time"}')))],
                gen=[dict(module='Gen_RootConv', spec='Spec', name='Gen_RootConv', inv=['Emit'], consts=dict(N=3), max=90, pack='concretise',
                          thorough=dict(consts=dict(N=4), max=1200))])])

PROPS['C30'] = dict(
    technique='TLA+ model of the photoelectron counting process (Counting.tla): closed form model-checked against the process, spectra of the real models '
              'on TLC-enumerated and random parameters observed peak by peak and validated by TLC in fixed-point arithmetic; recurrence laws for the densities',
    note='Illuminations up to 4 photoelectrons, crosstalk up to 11/16, in steps of 1/8 and 1/16; peak weights to 0.0012, widths and positions exactly in steps of 1/64; '
         'Poisson laws to 1e-6 per term up to a mean of 75, normal densities to 15 standard deviations; the driver undoes exp, log and the normal height. '
         'Not a proof of numerical accuracy over the reals.',
    parts=[dict(driver='counting', trace='Trace_Counting', init='CountInit', step='CountStep',
                clauses=['no_error', 'binomial', 'poisson', 'log_poisson', 'normal', 'xlogy', 'weights', 'peaks', 'area', 'mean', 'likelihood', 'additive', 'least_at_truth'],
                mc=[dict(module='MC_Counting', spec='Spec', name='MC_Counting', consts=dict(MaxK=5, Cs='0..11'), inv=['Counted', 'Ways', 'Closed', 'Kept', 'Pascal', 'Expo'])],
                gen=[dict(module='Gen_Counting', spec='Spec', name='Gen_Counting', inv=['Emit'], consts=dict(As='1..32', Cs='0..11'), max=96, pack='concretise',
                          thorough=dict(consts=dict(As='1..32', Cs='0..11'), max=None))])])

PROPS['C31'] = dict(
    technique='TLA+ step machine of reducers (Lifecycle.tla): every interleaving model-checked against the order rules, TLC-enumerated events with '
              'failures at any step and random class trees run through real chains, logs of every step validated by TLC',
    note='All inheritances of the preparing and closing steps of two reducers with every choice of active columns and sequences of 2 events failing at any '
         'step (sampled), random trees of up to 5 reducers through chains, configuration files and reducers on their own; factories over random class '
         'trees and the package\'s own. Steps are observed through user-defined reducers, which report each call.',
    parts=[dict(driver='lifecycle', trace='Trace_Lifecycle', init='LifecycleInit', step='LifecycleStep',
                clauses=['error_through', 'column_once', 'inactive_silent', 'prepare_once', 'post_once', 'order', 'fails_there', 'column_set', 'value',
                         'unknown_refused', 'named', 'arguments', 'fresh'],
                mc=[dict(module='Gen_Lifecycle', spec='Spec', name='MC_Lifecycle', consts=dict(MaxEv=1, Emitting='FALSE'), inv=['Obeyed', 'Whole'], prop=['Ends'],
                         thorough=dict(consts=dict(MaxEv=2, Emitting='FALSE')))],
                gen=[dict(module='Gen_Lifecycle', spec='Spec', name='Gen_Lifecycle', inv=['Emit'], consts=dict(MaxEv=2, Emitting='TRUE'), max=400,
                          thorough=dict(max=6000))])])

PROPS['C32'] = dict(
    technique='TLA+ model of the binned tables and the analytic curves (ResPlot.tla): random tables and charges plotted by the real plotters, '
              'points, bars and curves read back from the figures and validated by TLC; binning and curve order model-checked',
    note='Tables of up to 80 rows per pixel or camera in units of 1/1024 with charges from 0 to 1953 p.e., some made by the package\'s own '
         'accumulators; no charge lies closer than 1/100000 to an inner bin edge. Values to 1/512, squared errors to 0.5 %, squared curves to 0.1 % (0.25 % as ratios). '
         'The driver undoes square roots and the division by the (separately judged) requirement.',
    parts=[dict(driver='resplot', trace='Trace_ResPlot', init='ResPlotInit', step='ResPlotStep',
                clauses=['no_error', 'bins', 'charges', 'values', 'errors', 'label', 'table_kept', 'curve', 'curve_at', 'scales', 'unity'],
                mc=[dict(module='MC_ResPlot', spec='Spec', name='MC_ResPlot', consts=dict(MaxN=3, Xs='{100,103,110,150,400,1000,3000,3200}'),
                         inv=['Lossless', 'Ordered', 'Within', 'Twice', 'Curves', 'Small'])])])
PROPS['C33'] = dict(
    technique='TLA+ model of what a spectrum figure shows (SpePlot.tla): random fits, fit files and extractions plotted by the real plotter and programs, '
              'bars, curves, colours, legends, tables and images read back from the figures and validated by TLC; the judgements on displayed numbers model-checked',
    note='1-5 illuminations, up to 12 pixels, numbers in units of 1/1000. Displayed numbers are parsed from the texts and compared within their display precision; '
         'a bar of the parameter histogram may count a value at its edge either way. Extractions use a small fitter with a known minimum; '
         'their results are judged by C16, here only what the plots show of them.',
    parts=[dict(driver='speplot', trace='Trace_SpePlot', init='SpePlotInit', step='SpePlotStep',
                clauses=['no_error', 'inputs_kept', 'histograms', 'curves', 'colours', 'legend', 'rows', 'fitted', 'initials', 'file_initials', 'file_about',
                         'one_figure', 'titles', 'plots', 'in_directory', 'file_kept', 'closed', 'camera_values', 'camera_errors', 'bars', 'mean', 'stddev'],
                mc=[dict(module='MC_SpePlot', spec='Spec', name='MC_SpePlot',
                         consts=dict(MaxN=3, Xs='{0,125,1000,1250,7875,30000,31000}', Shown='{0,62,125,433,512,999,1000,1010,8250,9990,15000,15500,31000,999000}'),
                         inv=['SdBounded', 'SdZero', 'SdUnique', 'Exact', 'Two'])])])

PROPS['C34'] = dict(
    technique='TLA+ definitions (Pdf.tla) of the probability functions by their recurrences, symmetries and sums, validated by TLC against the values of '
              'the real functions; the recurrence is model-checked to determine the coefficients',
    note='Whole rows of the binomial triangle up to 26, ratios of neighbours up to 1000; Poisson means up to 200, values out to where nothing is left; '
         'normal curves of width 1/8 to 12 sampled at quarters of the width over 14 widths; arrays and single values. Ratios compared at 1/10000, '
         'probabilities at 1/1000000.',
    parts=[dict(driver='pdf', trace='Trace_Pdf', init='PdfInit', step='PdfStep',
                clauses=['choose', 'poisson', 'poisson_sum', 'poisson_log', 'normal', 'normal_area', 'normal_width', 'normal_shape', 'xlogy', 'poisson_none'],
                mc=[dict(module='MC_Pdf', spec='Spec', name='MC_Pdf', consts=dict(MaxN=9, Bound=130), inv=['Determined', 'NotStuck', 'Sums', 'Recursive'],
                         thorough=dict(consts=dict(MaxN=13, Bound=1800)))])])
