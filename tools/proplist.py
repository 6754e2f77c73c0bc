# flake8: noqa
prop('C01', 'Correlation headers stay consistent under any assignment',
     'However the header of a correlation is built, copied or modified, the '
     'lag of the last sample equals the lag of the first plus (samples-1) '
     'times the sampling interval, sampling interval and rate are '
     'reciprocal, and start/end time mirror the correlated time window. '
     'Derived fields cannot be assigned, a rejected assignment changes '
     'nothing, and a copy is independent of its original. The lag axis of a '
     'correlation trace follows its header and its sample count follows its '
     'data.',
     'all sequences of up to 3 (thorough 4) assignments with arbitrary '
     'values, all header key orders, data of 0 to 5 samples',
     'tests assign a handful of fixed values in one order',
     ['correlate/stats.py', 'correlate/stream.py'],
     [('derived header fields', 'correlate/stats.py:CorrStats.__setitem__'),
      ('component and id access', 'correlate/stats.py:CorrStats.__getitem__'),
      ('trace construction and lag axis',
       'correlate/stream.py:CorrTrace.__init__, times')],
     over=('inputs', 'histories'))

prop('C02', 'A station pair yields one correlation regardless of its order',
     'Swapping the two records of a pair (and reversing the correlation and '
     'negating its lags accordingly) produces the identical stored '
     'correlation: same codes, same data, same lag axis, same coordinates. '
     'Pairs are always stored in alphabetical order of network, station and '
     'channel code, and data, lags, coordinates, azimuth and distance '
     'belong to that order. The combined header covers exactly the '
     'overlap of the two records and keeps only those other fields on '
     'which both agree.',
     'all network/station/channel codes of up to 2-3 characters, arbitrary '
     'data, lags, sampling rates, start times and coordinates',
     'tests use single-letter codes that sort the same way under every '
     'ordering rule',
     ['correlate/stream.py', 'utils/miic_utils.py'],
     [('ordering of a pair',
       'correlate/stream.py:alphabetical_correlation'),
      ('combined header', 'correlate/stream.py:combine_stats'),
      ('geometry', 'utils/miic_utils.py:trace_calc_az_baz_dist')])

prop('C03', 'Correlations equal the lagged products of the recorded samples',
     'The value of a computed correlation at its reported lag is the sum of '
     'products of all sample pairs of the two records that are separated by '
     'exactly that real time, for any start time difference, record length, '
     'saved lag range and order of the pair; masked or missing samples '
     'count as zero. A normalised autocorrelation is one at zero lag and '
     'normalisation divides by the root of the product of the two energies. '
     'Lags, time span and codes in the header describe that result, and it '
     'does not depend on the number of processes.',
     'arbitrary samples for records of 1-3 samples (both records free), '
     '3-12 samples (one free, one unit impulse at each of several '
     'positions); start differences of up to 3 samples; 1-3 processes',
     'tests correlate one or two fixed records and compare shapes or a '
     'single peak',
     ['correlate/correlate.py', 'correlate/preprocessing_td.py'],
     [('correlation kernel',
       'correlate/correlate.py:Correlator._pxcorr_matrix'),
      ('records to traces', 'correlate/correlate.py:Correlator._pxcorr_inner, '
       'st_to_np_array'),
      ('padding', 'correlate/preprocessing_td.py:zeroPadding')],
     over=('inputs', 'configurations'))

prop('C04', 'Exactly the requested, not yet stored pairs are correlated',
     'For the chosen combination method, every pair of records of a window '
     'that the method names is correlated exactly once (in both orders '
     'only for allCombinations) unless that time window of that pair is '
     'already stored, and no other pair is. A list of requested '
     'pairs selects the pairs it names - in either order, with or without '
     'channels, with wildcards - and no others, also when it is derived '
     'from a maximum station distance. Pairs are looked up in the database '
     'under the name they are stored under.',
     'all codes of 1-2 characters over a two-letter alphabet for up to three '
     'records, all methods, all distances; database content of up to two '
     'windows per pair',
     'tests use a few fixed station names of equal length',
     ['correlate/correlate.py'],
     [('pair selection', 'correlate/correlate.py:calc_cross_combis, '
       'is_in_xcombis, _compare_existing_data'),
      ('station selection',
       'correlate/correlate.py:Correlator._filter_by_rcombis, '
       'find_interstat_dist'),
      ('names of pairs',
       'correlate/correlate.py:compute_network_station_combinations')],
     over=('inputs', 'configurations'))
prop('C05', 'Stacking averages each correlation once, with its own kind',
     'Stacking a set of correlations puts every correlation into exactly one '
     'stack, together with exactly those of the same network, station and '
     'channel (and, if asked, location) whose time windows end in the same '
     'stacking window. A stack is the (duration weighted) mean of its '
     'members, scaled to unit maximum when normalised, and its time span '
     'covers all of them. Selecting by time or clock time, sliding, removal '
     'of given times and of duplicates keep exactly the correlations whose '
     'time window satisfies the documented condition.',
     'up to three correlations with arbitrary start times, durations, '
     'samples (incl. missing ones) and codes; arbitrary window lengths and '
     'steps with up to 3 windows',
     'tests stack a few contiguous, ordered windows of equal length',
     ['correlate/stream.py'],
     [('average', 'correlate/stream.py:stack_st, stack_st_by_group'),
      ('windows', 'correlate/stream.py:CorrStream.stack, slide, '
       'select_corr_time'),
      ('selection', 'correlate/stream.py:CorrStream.select_time, '
       'pop_at_utcs, remove_duplicates')])
prop('C06', 'The correlation database returns exactly what was stored',
     'A correlation written to the database is read back with the same '
     'samples and header, by a request naming its pair in either order, and '
     'requests (with or without wildcards, tags and times) return all '
     'matching correlations and no others. A stored time window is never '
     'overwritten by a later write, removal deletes exactly what the '
     'request matches, and the listed start times and channels are exactly '
     'those stored. A database written with different processing options is '
     'refused, and without options it can only be read.',
     'up to 3 correlations with arbitrary codes of one character, times, '
     'samples and header values, over several sessions of one file; all '
     'requests over these codes and wildcards',
     'tests store one correlation of a fixed pair and request it by its '
     'exact name, with mocked storage',
     ['db/corr_hdf5.py'],
     [('storing', 'db/corr_hdf5.py:DBHandler.add_correlation, '
       'convert_header_to_hdf5'),
      ('reading', 'db/corr_hdf5.py:DBHandler.get_data, '
       'all_traces_recursive, read_hdf5_header'),
      ('removal and listing', 'db/corr_hdf5.py:DBHandler.remove_data, '
       'get_available_starttimes, get_available_channels'),
      ('processing options', 'db/corr_hdf5.py:DBHandler.__init__, '
       'co_to_hdf5')],
     over=('inputs', 'histories'))
prop('C07', 'Correlation matrices keep every row with its own time window',
     'Converting correlations to a matrix and back, selecting rows by index, '
     'time or time pattern, and saving and loading a matrix keep each '
     'sample row together with the time window, codes and lag axis it was '
     'stored with; exactly the rows that satisfy the selection remain, in '
     'order of their start time, and nothing of the original changes. '
     'Correlations of other stations, or with another lag axis or sampling '
     'rate, are never merged into the same matrix.',
     'matrices of 1-3 rows with arbitrary samples, time windows, codes and '
     'selections',
     'tests convert one fixed stream and compare sizes',
     ['correlate/stream.py', 'db/corr_hdf5.py'],
     [('stream to matrix', 'correlate/stream.py:convert_statlist_to_bulk_stats,'
       ' CorrStream.create_corr_bulk'),
      ('matrix', 'correlate/stream.py:CorrBulk'),
      ('saving', 'correlate/stream.py:CorrBulk.save, read_corr_bulk')])
prop('C08', 'Trimming and mirroring keep data and lag axis aligned',
     'After trimming a correlation matrix to a lag range, exactly the samples '
     'from the one at or just before the start to the last one inside the '
     'range are left, and every one is still reported at the lag it had; a '
     'range that reaches beyond the lag axis changes nothing. Mirroring '
     'averages the samples at equal positive and negative lag, keeps '
     'samples that have no counterpart, and the result starts at zero lag.',
     'arbitrary samples, first lags on and off the sampling grid and ranges; '
     '1-2 rows, up to 6 samples',
     'tests trim symmetric, on-grid examples',
     ['monitor/trim.py', 'correlate/stream.py'],
     [('matrix', 'monitor/trim.py:corr_mat_trim, corr_mat_mirror'),
      ('traces', 'correlate/stream.py:CorrBulk.trim, CorrTrace')])
prop('C09', 'Scaling, clipping, smoothing and tapering follow their definition',
     'Normalising divides each correlation by its chosen norm over the chosen '
     'lags and leaves zero rows alone; clipping limits each sample to the '
     'given number of standard deviations to either side of zero and '
     'changes no other; smoothing replaces each sample by the weighted mean around it; '
     'the tapers multiply each sample with a factor between zero and one '
     'that depends only on its lag, is symmetric where documented, and '
     'leaves samples away from the tapered lags unchanged. Missing samples '
     'do not spread to other correlations, and the input of the functions '
     'is not changed.',
     'arbitrary samples; 1-2 rows of 2-7 samples; all modes, windows and '
     'taper widths that fit',
     'tests check one fixed matrix per mode',
     ['monitor/post_corr_process.py', 'correlate/stream.py'],
     [('normalise', 'monitor/post_corr_process.py:corr_mat_normalize'),
      ('clip and smooth',
       'monitor/post_corr_process.py:corr_mat_clip, corr_mat_smooth'),
      ('taper', 'monitor/post_corr_process.py:corr_mat_taper, '
       'corr_mat_taper_center')])
prop('C10', 'Resampling correlations keeps time windows and lag axis true',
     'Resampling a matrix in time puts each correlation into the one bin its '
     'start time falls into; each new row is the mean of the correlations of '
     'its bin (missing if there is none) and carries the time window of the '
     'bin and one entry per row in every per-row header field. Resampling '
     'in lag keeps the lag of the first sample, never reports a lag '
     'beyond the original range, filters without shifting lags and equals '
     'the original samples where a signal needs no filtering.',
     'up to 3 correlations with arbitrary samples and start times, up to 3 '
     'bins with arbitrary bounds; all lag axes of up to 8 samples',
     'tests resample one evenly spaced matrix',
     ['monitor/post_corr_process.py', 'correlate/stream.py'],
     [('in time', 'monitor/post_corr_process.py:corr_mat_resample'),
      ('in lag', 'correlate/stream.py:CorrBulk.resample, '
       'resample_time_axis')])
prop('C11', 'Reference traces average exactly the intended correlations',
     'The reference of a set of correlations is the mean, median, mean of the '
     'normalised, or mean of the most similar correlations, where missing '
     'samples are left out. With several references there is one per time '
     'window, made of exactly the correlations that overlap the '
     'window extended by half its length to either side, and the windows '
     'cover all correlations. Extracting a reference leaves the '
     'correlations unchanged.',
     'up to 3 correlations with arbitrary samples (incl. missing ones) and '
     'time windows; windows of arbitrary length',
     'tests use a few fixed correlations without gaps',
     ['monitor/post_corr_process.py', 'correlate/stream.py'],
     [('single reference',
       'monitor/post_corr_process.py:corr_mat_extract_trace'),
      ('several references',
       'correlate/stream.py:CorrBulk.extract_multi_trace')])
prop('C12', 'Velocity changes are the best match to stretched references',
     'For every candidate change e, the reported similarity of a correlation '
     'is the normalised product, over the chosen sides and lag window, of '
     'the correlation (missing samples count as zero) and the reference '
     'stretched in lag around zero by exp(-e); the reported change is the '
     'candidate where the similarity is largest, and similarity is that '
     'largest value. Every reference and time window is measured '
     'separately. References and correlations are not changed.',
     'arbitrary correlations of up to 7 samples; arbitrary stretched '
     'references, or arbitrary impulses as references that are stretched; '
     'all sides, windows and up to 3 candidates',
     'tests stretch one synthetic signal and look at the best value only',
     ['monitor/stretch_mod.py'],
     [('similarity', 'monitor/stretch_mod.py:velocity_change_estimate'),
      ('stretching', 'monitor/stretch_mod.py:time_stretch_estimate, '
       'time_stretch_apply'),
      ('several references', 'monitor/stretch_mod.py:multi_ref_vchange')])
prop('C13', 'Measuring a set of correlations reports one value per time window',
     'Measuring velocity changes or time shifts of correlations gives one '
     'value and similarity per correlation, in their order, with their '
     'start and end times and station codes; a correlation without data is '
     'reported as unavailable and does not affect others. The similarity '
     'belongs to the samples of the chosen side or lag window, counted from '
     'zero lag also where the lag axis is not symmetric, and a shift by s '
     'compares with the reference s later. Correlations, header and '
     'reference are not changed by measuring.',
     '1-2 correlations with arbitrary samples or none, of up to 9 samples; '
     'impulse references at any lag or the mean; all sides, '
     'several lag axes and windows',
     'tests measure symmetric matrices with one reference',
     ['monitor/post_corr_process.py', 'correlate/stream.py',
      'monitor/stretch_mod.py'],
     [('velocity change', 'correlate/stream.py:CorrBulk.stretch; '
       'monitor/post_corr_process.py:corr_mat_stretch'),
      ('time shift', 'correlate/stream.py:CorrBulk.measure_shift; '
       'monitor/post_corr_process.py:measure_shift')])
prop('C14', 'Correcting a measured change undoes it',
     'Correcting correlations for measured time shifts or velocity changes '
     'moves (by linear interpolation) or stretches around zero lag (with '
     'splines) every correlation by its own value, so that a correlation '
     'that is the shifted or stretched reference, as the measurement defines '
     'it, becomes the reference. The lag axis, the time windows '
     'and the measured changes stay as they were.',
     'up to 3 correlations of up to 12 arbitrary samples, arbitrary '
     'shifts, four values of stretch, several lag axes',
     'tests correct one fixed matrix by a round number',
     ['monitor/stretch_mod.py', 'correlate/stream.py',
      'monitor/post_corr_process.py'],
     [('correction', 'correlate/stream.py:CorrBulk.correct_shift, '
       'correct_stretch'),
      ('arrays', 'monitor/stretch_mod.py:time_shift_apply, '
       'time_stretch_apply; '
       'monitor/post_corr_process.py:corr_mat_correct_stretch')])
prop('C15', 'Averaging measurements uses what is available',
     'The average of several velocity changes has, at each time and '
     'candidate, the mean of the similarities that are not missing; its '
     'value is the candidate of the largest averaged similarity, and a time '
     'is missing only if all measurements miss it. The memory saving mode '
     'gives the same, earlier averages and measurements on another axis are '
     'left out, and selections by coordinates take pairs with both stations '
     'inside. Averaging folders averages exactly the measurements of each '
     'station pair that the chosen method names; waveform coherences are '
     'averaged likewise, and the inputs are not changed.',
     'up to 3 measurements of up to 2 times and 3 candidates with arbitrary '
     'similarities, missing ones included; arbitrary boxes; 3 file names',
     'tests average constant matrices without gaps',
     ['monitor/dv.py', 'monitor/monitor.py'],
     [('average', 'monitor/monitor.py:average_components, '
       'average_components_mem_save, average_dvs_by_coords, '
       'average_components_wfc'),
      ('folders', 'monitor/monitor.py:Monitor.compute_components_average')])
prop('C16', 'Smoothing and stitching measurements',
     'Smoothing a measurement over time replaces each similarity by the mean '
     'of those available (and above the threshold) in the centred window and '
     'takes value and similarity from the result. Stitching moves a '
     'measurement along the candidates by the offset that makes its (weighted) mean or '
     'median equal to that of the reference where both have data, or where '
     'they meet; missing times stay missing, the reference measurement is '
     'not changed, and measurements too far apart are refused. Several '
     'are stitched one after the other in time.',
     'up to 5 times and 7 candidates with arbitrary similarities, missing '
     'ones included; 2-3 measurements with six patterns of availability',
     'tests smooth and stitch smooth synthetic matrices',
     ['monitor/dv.py', 'monitor/monitor.py'],
     [('smoothing', 'monitor/dv.py:DV.smooth_sim_mat'),
      ('stitching', 'monitor/monitor.py:correct_dv_shift, '
       'correct_time_shift_several')])
prop('C17', 'Measurements with several references combine into one',
     'The offset between the changes measured with two references is the '
     'mean of their difference weighted by similarity. Each similarity '
     'matrix is moved by its own offset to the common mean and the matrices '
     'are averaged; the reported change and similarity are the best of the '
     'average. Times without data are missing, and the individual '
     'measurements are not modified.',
     '2-4 references, up to 3 times, up to 5 candidates with arbitrary '
     'similarities; arbitrary offsets for two references',
     'tests compare to one stored result',
     ['monitor/stretch_mod.py'],
     [('combination', 'monitor/stretch_mod.py:est_shift_from_dt_corr, '
       'estimate_reftr_shifts_from_dt_corr, multi_ref_vchange_and_align')])
prop('C18', 'Measurements are read back as they were saved',
     'A velocity change that is saved and read again has the same values, '
     'similarities, candidates, availability, scatter, number of stations, '
     'settings and header (times to the microsecond), also after further '
     'rounds and for a single time. Reading several files skips corrupt '
     'ones. A waveform coherence comes back with its '
     'averages, which are the means of what is not missing, and a set of '
     'them is arranged by centre frequency and lapse time.',
     'up to 4 times and 3 candidates with arbitrary values, missing ones '
     'included, arbitrary header and settings; up to 4 coherences',
     'tests mock saving and loading',
     ['monitor/dv.py', 'monitor/wfc.py', 'utils/miic_utils.py'],
     [('measurements', 'monitor/dv.py:DV.save, read_dv'),
      ('coherences', 'monitor/wfc.py:WFC.save, read_wfc, '
       'WFC.compute_average, WFCBulk'),
      ('header', 'utils/miic_utils.py:save_header_to_np_array, '
       'load_header_from_np_array')])
prop('C19', 'Velocity change curves are aligned at a given time',
     'A curve is moved as a whole so that its mean within some steps around '
     'the point closest to the given time, weighted with similarity, equals '
     'the target value. Of several measurements those are aligned '
     'that cover the time with enough points and sufficient, usable '
     'similarity there, each to its own value predicted by the grid (or '
     'zero), only once, and without affecting other measurements.',
     '2-8 points with arbitrary values, similarities and time; up to 3 '
     'curves',
     'tests align constant or linear curves and mock the rest',
     ['monitor/spatial.py'],
     [('alignment', 'monitor/spatial.py:align_dv_curves, dv_starts, '
       'DVGrid.align_dvs_to_grid')])
prop('C20', 'Images of velocity change solve the stated inverse problem',
     'Changes predicted for station pairs are the sensitivity-weighted sums '
     'of the grid, with the sensitivity of scattered waves between the two '
     'stations in the middle of the lapse window. The image is the damped '
     'least-squares (or truncated SVD) solution for the measurements '
     'available at the '
     'requested time, with the stated model covariance and data variance, '
     'and so are resolution and posterior covariance. Measurements without '
     'usable value are left out, missing settings or times are errors, and '
     'coordinates off the grid are refused.',
     '1-4 pairs with arbitrary velocity changes (and similarity, for one '
     'pair) on grids of 4-12 cells at two origins',
     'tests compare shapes or mock the parts',
     ['monitor/spatial.py'],
     [('forward', 'monitor/spatial.py:DVGrid.forward_model, '
       'sensitivity_kernel, probability'),
      ('inversion', 'monitor/spatial.py:DVGrid.compute_dv_grid, '
       'compute_dv_tsvd, compute_resolution, compute_posterior_covariance, '
       'data_variance, compute_cm')])
prop('C21', 'The work of a run is shared without loss',
     'With any number of processes, each pending item (correlation to '
     'measure, pair or channel to write) is done by exactly one process, a '
     'failing item does not stop the others, and all processes take part in '
     'the same collective calls. The time windows to be correlated are the '
     'same on all processes: the k-th window starts k increments after the '
     'start of the reading period and holds the records of that span, also '
     'for stations with late start or gaps; stations of too low sampling '
     'rate are left out. Correlations of different reading periods are '
     'written and stacked separately, each exactly once.',
     '1-7 items, up to 12 processes; 1-3 stations with arbitrary samples, '
     'nine patterns of recorded times and three window layouts',
     'tests run on a single process with mocked parts',
     ['correlate/correlate.py', 'monitor/monitor.py'],
     [('windows', 'correlate/correlate.py:Correlator._generate_data, '
       'generate_corr_inc, pxcorr, _write'),
      ('measurements', 'monitor/monitor.py:'
       'Monitor.compute_velocity_change_bulk, '
       'compute_waveform_coherence_bulk')])
prop('C22', 'Measurements follow the configured workflow',
     'A measurement of velocity change uses the correlations normalised, '
     'averaged in the configured date windows, filtered, preprocessed and '
     'trimmed as configured; its lapse window starts at the configured time '
     'plus the (rounded) travel time and has the configured length, or '
     'reaches to the end of the correlation. It is refused if the '
     'correlations are too short. The saved result is the second measurement '
     'of the unmodified data against the reference made from the data '
     'corrected by the first. Waveform coherence is determined separately '
     'for each frequency band and lapse window, and a failing one does not '
     'affect the others. Date windows start at multiples of the increment '
     'from the first date until before the last.',
     'arbitrary window start and length, distance, elevation, dates; up to 3 '
     'bands and 3 windows; the processing steps themselves are other '
     'properties',
     'the tests do not run these workflows',
     ['monitor/monitor.py'],
     [('workflow', 'monitor/monitor.py:Monitor.compute_velocity_change, '
       'compute_waveform_coherence, make_time_list')])

prop('C23', 'Time-domain preparation does what its settings say to each record',
     'Each processing step of records works along time and on each record '
     'of the matrix on its own, keeping its shape and the caller\'s '
     'settings. Clipping limits samples to a multiple of the standard '
     'deviation, detrending removes the least-squares line or mean (over '
     'missing samples), normalising gives unit standard deviation and keeps '
     'records that have none, and tapers scale symmetrically towards both '
     'ends. Muting sets all samples above the threshold to zero and, with '
     'extended gaps, reduces only samples near them; running normalisation '
     'divides by the smoothed amplitude and does not fail where it is zero. '
     'Filters run along time for each record, and zero padding only appends '
     'zeros up to the needed (fast) length.',
     'arbitrary samples in matrices of 1-2 records with 2-13 samples, all '
     'listed settings',
     'tests use single shapes and values, or mock the parts',
     ['correlate/preprocessing_td.py'],
     [('steps', 'correlate/preprocessing_td.py:clip, detrend, mute, '
       'normalizeStandardDeviation, signBitNormalization, taper, '
       'TDfilter, TDnormalization, zeroPadding')])

prop('C24', 'Frequency-domain preparation keeps phases and frequencies',
     'Spectral whitening gives every spectral value of every record unit '
     'amplitude and the same phase; values without amplitude become zero '
     'and do not affect the others. Joint whitening divides the three '
     'components by the mean of their amplitudes. Sign-bit normalisation is '
     'the spectrum of the signs of the samples for even and odd numbers of '
     'samples. The band filter multiplies all records with the same factor '
     'between 0 and 1: 0 outside of the outer limits, 1 between the inner '
     'limits, rising and falling in between, without phase shift.',
     'arbitrary spectra of 1-6 records of up to 9 samples, arbitrary '
     'frequency limits at least two frequency steps apart',
     'tests use few fixed spectra',
     ['correlate/preprocessing_fd.py'],
     [('steps', 'correlate/preprocessing_fd.py:spectralWhitening, '
       'FDsignBitNormalization, FDfilter')])

prop('C25', 'Masks and gaps of recorded traces are respected and keep time',
     'Masking by time intervals masks exactly the samples in (or, reversed, '
     'outside) the given intervals, however many and also if they cover '
     'the trace. Tapering, detrending and filtering of traces with gaps '
     'apply to each part between gaps on its own, for float and integer '
     'data, and leave the trace with the same start time, number of '
     'samples and gaps. Gaps up to the given number of samples are '
     'interpolated linearly between their neighbours, longer ones and '
     'missing ends stay; this includes gaps between separate traces. Parts '
     'that are shorter than the minimum are left out and the remaining ones '
     'are tapered.',
     'arbitrary samples, arbitrary interval times; records of 4-12 samples '
     'with all listed gap layouts',
     'tests have one gap layout each and partly mock',
     ['correlate/preprocessing_stream.py', 'utils/miic_utils.py'],
     [('steps on streams', 'correlate/preprocessing_stream.py:'
       'trace_mask_at_utc, cos_taper, cos_taper_st, detrend_st, '
       'stream_filter'),
      ('gaps', 'utils/miic_utils.py:gap_handler, interpolate_gaps')])

prop('C26', 'Raw records are prepared at their own time before correlation',
     'Decimation low-pass filters and keeps every k-th sample from the '
     'first one on (or resamples to the requested rate) and a rate above '
     'that of the data is refused. Cutting removes the given time off both '
     'ends; traces that are too short or have no data '
     'are left out. Only vertical components pointing down '
     'change sign. The complete preparation of a reading period joins the '
     'parts of a record, fills gaps of one sample, tapers, removes the '
     'response (loading a missing one once), processes as configured '
     'and returns the record for exactly the requested period, samples '
     'without data masked.',
     'arbitrary samples and dips; records of 3-13 samples in six layouts of '
     'parts; response removal replaced by a marked factor',
     'the tests mock the steps and compare calls',
     ['utils/miic_utils.py', 'correlate/correlate.py'],
     [('records', 'utils/miic_utils.py:resample_or_decimate, trim_stream_'
       'delta, discard_short_traces, get_valid_traces, correct_polarity'),
      ('preparation', 'correlate/correlate.py:preprocess_stream')])

prop('C27', 'The local waveform store finds everything it was given',
     'Records written to the local archive end up sample by sample in the '
     'file of their channel and day, also if they span days, leave gaps or '
     'overlap what is there. A request is answered from the archive exactly '
     'if the archive reaches from start to end within one sample, and '
     'otherwise by one identical request to the server whose answer is '
     'archived; a read-only store writes nothing. Responses fetched once are '
     'known in later sessions and not asked for again. Available stations, '
     'channels, first and last day are those of the files present, reading '
     'windows start each increment from start until end. With other file '
     'structures all requested samples are found, also in the previous and '
     'following file.',
     'arbitrary samples, record times, request times, codes and dates within '
     'two years (one a leap year); 1-3 records, files or folders; ten file '
     'structures. File formats and glob are replaced by a model in the '
     'symbolic run',
     'tests mock glob for a few cases; writing and reading are not tested',
     ['trace_data/waveform.py'],
     [('archive', 'trace_data/waveform.py:Store_Client.get_waveforms, '
       '_load_local, _load_remote, _write_local_data, _write_inventory, '
       'select_inventory_or_load_remote, get_available_stations, '
       '_translate_wildcards, _get_times, _generate_time_windows'),
      ('file structures', 'trace_data/waveform.py:FS_Client, '
       'read_from_filesystem')],
     over=('inputs', 'histories'))

prop('C28', 'The stations and pairs named in the settings are used',
     'Correlating uses exactly those stations and channels of the archive '
     'that the settings name: a network and a station, a list of stations of '
     'one network, lists of networks and stations of the same length, or a '
     'list of networks with all stations; wildcards are allowed, no '
     'component means all, and other combinations are refused. Measuring '
     'uses exactly those stored pairs of which each network code matches one '
     'of the networks and each station code one of the stations. The stored '
     'time windows of every pair that is to be correlated are found, for '
     'each way of requesting the pair and over all its files. The settings '
     'passed in are not changed.',
     'arbitrary codes out of 2-3 letters for 2-3 channels, pairs or stored '
     'correlations; 14 forms of network and station settings, 9 selections '
     'of pairs, 6 lists of requested pairs',
     'tests mock the archive and check one file list per form',
     ['correlate/correlate.py', 'monitor/monitor.py'],
     [('stations', 'correlate/correlate.py:Correlator.__init__'),
      ('stored times', 'correlate/correlate.py:Correlator.'
       'find_existing_times, compute_network_station_combinations'),
      ('pairs', 'monitor/monitor.py:Monitor.__init__, corr_find_filter'),
      ('archive', 'trace_data/waveform.py:Store_Client.'
       '_translate_wildcards, get_available_stations')])

prop('C29', 'Coherence with references and clock shifts',
     'The waveform coherence of every correlation with every reference is, '
     'for every lapse window, the normalised product of the two over the '
     'samples whose lag (positive, negative or both sides) lies in the '
     'window; missing samples count as zero and without energy the value is '
     'missing. The clock shift of a correlation is the candidate, evenly '
     'spaced in samples, for which the reference moved later by it '
     '(continued constantly at its ends) is most similar to the correlation '
     'in the lapse window around zero lag, on the symmetric or the positive '
     'part of the lag axis: one value per correlation with its time window. '
     'Correlations, references, header and windows are not changed.',
     'arbitrary samples and positions of missing samples; 1-2 correlations '
     'with 3-7 lags, 1-2 references, 1-2 windows, all sides (clock: '
     'reference with one nonzero sample, three candidates)',
     'tests compare single fixed arrays',
     ['correlate/stream.py', 'monitor/stretch_mod.py'],
     [('coherence', 'correlate/stream.py:CorrBulk.wfc'),
      ('coherence', 'monitor/stretch_mod.py:wfc_multi_reftr'),
      ('clock', 'correlate/stream.py:CorrBulk.find_clock_shift'),
      ('clock', 'monitor/stretch_mod.py:time_windows_creation, '
       'create_shifted_ref_mat, compare_with_modified_reference')])

prop('C30', 'Filter, envelope and decay correction act per correlation',
     'Filtering correlations applies the Butterworth band filter of the '
     'given order and corner frequencies in Hz forward and backward to each '
     'of them, so that phases are not shifted. The envelope is the magnitude '
     'of the analytic signal of each correlation. Decay correction divides '
     'all correlations by one positive factor that depends only on the '
     'distance from zero lag and is exponential in it. Correlations without '
     'data stay so and do not affect others, header and time windows stay, '
     'filtering is noted in the processing and copies are not affected.',
     'arbitrary samples; 1-2 correlations of 1-6 lags, three bands (decay: '
     'any amplitude of two shapes)',
     'tests use single fixed arrays or mock the filter',
     ['correlate/stream.py', 'utils/miic_utils.py'],
     [('filter', 'monitor/post_corr_process.py:'
       'corr_mat_filter'),
      ('envelope', 'correlate/stream.py:CorrBulk.envelope'),
      ('decay', 'correlate/stream.py:CorrBulk.correct_decay, '
       'corr_mat_correct_decay')])

prop('C31', 'The spectral series of a station misses no window',
     'The spectral series holds one column for every complete window of the '
     'records, in order of time, with its start time and the spectrum of '
     'exactly the samples from its start to its end, all over the same '
     'logarithmic frequency axis. Windows with missing samples, records that '
     'cannot be prepared and windows whose spectrum fails are left out '
     'without affecting others. For records on the grid of the windows the '
     'length read at once does not matter, and the result does not depend '
     'on the number of processes: also if some have nothing to do, the '
     'first has the result and no other; without any spectrum an error '
     'tells so.',
     'arbitrary samples; 1-3 reading periods with complete, partial, '
     'interrupted, missing or failing records in any order; 1-3 processes',
     'tests use one process and one record',
     ['utils/raw_analysis.py', 'trace_data/waveform.py'],
     [('series', 'utils/raw_analysis.py:spct_series_welch'),
      ('reading', 'trace_data/waveform.py:Store_Client.compute_spectrogram, '
       '_generate_time_windows')],
     over=('inputs', 'schedules'))
