From dc0de81b681bb8f17f3725a20f3a2e92f07c9b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 01/67] fix: order station pairs code by code everywhere

Concatenating network, station and channel made the stored order of
pairs such as NEP/NEP0 differ from the one used to look them up, and
made it depend on the argument order for codes like A.AB / AA.B.
---
 src/seismic/correlate/correlate.py | 4 ++--
 src/seismic/correlate/stream.py    | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index f58d133..a02f491 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -1217,8 +1217,8 @@ def sort_comb_name_alphabetically(
     if not all([isinstance(arg, str) for arg in [
             network1, network2, station1, station2]]):
         raise TypeError('All arguments have to be strings.')
-    sort1 = network1 + station1 + channel1
-    sort2 = network2 + station2 + channel2
+    sort1 = [network1, station1, channel1]
+    sort2 = [network2, station2, channel2]
     sort = [sort1, sort2]
     sorted = sort.copy()
     sorted.sort()
diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index a90d595..30cd544 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1420,9 +1420,9 @@ def alphabetical_correlation(
     :rtype: Tuple[Stats, np.ndarray]
     """
     # make sure the order is correct
-    # Will do that always alphabetically sorted
-    sort1 = header1.network + header1.station + header1.channel
-    sort2 = header2.network + header2.station + header2.channel
+    # Will do that always alphabetically sorted (code by code)
+    sort1 = [header1.network, header1.station, header1.channel]
+    sort2 = [header2.network, header2.station, header2.channel]
     sort = [sort1, sort2]
     sorted = sort.copy()
     sorted.sort()
-- 
2.43.0


From 31a9de09fb68a38f6e1711ca436593300b671e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:21 +0000
Subject: [PATCH 02/67] fix: lag of the last sample of a correlation

The end lag was one sample too large, which moved the lag axis of every
correlation that is flipped into alphabetical order by one sample.
---
 src/seismic/correlate/correlate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index a02f491..cc247c1 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -386,7 +386,8 @@ class Correlator(object):
         if self.rank == 0:
             for ii, (startlag, comb) in enumerate(
                     zip(startlags, self.options['combinations'])):
-                endlag = startlag + len(A[ii, :])/self.options['sampling_rate']
+                endlag = startlag\
+                    + (len(A[ii, :]) - 1)/self.options['sampling_rate']
                 cst.append(
                     CorrTrace(
                         A[ii], header1=st[comb[0]].stats,
-- 
2.43.0


From 52f18154c840ada4b4cdecbcfa9d164fc5a744d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:01 +0000
Subject: [PATCH 03/67] fix: requested pairs no longer match longer station
 codes

The trailing wildcard that makes the channel optional also matched pairs
whose second station code merely starts with the requested one.
---
 src/seismic/correlate/correlate.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index cc247c1..af4aa3e 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -837,9 +837,10 @@ def is_in_xcombis(id1: str, id2: str, rcombis: List[str] = None) -> bool:
     tcombi = f'{n1}-{n2}.{s1}-{s2}.{c1}-{c2}'
     tcombi2 = f'{n2}-{n1}.{s2}-{s1}.{c2}-{c1}'
     for combi in rcombis:
-        if fnmatch.fnmatch(tcombi, combi+'*') or fnmatch.fnmatch(
-                tcombi2, combi+'*'):
-            return True
+        for tc in (tcombi, tcombi2):
+            # channel information can be omitted
+            if fnmatch.fnmatch(tc, combi) or fnmatch.fnmatch(tc, combi+'.*'):
+                return True
     return False
 
 
-- 
2.43.0


From b4999cf1227c8ff798cc1e38a45dc71a7f27fb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:39 +0000
Subject: [PATCH 04/67] fix: drop every masking step from the stored
 correlation options

Removing from the list while iterating over it kept every second one of
consecutive masking steps, so that unchanged options were refused.
---
 src/seismic/db/corr_hdf5.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 724b43b..320ef9c 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -523,8 +523,9 @@ def co_to_hdf5(co: dict) -> dict:
         coc['subdivision'].pop('recombine_subdivision', None)
         coc['subdivision'].pop('delete_subdivision', None)
     try:
-        [coc['preProcessing'].remove(step) for step in coc['preProcessing']
-            if 'stream_mask_at_utc' in step['function']]
+        coc['preProcessing'] = [
+            step for step in coc['preProcessing']
+            if 'stream_mask_at_utc' not in step['function']]
     except KeyError:
         pass
     return coc
-- 
2.43.0


From 061322b6e52260ab07c4a270928e19f1c9a662ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 05/67] fix: no available starttimes is not an error

Asking for all channels of a tag or station combination that is not in
the file raised a KeyError, e.g. when resuming a correlation whose
subdivisions were deleted after stacking.
---
 src/seismic/db/corr_hdf5.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 320ef9c..c64ca6e 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -310,8 +310,13 @@ omitted." % path, category=UserWarning)
                 return out
             channel = [channel]
         path = '/'.join(path.split('/')[:-3])
+        try:
+            available = list(self[path].keys())
+        except KeyError:
+            # No data with this tag or station combination in the file
+            return out
         for ch in channel:
-            for match in fnmatch.filter(self[path].keys(), ch):
+            for match in fnmatch.filter(available, ch):
                 out[match] = list(self['/'.join([path, match])].keys())
         return out
 
-- 
2.43.0


From bf6f98097d46ab9cfcb5ab74153f58dc1879c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:00 +0000
Subject: [PATCH 06/67] fix: keep the second station of pairs requested with
 channel codes

---
 src/seismic/correlate/correlate.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index af4aa3e..203a185 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -224,15 +224,16 @@ class Correlator(object):
         if self.rcombis is None or self.options['combination_method'] \
                 != 'betweenStations':
             return
-        self.station = [
-            [n, s] for n, s in self.station if
-            fnmatch.filter(self.rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
-                self.rcombis, f'*-{n}.*-{s}')]
+
+        def requested(n: str, s: str) -> bool:
+            # the channel of the requested combination can be omitted
+            return any(fnmatch.filter(self.rcombis, pattern) for pattern in (
+                f'{n}-*.{s}-*', f'*-{n}.*-{s}', f'*-{n}.*-{s}.*'))
+
+        self.station = [[n, s] for n, s in self.station if requested(n, s)]
         # same check for avail_raw_data
         self.avail_raw_data = [
-            [n, s, c] for n, s, c in self.avail_raw_data if
-            fnmatch.filter(self.rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
-                self.rcombis, f'*-{n}.*-{s}')]
+            [n, s, c] for n, s, c in self.avail_raw_data if requested(n, s)]
 
     def find_interstat_dist(self, dis: float):
         """
-- 
2.43.0


From a4546805a66039f8aea1cd712f9ba1c62a554e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 07/67] fix: invert spectra of records padded to an odd length

The fast length used for the padding can be odd (e.g. 91125 samples for
an hour at 25 Hz and 20 s of lag). The inverse transform then assumed one
sample less, which distorts the lag axis of the correlations.
---
 src/seismic/correlate/correlate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 203a185..ede78d3 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -707,7 +707,8 @@ class Correlator(object):
         ######################################
         # correlation
         csize = len(self.options['combinations'])
-        irfftsize = (fftsize-1)*2
+        # the fast length may be odd
+        irfftsize = zmsize[1]
         sampleToSave = int(
             np.ceil(
                 corr_args['lengthToSave'] * self.sampling_rate))
@@ -757,7 +758,7 @@ class Correlator(object):
             ######################################
             # frequency domain postProcessing
             #
-            tmp = np.fft.irfft(M).real
+            tmp = np.fft.irfft(M, irfftsize).real
 
             # cut the center and do fftshift
             C[ii, :] = np.concatenate(
-- 
2.43.0


From db05596973027e993f55ba5bea665c9baf77a9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 08/67] fix: count the Nyquist frequency once in the
 correlation energy

The normalised autocorrelation did not have unit amplitude.
---
 src/seismic/correlate/correlate.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index ede78d3..8471022 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -735,18 +735,15 @@ class Correlator(object):
             offset -= roffset
             # normalization factor of fft correlation
             if corr_args['normalize_correlation']:
-                norm = (
-                    np.sqrt(
-                        2.*np.sum(B[self.options[
-                            'combinations'][ii][0], :]
-                            * B[self.options['combinations'][ii][0], :].conj())
-                        - B[self.options['combinations'][ii][0], 0]**2)
-                    * np.sqrt(
-                        2.*np.sum(B[self.options[
-                            'combinations'][ii][1], :]
-                            * B[self.options['combinations'][ii][1], :].conj())
-                        - B[self.options['combinations'][ii][1], 0]**2)
-                    / irfftsize).real
+                energy = []
+                for jj in self.options['combinations'][ii]:
+                    power = (B[jj, :]*B[jj, :].conj()).real
+                    e = 2.*np.sum(power) - power[0]
+                    if irfftsize % 2 == 0:
+                        # the Nyquist frequency occurs only once
+                        e -= power[-1]
+                    energy.append(e)
+                norm = np.sqrt(energy[0])*np.sqrt(energy[1])/irfftsize
             else:
                 norm = 1.
 
-- 
2.43.0


From 96b5be07f7bd886d746dd702d4fa8be296d3b28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:42 +0000
Subject: [PATCH 09/67] fix: pad for the whole number of lag samples that is
 saved

The number of saved lags is rounded up, the padding was rounded down, so
that the outermost lag could wrap around; float lengths raised an error.
---
 src/seismic/correlate/preprocessing_td.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index db8c092..0dfb556 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -475,10 +475,11 @@ def zeroPadding(A: np.ndarray, args: dict, params: dict, axis=1) -> np.ndarray:
     if args['type'] == 'nextFastLen':
         N = next_fast_len(npts)
     elif args['type'] == 'avoidWrapAround':
-        N = npts + params['sampling_rate'] * params['lengthToSave']
+        N = npts + int(np.ceil(
+            params['sampling_rate'] * params['lengthToSave']))
     elif args['type'] == 'avoidWrapFastLen':
-        N = next_fast_len(int(
-            npts + params['sampling_rate'] * params['lengthToSave']))
+        N = next_fast_len(npts + int(np.ceil(
+            params['sampling_rate'] * params['lengthToSave'])))
     else:
         raise ValueError("type '%s' of zero padding not implemented" %
                          args['type'])
-- 
2.43.0


From e43e1adf03cd1803ef9e83326948cfe8e4edfaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 10/67] fix: stacks reach to the latest end of the stacked
 correlations

---
 src/seismic/correlate/stream.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 30cd544..b1a3865 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1226,7 +1226,8 @@ class CorrStream(Stream):
         if not starttime:
             starttime = self[0].stats.corr_start
         if not endtime:
-            endtime = self[-1].stats.corr_end
+            # the correlation that starts last does not have to end last
+            endtime = max(tr.stats.corr_end for tr in self)
         outst = CorrStream()
         if stack_len == 'daily':
             starttime = UTCDateTime(
@@ -1627,7 +1628,8 @@ def stack_st(st: CorrStream, weight: str, norm: bool = True) -> CorrTrace:
     """
     st.sort(keys=['corr_start'])
     stats = st[0].stats.copy()
-    stats['corr_end'] = st[-1].stats['corr_end']
+    # the correlation that starts last does not have to end last
+    stats['corr_end'] = max(tr.stats.corr_end for tr in st)
     st.sort(keys=['npts'])
     npts = st[-1].stats.npts
     stack = []
-- 
2.43.0


From dfc4f03614d8dddf040d731ea7ca81a9c61cf7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:46 +0000
Subject: [PATCH 11/67] fix: wildcards in requested combinations

---
 src/seismic/db/corr_hdf5.py | 50 ++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index c64ca6e..9cb1513 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -165,13 +165,7 @@ omitted." % path, category=UserWarning)
                 'Network, Station, and channel code may not contain wildcards.'
             )
         # Make sure the request is structured correctly
-        sort = ['.'.join([net, stat, chan]) for net, stat, chan in zip(
-                network.split('-'), station.split('-'), channel.split('-'))]
-        sorted = sort.copy()
-        sorted.sort()
-        if sorted != sort:
-            network, station, channel = ['-'.join([a, b]) for a, b in zip(
-                sorted[0].split('.'), sorted[1].split('.'))]
+        network, station, channel = sort_codes(network, station, channel)
 
         if isinstance(corr_start, UTCDateTime):
             corr_start = corr_start.format_fissures()
@@ -195,7 +189,6 @@ omitted." % path, category=UserWarning)
             return
         # Now, we need to differ between the fnmatch pattern and the actually
         # accessed path
-        path = path.replace('?', '*')
         pattern = path.replace('/*', '*')
         for sst in self.get_available_starttimes(
                 network, station, tag, channel)[channel]:
@@ -245,13 +238,7 @@ omitted." % path, category=UserWarning)
         :rtype: CorrStream
         """
         # Make sure the request is structured correctly
-        sort = ['.'.join([net, stat, chan]) for net, stat, chan in zip(
-                network.split('-'), station.split('-'), channel.split('-'))]
-        sorted = sort.copy()
-        sorted.sort()
-        if sorted != sort:
-            network, station, channel = ['-'.join([a, b]) for a, b in zip(
-                sorted[0].split('.'), sorted[1].split('.'))]
+        network, station, channel = sort_codes(network, station, channel)
 
         if isinstance(corr_start, UTCDateTime):
             corr_start = corr_start.format_fissures()
@@ -270,10 +257,10 @@ omitted." % path, category=UserWarning)
             header = read_hdf5_header(self[path])
             return CorrStream(CorrTrace(data, _header=header))
         # Now, we need to differ between the fnmatch pattern and the actually
-        # accessed path
-        path = path.replace('?', '*')
+        # accessed path, i.e., the last group without wildcards
         pattern = path.replace('/*', '*')
-        path = path.split('*')[0]
+        path = path.replace('?', '*').split('*')[0]
+        path = path[:path.rfind('/')+1]
         return all_traces_recursive(self[path], CorrStream(), pattern)
 
     def get_available_starttimes(
@@ -429,6 +416,33 @@ class CorrelationDataBase(object):
             return False
 
 
+def sort_codes(network: str, station: str, channel: str) -> tuple:
+    """
+    Brings the codes of a requested combination in the order, in which
+    combinations are saved (i.e., sorted by network, station, and channel).
+    The order of codes that contain wildcards is retained.
+
+    :param network: network (combination), e.g., IU-YP
+    :type network: str
+    :param station: station (combination), e.g., HRV-BRK
+    :type station: str
+    :param channel: channel (combination), e.g., BZ-BR
+    :type channel: str
+    :return: The network, station, and channel combination
+    :rtype: tuple
+    """
+    codes = [code.split('-') for code in (network, station, channel)]
+    for pair in codes:
+        if len(pair) != 2 or any('*' in c or '?' in c for c in pair):
+            break
+        if pair[0] != pair[1]:
+            if pair[1] < pair[0]:
+                network, station, channel = [
+                    '-'.join(code[::-1]) for code in codes]
+            break
+    return network, station, channel
+
+
 def all_traces_recursive(
     group: h5py._hl.group.Group, stream: CorrStream,
         pattern: str) -> CorrStream:
-- 
2.43.0


From abf5c9dc97bcb561dd831f78622ff56ebe8a8ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:06 +0000
Subject: [PATCH 12/67] fix: centre taper that reaches beyond the trace

---
 src/seismic/monitor/post_corr_process.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index ecf5072..d24c633 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -574,16 +574,14 @@ def corr_mat_taper_center(
 
     # calculate start end end points of the taper
     start = int(-stats['start_lag']*stats['sampling_rate'] - length/2)
-    if start < 0:
-        taper = taper[np.absolute(start):]
-        start = 0
-
-    end = start + length
-    if end > stats['npts']:
-        end = stats['npts']
-        taper = taper[0:end - start]
+    end = start + length + 1
+    # only use the part of the taper that lies on the trace
+    taper = taper[max(-start, 0):max(length + 1 - max(end - stats['npts'], 0),
+                                     0)]
+    start = max(start, 0)
+    end = min(max(end, start), stats['npts'])
     # apply taper
-    data[:, start:end + 1] *= \
+    data[:, start:end] *= \
         np.tile(np.atleast_2d(taper), (data.shape[0], 1))
 
     return data
-- 
2.43.0


From c887f74c99a53cfd943a4cc4ecc7617dac8ddd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:36 +0000
Subject: [PATCH 13/67] fix: reloaded correlation matrices have a complete
 header

---
 src/seismic/correlate/stream.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index b1a3865..5f64c0c 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -60,6 +60,9 @@ class CorrBulk(object):
         """
         self.data = A
         if stats:
+            if not isinstance(stats, CorrStats):
+                # e.g., a header read from a file
+                stats = CorrStats(stats)
             self.stats = stats
         elif statlist:
             self.stats = convert_statlist_to_bulk_stats(statlist)
@@ -836,6 +839,12 @@ def read_corr_bulk(path: str) -> CorrBulk:
     """
     loaded = np.load(path)
     stats = m3ut.load_header_from_np_array(loaded)
+    for key, value in stats.items():
+        # entries with one value per correlation
+        if isinstance(value, np.ndarray):
+            stats[key] = value.tolist()
+        elif isinstance(value, UTCDateTime):
+            stats[key] = [value]
     return CorrBulk(loaded['data'], stats=stats)
 
 
-- 
2.43.0


From d1244413f0026ce4e93b97fa9f5ac2fe57da7124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:36 +0000
Subject: [PATCH 14/67] fix: slicing correlation matrices by time

---
 src/seismic/correlate/stream.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 5f64c0c..e359af5 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -672,15 +672,13 @@ class CorrBulk(object):
         ii = self._find_slice_index(starttime, endtime, include_partial)
         data = self.data[ii, :]
         stats = deepcopy(self.stats)
-        for key, value in stats.items():
-            try:
-                if isinstance(value, list) and key != 'processing_bulk':
-                    stats[key] = [v for jj, v in zip(ii, value) if jj]
-                elif isinstance(value, np.ndarray):
-                    stats[key] = value[ii]
-            except AttributeError:
-                continue
-                # Those will change automatically
+        # only these can vary from correlation to correlation
+        for key in ('corr_start', 'corr_end', 'location', 'channel'):
+            value = stats[key]
+            if isinstance(value, list):
+                stats[key] = [v for jj, v in zip(ii, value) if jj]
+            elif isinstance(value, np.ndarray):
+                stats[key] = value[ii]
         return CorrBulk(data, stats)
 
     def taper(self, width: float):
@@ -821,7 +819,7 @@ class CorrBulk(object):
             ii = np.logical_and(
                 np.array(self.stats.corr_start) >= starttime,
                 np.array(self.stats.corr_end) <= endtime)
-        ii = np.squeeze(ii)
+        ii = np.atleast_1d(np.squeeze(ii))
         if not len(np.nonzero(ii)[0]):
             warnings.warn(
                 'No slices found in the requested time. Returning empty arr.')
-- 
2.43.0


From 08393385809222d449ccc62adc19fb39d2fc919b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:36 +0000
Subject: [PATCH 15/67] fix: message for correlation streams without matching
 data

---
 src/seismic/correlate/stream.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index e359af5..28aaf48 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -930,9 +930,10 @@ class CorrStream(Stream):
         if times:
             st = st.select_corr_time(times[0], times[1])
         if not st.count():
-            raise ValueError(
-                f'CorrStream contains no data between {times[0]} and '
-                f'{times[1]}.')
+            msg = 'CorrStream contains no data'
+            if times:
+                msg += f' between {times[0]} and {times[1]}'
+            raise ValueError(msg + '.')
         A = np.empty((st.count(), st[0].stats.npts))
         statlist = []
         # Double check sampling rate
-- 
2.43.0


From ffe74886be79e8251151c240fe477aa738ebf7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:17 +0000
Subject: [PATCH 16/67] fix: lag of the first sample after trimming between
 samples

---
 src/seismic/monitor/trim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/trim.py b/src/seismic/monitor/trim.py
index b1bfedb..4a6d388 100644
--- a/src/seismic/monitor/trim.py
+++ b/src/seismic/monitor/trim.py
@@ -62,7 +62,7 @@ def corr_mat_trim(
         data = data[:, start:end + 1]
         stats['npts'] = data.shape[1]
 
-    # set starttime, endtime and npts of the new stats
-    stats['start_lag'] = starttime
+    # set the lag of the first sample, starttime might be between samples
+    stats['start_lag'] = stats['start_lag'] + start/stats['sampling_rate']
 
     return data, stats
-- 
2.43.0


From 6dd843d9b9d2e19a0546a9f6b3e7a106bdd08441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 17/67] fix: resampled correlation matrices keep one code per
 row

---
 src/seismic/monitor/post_corr_process.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index d24c633..84026ff 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -282,10 +282,14 @@ def corr_mat_resample(
     # new corr_data matrix
     nmat = np.empty([len(stime), data.shape[1]])
     nmat.fill(np.nan)
+    # first measurement of each bin
+    first = np.zeros(len(stime), dtype=int)
 
     for ii in range(len(stime)):
         # index of measurements between start_time[ii] and end_time[ii]
         ind = np.nonzero((otime >= stime[ii]) * (otime < etime[ii]))
+        if len(ind[0]):
+            first[ii] = ind[0][0]
         # ind is a list(tuple) for dimensions
         if len(ind[0]) == 1:
             # one measurement found
@@ -299,6 +303,12 @@ def corr_mat_resample(
 
     stats['corr_start'] = [UTCDateTime(st) for st in stime]
     stats['corr_end'] = [UTCDateTime(et) for et in etime]
+    # other entries that are given for each row of the matrix
+    for key in ('location', 'channel'):
+        if isinstance(stats.get(key), list):
+            stats[key] = [stats[key][ii] for ii in first]
+    if 'ntrcs' in stats:
+        stats['ntrcs'] = len(stime)
 
     return data, stats
 
-- 
2.43.0


From 525f2d8e6e6a4ab906abc1c08ecbbf4bd141dae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 18/67] fix: reflected ends of smoothed correlations

---
 src/seismic/monitor/post_corr_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 84026ff..0e2fe5c 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -105,8 +105,8 @@ def _smooth(
             "Window is not one of 'flat', 'hanning', 'hamming', "
             "'bartlett', 'blackman'")
 
-    s = np.r_[2 * x[0] - x[window_len:1:-1], x,
-              2 * x[-1] - x[-1:-window_len:-1]]
+    s = np.r_[2 * x[0] - x[window_len - 1:0:-1], x,
+              2 * x[-1] - np.flip(x[-window_len:-1])]
 
     if window == 'flat':  # moving average
         w = np.ones(window_len, 'd')
-- 
2.43.0


From 8f04f33ff4edb0d7a1eb4121201b09febaee44aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 19/67] fix: centre taper without slope

---
 src/seismic/monitor/post_corr_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 0e2fe5c..d94936f 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -580,7 +580,7 @@ def corr_mat_taper_center(
     taper = np.zeros(length + 1)
     tap = cosine_taper(slope_length * 2, p=1)
     taper[0:slope_length] = tap[slope_length:]
-    taper[-slope_length:] = tap[:slope_length]
+    taper[length + 1 - slope_length:] = tap[:slope_length]
 
     # calculate start end end points of the taper
     start = int(-stats['start_lag']*stats['sampling_rate'] - length/2)
-- 
2.43.0


From 73f78e650348ddfbbecb304aa0e5e5b3bae5ea06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:12 +0000
Subject: [PATCH 20/67] fix: symmetric slopes of the centre taper

---
 src/seismic/monitor/post_corr_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index d94936f..a33c73b 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -580,7 +580,7 @@ def corr_mat_taper_center(
     taper = np.zeros(length + 1)
     tap = cosine_taper(slope_length * 2, p=1)
     taper[0:slope_length] = tap[slope_length:]
-    taper[length + 1 - slope_length:] = tap[:slope_length]
+    taper[length + 1 - slope_length:] = tap[:slope_length - 1:-1]
 
     # calculate start end end points of the taper
     start = int(-stats['start_lag']*stats['sampling_rate'] - length/2)
-- 
2.43.0


From 2ca5a551d7c7608c43fa42182a0ee778b738bcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:21 +0000
Subject: [PATCH 21/67] fix: reference from equally similar correlations

---
 src/seismic/monitor/post_corr_process.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index a33c73b..e104e82 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -786,6 +786,9 @@ def corr_mat_extract_trace(
         # find the traces that agree with the requested percentile and calc
         # their mean
         ind = cor > tres
+        if not np.any(ind):
+            # all traces are equally similar
+            ind = cor >= tres
         out = np.mean(ndata[ind, :], 0)
     else:
         raise ValueError("Method '%s' not defined." % method)
-- 
2.43.0


From ce6c3b0f616bf3a4dde58475672e661f8ecf1ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:22 +0000
Subject: [PATCH 22/67] fix: leave missing samples out of the median reference

---
 src/seismic/monitor/post_corr_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index e104e82..b9291db 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -759,7 +759,7 @@ def corr_mat_extract_trace(
     elif method == 'median':
         mm = np.ma.masked_array(
             ndata, np.isnan(ndata))
-        out = np.median(mm, 0).filled(np.nan)
+        out = np.ma.median(mm, 0).filled(np.nan)
     elif method == 'norm_mean':
         # normalize the matrix
         ndata = corr_mat_normalize(ndata, stats, normtype='absmax')
-- 
2.43.0


From a21df47f738fb68084aaa7a70399000b4db5679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 23/67] fix: measuring changes keeps the header of the
 correlations

---
 src/seismic/monitor/post_corr_process.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index b9291db..6a4b830 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -878,6 +878,8 @@ def corr_mat_stretch(
     """
 
     data = deepcopy(cdata)
+    # trimming changes the header
+    stats = deepcopy(stats)
 
     dta = -stats['start_lag']
     dte = stats['end_lag']
@@ -980,6 +982,8 @@ def corr_mat_shift(
     """
 
     data = deepcopy(data)
+    # trimming changes the header
+    stats = deepcopy(stats)
 
     dta = -stats.start_lag
     dte = stats.end_lag
-- 
2.43.0


From 71d92bf339410f552da566e1adc91fbe19d757ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 24/67] fix: lag axis of a reference for correlations that are
 trimmed

---
 src/seismic/monitor/post_corr_process.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 6a4b830..4d9be28 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -878,6 +878,9 @@ def corr_mat_stretch(
     """
 
     data = deepcopy(cdata)
+    if ref_trc is not None and ref_tr_stats is None:
+        # the reference has the lag axis of the untrimmed data
+        ref_tr_stats = stats
     # trimming changes the header
     stats = deepcopy(stats)
 
-- 
2.43.0


From 54a31fa289902c36cf0207131d5e31aaf9cdfb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:49 +0000
Subject: [PATCH 25/67] fix: velocity and time shifts of a single correlation

---
 src/seismic/monitor/post_corr_process.py |  6 +++---
 src/seismic/monitor/stretch_mod.py       | 26 +++++++++++++++---------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 4d9be28..115657e 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -1208,13 +1208,13 @@ def measure_shift(
     # assemble results
     dt = {
         'stats': stats,
-        'corr': np.squeeze(corr),
-        'value': np.squeeze(value),
+        'corr': corr,
+        'value': value,
         'second_axis': shifts,
         'value_type': np.array(['shift']),
         'method': np.array(['absolute_shift'])}
     if return_sim_mat:
-        dt.update({'sim_mat': np.squeeze(sim_mat)})
+        dt.update({'sim_mat': sim_mat})
     else:
         dt.update({'sim_mat': None})
     return DV(**dt)
diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index f9e91a5..2335d6f 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -329,14 +329,18 @@ def velocity_change_estimate(
         # to one of the two stretch_range limits
         dt[ii, np.isnan(tmp_corr_vect)] = np.nan
 
-    dv = {'corr': np.squeeze(corr),
-          'value': np.squeeze(dt),
+    if len(tw) == 1:
+        # one value for each row of mat, even if there is only one
+        corr, dt, sim_mat = corr[0], dt[0], sim_mat[:, :, 0]
+
+    dv = {'corr': corr,
+          'value': dt,
           'second_axis': strvec,
           'value_type': 'stretch',
           'method': 'single_ref'}
 
     if return_sim_mat:
-        dv.update({'sim_mat': np.squeeze(sim_mat)})
+        dv.update({'sim_mat': sim_mat})
 
     return dv
 
@@ -799,7 +803,8 @@ def estimate_reftr_shifts_from_dt_corr(
         m = np.around(m / delta)  # , out=np.zeros_like(m, dtype='int32'))
         m = np.require(m, dtype='int32')
 
-        row, col = np.squeeze(multi_ref_panel['reftr_0']['sim_mat']).shape
+        row, col = np.atleast_2d(
+            np.squeeze(multi_ref_panel['reftr_0']['sim_mat'])).shape
 
         stmp = np.zeros((row, col, n_ref))
 
@@ -807,9 +812,10 @@ def estimate_reftr_shifts_from_dt_corr(
         for (i, reftr) in enumerate(np.sort(list(multi_ref_panel.keys()))):
 
             stmp[:, :, i] = \
-                np.roll(np.squeeze(multi_ref_panel[reftr]['sim_mat']),
-                        m[i],
-                        axis=1)
+                np.roll(
+                    np.atleast_2d(
+                        np.squeeze(multi_ref_panel[reftr]['sim_mat'])),
+                    m[i], axis=1)
 
         # Create a msked array to evaluate the mean
         stmp_masked = np.ma.masked_array(
@@ -1091,14 +1097,14 @@ def time_shift_estimate(
         sim_mat = dtdict['sim_mat']
 
     # create the result dictionary
-    dt = {'corr': np.squeeze(corr),
-          'value': np.squeeze(shift),
+    dt = {'corr': corr,
+          'value': shift,
           'second_axis': shifts,
           'value_type': np.array(['shift']),
           'method': np.array(['time_shift'])}
 
     if return_sim_mat:
-        dt.update({'sim_mat': np.squeeze(sim_mat)})
+        dt.update({'sim_mat': sim_mat})
 
     return dt
 
-- 
2.43.0


From aa9b8605469002bdefb5fce0c9beea4de8f01b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:37 +0000
Subject: [PATCH 26/67] fix: no velocity change where no reference is similar

---
 src/seismic/monitor/stretch_mod.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 2335d6f..adb1941 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -832,6 +832,8 @@ def estimate_reftr_shifts_from_dt_corr(
         dt = np.argmax(bsimmat, axis=1)
 
         dt = stretch_vect[dt]
+        # no estimate where there is no similarity
+        dt = np.where(np.ma.getmaskarray(corr), np.nan, dt)
 
         # Remove the mask
         bsimmat = bsimmat.filled(np.nan)
-- 
2.43.0


From aac28d03b42403abd82f81463acc8dc928411e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:55 +0000
Subject: [PATCH 27/67] fix: only the first of several time windows with
 multiple references

---
 src/seismic/monitor/stretch_mod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index adb1941..0976990 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -941,7 +941,7 @@ def multi_ref_vchange_and_align(
         print(
             "The multi-reference vchange evaluation cannot handle multiple "
             "time windows. Only the first time-window will be used")
-        tw = tw[0]
+        tw = tw[:1]
 
     multi_ref_panel = multi_ref_vchange(
         corr_data, ref_trs, tw=tw, stretch_range=stretch_range,
-- 
2.43.0


From 30b889aa2ef0c85e0c8523a29eb35b6ae99f2170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 28/67] fix: count zero lag once when measuring shifts on both
 sides

---
 src/seismic/monitor/post_corr_process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 115657e..a4be562 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -1193,7 +1193,8 @@ def measure_shift(
             np.ceil(twi[0]*stats.sampling_rate),
             np.floor(twi[1]*stats.sampling_rate))
         if sides == 'both':
-            indices = np.concatenate((np.flipud(-indices), indices))
+            # zero lag may be part of both windows
+            indices = np.unique(np.concatenate((-indices, indices)))
         indices -= np.round(stats.start_lag * stats.sampling_rate)
         indices = indices.astype(int)
         # compare data and shifted reference
-- 
2.43.0


From 4e8c3932b95af00068f661778c09104ad3451717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 29/67] fix: applying a stretch no longer tapers the input
 array in place

---
 src/seismic/monitor/stretch_mod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 0976990..b580f14 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -1208,7 +1208,7 @@ def time_stretch_apply(
     # taper and extend the reference trace to avoid interpolation
     # artefacts at the ends of the trace
     taper = cosine_taper(mat.shape[1], 0.05)
-    mat *= np.tile(taper, [mat.shape[0], 1])
+    mat = mat * np.tile(taper, [mat.shape[0], 1])
 
     # time axis
     if single_sided:
-- 
2.43.0


From 09a263b6a2bf0ed4ddb513523e80bf1fb07d1f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 30/67] fix: averaged velocity change was taken where no
 similarity is available

---
 src/seismic/monitor/monitor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index f7cdf73..8735ec4 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -993,7 +993,8 @@ def average_components_mem_save(
     av_sim_mat = (sim_mat_sum.T/n_stat).T
     av_sim_mat[np.isinf(av_sim_mat)] = np.nan
     # Now we would have to recompute the dv value and corr value
-    iimax = np.nanargmax(np.nan_to_num(av_sim_mat), axis=1)
+    # Similarities can be negative, so missing ones have to be even lower
+    iimax = np.nanargmax(np.nan_to_num(av_sim_mat, nan=-2), axis=1)
     corr = np.nanmax(av_sim_mat, axis=1)
     dt = strvec[iimax]
     dt[np.isnan(corr)] = np.nan
@@ -1069,7 +1070,8 @@ def average_components(
             n_overlap=correct_shift_overlap)
     av_sim_mat = np.nanmean([dv.sim_mat for dv in dv_use], axis=0)
     # Now we would have to recompute the dv value and corr value
-    iimax = np.nanargmax(np.nan_to_num(av_sim_mat), axis=1)
+    # Similarities can be negative, so missing ones have to be even lower
+    iimax = np.nanargmax(np.nan_to_num(av_sim_mat, nan=-2), axis=1)
     corr = np.nanmax(av_sim_mat, axis=1)
     strvec = dv_use[0].second_axis
     dt = strvec[iimax]
-- 
2.43.0


From 99e5e9e99b2f4491965dd875a4698ec7574e30b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 31/67] fix: memory-saving average counted missing similarities
 as zero

---
 src/seismic/monitor/monitor.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 8735ec4..3636e5d 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -962,6 +962,7 @@ def average_components_mem_save(
     for ii, dv in enumerate(dvs):
         if ii == 0:
             sim_mat_sum = np.zeros_like(dv.sim_mat)
+            n_sim = np.zeros_like(dv.sim_mat)
             n_stat = np.zeros_like(dv.corr)
 
             stats = deepcopy(dv.stats)
@@ -983,15 +984,17 @@ def average_components_mem_save(
                 + 'and stretch steps.\n\nThis dv will be skipped'
             )
             continue
+        if not statsl:
+            stats = deepcopy(dv.stats)
         sim_mat_sum += np.nan_to_num(dv.sim_mat)
-        n_stat[~np.isnan(dv.value)] += 1
+        n_sim += ~np.isnan(dv.sim_mat)
+        n_stat += dv.avail
         if save_scatter:
             corrs.append(dv.corr)
             stretches.append(dv.value)
         statsl.append(dv.stats)
-    # Now inf where it was nan before
-    av_sim_mat = (sim_mat_sum.T/n_stat).T
-    av_sim_mat[np.isinf(av_sim_mat)] = np.nan
+    # nan where all of them are nan
+    av_sim_mat = sim_mat_sum/n_sim
     # Now we would have to recompute the dv value and corr value
     # Similarities can be negative, so missing ones have to be even lower
     iimax = np.nanargmax(np.nan_to_num(av_sim_mat, nan=-2), axis=1)
-- 
2.43.0


From 744e7d8342ffd8f9b7e5669ad5dfda35b449a015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 32/67] fix: component averages mixed stations with a common
 prefix and failed in folders containing av

---
 src/seismic/monitor/monitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 3636e5d..da56419 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -398,7 +398,7 @@ class Monitor(object):
             ch = 'av'
         while len(infiles):
             # Find files belonging to same station
-            pat = '.'.join(infiles[0].split('.')[:-2]) + '*'
+            pat = '.'.join(infiles[0].split('.')[:-2]) + '.*'
             filtfil = fnmatch.filter(infiles, pat)
             fffil = []  # Second filter
             for f in filtfil:
@@ -416,7 +416,7 @@ class Monitor(object):
                     fffil.clear()
                     self.logger.debug('Skipping already averaged dv...%s' % f)
                     break
-                elif 'av' in f:
+                elif f.split('.')[-2].split('-')[0] == 'av':
                     # computed by another averaging method
                     infiles.remove(f)
                     continue
-- 
2.43.0


From 503f29660dab3dcf737c5f1f03ef96b09bd6aabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 33/67] fix: smoothing similarities left wrong changes where
 data is missing

---
 src/seismic/monitor/dv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index 72dd140..df14c80 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -217,8 +217,10 @@ class DV(object):
 
         # Compute the dependencies again
         self.corr = np.nanmax(self.sim_mat, axis=1)
-        self.value = self.second_axis[
-            np.argmax(np.nan_to_num(self.sim_mat), axis=1)]
+        self.avail = ~np.isnan(self.corr)
+        # Similarities can be negative, so missing ones have to be even lower
+        self.value = np.where(self.avail, self.second_axis[
+            np.argmax(np.nan_to_num(self.sim_mat, nan=-2), axis=1)], np.nan)
         return self
 
 
-- 
2.43.0


From 3875c5bec0d3744137842fcb943b9d802cd9ad7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 34/67] fix: stitching velocity changes left out the last
 overlapping point

---
 src/seismic/monitor/monitor.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index da56419..69f8849 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -835,7 +835,7 @@ def correct_dv_shift(
     if np.any(both_avail):
         # Unless one of them become less than 0 or more than length
         start = np.where(both_avail)[0].min() - n_overlap
-        stop = np.where(both_avail)[0].max() + n_overlap
+        stop = np.where(both_avail)[0].max() + n_overlap + 1
         ii = jj = 0
     elif (
         np.array(dv0.stats.starttime)[dv0.avail][0]
@@ -844,7 +844,7 @@ def correct_dv_shift(
         ii = np.where(
             np.array(dv0.stats.starttime) == np.array(
                 dv0.stats.starttime)[dv0.avail][0])[0][0]
-        stop = ii + n_overlap
+        stop = ii + n_overlap + 1
         jj = np.where(
             np.array(dv1.stats.starttime) == np.array(
                 dv1.stats.starttime)[dv1.avail][-1])[0][0]
@@ -854,7 +854,7 @@ def correct_dv_shift(
         ii = np.where(
             np.array(dv1.stats.starttime) == np.array(
                 dv1.stats.starttime)[dv1.avail][0])[0][0]
-        stop = ii + n_overlap
+        stop = ii + n_overlap + 1
         jj = np.where(
             np.array(dv0.stats.starttime) == np.array(
                 dv0.stats.starttime)[dv0.avail][-1])[0][0]
@@ -865,8 +865,8 @@ def correct_dv_shift(
             'n_overlap, i.e., '
             f'{n_overlap*(dv0.stats.starttime[1]-dv0.stats.starttime[0])/3600}'
             'hours. The result would not make sense.')
-    if stop >= len(dv0.value):
-        stop = len(dv0.value) - 1
+    if stop > len(dv0.value):
+        stop = len(dv0.value)
     if start < 0:
         start = 0
     dv0c = dv0.corr[start:stop]
-- 
2.43.0


From 726cec0c988b1dd6fd34b0380ccb80e8d11d78e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 35/67] fix: stitching velocity changes invented values where
 data is missing

---
 src/seismic/monitor/monitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 69f8849..fa68662 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -883,8 +883,8 @@ def correct_dv_shift(
         raise ValueError('Method has to be either mean or median')
     roll = int(round(-shift/(dv0.second_axis[1]-dv0.second_axis[0])))
     dv0.sim_mat = np.roll(dv0.sim_mat, (roll, 0))
-    dv0.value = dv0.second_axis[
-        np.nanargmax(np.nan_to_num(dv0.sim_mat), axis=1)]
+    dv0.value = np.where(dv0.avail, dv0.second_axis[
+        np.nanargmax(np.nan_to_num(dv0.sim_mat, nan=-2), axis=1)], np.nan)
     return dv0, dv1
 
 
-- 
2.43.0


From ceff229667489c41266f2a013891dc9a3cdf1cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 36/67] fix: reloaded measurements: settings, header and single
 times as they were saved

---
 src/seismic/correlate/stream.py |  9 ++-------
 src/seismic/monitor/dv.py       | 10 +++++++---
 src/seismic/monitor/wfc.py      |  3 ++-
 src/seismic/utils/miic_utils.py | 22 +++++++++++++++++++++-
 4 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 28aaf48..f59d690 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -836,13 +836,8 @@ def read_corr_bulk(path: str) -> CorrBulk:
     :rtype: CorrBulk
     """
     loaded = np.load(path)
-    stats = m3ut.load_header_from_np_array(loaded)
-    for key, value in stats.items():
-        # entries with one value per correlation
-        if isinstance(value, np.ndarray):
-            stats[key] = value.tolist()
-        elif isinstance(value, UTCDateTime):
-            stats[key] = [value]
+    stats = m3ut.header_entries_to_list(
+        m3ut.load_header_from_np_array(loaded))
     return CorrBulk(loaded['data'], stats=stats)
 
 
diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index df14c80..11a6af0 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -245,7 +245,8 @@ def read_dv(path: str) -> DV:
                 f'No files that adhere the pattern {path} found.')
         return dvl
     loaded = np.load(path)
-    stats = CorrStats(mu.load_header_from_np_array(loaded))
+    stats = CorrStats(mu.header_entries_to_list(
+        mu.load_header_from_np_array(loaded)))
     # to check that compatibility works
     vt = loaded['vt_array']
     while not isinstance(vt, str):
@@ -259,8 +260,11 @@ def read_dv(path: str) -> DV:
             freq_max=float(loaded['freq_max']),
             tw_start=float(loaded['tw_start']),
             tw_len=float(loaded['tw_len']))
-        dv_processing['sides'] = loaded.get('sides', 'unknown')
-        dv_processing['aligned'] = loaded.get('aligned', False)
+        # arrays without dimension, when read from file
+        dv_processing['sides'] = np.asarray(
+            loaded.get('sides', 'unknown')).item()
+        dv_processing['aligned'] = np.asarray(
+            loaded.get('aligned', False)).item()
     except KeyError:
         dv_processing = {}
     return DV(
diff --git a/src/seismic/monitor/wfc.py b/src/seismic/monitor/wfc.py
index 9447c13..43ac927 100644
--- a/src/seismic/monitor/wfc.py
+++ b/src/seismic/monitor/wfc.py
@@ -163,7 +163,8 @@ def read_wfc(path: str) -> WFC:
         'freq_max': stats['freq_max']
     }
     wfc = WFC(
-        d, stats=CorrStats(mu.load_header_from_np_array(stats)),
+        d, stats=CorrStats(mu.header_entries_to_list(
+            mu.load_header_from_np_array(stats))),
         wfc_processing=wfc_processing)
     wfc.av = av
     wfc.mean = mean
diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index e7f9136..b44c097 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -245,7 +245,8 @@ no_stats = [
     'data', 'tw_len', 'tw_start', 'freq_min', 'freq_max', 'aligned', 'subdir',
     'plot_vel_change', 'start_date', 'end_date', 'win_len', 'date_inc',
     'sides', 'compute_tt', 'rayleigh_wave_velocity', 'stretch_range',
-    'stretch_steps', 'dt_ref', 'preprocessing', 'postprocessing']
+    'stretch_steps', 'dt_ref', 'preprocessing', 'postprocessing',
+    'stretches', 'corrs', 'n_stat']
 
 
 def save_header_to_np_array(stats: Stats) -> dict:
@@ -293,6 +294,25 @@ def load_header_from_np_array(array_dict: dict) -> dict:
     return d
 
 
+def header_entries_to_list(header: dict) -> dict:
+    """
+    Converts the entries of a header that was loaded by
+    :func:`load_header_from_np_array` and that have one value per correlation
+    (e.g., `corr_start`) to lists, even if there is only one correlation.
+
+    :param header: The header. Will be altered in place.
+    :type header: dict
+    :return: The same header
+    :rtype: dict
+    """
+    for key, value in header.items():
+        if isinstance(value, np.ndarray):
+            header[key] = value.tolist()
+        elif isinstance(value, UTCDateTime):
+            header[key] = [value]
+    return header
+
+
 def convert_utc_to_timestamp(
         utcdt: UTCDateTime or List[UTCDateTime]) -> np.ndarray:
     """
-- 
2.43.0


From ecb50af73b8fbd86451b4176c838e0245d386ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:43 +0000
Subject: [PATCH 37/67] fix: aligning measurements to a grid: settings shared
 between measurements, unusable values, points off the grid

---
 src/seismic/monitor/spatial.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index d0314ae..b68967e 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -752,7 +752,7 @@ class DVGrid(object):
             ii = np.argmin(abs(np.array(dv.stats.corr_start)-utc))
             val = dv.value[ii]
             corr = dv.corr[ii]
-            if np.isnan(val) or np.isnan(corr) or corr <= 1e-3 or corr >= 1:
+            if not _is_usable(val, corr):
                 # No value
                 continue
             vals.append(val)
@@ -773,7 +773,7 @@ class DVGrid(object):
         self._add_stations(slat1, slon1)
         vals = np.array(vals)
         corrs = np.array(corrs)
-        if processing is not None:
+        if processing:
             tw = (
                 processing['tw_start'],
                 processing['tw_start'] + processing['tw_len'])
@@ -879,13 +879,15 @@ class DVGrid(object):
         x, y = geo2cart(lat, lon, self.lat0, self.lon0)
         if not isinstance(x, np.ndarray):
             if np.all(abs(self.xf-x) > self.res) \
-                    or np.all(abs(self.yf-y > self.res)):
+                    or np.all(abs(self.yf-y) > self.res):
                 raise ValueError(
                     'The point is outside the coordinate grid'
                 )
             return np.argmin(abs(self.xf-x)**2+abs(self.yf-y)**2)
-        if np.all(np.array([abs(self.xf-xx) for xx in x]) > self.res)\
-                or np.all(np.array([abs(self.yf-yy) for yy in y]) > self.res):
+        if any(
+            np.all(abs(self.xf-xx) > self.res)
+            or np.all(abs(self.yf-yy) > self.res)
+                for xx, yy in zip(x, y)):
             raise ValueError(
                 'The point is outside the coordinate grid'
             )
@@ -1066,7 +1068,8 @@ def align_dv_curves(
             dv.value[ii-steps:ii+steps+1]*dv.corr[
                 ii-steps:ii+steps+1])/np.nansum(dv.corr[ii-steps:ii+steps+1])
     dv.value -= shift-value
-    dv.dv_processing['aligned'] = value
+    # The dictionary might be shared with other measurements
+    dv.dv_processing = {**dv.dv_processing, 'aligned': value}
 
 
 def dv_starts(dv: DV, utc: UTCDateTime, corr_thres: float) -> bool:
@@ -1091,4 +1094,21 @@ def dv_starts(dv: DV, utc: UTCDateTime, corr_thres: float) -> bool:
     ii = np.argmin(abs(np.array(dv.stats.corr_start)-utc))
     if np.isnan(dv.corr[ii]) or dv.corr[ii] < corr_thres:
         return False
-    return True
+    # The forward model does not provide values for others
+    return _is_usable(dv.value[ii], dv.corr[ii])
+
+
+def _is_usable(value: float, corr: float) -> bool:
+    """
+    Can a data point be used on the grid?
+
+    :param value: Velocity change
+    :type value: float
+    :param corr: Correlation value of the velocity change.
+    :type corr: float
+    :return: True if the velocity change is available and has a meaningful
+        variance.
+    :rtype: bool
+    """
+    return not (
+        np.isnan(value) or np.isnan(corr) or corr <= 1e-3 or corr >= 1)
-- 
2.43.0


From 0a7809a67c2b2d442741d60ebcc085b2cf8d78db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 38/67] fix: write each reading period separately

The first window of the next reading period was written (and stacked)
together with the previous one.
---
 src/seismic/correlate/correlate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 8471022..cc7b6f7 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -341,8 +341,8 @@ class Correlator(object):
         inv = self.comm.bcast(inv, root=0)
 
         for st, write_flag in self._generate_data():
-            cst.extend(self._pxcorr_inner(st, inv))
             if write_flag:
+                # st is the first window of a new reading increment
                 self.logger.debug('Writing Correlations to file.')
                 # Here, we can recombine the correlations for the read_len
                 # size (i.e., stack)
@@ -350,6 +350,7 @@ class Correlator(object):
                 if cst.count():
                     self._write(cst)
                     cst.clear()
+            cst.extend(self._pxcorr_inner(st, inv))
 
         # write the remaining data
         if cst.count():
-- 
2.43.0


From 41cb2de019cbf9d12ca7631dcd8791e8a2655e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 39/67] fix: cut the same windows on all processes

Windows started at the first sample of the data on each process. If a
station started recording late or had gaps, the windows did not fit
together, the data were shifted out of their window, and the number of
windows differed (deadlock). A failing station made its process skip the
collective calls. Traces that could not be resampled were correlated.
---
 src/seismic/correlate/correlate.py | 50 ++++++++++++++++--------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index cc7b6f7..46a5676 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -526,7 +526,12 @@ class Correlator(object):
                     'Downsampling failed for '
                     f'{st[0].stats.network}.{st[0].stats.station} and time'
                     f' {t}.\nThe Original Error Message was {e}.')
-                continue
+                # The other processes might have data
+                st = Stream()
+            # Traces that could not be resampled cannot be correlated
+            for tr in st:
+                if not np.isclose(tr.stats.sampling_rate, sampling_rate):
+                    st.remove(tr)
             # The actual data in the mseeds was changed from int to float64
             # now,
             # Save some space by changing it back to 32 bit (most of the
@@ -544,11 +549,12 @@ class Correlator(object):
                         'Stream preprocessing failed for '
                         f'{st[0].stats.network}.{st[0].stats.station} and time'
                         f' {t}.\nThe Original Error Message was {e}.')
-                    continue
+                    st = Stream()
 
             # Slice the stream in correlation length
             # -> Loop over correlation increments
-            for ii, win in enumerate(generate_corr_inc(st, **self.options)):
+            for ii, win in enumerate(generate_corr_inc(
+                    st, startt=startt, **self.options)):
                 winstart = startt + ii*self.options['subdivision']['corr_inc']
                 winend = winstart + self.options['subdivision']['corr_len']
 
@@ -1395,7 +1401,7 @@ def preprocess_stream(
 
 def generate_corr_inc(
     st: Stream, subdivision: dict, read_len: int,
-        **kwargs) -> Iterator[Stream]:
+        startt: UTCDateTime = None, **kwargs) -> Iterator[Stream]:
     """
     Subdivides the preprocessed streams into parts of equal length using
     the parameters ``cor_inc`` and ``cor_len`` in ``subdivision``.
@@ -1408,30 +1414,28 @@ def generate_corr_inc(
     :type subdivision: dict
     :param read_len: Length to be read from disk in seconds
     :type read_len: int
+    :param startt: Time, at which the first window starts. Defaults to the
+        earliest starttime in the stream.
+    :type startt: UTCDateTime, optional
     :yield: Equal length windows, padded with nans / masked if data is missing.
     :rtype: Generator[Stream]
     """
 
-    try:
-        # Second loop to return the time window in correlation length
-        for ii, win0 in enumerate(st.slide(
-            subdivision['corr_len']-st[0].stats.delta, subdivision['corr_inc'],
-                include_partial_windows=True)):
+    if startt is None and st.count():
+        startt = min(tr.stats.starttime for tr in st)
 
+    # All processes have to go through an equally long loop, no matter which
+    # data they hold. Else, this will cause a deadlock
+    for ii in range(int(np.ceil(read_len/subdivision['corr_inc']))):
+        win = Stream()
+        if st.count():
             # We use trim so the windows have the right time and
             # are filled with masked arrays for places without values
-            starttrim = st[0].stats.starttime + ii*subdivision['corr_inc']
-            endtrim = st[0].stats.starttime + ii*subdivision['corr_inc'] +\
-                subdivision['corr_len']-st[0].stats.delta
-            win = win0.trim(starttrim, endtrim, pad=True)
+            starttrim = startt + ii*subdivision['corr_inc']
+            endtrim = starttrim + subdivision['corr_len']-st[0].stats.delta
+            win = st.slice(starttrim, endtrim)
+            # several snippets of the same trace
+            win.merge()
+            win.trim(starttrim, endtrim, pad=True)
             mu.get_valid_traces(win)
-            yield win
-
-    except IndexError:
-        # processes with no data end up here
-        win = Stream()
-        # A little dirty, but it has to go through an equally long loop
-        # else this will cause a deadlock
-        for _ in range(int(np.ceil(
-                read_len/subdivision['corr_inc']))):
-            yield win
+        yield win
-- 
2.43.0


From 6d3a4bfa676c475dff4c65b763f98884e753a6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 40/67] fix: velocity change with the whole coda and without
 travel time

---
 src/seismic/monitor/monitor.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index fa68662..d0ef797 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -197,6 +197,7 @@ class Monitor(object):
 
         tw_start = self.options['dv']['tw_start']
 
+        d = None
         if self.options['dv']['compute_tt']:
             if not hasattr(cst[0].stats, 'dist'):
                 warnings.warn(
@@ -214,9 +215,9 @@ class Monitor(object):
                 self.logger.info(
                     f'Computed travel time for {network}.{station} is '
                     f'{tt} s. The assumed direct-line distance was {d} km.')
-        if lts < tw_start + self.options['dv']['tw_len']:
-            reqtw = tw_start + self.options[
-                'dv']['tw_len']
+        # tw_len can be None to use the whole rest of the coda
+        reqtw = tw_start + (self.options['dv']['tw_len'] or 0)
+        if lts < reqtw:
             raise ValueError(
                 'Requested lapse time window (time window start + time window'
                 f' length = {reqtw} contains segments after the Correlation'
@@ -257,7 +258,8 @@ class Monitor(object):
         if self.options['dv']['tw_len'] is None:
             trim0 = cb.stats.start_lag
             trim1 = cb.stats.end_lag
-            cbt = cb
+            # cb will be corrected in place
+            cbt = cb.copy()
         else:
             trim0 = -(
                 tw_start+self.options['dv']['tw_len'])
-- 
2.43.0


From 3a7a50be00465ad0d9a3d1a926d4c4d5171f9e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 41/67] fix: one failing correlation does not abort the
 waveform coherence

---
 src/seismic/monitor/monitor.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index d0ef797..3990d74 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -513,12 +513,12 @@ class Monitor(object):
         wfcl = []
         for ii in tqdm(ind):
             corr_file, net, stat, cha = plist[ii]
-            for wfc in self.compute_waveform_coherence(
-                    corr_file, tag, net, stat, cha):
-                try:
+            try:
+                for wfc in self.compute_waveform_coherence(
+                        corr_file, tag, net, stat, cha):
                     wfcl.append(wfc)
-                except Exception as e:
-                    self.logger.exception(e)
+            except Exception as e:
+                self.logger.exception(f'{e} for file {corr_file}.')
 
         outdir = os.path.join(
             self.options['proj_dir'], self.options['wfc']['subdir'])
-- 
2.43.0


From 23b582d8be29d26c4a74d5af48062494c920abc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:10 +0000
Subject: [PATCH 42/67] fix: detrend accepts the documented method together
 with scipy

---
 src/seismic/correlate/preprocessing_td.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index 0dfb556..d01ee47 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -91,6 +91,8 @@ def detrend_scipy(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
     """
     if np.all(np.isnan(A)):
         return A
+    # the choice of the method is no argument of the scipy function
+    args = {k: v for k, v in args.items() if k != 'method'}
     for ii in range(A.shape[0]):
         try:
             A[ii, ~np.isnan(A[ii])] = sp_detrend(
-- 
2.43.0


From 0629bf43db12d5030e547aa12be3068941f4deea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:10 +0000
Subject: [PATCH 43/67] fix: mute the whole extended gap and nothing else for
 every taper length

---
 src/seismic/correlate/preprocessing_td.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index d01ee47..b8f4efc 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -230,11 +230,13 @@ def mute(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
     mask[D > np.tile(thres, (D.shape[1], 1)).T] = 0
     # extend the muted segments to make sure the whole segment is zero after
     if args['extend_gaps']:
-        tap = np.ones(ntap)/ntap
+        # odd length to reach equally far to both sides
+        tap = np.ones(ntap + 1 - ntap % 2)
         for ind in range(A.shape[0]):
             mask[ind, :] = np.convolve(mask[ind, :], tap, mode='same')
         nmask = np.ones_like(D)
-        nmask[mask < 1.] = 0
+        # the sums are whole numbers
+        nmask[mask < len(tap) - .5] = 0
     else:
         nmask = mask
 
-- 
2.43.0


From 7da83e3ad9b6968a370d7932801053dfdea70469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:15 +0000
Subject: [PATCH 44/67] fix: normalise records without energy to zeros instead
 of NaN

---
 src/seismic/correlate/preprocessing_td.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index b8f4efc..3886944 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -396,6 +396,8 @@ def TDnormalization(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
             B[ind, :] = np.convolve(B[ind, ::-1], window, mode='same')[::-1]
             # damping factor
             B[ind, :] += np.max(B[ind, :])*1e-6
+    # avoid creating nans for traces without energy
+    B[B == 0] = 1
     # normalization
     A /= np.sqrt(B)
     return A
-- 
2.43.0


From 6ca8284ada07d7d8315a942bcc61f8dd6a7af6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:15 +0000
Subject: [PATCH 45/67] fix: filter record by record so that zerophase filters
 run along time

---
 src/seismic/correlate/preprocessing_td.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index 3886944..e4e10d2 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -433,8 +433,12 @@ def TDfilter(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
     func = func_from_str('obspy.signal.filter.%s' % args['type'])
     args = deepcopy(args)
     args.pop('type')
-    A = func(A, df=params['sampling_rate'], **args)
-    return A
+    if A.ndim == 1:
+        return func(A, df=params['sampling_rate'], **args)
+    # trace by trace as zerophase filters reverse the first axis
+    return np.array([
+        func(tr, df=params['sampling_rate'], **args) for tr in A]
+    ).reshape(A.shape)
 
 
 def zeroPadding(A: np.ndarray, args: dict, params: dict, axis=1) -> np.ndarray:
-- 
2.43.0


From 0673a01bc94d7537efa4ce21e7869d2c37fb71a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:15 +0000
Subject: [PATCH 46/67] fix: sign bit normalisation in frequency domain of odd
 numbers of samples

---
 src/seismic/correlate/preprocessing_fd.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/preprocessing_fd.py b/src/seismic/correlate/preprocessing_fd.py
index f2f59d8..c15a19f 100644
--- a/src/seismic/correlate/preprocessing_fd.py
+++ b/src/seismic/correlate/preprocessing_fd.py
@@ -71,7 +71,13 @@ def FDsignBitNormalization(
     :rtype: numpy.ndarray
     :return: frequency transform of the 1-bit normalized data
     """
-    B = np.fft.irfft(B)
+    # number of samples in time domain
+    n = 2*(B.shape[-1]-1)
+    if len(params.get('freqs', [])) > 1:
+        freqs = params['freqs']
+        # The highest frequency of an odd number is lower than Nyquist
+        n = int(round(params['sampling_rate']/freqs[1]))
+    B = np.fft.irfft(B, n)
     # np.sign only takes the real part into account
     C = np.sign(B)
     return np.fft.rfft(C)
-- 
2.43.0


From ebc10f4c7e2deed08b73206c39ad2685dba40156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:15 +0000
Subject: [PATCH 47/67] fix: a spectral value without amplitude does not
 prevent whitening of the others

---
 src/seismic/correlate/preprocessing_fd.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_fd.py b/src/seismic/correlate/preprocessing_fd.py
index c15a19f..7de08d2 100644
--- a/src/seismic/correlate/preprocessing_fd.py
+++ b/src/seismic/correlate/preprocessing_fd.py
@@ -112,14 +112,13 @@ def spectralWhitening(B: np.ndarray, args: dict, params) -> np.ndarray:
             for ii in np.arange(0, B.shape[0], 3):
                 absB[ii:ii+3, :] = np.tile(
                     np.atleast_2d(np.mean(absB[ii:ii+3, :], axis=0)), [3, 1])
+    # Spectral values without amplitude cannot be normalised, they remain zero
+    absB[absB == 0] = 1
     with np.errstate(invalid='raise'):
         try:
             B = np.true_divide(B, absB)
         except FloatingPointError as e:
-            errargs = np.argwhere(absB == 0)
-            # Report error where there is zero divides for a non-zero freq
-            if not np.all(errargs[:, 0] == 0):
-                logging.debug(f'{e} {errargs}')
+            logging.debug(f'{e} {np.argwhere(~np.isfinite(absB))}')
     # Set zero frequency component to zero
     B[:, 0] = 0.j
 
-- 
2.43.0


From c1b0fbff3a62eeb21e58abaee1bc5748f0273e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:39 +0000
Subject: [PATCH 48/67] fix: tapering integer data does not round the taper to
 integers

---
 src/seismic/correlate/preprocessing_stream.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index 6ff6051..64e46c3 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -85,6 +85,9 @@ def cos_taper(
         lossless = False
     if taper_len <= 0:
         raise ValueError('Taper length must be larger than 0 s')
+    if not np.issubdtype(tr.data.dtype, np.floating):
+        # the taper would be rounded to integers
+        tr.data = tr.data.astype(np.float64)
     if taper_at_masked:
         if lossless:
             warn(
-- 
2.43.0


From cab83176a5f496eece5837dbce0082d6b315bd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:39 +0000
Subject: [PATCH 49/67] fix: trim is undone when tapering or detrending traces
 with masked ends

---
 src/seismic/correlate/preprocessing_stream.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index 64e46c3..06e0050 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -96,6 +96,8 @@ def cos_taper(
         st = cos_taper_st(st, taper_len, False, False)
         st = st.merge()
         if st.count():
+            # samples that are masked at the ends got lost in the split
+            st.trim(tr.stats.starttime, tr.stats.endtime, pad=True)
             tr.data = st[0].data
             return tr
         else:
@@ -131,8 +133,14 @@ def detrend_st(st: Stream, *args, **kwargs) -> Stream:
     """
     for tr in st:
         sst = tr.split()
+        if not sst.count():
+            # no data
+            continue
         sst.detrend(*args, **kwargs)
-        tr.data = sst.merge()[0].data
+        sst.merge()
+        # samples that are masked at the ends got lost in the split
+        sst.trim(tr.stats.starttime, tr.stats.endtime, pad=True)
+        tr.data = sst[0].data
     return st
 
 
-- 
2.43.0


From e694e3ef13b0f89740a847a70e1915b1d46f8904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:39 +0000
Subject: [PATCH 50/67] fix: masking interval that covers the whole trace masks
 all samples

---
 src/seismic/correlate/preprocessing_stream.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index 06e0050..b30bfe9 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -310,6 +310,10 @@ def trace_mask_at_utc(
         ne = int(np.ceil(tr.stats.sampling_rate*t))+1
         mask[:ne] = True
 
+    # mask that covers the whole trace
+    if np.any((starts <= start) * (ends >= end)):
+        mask[:] = True
+
     if reverse:
         mask = ~mask
     # Mask the array
-- 
2.43.0


From 6d4ed8a0c255332f1cefa006e3a1e15196dc5222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:39 +0000
Subject: [PATCH 51/67] fix: gaps between traces are interpolated by
 gap_handler

---
 src/seismic/utils/miic_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index b44c097..6e5a87a 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -493,6 +493,8 @@ def gap_handler(
     """
     # take care of overlaps
     st = st.merge(method=-1)
+    # gaps between traces become masked samples
+    st = st.merge()
     # 1. try to interpolate gaps
     st = interpolate_gaps_st(st, max_gap_len=max_interpolation_length)
 
-- 
2.43.0


From 3e51e778a957b51a0982ec545cd706807f0c6ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:39 +0000
Subject: [PATCH 52/67] fix: interpolate_gaps leaves data without any sample
 unchanged

---
 src/seismic/utils/miic_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index 6e5a87a..9963364 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -522,6 +522,9 @@ def interpolate_gaps(A: np.ndarray, max_gap_len: int = -1) -> np.ndarray:
     if not np.ma.is_masked(A):
         return A
     mask = np.ma.getmask(A)
+    if mask.all():
+        # nothing to interpolate from
+        return A
 
     maskconc = np.concatenate((
         [mask[0]], mask[:-1] != mask[1:], [True]))
-- 
2.43.0


From de09dba9f242a29fc80fdc2d5e1a2c802db3494d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:26 +0000
Subject: [PATCH 53/67] fix: folders that are not years do not break the list
 of available stations

---
 src/seismic/trace_data/waveform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index c9d49f9..506c83c 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -158,7 +158,8 @@ class Store_Client(object):
             os.path.join(self.sds_root, '????', network, '*'))
         statlist = []
         for path in oslist:
-            if not isinstance(eval(path.split(os.path.sep)[-3]), int):
+            if not path.split(os.path.sep)[-3].isdigit():
+                # not the folder of a year
                 continue
             # Add all network and station combinations to list
             code = path.split(os.path.sep)[-2:]
-- 
2.43.0


From 8705d84c1e17c783197f88eee6eb4dca1e39cd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:27 +0000
Subject: [PATCH 54/67] fix: station without any file has no available times

---
 src/seismic/trace_data/waveform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 506c83c..cbaa7cb 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -225,7 +225,7 @@ class Store_Client(object):
             endtime = get_day_in_folder(
                 self.sds_root, dirlist, network, station, '*', 'end')
         except FileNotFoundError as e:
-            warnings.warn(e, UserWarning)
+            warnings.warn(str(e), UserWarning)
             return (None, None)
         return (starttime, endtime)
 
@@ -812,7 +812,7 @@ def get_day_in_folder(
     else:
         raise NotImplementedError('Type has to be either start or end.')
     julday = None
-    while not julday:
+    while not julday and -len(dirlist) <= i0 < len(dirlist):
         # if the folder is empty julday will stay False
         year = dirlist[i0]
         julday = [i.split('.')[-1] for i in glob.glob(
-- 
2.43.0


From 9a3b26926d22f6aca0b81959040d2cd5ccd3e7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:27 +0000
Subject: [PATCH 55/67] fix: records with gaps in a day can be archived

---
 src/seismic/trace_data/waveform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index cbaa7cb..a685c1c 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -371,7 +371,8 @@ class Store_Client(object):
         if os.path.exists(filename):
             rst = read(filename)
             rst.append(tr)
-            rst.merge()
+            # samples that are missing in between cannot be written
+            rst = rst.merge().split()
         else:
             if not os.path.exists(os.path.dirname(filename)):
                 os.makedirs(os.path.dirname(filename))
-- 
2.43.0


From 15c6947bf4ec3c25405bc6db5fd6bdfa093d9982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:27 +0000
Subject: [PATCH 56/67] fix: stored responses are kept, and read-only stores
 are not extended

---
 src/seismic/trace_data/waveform.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index a685c1c..2de8a5b 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -389,6 +389,11 @@ class Store_Client(object):
             self.inventory = ninv
         fname = os.path.join(
             self.inv_dir, f'{ninv[0].code}.{ninv[0][0].code}.xml')
+        if self.read_only:
+            return
+        if os.path.isfile(fname):
+            # keep what the file holds about other channels or times
+            ninv = read_inventory(fname) + ninv
         ninv.write(fname, format="STATIONXML", validate=True)
 
     def _generate_time_windows(
-- 
2.43.0


From 3e6f5fafb34291dd166d268b1ab30ea5608325a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:27 +0000
Subject: [PATCH 57/67] fix: replacements in file structure descriptors

---
 src/seismic/trace_data/waveform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 2de8a5b..91e2ede 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -757,7 +757,8 @@ def _fs_translate(part: str, ID: str, starttime: datetime.datetime) -> str:
     """
     IDlist = ID.split('.')
     if ('(' in part) and (')' in part):
-        trans = re.search('(.*?)', part).group(0)
+        trans = re.search(r'\([^()]*,[^()]*\)', part)
+        trans = trans and trans.group(0)
     else:
         trans = None
     # in case there is something to translate remove from the filepart
-- 
2.43.0


From 7100df1e55f96c6ee9ce6851b6a54464432271b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:27 +0000
Subject: [PATCH 58/67] fix: neighbouring files in yearly, monthly or timeless
 file structures

---
 src/seismic/trace_data/waveform.py | 42 ++++++++++--------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 91e2ede..c3ef78d 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -11,6 +11,7 @@ Created: Thursday, 18th February 2021 02:30:02 pm
 Last Modified: Monday, 4th March 2024 11:44:40 am
 '''
 
+import calendar
 import fnmatch
 import os
 import datetime
@@ -683,6 +684,7 @@ def _adjacent_filepattern(
     """
     assert ((inc == 1) or (inc == -1)), " inc must either be 1 or -1"
     fname = ''
+    thistime = starttime
     flag = 0
     # find earlier time by turning back the time by one increment of the
     # last time indicator in the fs
@@ -703,39 +705,23 @@ def _adjacent_filepattern(
                 elif tpart in ['%U', '%W']:
                     thistime = starttime + inc * datetime.timedelta(days=7)
                 elif tpart in ['%b', '%B', '%m']:
-                    if starttime.month + inc == 0:
-                        thistime = datetime.datetime(starttime.year-1,
-                                                     12,
-                                                     starttime.day,
-                                                     starttime.hour,
-                                                     starttime.minute,
-                                                     starttime.second,
-                                                     starttime.microsecond)
-                    elif starttime.month + inc == 13:
-                        thistime = datetime.datetime(starttime.year+1,
-                                                     1,
-                                                     starttime.day,
-                                                     starttime.hour,
-                                                     starttime.minute,
-                                                     starttime.second,
-                                                     starttime.microsecond)
-                    else:
-                        thistime = datetime.datetime(starttime.year,
-                                                     starttime.month + inc,
-                                                     starttime.day,
-                                                     starttime.hour,
-                                                     starttime.minute,
-                                                     starttime.second,
-                                                     starttime.microsecond)
+                    thistime = _shift_months(starttime, inc)
                 elif tpart in ['%y', '%Y']:
-                    thistime = datetime.datetime(
-                        starttime.year - inc, starttime.month, starttime.day,
-                        starttime.hour, starttime.minute, starttime.second,
-                        starttime.microsecond)
+                    thistime = _shift_months(starttime, 12*inc)
     fname = _current_filepattern(ID, thistime, fs)
     return fname, thistime
 
 
+def _shift_months(
+        time: datetime.datetime, inc: int) -> datetime.datetime:
+    """Return the time `inc` months later, on the last day of that month if
+    the month is too short.
+    """
+    year, month = divmod(time.year*12 + time.month - 1 + inc, 12)
+    day = min(time.day, calendar.monthrange(year, month + 1)[1])
+    return time.replace(year=year, month=month + 1, day=day)
+
+
 def _current_filepattern(
         ID: str, starttime: datetime.datetime, fs: str) -> str:
     """Return the file name that contains the data sequence that contains
-- 
2.43.0


From 9b7b53da6771a47afbcc087350905dd81dc2d80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:37 +0000
Subject: [PATCH 59/67] fix: the list of stations in the caller's options is
 not changed

---
 src/seismic/correlate/correlate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 46a5676..a12be76 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -173,8 +173,7 @@ class Correlator(object):
                     + 'station code.')
             station = list([n, s] for n, s in zip(network, station))
         elif isinstance(station, list) and isinstance(network, str):
-            for ii, stat in enumerate(station):
-                station[ii] = [network, stat]
+            station = [[network, stat] for stat in station]
         else:
             raise ValueError(
                 'Stations has to be either: \n'
-- 
2.43.0


From 1b35130e27993fdd3d56d39b37cc6c70d99d303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:37 +0000
Subject: [PATCH 60/67] fix: existing times of a channel in several files are
 all found

---
 src/seismic/correlate/correlate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index a12be76..bccfd42 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -305,8 +305,10 @@ class Correlator(object):
                 with CorrelationDataBase(
                     outf, corr_options=self.options, mode='r',
                         _force=self._allow_different_params) as cdb:
-                    d.update(
-                        cdb.get_available_starttimes(nc, sc, tag, channel))
+                    times = cdb.get_available_starttimes(nc, sc, tag, channel)
+                # the times of one channel can be in several files
+                for ch, starts in times.items():
+                    d[ch] = d.get(ch, []) + starts
             s0, s1 = sc.split('-')
             n0, n1 = nc.split('-')
             ex_dict.setdefault('%s.%s' % (n0, s0), {})
-- 
2.43.0


From b33adba1cc48f303ad8a111bc808b71af0e56ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:37 +0000
Subject: [PATCH 61/67] fix: existing times are found for requested
 combinations in any order, with wildcards or channels

---
 src/seismic/correlate/correlate.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index bccfd42..2be607c 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -1277,10 +1277,13 @@ def compute_network_station_combinations(
                 if n != n2 or s != s2:
                     nc, sc, _ = sort_comb_name_alphabetically(n, s, n2, s2)
                     # Check requested combinations
-                    if (
-                        combis is not None
-                        and f'{nc[0]}-{nc[1]}.{sc[0]}-{sc[1]}' not in combis
-                    ):
+                    if combis is not None and not any(
+                        fnmatch.filter(
+                            (f'{nc[0]}-{nc[1]}.{sc[0]}-{sc[1]}',
+                             f'{nc[1]}-{nc[0]}.{sc[1]}-{sc[0]}'),
+                            # channels do not matter here
+                            '.'.join(combi.split('.')[:2]))
+                            for combi in combis):
                         continue
                     netcombs.append('%s-%s' % (nc[0], nc[1]))
                     statcombs.append('%s-%s' % (sc[0], sc[1]))
-- 
2.43.0


From 96d5fc9242baf156a113043a9c8c16a17ce53998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:37 +0000
Subject: [PATCH 62/67] fix: measure pairs whose codes match any of the listed
 networks and stations

---
 src/seismic/monitor/monitor.py | 36 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 3990d74..668df4b 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -769,35 +769,14 @@ def corr_find_filter(
     statlist = []
     infiles = []
     for f in glob(os.path.join(indir, '*-*.*-*.h5')):
-        matched = False
         f = os.path.basename(f)
         split = f.split('.')
 
         # Find the files that should actually be processed
-        nsplit = split[0].split('-')
-        ssplit = split[1].split('-')
-        if isinstance(net['network'], str) and not fnmatch.filter(
-                nsplit, net['network']) == nsplit:
+        if not all(
+            _match_any(code, net[key]) for key, codes in zip(
+                ('network', 'station'), split) for code in codes.split('-')):
             continue
-        elif isinstance(net['network'], list):
-            # account for the case of wildcards in the network list
-            for n in net['network']:
-                if fnmatch.filter(nsplit, n) == nsplit:
-                    matched = True
-                    break
-            if not matched:
-                continue
-        if isinstance(net['station'], str) and not fnmatch.filter(
-                ssplit, net['station']) == ssplit:
-            continue
-        elif isinstance(net['station'], list):
-            # account for the case of wildcards in the station list
-            for s in net['station']:
-                if fnmatch.filter(ssplit, s) == ssplit:
-                    matched = True
-                    break
-            if not matched:
-                continue
 
         netlist.append(split[0])
         statlist.append(split[1])
@@ -805,6 +784,15 @@ def corr_find_filter(
     return netlist, statlist, infiles
 
 
+def _match_any(code: str, patterns: str | List[str]) -> bool:
+    """
+    Does the code match the pattern or one of the patterns?
+    """
+    if isinstance(patterns, str):
+        patterns = [patterns]
+    return any(fnmatch.fnmatch(code, p) for p in patterns)
+
+
 def correct_dv_shift(
     dv0: DV, dv1: DV, method: str = 'mean',
         n_overlap: int = 0) -> Tuple[DV, DV]:
-- 
2.43.0


From cdb0b5d9f598784f20503c5432348224da731dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:38 +0000
Subject: [PATCH 63/67] fix: no component means all components

---
 src/seismic/trace_data/waveform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index c3ef78d..a6a01eb 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -242,10 +242,14 @@ class Store_Client(object):
         :param station: station string, may contain wildcards
         :type station: str
         :param componnt: component, i.e. Z, N, E or ? as wildcard
+            (None for all components)
         type componnt str
         :return: _description_
         :rtype: _type_
         """
+        if component in (None, 'None'):
+            # yaml reads None as a string
+            component = '?'
         dirlist = glob.glob(
             os.path.join(
                 self.sds_root, '*', network, station, '??'+component+'.?'))
-- 
2.43.0


From 951001fdfdbe19762b9690086fda8d6d749c2534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:59 +0000
Subject: [PATCH 64/67] fix: spectrogram when the first process has no data

---
 src/seismic/utils/raw_analysis.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/seismic/utils/raw_analysis.py b/src/seismic/utils/raw_analysis.py
index 54961cc..8a10122 100644
--- a/src/seismic/utils/raw_analysis.py
+++ b/src/seismic/utils/raw_analysis.py
@@ -53,6 +53,8 @@ def spct_series_welch(
     specl = []
     # List of actually available times
     t = []
+    # Frequency vector, only defined if this process computes a spectrum
+    f2 = None
     for ii, st in enumerate(streams):
         # Find out which stream to process
         if ii % psize != rank:
@@ -89,6 +91,7 @@ def spct_series_welch(
     # Gather all the data
     specl = comm.gather(specl, root=0)
     t = comm.gather(t, root=0)
+    f2 = comm.gather(f2, root=0)
     if rank == 0:
         # Flatten the list
         specl = [item for sublist in specl for item in sublist]
@@ -100,11 +103,12 @@ def spct_series_welch(
         # Convert to numpy array
         S = np.array(specl)
         t = np.array(t)
-        try:
-            return f2, t, S.T
-        except UnboundLocalError:
+        # Any process may have been the only one with data
+        f2 = [f for f in f2 if f is not None]
+        if not f2:
             raise ValueError(
                 'A spectrum could not be computed. Check earlier log messages')
+        return f2[-1], t, S.T
     else:
         return None, None, None
 
-- 
2.43.0


From d3c537e42c349383a6c63afb1298a08920247b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:44 +0000
Subject: [PATCH 65/67] fix: scipy detrend with one record without data

---
 src/seismic/correlate/preprocessing_td.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index e4e10d2..66d0ec5 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -94,13 +94,11 @@ def detrend_scipy(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
     # the choice of the method is no argument of the scipy function
     args = {k: v for k, v in args.items() if k != 'method'}
     for ii in range(A.shape[0]):
-        try:
-            A[ii, ~np.isnan(A[ii])] = sp_detrend(
-                A[ii, ~np.isnan(A[ii])], axis=-1, overwrite_data=True,
-                **args)
-        except ZeroDivisionError:
+        if np.all(np.isnan(A[ii])):
             # When the line is nothing but nans
-            pass
+            continue
+        A[ii, ~np.isnan(A[ii])] = sp_detrend(
+            A[ii, ~np.isnan(A[ii])], axis=-1, overwrite_data=True, **args)
     return A
 
 
-- 
2.43.0


From 40e14269f22a24c98912c30aaa6a3f1255f7d627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:01 +0000
Subject: [PATCH 66/67] fix: write records that consist of a single sample

---
 src/seismic/trace_data/waveform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index a6a01eb..e610f89 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -356,7 +356,9 @@ class Store_Client(object):
         # write the data
         for tr in st:
             starttime = tr.stats.starttime
-            while starttime < tr.stats.endtime:
+            # a single sample starts when it ends
+            while starttime < tr.stats.endtime \
+                    or starttime == tr.stats.starttime:
                 endtime = UTCDateTime(
                     starttime.year, starttime.month, starttime.day) + 86400*1.5
                 endtime = UTCDateTime(endtime.year, endtime.month, endtime.day)
-- 
2.43.0


From cb88f96f05d8cf270d72c1680252dcfbcc6ae567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:45 +0000
Subject: [PATCH 67/67] fix: read velocity changes that were saved without
 similarity matrix

---
 src/seismic/monitor/dv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index 11a6af0..b30e9ad 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -268,7 +268,7 @@ def read_dv(path: str) -> DV:
     except KeyError:
         dv_processing = {}
     return DV(
-        loaded['corr'], loaded['value'], vt, loaded['sim_mat'],
+        loaded['corr'], loaded['value'], vt, loaded.get('sim_mat', None),
         loaded['second_axis'], method, stats=stats,
         stretches=loaded.get('stretches', None),
         corrs=loaded.get('corrs', None), n_stat=loaded.get('n_stat', None),
-- 
2.43.0

