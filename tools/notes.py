"""What each check covers: writes props/meta.json and the section
"Properties" of DESIGN.md (with the harness list read from props/)."""
import ast
import glob
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = {}


def note(i, oracle, bounds, outside, **k):
    N[i] = dict(oracle=oracle, bounds=bounds, outside=outside,
                note='bounded: ' + bounds, **k)


note('C01', 'the formulas end_lag = start_lag + (npts-1)/sampling_rate, '
     'delta = 1/sampling_rate, id and components restated in the harness',
     '3 assignments in sequence, any of the fields, any values; headers of '
     'two records; traces of 1-3 samples',
     'types other than those documented for a field')
note('C02', 'the correlation of (a, b) equals the one of (b, a) reversed in '
     'lag, with the same header; header fields joined in stated order',
     'codes of 0-2 letters over a two letter alphabet for network, station, '
     'location and channel; symbolic coordinates and times',
     'geodesic formulas (distances and azimuths are uninterpreted functions '
     'of the coordinates)')
note('C03', 'sum over sample pairs x[i] y[i+lag] written out; padding, '
     'masked samples and normalisation restated',
     '1-3 pairs, 2-7 samples, saved lags up to 8 samples, 1-2 processes; '
     'for the longer records one of the two is a unit impulse at every '
     'position (the kernel is bilinear)',
     'rounding of the FFT (exact algebra over roots of unity instead)')
note('C04', 'set of pairs defined by the documented text of each method',
     'up to 3 records with symbolic codes of 1-2 letters, one stored window '
     'per pair, 1-2 requested pairs; 3 stations with symbolic distance',
     'more records than that; geodesic formula')
note('C05', 'membership of time windows by the documented inequality and '
     '(weighted) means written out',
     '1-3 correlations, up to 3 windows, 2 samples; symbolic times; codes '
     'symbolic', 'more correlations; calendars other than clock hours')
note('C06', 'a list of (key, trace) kept by the harness',
     '2 records (3 thorough) with symbolic codes and times (multiples of '
     '0.25 s), several sessions; the HDF5 file is a model (groups, '
     'datasets, attributes, modes)',
     'the HDF5 library, file locking, crash in the middle of a write; '
     'times finer than the 0.1 ms of the stored text')
note('C07', 'row i of the matrix is the i-th trace in time, NaN beyond its '
     'end; selection by the documented inequality',
     '1-3 rows of 1-4 samples, symbolic times, lag axes and locations',
     'more rows; the .npz container is a model')
note('C08', 'the sample at lag t before is the sample at lag t after; '
     'mirroring: mean (or the one that exists) of +t and -t',
     '0-2 rows of 4-6 samples (9 thorough), symbolic lag axis (grid of '
     '1/4 sample) and limits',
     'lag axes off the sampling grid when mirroring (zero lag between '
     'samples)')
note('C09', 'definitions written out (energy, maxima, windowed means with '
     'point reflection, cosine tapers evaluated per sample)',
     '1-2 rows, 2-9 samples, all windows, widths and options of the docs',
     'clip with more than 3 symbolic samples (degree of the standard '
     'deviation)')
note('C10', 'mean over the set {start in bin}; sample times of the new '
     'axis; low pass = the real filter as a linear operator',
     '1-3 rows and 1-2 bins with symbolic times; 7-10 lag samples, '
     'integer and fractional ratios',
     'quality of the anti alias filter')
note('C11', 'means, medians and percentiles written out over the rows that '
     'are there; overlap with the extended window as an inequality',
     '1-3 rows of 1-2 samples; symbolic times of windows',
     'similarity percentile for general shapes (impulses only)')
note('C12', 'normalised product of record and stretched reference per '
     'window; stretching by linear/spline weights at the documented lags',
     '1-2 rows, 3-7 samples, 2 candidates, all sides and windows',
     'more candidates; the choice of the maximum for near ties')
note('C13', 'as C12, on the part of the lag axis asked for; one value, '
     'similarity and row per time window',
     '1-2 rows of 5-9 samples, zero lag at, between or outside samples',
     'header entry corr_start of measure_shift with a given reference is '
     'an array instead of a list (not repaired)')
note('C14', 'interpolation at the shifted/stretched lags per row; undo: '
     'correcting the modified reference gives the reference',
     '1-2 rows of 2-9 samples', 'bandlimited interpolation error')
note('C15', 'means over what is usable, counted by hand; groups by the '
     'documented rule of each method',
     '1-3 measurements, 1-2 times, 1-2 candidates; 4 stored files in '
     'every combination of codes',
     'more members; the file formats')
note('C16', 'moving mean of the finite values; offset that makes both '
     'agree in the overlap',
     '2-4 times, 1-5 candidates, windows 1-5; 2-3 measurements',
     'known finding: rolling of the flattened similarity matrix')
note('C17', 'weighted mean difference; similarity matrices shifted by that '
     'offset and averaged',
     '1-3 curves, 1-3 times, 2-4 candidates', 'more references')
note('C18', 'equality with what was saved',
     '1-3 times, 1-2 candidates, every optional field present or not; '
     'files missing or broken', 'the zip container (model)')
note('C19', 'level at the requested time (mean of the neighbours, as '
     'documented) subtracted; usable measurement by definition',
     '2-8 times, up to 3 shift steps, two curves on a common grid',
     'more curves')
note('C20', 'kernel, covariance and (damped) least squares written out '
     'with plain matrices; numpy inverses only of concrete matrices',
     '1-3 pairs of stations, grids of 4-9 cells, symbolic changes and '
     'coherences; concrete station places',
     'other places and travel settings than those listed; the kernel '
     'integral itself is evaluated by the same quadrature')
note('C21', 'each item exactly once; window k of period p by its time; '
     'batches by reading period',
     'symbolic number of processes up to 8, up to 5 items; records on the '
     'window grid; 1-3 reading periods, late, early, gappy, missing and '
     'too slow stations; pairs asked for or known of 3-4 stations; ranks are run by a deterministic schedule',
     'MPI itself, failing processes, records off the window grid')
note('C22', 'the list of operations and their arguments in the order of '
     'the documentation; result attributes',
     'all settings of the example file on or off; 2 bands and windows; 4 '
     'dates; the operations of the matrix are stand-ins (decided by '
     'C07-C14, C17)', 'numerical results (other properties)')
note('C23', 'definitions written out per record; filters and tapers by '
     'their impulse response, envelope and percentiles by definition',
     '1-2 records of 2-13 samples, with gaps (clip, detrend), three units', 'TDnormalization windows longer than '
     'the record; muting tapers of a single sample')
note('C24', 'phases and amplitudes of each frequency; signs and DFT '
     'written out', '1-6 records of 2-7 samples', 'rounding')
note('C25', 'masked set by time; parts between gaps treated alone, linear '
     'fill by formula', '1-2 intervals, 4-7 samples, all mask patterns, '
     'two traces with symbolic gap', 'several traces per id beyond two')
note('C26', 'k-th sample of the filtered record; kept set by length; '
     'orientation of the time of the record; complete preparation as a '
     'composition of the stated steps',
     '5-8 samples; 3 traces; response files per station',
     'the physics of the response removal (a linear operator here)')
note('C27', 'the set of samples given, per day; paths by the documented '
     'structure', 'records of 3-5 samples around midnight, 1-2 parts, '
     '2-3 stations; the file system and the MiniSEED files are a model',
     'MiniSEED, StationXML and FDSN themselves; disk errors')
note('C28', 'expansion of the documented wildcards and lists',
     'all documented forms of network, station and component; 3 stations, '
     'symbolic number of files', 'the regular file names only')
note('C29', 'normalised product per window and reference; best of the '
     'shifted comparisons', '1-2 rows of 3-7 samples', 'sign convention of '
     'the clock shift (pinned by a test)')
note('C30', 'Butterworth filter and Hilbert transform as the linear '
     'operators of scipy applied per row; fitted exponential by closed form',
     '1-2 rows of 1-6 samples', 'start lag above zero in the decay fit')
note('C31', 'list of complete windows of the records; tags instead of '
     'spectra', '1-3 records, 1-3 processes, windows of 2-8 samples',
     'the values of the spectra (Welch), reading increments that do not '
     'divide the time span')


def harnesses(i):
    src = open(os.path.join(HERE, 'props', i.lower() + '.py')).read()
    for n in ast.parse(src).body:
        if not isinstance(n, ast.FunctionDef):
            continue
        for d in n.decorator_list:
            if isinstance(d, ast.Call) and \
                    getattr(d.func, 'id', '') == 'harness':
                yield d.args[1].value, re.split(
                    r'\n\s*\n', ast.get_docstring(n) or '')[0].replace(
                        '\n', ' ')


if __name__ == '__main__':
    with open(os.path.join(HERE, 'props', 'meta.json'), 'w') as f:
        json.dump(N, f, indent=1, sort_keys=True)
        f.write('\n')
    titles = {}
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        d = json.loads(line)
        titles[d['id']] = d['title']
    out = []
    for i in sorted(titles):
        n = N[i]
        out.append('### %s %s\n' % (i, titles[i]))
        out.append('* Harnesses: ' + '; '.join(
            '`%s`' % h + (' (%s)' % t if t else '')
            for h, t in harnesses(i)) + '.')
        for k in ('oracle', 'bounds', 'outside'):
            out.append('* %s: %s.' % (k.capitalize(), n[k]))
        out.append('')
    # which planted change is caught by which check
    out.append('## Planted changes\n')
    out.append('| change | needs | caught by |\n|---|---|---|')
    for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*',
                                           'meta.json'))):
        d = json.load(open(m))
        out.append('| %s | %s | %s |' % (
            os.path.basename(os.path.dirname(m)), d['needs'],
            d.get('caught', d['property'])))
    p = os.path.join(HERE, 'DESIGN.md')
    s = open(p).read()
    a, b = '<!-- generated -->', '<!-- end -->'
    i, j = s.index(a) + len(a), s.index(b)
    open(p, 'w').write(s[:i] + '\n' + '\n'.join(out) + '\n' + s[j:])
