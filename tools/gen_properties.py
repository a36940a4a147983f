"""Writes /verif/properties.jsonl (one place to edit titles, statements and anchors)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))
PR = 'src/emva1288/process/'
CA = 'src/emva1288/camera/'
RP = 'src/emva1288/report/'

prop('C01', 'A descriptor file is parsed completely and exactly',
 "For every well-formed descriptor file the parser yields, for each bright or dark block, exactly the image paths of that block, in file order, filed under the block's exposure time and photon count (0.0 for dark blocks), as temporal data when the block has exactly two images and as spatial data otherwise. The bit depth, width, height and version are those of the header lines. Comment lines, blank lines, surrounding white space and decimal commas do not change the result.",
 ['inputs', 'programs'], 'every descriptor: any number and order of blocks, any number of images per block, any token text',
 'the tests parse one generated descriptor per configuration and look at a few keys; block order, block length, header position, comments and decimal commas vary without bound',
 [PR + 'parser.py'], [('ParseEmvaDescriptorFile._fill_info', PR + 'parser.py'), ('_get_images_filenames', PR + 'parser.py'), ('_get_kind / _add_pcount', PR + 'parser.py'), ('_load_file / _split_line', PR + 'parser.py')],
 ['ParseEmvaDescriptorFile(f).images', '.format', '.version'])
prop('C02', 'A malformed descriptor file is never silently accepted',
 "Parsing raises a SyntaxError whenever a line has fewer than two fields, a header, bright, dark or image line has the wrong number of fields, the header line occurs twice, a block has fewer than two images, or two blocks of the same kind (temporal or spatial) give the same exposure time and photon count. No block ever overwrites another one.",
 ['inputs', 'programs'], 'every descriptor text, at any position of the malformed line',
 'every error branch is excluded from coverage (pragma: no cover); no test feeds a malformed descriptor',
 [PR + 'parser.py'], [('_fill_info', PR + 'parser.py'), ('_add_pcount', PR + 'parser.py'), ('_get_images_filenames', PR + 'parser.py'), ('_split_line', PR + 'parser.py')],
 ['exception raised by ParseEmvaDescriptorFile'])
prop('C03', 'An image stack is reduced exactly, in integers',
 "For every stack of L images the reduction gives L, the pixelwise sum, the pixelwise pseudo-variance L*(L*sum(y^2) - (sum y)^2) and the sum of differences between the means of consecutive images, computed without overflow or rounding of the integer images for pixel values up to 16 bit and up to 1000 images. The input images are not modified.",
 ['inputs'], 'every stack length, image size and pixel value',
 'tests only check that the keys exist on simulated 8 bit stacks; clipping or overflow appears only for large values or long stacks',
 [PR + 'routines.py'], [('get_int_imgs', PR + 'routines.py')], ["get_int_imgs(imgs)['L'|'sum'|'pvar'|'dmean']"])
prop('C04', 'Every measurement point is reduced from exactly its own images',
 "Loading keeps every (kind, exposure, photon count) entry and no other, each one reduced from exactly the image files listed for it, joined to the given path and read with the given load function and its arguments: spatial points keep the sum and pseudo-variance images, temporal points their totals over all pixels. Width and height are those of the images; a missing file, an exposure without dark point, an exposure without bright point and images of different shapes are refused.",
 ['inputs', 'configurations'], 'every dictionary of measurement points, file names and image contents',
 'tests load two generated datasets and look at one exposure time; mixing up points, kinds or files only shows on other dictionaries',
 [PR + 'loader.py', PR + 'routines.py'], [('LoadImageData._load_data', PR + 'loader.py'), ('_get_imgs_data', PR + 'loader.py'), ('_load_imgs', PR + 'loader.py'), ('load_image', PR + 'routines.py')],
 ['LoadImageData(...).data'])
prop('C05', 'Temporal mean and variance are those of the EMVA two-image method',
 "For every measurement point made of two images a and b the reported mean is the mean over both images and the reported temporal variance is half the mean of (a-b)^2 minus half the square of the difference of the two image means. Hence the variance is never negative, is unchanged when a constant is added to one image (illumination drift) or to both, and scales with the square of the grey values.",
 ['inputs'], 'every pair of images, through the whole reduction from images to temporal data',
 'tests compare against simulator parameters with wide tolerances and never compute the definition itself',
 [PR + 'routines.py', PR + 'loader.py', PR + 'data.py'], [('get_int_imgs', PR + 'routines.py'), ('_get_imgs_data', PR + 'loader.py'), ('_get_temporal_data / _get_temporal', PR + 'data.py')],
 ["Data1288(...).data['temporal']"])
prop('C06', 'Temporal tables are complete, ordered and aligned',
 "The temporal arrays list every bright point exactly once, by increasing exposure time and then by increasing photon count, with the mean and variance of that very point; the dark arrays hold, per exposure time in increasing order, the values of the dark point of that exposure, repeated to the length of the bright arrays when there is a single exposure time. Data without a dark or without a bright point at some exposure is refused with a ValueError, whatever the order in which the points were inserted.",
 ['inputs', 'histories'], 'every set of exposure times and photon counts, any insertion order',
 'tests use points inserted in increasing order and check lengths; misordered insertion, several bright points per exposure and unequal counts are never exercised',
 [PR + 'data.py'], [('Data1288._get_temporal', PR + 'data.py')], ["Data1288(...).data['temporal']"])
prop('C07', 'Spatial statistics follow the definitions, bright and dark kept apart',
 "For the bright and for the dark spatial stack separately, the reported mean, spatial variance of the averaged image (divisor M*N-1), mean temporal variance of the stack (pseudo-variance divided by L^2*(L-1)), and the variances of the column and row averages, each diminished by its residual temporal noise, are those of the definitions on that stack, together with its own L, sum image, row and column counts. Spatial data not made of exactly one exposure time with one dark and one bright point is refused with a ValueError.",
 ['inputs'], 'every pair of image stacks of any size and length',
 'tests check that the keys are present; no test recomputes a spatial statistic or uses different stacks lengths for bright and dark',
 [PR + 'data.py'], [('Data1288._get_spatial', PR + 'data.py'), ('_get_spatial_data', PR + 'data.py')], ["Data1288(...).data['spatial']"])
prop('C08', 'Spatial variance splits exactly into row, column and pixel parts',
 "For the bright and for the dark images, the row, column and pixel variances always add up to the overall spatial variance, which is the measured variance of the averaged image minus the stack's temporal variance divided by its number of images. The column (row, pixel) part solves the EMVA 1288 release 4.0 system relating column-average, row-average and total variances for every image size.",
 ['inputs'], 'every spatial data set and every image size with M*N > M+N',
 'tests recompute each number with the same expression or only test its sign; the balance between the parts is never checked',
 [PR + 'results.py'], [('s_2_y, s_2_y_row, s_2_y_col, s_2_y_pixel and _dark variants', PR + 'results.py')], ['Results1288.s_2_y*'])
prop('C09', 'DSNU and PRNU follow their definitions with a NaN for negative variances',
 "DSNU (total, row, column, pixel) is the square root of the corresponding dark spatial variance divided by the system gain (not divided for the DN variant), and NaN whenever that variance is negative. PRNU (total, row, column, pixel) is 100 times the square root of the bright minus dark spatial variance of the same kind, divided by the bright minus dark mean, and NaN whenever the bright variance is the smaller one.",
 ['inputs'], 'every spatial data set',
 'tests evaluate one hand-written set per quantity; row, column and pixel PRNU have no test',
 [PR + 'results.py'], [('DSNU1288*, PRNU1288*', PR + 'results.py')], ['Results1288.DSNU1288*', 'Results1288.PRNU1288*'])
prop('C10', 'The saturation point is the right-most lasting variance peak',
 "The saturation index is the last measurement whose temporal variance is at least that of every later measurement and larger than both of the two measurements before it (as far as those exist), so single noise dips do not hide the peak. A positive index forced by the user is used instead, and repeated reads always return the same index.",
 ['inputs', 'histories'], 'every sequence of temporal variances, including peaks at the first points, plateaus and dips',
 'tests use smooth simulated photon transfer curves with one peak near the end',
 [PR + 'results.py'], [('Results1288.index_u_ysat', PR + 'results.py')], ['Results1288.index_u_ysat', 'u_p_sat'])
prop('C11', 'Fit ranges are cut at 70%, 5% and 95% of saturation',
 "With the dark-corrected mean signal, the sensitivity fit ends at the last measurement at or below 70% of the signal at saturation and starts at the first measurement; the linearity fit runs from the first measurement at or above 5% to the last one at or below 95% of the signal at saturation. All these indices lie inside the measured range.",
 ['inputs'], 'every measured curve, monotone or not',
 'tests check only that the indices are integers inside the array',
 [PR + 'results.py'], [('index_sensitivity_min/max, index_linearity_min/max', PR + 'results.py')], ['Results1288.index_*'])
prop('C12', 'Gain and responsivity are least-squares slopes over the fit range',
 "The responsivity is the least-squares slope through the origin of the dark-corrected mean versus photon count, and the system gain that of the dark-corrected variance versus dark-corrected mean, both over the sensitivity fit range including its two ends. The straight-line fit routines return the least-squares optimum for every data set and do not change their inputs.",
 ['inputs'], 'every data set with a non-degenerate abscissa',
 'tests compare gain and quantum efficiency to simulator parameters with tolerances of 10-20 percent',
 [PR + 'results.py', PR + 'routines.py'], [('R, K', PR + 'results.py'), ('LinearB0, LinearB', PR + 'routines.py')], ['Results1288.R', 'Results1288.K', 'routines.LinearB0', 'routines.LinearB'])
prop('C13', 'Derived sensitivity figures obey the EMVA 1288 relations',
 "Quantum efficiency is 100*R/K, the inverse gain 1/K; the absolute threshold is u_p_min = (100/QE)*(sigma_y_dark/K + 1/2), u_e_min and u_e_sat are QE/100 times u_p_min and u_p_sat, u_p_sat is the photon count at the saturation index, sigma_d = sqrt(sigma_y_dark^2 - 1/12)/K, SNR_max = sqrt(u_e_sat), DR = u_p_sat/u_p_min, with their dB (20 log10), bit (log2) and inverse (100/x) forms. Each per-area figure is the figure divided by the pixel area, and None when no pixel area is given.",
 ['inputs'], 'every data set with positive gain and responsivity',
 'the relations are tested on one or two simulated data sets, several figures not at all',
 [PR + 'results.py'], [('QE, inverse_K, sigma_d, u_*_min*, u_*_sat*, SNR_max*, inverse_SNR_max, DR*', PR + 'results.py')], ['Results1288 properties'])
prop('C14', 'Linearity is the relative-weighted straight line fit and its deviation',
 "The linearity slope and offset minimise the sum of squared deviations relative to the measured value over the linearity fit range (ends included), the relative deviation is 100*(measured - fitted)/fitted for every measurement, and the reported minimal and maximal linearity errors are the extremes of that deviation over the fit range.",
 ['inputs'], 'every measured curve with non-zero signal in the range',
 'tests only require the two errors to be floats',
 [PR + 'results.py'], [('linearity, LE_min, LE_max', PR + 'results.py')], ['Results1288.linearity()', 'LE_min', 'LE_max'])
prop('C15', 'Dark noise and dark current come from the exposure series',
 "With more than two distinct exposure times the temporal dark noise is the square root of the zero-exposure intercept of the straight-line fit of dark variance over exposure time, otherwise of the dark variance of the first point; a variance below 0.24 is raised to 0.24. The dark currents per second (exposure times being in ns) are the fitted slopes of the dark mean, and of the dark variance divided by the gain, again divided by the gain for the electron values; they are NaN with two or fewer distinct exposure times, and the variance form is NaN for a negative slope.",
 ['inputs'], 'every exposure series',
 'one simulated series with wide tolerances and two NaN cases are tested',
 [PR + 'results.py'], [('sigma_y_dark, u_I_var(_DN), u_I_mean(_DN)', PR + 'results.py')], ['Results1288.sigma_y_dark', 'u_I_*'])
prop('C16', 'Histograms partition the pixels into equal integer bins',
 "For every integer image the histogram has at most Qmax bins of one common integer width, as narrow as this limit allows, starting at the image minimum and covering the maximum; the count of a bin is the number of unmasked pixels whose value lies in it, so that the counts add up to the number of unmasked pixels. The model curve is the normal density with the image's mean and standard deviation, scaled by the pixel count and (max-min)/(number of bins).",
 ['inputs'], 'every integer image, value range and bin limit, masked or not',
 'one ramp image is tested; other value ranges meet other roundings of the bin width',
 [PR + 'routines.py'], [('Histogram1288', PR + 'routines.py')], ['Histogram1288(img, Qmax)'])
prop('C17', 'Defect-pixel histograms show the documented quantities',
 "The PRNU histograms are those of the 5x5 high-pass filtered difference of bright and dark sum images and the DSNU histograms those of the dark sum image, with bins rescaled to grey values by the number of images (and filter factor) and, for DSNU, centred on the dark mean. The accumulated forms histogram the absolute deviation from the (truncated) mean and give, for each bin, the percentage of pixels in that bin or above.",
 ['inputs'], 'every spatial data set',
 'tests only check that the histogram keys are arrays',
 [PR + 'results.py'], [('histogram_PRNU(_accumulated), histogram_DSNU(_accumulated)', PR + 'results.py')], ['Results1288.histogram_*'])
prop('C18', 'The high-pass filter subtracts the box mean exactly',
 "For every image of signed integers or real numbers and every odd kernel size n of at least 3 the filtered image, cropped to the pixels with a full neighbourhood, is n^2 times the pixel minus the sum of its n x n neighbourhood, and the reported multiplicator is n^2; with a mask, only unmasked neighbours count and the multiplicator is their number. Even kernel sizes and masks without a constant number of unmasked neighbours are refused, and the input is not modified.",
 ['inputs'], 'every image with a signed or floating element type, odd kernel size from 3 and mask',
 'tests filter random images and check means with an absolute tolerance of 3',
 [PR + 'routines.py'], [('high_pass_filter', PR + 'routines.py')], ['high_pass_filter(img, dim)'])
prop('C19', 'Spectra are mean line power spectra up to the Nyquist bin',
 "The spectrogram is the average over image lines (columns when rotated) of the squared Fourier magnitude of the image minus its global mean, divided by the line length and by n^2 for a sum of n images, for bins 0 up to and including half the line length. Masked images are first compressed line by line, dropping empty lines and truncating to the shortest line, without touching the caller's image.",
 ['inputs'], 'every image shape, mask and n',
 'two random images are tested for a spike at one bin',
 [PR + 'routines.py'], [('FFT1288', PR + 'routines.py'), ('_row_wise_compress', PR + 'routines.py')], ['FFT1288(img, rotate, n)'])
prop('C20', 'Reading results never changes data or other results',
 "Computing any result, in any order and any number of times, leaves the temporal and spatial data handed to the results object unchanged, returns the same value again when read again, and does not change any other result. Fitting, filtering, histogram and spectrum routines leave their array arguments unchanged.",
 ['inputs', 'histories'], 'every sequence of reads of results on every data set',
 'tests read each value once on a fresh object; in-place array operations show only in later reads',
 [PR + 'results.py', PR + 'routines.py', PR + 'data.py'], [('all Results1288 getters (frame)', PR + 'results.py'), ('routines (frame)', PR + 'routines.py')], ['Results1288', "data['temporal']", "data['spatial']"])
prop('C21', 'Simulated images are legal images of the camera',
 "Every grabbed image has the camera's height and width, an unsigned integer type wide enough for its bit depth, and values between 0 and 2^bit_depth - 1: the rounded value of gain times the electrons clipped to the full well, plus quantisation noise within half a grey level, plus black offset. Electrons are the thermal and light induced Poisson counts plus the dark signal with its spatial non-uniformity, the light part being modulated by the spatial photo response.",
 ['inputs', 'configurations'], 'every camera configuration, radiance and random outcome',
 'tests grab a few images at default settings and compare means',
 [CA + 'camera.py'], [('Camera.grab, _u_e, _u_therm, _u_i', CA + 'camera.py')], ['Camera.grab()'])
prop('C22', 'Photon and radiance conversions are inverse to each other',
 "Converting photons to radiance and back returns the same photons for every exposure time, pixel area, wavelength and f-number, and photons grow linearly with radiance, exposure and pixel area. The radiance computed for a target mean makes the expected light plus thermal electrons, at the exposure it was computed for, equal to target divided by gain, for every spatially uniform quantum efficiency.",
 ['inputs', 'configurations'], 'every positive exposure, area, f-number, wavelength grid and target',
 'tests use the default camera only',
 [CA + 'routines.py', CA + 'camera.py'], [('get_photons, get_radiance', CA + 'routines.py'), ('Camera.get_radiance_for, get_photons', CA + 'camera.py')], ['get_photons', 'get_radiance', 'Camera.get_radiance_for'])
prop('C23', 'Gain and black offset always take the nearest available setting',
 "After any assignment the camera's gain (black offset) is one of the available settings and no other available setting is closer to the requested value; the available settings run in equal steps from the minimum to the maximum. Unless given, the maximal black offset is one sixteenth of the full range, rounded down.",
 ['inputs', 'histories', 'configurations'], 'every requested value and every configuration of the setting range',
 'tests use one requested gain',
 [CA + 'camera.py', CA + 'routines.py'], [('nearest_value', CA + 'routines.py'), ('Camera.K / blackoffset setters', CA + 'camera.py')], ['Camera.K', 'Camera.blackoffset', 'Camera.Ks', 'Camera.blackoffsets'])
prop('C24', 'Tiling repeats the pattern periodically to the requested size',
 "Tiling a one- or two-dimensional pattern to a height and width yields exactly that shape (one dimension for height 1) with every element equal to the pattern element at its indices modulo the pattern size. A colour filter array of even size repeats its 2x2 transmission pattern, each transmission normalised to a maximum of one.",
 ['inputs'], 'every pattern size and every target size',
 'tests tile constant zero patterns, so that only the shape is tested',
 [CA + 'routines.py'], [('get_tile', CA + 'routines.py'), ('array_tile, get_bayer_filter', CA + 'routines.py')], ['get_tile', 'get_bayer_filter'])
prop('C25', 'Operation points form a complete EMVA 1288 series',
 "An exposure series has the requested number of equally spaced exposure times from minimum to maximum, each with one bright radiance, the one that saturates at the maximal exposure, and one dark; an illumination series has the single given exposure with the requested number of equally spaced radiances between the two limits (left out, the lower one is one step of the range above the dark image, the upper one saturates) and one dark. Each series has exactly one spatial point, at the middle step, with one bright and one dark radiance.",
 ['inputs', 'configurations'], 'every number of steps, exposure range and camera',
 'two configurations of ten steps are used as fixtures and only key counts are checked',
 [CA + 'points_generator.py'], [('PointsGenerator.__init__, _get_points, _is_point_spatial', CA + 'points_generator.py')], ['PointsGenerator.points'])
prop('C26', 'A generated dataset describes exactly the images it contains',
 "The descriptor of a generated dataset has the version line, one header line with the camera's bit depth, width and height, and for each temporal operation point a block of 2 images and for each spatial one a block of L images, bright blocks with the exposure and the photon count received at that exposure, dark blocks with the exposure. Every listed image was grabbed at that exposure and radiance and saved once under its own name, and every saved image is listed once.",
 ['inputs', 'configurations'], 'every set of operation points, L and image format',
 'two generated datasets are parsed back for a few keys',
 [CA + 'dataset_generator.py'], [('DatasetGenerator.run_test', CA + 'dataset_generator.py'), ('_get_descriptor_line, save_image', CA + 'dataset_generator.py')], ['EMVA1288descriptor.txt', 'images/'])
prop('C27', 'Results written to XML read back unchanged',
 "Reading back an XML written from a results dictionary, from a file or from the XML text itself, gives the same sections and entries (names in lower case) with the same numeric values, None for missing values, and the same arrays.",
 ['inputs'], 'every results dictionary of the section/entry/value-or-data form',
 'the XML functions have no test at all',
 [PR + 'routines.py'], [('dict_to_xml, xml_to_dict', PR + 'routines.py')], ['dict_to_xml', 'xml_to_dict'])
prop('C28', 'Comparing result files reports OK exactly for matching entries',
 "Comparing two result files lists every section and entry found in either file, in sorted order; an entry present in both as a number (or as arrays with the same names and lengths) is marked OK exactly when the values agree after rounding to seven significant digits, and FAIL otherwise, in particular when it is missing from one file. Comparing a file having only finite numbers with itself gives no FAIL, and swapping the two files does not change any verdict.",
 ['inputs'], 'every pair of result files',
 'compare_xml has no test at all',
 [PR + 'routines.py'], [('compare_xml', PR + 'routines.py'), ('round_significant', PR + 'routines.py')], ['compare_xml'])
prop('C29', 'The results dictionary carries every documented figure in its section',
 "Each documented quantity (one whose documentation has an emva1288 block) appears exactly once in the results, with the metadata of its block under lower-case keys, section 'other' when none is given, and with its current value under 'value', or under 'data' when that value is a dictionary. Grouping by section keeps every quantity exactly once, under its own section, sections in sorted order.",
 ['inputs', 'programs'], 'every class with documented attributes and any block text',
 'tests look up some names in the results of one class',
 [PR + 'routines.py', PR + 'results.py'], [('cls_1288_info, _sections_first, obj_to_dict', PR + 'routines.py'), ('Results1288.results, results_by_section', PR + 'results.py')], ['Results1288.results', 'results_by_section'])
prop('C30', 'Plots draw the computed results, for every test added',
 "Each standard plot draws, for every test given, the curves of the processed data it documents (data, fit, fit range, saturation, thresholds) computed from that test's own results, dark images being averaged over the number of dark images. Limits a plot sets on its axes leave out none of the tests. A plotting object given several tests plots all of them in order.",
 ['inputs', 'histories'], 'every data set and every number of tests',
 'tests only check that the plot files exist',
 [PR + 'plotting.py'], [('Plot*.plot', PR + 'plotting.py'), ('Plotting1288.__init__/plot', PR + 'plotting.py')], ['lines drawn on the axes'])
prop('C31', 'A report keeps each operation point with its own results',
 "Every operation point added to a report appears once, in the order added, with an identifier OP1, OP2, ..., its given name (the identifier when it has none), the results computed from its own data (or given with it) and its own sixteen plot files in its own directory. The information given for the report (setup, basic, marketing; zero included) is what the report shows. Missing information is rendered as '-' (or the given default) and numbers with the requested precision.",
 ['inputs', 'histories'], 'every sequence of operation points',
 'tests add one operation point and check that files exist',
 [RP + 'report.py'], [('Report1288.add, _plots, latex', RP + 'report.py'), ('missing filters', RP + 'report.py')], ['Report1288.ops', 'report.tex'])
prop('C32', 'Injected bad pixels are as many as requested and nothing else changes',
 "Adding bad pixels to a camera sets exactly the requested number of distinct positions of its dark signal map to the requested fraction of the full well, for every sensor shape, and leaves all other positions unchanged.",
 ['inputs', 'configurations'], 'every sensor shape, number of pixels and random outcome',
 'bad pixel injection has no test',
 [CA + 'bad_images.py'], [('bad_pixel', CA + 'bad_images.py')], ['Camera.DSNU'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
