R = []


def F(id, file, props, functions=(), edits=()):
    R.append(dict(id=id, file=file, props=props.split(), functions=functions, edits=edits))


ROU, DAT, LOA, PAR, RES, PLO = ('process/%s.py' % x for x in ('routines', 'data', 'loader', 'parser', 'results', 'plotting'))
F('int-imgs-index', ROU, 'C03 C05', [('get_int_imgs', '''
def get_int_imgs(imgs):
    """Sums."""
    L = len(imgs)
    images = [np.asarray(img, dtype=np.int64) for img in imgs]
    total = images[0] * 0
    squares = images[0] * 0
    means = []
    for image in images:
        total = total + image
        squares = squares + image ** 2
        means.append(np.mean(image))
    drift = 0
    for k in range(1, L):
        drift += means[k] - means[k - 1]
    return {'L': L, 'sum': total, 'pvar': L * (L * squares - total ** 2), 'dmean': drift}
''')])
F('int-imgs-stack', ROU, 'C03 C05 C04', [('get_int_imgs', '''
def get_int_imgs(imgs):
    """Sums."""
    stack = np.array([img.astype(np.int64) for img in imgs])
    L = len(imgs)
    sum_ = np.sum(stack, axis=0)
    sq_ = np.sum(np.square(stack), axis=0)
    dmean_ = np.mean(stack[L - 1]) - np.mean(stack[0])
    return {'L': L, 'sum': sum_, 'pvar': L * (L * sq_ - np.square(sum_)), 'dmean': dmean_}
''')])
F('linear-closed', ROU, 'C12 C15', [('LinearB0', '''
def LinearB0(Xi, Yi):
    """fit"""
    X = np.asarray(Xi, dtype=np.float64)
    Y = np.asarray(Yi, dtype=np.float64)

    def residual(v, x, y):
        return x * v[0] - y
    vr, _success = leastsq(residual, [1.0], args=(X, Y))
    n = len(X)
    err = np.sqrt(np.sum(residual([vr], X, Y) ** 2) / n ** 2)
    return np.array([vr]).flatten(), err
''')])
F('fft-split', ROU, 'C19 C20 C30', [('FFT1288', '''
def FFT1288(img, rotate=False, n=1):
    """fft"""
    if rotate:
        img = img.T
    if isinstance(img, np.ma.MaskedArray):
        img = _row_wise_compress(img)
    return _mean_power(np.asarray(img, dtype=np.float64) - np.mean(img)) / n ** 2


def _mean_power(img):
    cols = img.shape[1]
    fft = np.fft.fft(img, axis=1) / np.sqrt(cols)
    power = np.real(fft * np.conjugate(fft))
    return np.mean(power, axis=0)[:cols // 2 + 1]
''')])
F('fft-abs', ROU, 'C19', [('FFT1288', '''
def FFT1288(img, rotate=False, n=1):
    """fft"""
    image = img.transpose() if rotate else img
    if isinstance(image, np.ma.masked_array):
        image = _row_wise_compress(image)
    _rows, cols = GetImgShape(image)
    image = np.asarray(image, dtype=np.float64) - np.mean(image)
    power = np.abs(np.fft.fft(image, axis=1)) ** 2 / cols
    half = cols // 2 + 1
    return np.mean(power[:, :half], axis=0) / (n * n)
''')])
F('compress-list', ROU, 'C19 C20', [('_row_wise_compress', '''
def _row_wise_compress(img):
    """compress"""
    rows = [row.compressed() for row in img]
    rows = [row for row in rows if row.size > 0]
    cols = min(row.size for row in rows)
    return np.array([row[:cols] for row in rows])
''')])
F('histogram-arange', ROU, 'C16 C17 C20 C30', [('Histogram1288', '''
def Histogram1288(img, Qmax):
    """histogram"""
    y = np.ma.compressed(img)
    ymin = y.min().item()
    ymax = y.max().item()
    q = ymax - ymin
    if q + 1 > Qmax:
        W = int(np.floor(q / Qmax)) + 1
        Q = int(np.floor(q / W)) + 1
    else:
        W, Q = 1, q + 1
    edges = [ymin + W * i for i in range(Q + 1)]
    left = np.asarray(edges[:-1], dtype=np.float64)
    sigma = y.std()
    z = (left - y.mean()) / sigma
    width = (ymax - ymin) / Q
    model = width * len(y) / (np.sqrt(2 * np.pi) * sigma) * np.exp(-0.5 * z ** 2)
    values, _edges = np.histogram(y, edges, range=(ymin, ymax))
    return {'bins': left, 'values': values, 'model': model}
''')])
F('highpass-helper', ROU, 'C18 C17', [('high_pass_filter', '''
def high_pass_filter(img, dim):
    """filter"""
    if dim % 2 == 0:
        raise ValueError('The size of the highpass filter must be odd')
    sl = dim // 2
    inner = slice(sl, -sl)
    kernel = -np.ones((dim, dim))
    masked = isinstance(img, np.ma.MaskedArray)
    if masked:
        mask = np.ma.getmask(img)
        ones = np.ma.MaskedArray(np.ones(img.shape), mask).filled(0)
        count = np.ma.MaskedArray(convolve(ones, -kernel), mask)[inner, inner]
        total = count.max()
        if total != count.min():
            raise ValueError('Masked image does not have a valid bayerfilter')
    else:
        total = dim * dim
    kernel[sl, sl] += total
    if masked:
        out = np.ma.array(convolve(img.filled(0), kernel), mask=mask)
    else:
        out = convolve(img, kernel)
    return {'img': out[inner, inner], 'multiplicator': kernel[sl, sl] + 1}
''')])
F('temporal-comprehension', DAT, 'C05 C06', [('Data1288._get_temporal', '''
def _get_temporal(self, data):
    """temporal"""
    exposures = np.asarray(sorted(data.keys()))
    temporal = {'texp': exposures}
    rows = {'u_p': [], 'u_y': [], 's2_y': [], 'u_ydark': [], 's2_ydark': []}
    for t in exposures:
        points = data[t]
        photons = sorted(points.keys())
        if 0.0 not in photons:
            raise ValueError('Every exposure point must have a 0.0 photon')
        if len(photons) < 2:
            raise ValueError('There must be at least one bright photon')
        mean, var = self._mean_var(points[0.0])
        rows['u_ydark'].append(mean)
        rows['s2_ydark'].append(var)
        for p in photons[1:]:
            mean, var = self._mean_var(points[p])
            rows['u_p'].append(p)
            rows['u_y'].append(mean)
            rows['s2_y'].append(var)
    for name in rows:
        temporal[name] = np.asarray(rows[name])
    if len(exposures) == 1:
        n = len(temporal['u_p'])
        for name in ('texp', 'u_ydark', 's2_ydark'):
            temporal[name] = np.asarray([temporal[name][0]] * n)
    return temporal

def _mean_var(self, point):
    d = self._get_temporal_data(point)
    return d['mean'], d['var'] - d['dmean']
''')])
F('temporal-repeat', DAT, 'C06', [], [("            v = temporal['texp'][0]\n            temporal['texp'] = np.asarray([v for _i in range(l)])", "            temporal['texp'] = np.repeat(temporal['texp'], l)")])
F('spatial-reorder', DAT, 'C07', [('Data1288._get_spatial_data', '''
def _get_spatial_data(self, d, postfix=''):
    """spatial"""
    M, N, L = self.rows, self.cols, d['L']
    sum_ = d['sum'].astype(np.int64)
    pvar_ = d['pvar'].astype(np.int64)
    avg_ = sum_ / float(L)
    avg = np.mean(avg_)
    var_mean = np.mean(pvar_ / float(L ** 2 * (L - 1)))

    def line_variance(axis, count, other):
        lines = np.mean(avg_, axis=axis)
        return np.sum((lines - avg) ** 2) / count - var_mean / (L * other)
    out = {'sum': sum_, 'var_mean': var_mean, 'L': L, 'M': M, 'N': N, 'avg_var': avg_.var(ddof=1), 'avg_mean': avg,
           'avg_var_cav': line_variance(0, N, M), 'avg_var_rav': line_variance(1, M, N)}
    return {name + postfix: value for name, value in out.items()}
''')])
F('loader-sorted', LOA, 'C04', [('LoadImageData._load_data', '''
def _load_data(self, images):
    """load"""
    for kind in self.data:
        points = images[kind]
        for exposure in sorted(points):
            by_photons = points[exposure]
            if 0.0 not in by_photons:
                raise ValueError('Every exposure must have a 0.0 photons for dark information')
            if len(by_photons) < 2:
                raise ValueError('All exposure must have at least 2 points one dark and one bright')
            self.data[kind][exposure] = dict((photons, self._get_imgs_data(fnames, kind))
                                             for photons, fnames in by_photons.items())
    height, width = self._shape.pop()
    self.data.update(height=height, width=width)
''')], [("        self._shape = set()", "        self._shape = set()")])
F('loader-imgs', LOA, 'C04 C05', [('LoadImageData._get_imgs_data', '''
def _get_imgs_data(self, fnames, kind):
    """imgs"""
    imgs = routines.get_int_imgs(self._load_imgs(fnames))
    if kind != 'spatial':
        return {'sum': imgs['sum'].sum(), 'pvar': imgs['pvar'].sum(), 'dmean': imgs['dmean']}
    return imgs
''')])
F('parser-index', PAR, 'C01 C02', [('ParseEmvaDescriptorFile._get_images_filenames', '''
def _get_images_filenames(self):
    """names"""
    fnames = []
    while self._lines and self._split_line(self._lines[-1])[0] == 'i':
        line = self._lines.pop()
        fields = self._split_line(line)
        if len(fields) != 2:
            raise SyntaxError('Wrong format: "%s" should be "i filename"' % line)
        parts = os.path.normpath(fields[1]).split('\\\\')
        fnames.append(os.path.join(self._path, *parts))
    if len(fnames) < 2:
        raise SyntaxError('Each image series, has to have at least two images')
    return fnames
'''), ('ParseEmvaDescriptorFile._get_kind', '''
def _get_kind(self, fnames):
    return 'temporal' if len(fnames) == 2 else 'spatial'
'''), ('ParseEmvaDescriptorFile._add_pcount', '''
def _add_pcount(self, exposure, photons, fnames):
    points = self.images[self._get_kind(fnames)].setdefault(exposure, {})
    if photons in points:
        raise SyntaxError('Only one set of images exp %.3f photons %.3f' % (exposure, photons))
    points[photons] = fnames
''')])
F('parser-handlers', PAR, 'C01 C02', [('ParseEmvaDescriptorFile._fill_info', '''
def _fill_info(self):
    """fill"""
    handlers = {'v': self._version_line, 'n': self._format_line, 'b': self._point_line, 'd': self._point_line}
    self._lines = self._lines[::-1]
    while len(self._lines) > 0:
        line = self._lines.pop()
        fields = self._split_line(line)
        handler = handlers.get(fields[0])
        if handler is None:
            self.log.warning('Unknown command ' + line)
        else:
            handler(line, fields)

def _version_line(self, line, fields):
    self.version = fields[1]

def _format_line(self, line, fields):
    if len(fields) != 4:
        raise SyntaxError('Wrong format: "%s" should be "n bits width height"' % line)
    if self.format:
        raise SyntaxError('Only one "n bits width height" is allowed per file')
    for name, text in zip(('bits', 'width', 'height'), fields[1:]):
        self.format[name] = int(text)

def _point_line(self, line, fields):
    bright = fields[0] == 'b'
    if len(fields) != (3 if bright else 2):
        raise SyntaxError('Wrong format: "%s"' % line)
    numbers = [float(x.replace(',', '.')) for x in fields[1:]]
    photons = numbers[1] if bright else 0.0
    fnames = self._get_images_filenames()
    self._add_pcount(numbers[0], photons, fnames)
''')])
F('saturation-while', RES, 'C10 C11 C20', [('Results1288.index_u_ysat', '''
@property
def index_u_ysat(self):
    """Index of saturation.

    .. emva1288::
        :Section: sensitivity
        :Short: Saturation Index
    """
    if self._index_u_ysat:
        return self._index_u_ysat
    s2_y = self.temporal['s2_y']
    best, where = 0, 0
    i = len(s2_y) - 1
    while i >= 0:
        here = s2_y[i]
        if here >= best or (i > 0 and s2_y[i - 1] >= best):
            best, where = here, i
        else:
            break
        i -= 1
    self._index_u_ysat = where
    return where
''')])
F('ranges-flatnonzero', RES, 'C11 C14 C13', [('Results1288.index_linearity_max', '''
@property
def index_linearity_max(self):
    """Linearity fit maximum index

    .. emva1288::
        :Section: linearity
        :Short: Linearity fit maximum index
    """
    Y = self._signal()
    return np.flatnonzero(Y <= 0.95 * Y[self.index_u_ysat])[-1]

def _signal(self):
    return self.temporal['u_y'] - self.temporal['u_ydark']
'''), ('Results1288.index_linearity_min', '''
@property
def index_linearity_min(self):
    """Linearity fit minimum index

    .. emva1288::
        :Section: linearity
        :Short: Linearity fit minimum index
    """
    Y = self._signal()
    return np.flatnonzero(Y >= 0.05 * Y[self.index_u_ysat])[0]
'''), ('Results1288.index_sensitivity_max', '''
@property
def index_sensitivity_max(self):
    """Index for linear fit.

    .. emva1288::
        :Section: sensitivity
        :Short: Sensitivity fit maximum index
    """
    Y = self._signal()
    return np.where(Y <= 0.7 * Y[self.index_u_ysat])[0].max()
''')])
F('gain-helper', RES, 'C12 C13 C09', [('Results1288.R', '''
@property
def R(self):
    """Responsivity

    .. emva1288::
        :Section: sensitivity
        :Short: Responsivity
        :Symbol: R
        :Unit: $DN/p$
    """
    return self._slope(self.temporal['u_p'], self.temporal['u_y'] - self.temporal['u_ydark'])

def _slope(self, X, Y):
    part = slice(self.index_sensitivity_min, self.index_sensitivity_max + 1)
    return routines.LinearB0(X[part], Y[part])[0][0]
'''), ('Results1288.K', '''
@property
def K(self):
    """Overall system gain

    .. emva1288::
        :Section: sensitivity
        :Short: System gain
        :Symbol: K
        :Unit: $DN/e^-$
    """
    t = self.temporal
    return self._slope(t['u_y'] - t['u_ydark'], t['s2_y'] - t['s2_ydark'])
''')])
F('linearity-dot', RES, 'C14', [('Results1288.linearity', '''
def linearity(self):
    """Linearity

    .. emva1288::
        :Section: linearity
        :Short: Linearity
    """
    X = self.temporal['u_p']
    Y = self.temporal['u_y'] - self.temporal['u_ydark']
    inside = slice(self.index_linearity_min, self.index_linearity_max + 1)
    w = 1 / Y[inside]
    x = X[inside] * w
    sxx, sx, sxw, sw, sww = np.sum(x * x), np.sum(x), np.sum(x * w), np.sum(w), np.sum(w * w)
    offset = (sx * sxw - sxx * sw) / (sxw * sxw - sxx * sww)
    slope = (sx - offset * sxw) / sxx
    line = offset + slope * X
    dev = 100 * (Y / line - 1)
    return {'fit_slope': slope, 'fit_offset': offset, 'relative_deviation': dev,
            'linearity_error_min': dev[inside].min(), 'linearity_error_max': dev[inside].max()}
''')])
F('dark-max', RES, 'C15 C13', [('Results1288.sigma_y_dark', '''
@property
def sigma_y_dark(self):
    """Temporal Dark Noise.

    .. emva1288::
        :Section: sensitivity
        :Short: Temporal Dark Noise
        :Symbol: x
        :Unit: DN
    """
    t = self.temporal
    if len(set(t['texp'])) > 2:
        s2 = routines.LinearB(t['texp'], t['s2_ydark'])[0][1]
    else:
        s2 = t['s2_ydark'][0]
    return np.sqrt(max(s2, 0.24))
''')])
F('variance-common', RES, 'C08 C09', [('Results1288.s_2_y_col', '''
@property
def s_2_y_col(self):
    """Column spatial variance from image.

    .. emva1288::
        :Section: spatial
        :Short: Spatial variance from image
        :Symbol: c
        :Unit: DN2
    """
    return self._col('')

def _col(self, dark):
    M, N = self.spatial['M' + dark], self.spatial['N' + dark]
    cav, rav, all_ = [getattr(self, n + dark) for n in ('s_2_y_cav', 's_2_y_rav', 's_2_y')]
    return ((M * N - M) * cav - N * (all_ - rav)) / (M * N - M - N)
'''), ('Results1288.s_2_y_col_dark', '''
@property
def s_2_y_col_dark(self):
    """Column spatial variance from image.

    .. emva1288::
        :Section: spatial
        :Short: Spatial variance from image
        :Symbol: c
        :Unit: DN2
    """
    return self._col('_dark')
''')])
F('prnu-nan', RES, 'C09', [('Results1288.DSNU1288', '''
@property
def DSNU1288(self):
    """DSNU.

    .. emva1288::
        :Section: spatial
        :Short: DSNU
        :Symbol: c
        :Unit: DN
    """
    v = self.s_2_y_dark
    return np.nan if v < 0 else v ** 0.5 / self.K
''')])
F('histogram-common', RES, 'C17 C20', [('Results1288.histogram_DSNU_accumulated', '''
@property
def histogram_DSNU_accumulated(self):
    """Accumulated DSNU histogram.

    .. emva1288::
        :Section: defect pixel
        :Short: accumulated DSNU histogram
    """
    dark = self.spatial['sum_dark']
    deviation = np.abs(dark - int(np.mean(dark)))
    return self._accumulate(deviation, self.spatial['L_dark'])

def _accumulate(self, deviation, scale):
    h = routines.Histogram1288(deviation, self._histogram_Qmax)
    counts = h['values']
    total = np.ma.count(deviation)
    h['bins'] = h['bins'] / scale
    h['values'] = 100 * np.cumsum(counts[::-1])[::-1] / total
    return h
'''), ('Results1288.histogram_PRNU_accumulated', '''
@property
def histogram_PRNU_accumulated(self):
    """Accumulated PRNU histogram.

    .. emva1288::
        :Section: defect pixel
        :Short: accumulated PRNU histogram
    """
    data = routines.high_pass_filter(self.spatial['sum'] - self.spatial['sum_dark'], 5)
    y = data['img']
    return self._accumulate(np.abs(y - int(np.mean(y))), self.spatial['L'] * data['multiplicator'])
''')])
