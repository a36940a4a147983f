"""behaviour-preserving rewrites: camera, data set, plots, report, xml"""
R = []
ROU, RES, CR, CAM = 'process/routines.py', 'process/results.py', 'camera/routines.py', 'camera/camera.py'
DSG, PTS, PLT, REP, BAD = ('camera/dataset_generator.py', 'camera/points_generator.py', 'process/plotting.py',
                           'report/report.py', 'camera/bad_images.py')


def F(i, f, props, fs=(), edits=()):
    R.append({'id': i, 'file': f, 'props': props.split(), 'functions': list(fs), 'edits': list(edits)})


F('points-split', PTS, 'C25 C26', [('PointsGenerator._get_points', '''
def _get_points(self):
    shape = (self._cam._height, self._cam._width, len(self._cam.qe.w))
    dark = np.zeros(shape)
    if self._exposure is None:
        return self._exposure_points(dark)
    return self._radiance_points(shape, dark)

def _exposure_points(self, dark):
    exposures = np.linspace(self._exposure_min, self._exposure_max, self._steps).round(1)
    pair = [self._radiance, dark]
    temporal = OrderedDict((texp, pair) for texp in exposures)
    spatial = OrderedDict((texp, pair) for n, texp in enumerate(exposures) if self._is_point_spatial(n))
    return {'spatial': spatial, 'temporal': temporal}

def _radiance_points(self, shape, dark):
    self._exposure = round(self._exposure)
    lo, hi = np.mean(self._radiance_min), np.mean(self._radiance_max)
    series = [np.full(shape, level) for level in np.linspace(lo, hi, self._steps)] + [dark]
    return {'spatial': OrderedDict([(self._exposure, [series[self._steps // 2], dark])]),
            'temporal': OrderedDict([(self._exposure, series)])}
''')])
F('points-middle', PTS, 'C25', [('PointsGenerator._is_point_spatial', '''
def _is_point_spatial(self, n):
    """middle"""
    return n == self._steps // 2
''')])
F('grab-pure', CAM, 'C21', [('Camera.grab', '''
def grab(self, radiance, temperature=None, f_number=None):
    """image"""
    shape = self._shape
    thermal = self._rng.poisson(self._u_therm(temperature=temperature), size=shape)
    light = self._rng.poisson(self._u_e(radiance, f_number=f_number), size=shape)
    noise = self._rng.normal(loc=self._dark_signal_0, scale=np.sqrt(self._sigma2_dark_0), size=shape)
    electrons = np.minimum(np.maximum(thermal + light + (self._dsnu + noise), 0), self._u_esat)
    quantization = self._rng.uniform(-0.5, 0.5, shape)
    img = self.K * electrons + quantization + self.blackoffset
    return np.clip(np.rint(img), 0, int(self.img_max)).astype(self._img_type)
''')])
F('ue-sum', CAM, 'C21 C22', [('Camera._u_e', '''
def _u_e(self, radiance, f_number=None):
    """electrons"""
    photons = self.get_photons(radiance, f_number=f_number)
    return self._prnu * (photons * self._qe.qe).sum(axis=2)
''')])
F('radiance-for', CAM, 'C22 C25', [('Camera.get_radiance_for', '''
def get_radiance_for(self, mean=None, exposure=None):
    """Radiance to achieve saturation."""
    mean = mean or self.img_max
    exposure = exposure or self.exposure
    n = len(self._qe.w)
    electrons = mean / self.K - self._u_therm(exposure=exposure)
    photons = np.full((self.height, self.width, n), electrons / n / np.mean(self._qe.qe))
    return routines.get_radiance(exposure, photons, self.pixel_area, self.environment['f_number'], self._qe.w)
''')])
F('nearest-argmin', CR, 'C23', [('nearest_value', '''
def nearest_value(value, array):
    """nearest"""
    distance = np.abs(value - array)
    return array[np.argmin(distance)]
''')])
F('photons-physics', CR, 'C22', [('get_photons', '''
def get_photons(exposure, radiance, pixel_area, wavelength, f_number):
    """photons"""
    h = 6.63e-34
    c = 3.00e8
    w = wavelength * 1e-9
    irradiance = radiance * ((np.pi / (1 + (2 * f_number) ** 2)) * w)
    energy = irradiance * (pixel_area * 1e-12) * (exposure * 1e-9)
    return energy * w / (h * c)
''')])
F('tile-mod', CR, 'C24', [('get_tile', '''
def get_tile(arr, height, width):
    """repeat"""
    if arr.ndim == 1:
        arr = arr.reshape(1, arr.shape[0])
    rows = -(-height // arr.shape[0])
    cols = -(-width // arr.shape[1])
    tile = np.tile(arr, (rows, cols))[:height, :width]
    if height == 1:
        return tile[0]
    return tile
''')])
F('bad-divmod', BAD, 'C32', [('bad_pixel', '''
def bad_pixel(cam, num_bad_pixel, bad_value=1):
    """bad"""
    value = cam._u_esat * bad_value
    chosen = np.random.choice(cam.width * cam.height, num_bad_pixel, replace=False)
    for position in chosen:
        row, col = divmod(position, cam.width)
        cam.DSNU[row, col] = value
''')])
F('dataset-lines', DSG, 'C26', [('DatasetGenerator.run_test', '''
def run_test(self):
    """Run the test points, save the images and generate descriptor."""
    path = os.path.join(self.outdir, "EMVA1288descriptor.txt")
    with open(path, "w") as f:
        f.write("v %s\\nn %i %i %i\\n" % (self._version, self.cam.bit_depth, self.cam.width, self.cam.height))
        number = 0
        for kind, L in (('temporal', 2), ('spatial', self._L)):
            for texp, radiances in self.points[kind].items():
                self.cam.exposure = texp
                for radiance in radiances:
                    number = self._write_point(f, texp, radiance, L, number)
    return path

def _write_point(self, f, texp, radiance, L, number):
    f.write(self._get_descriptor_line(texp, radiance) + "\\n")
    for k in range(L):
        name = "image%d.%s" % (number + k, self._image_format)
        f.write("i images\\\\%s\\n" % name)
        self.save_image(self.cam.grab(radiance), name)
    return number + L
''')])
F('dataset-format', DSG, 'C26', [('DatasetGenerator._get_descriptor_line', '''
def _get_descriptor_line(self, exposure, radiance):
    """line"""
    if not np.any(radiance):
        return "d {:.1f}".format(exposure)
    photons = self.cam.get_photons(radiance).sum(axis=2).mean()
    return "b {:.1f} {:.3f}".format(exposure, np.round(photons, 3))
''')])
F('save-image', DSG, 'C26', [('DatasetGenerator.save_image', '''
def save_image(self, img, name):
    """Save the image."""
    eight = self.cam.bit_depth <= 8
    im = Image.fromarray(img.astype(np.uint8 if eight else np.uint32), 'L' if eight else 'I')
    im.save(os.path.join(self.outdir, 'images', name))
''')])
F('plot-sensitivity', PLT, 'C30', [('PlotSensitivity.plot', '''
def plot(self, test):
    ax = self.ax
    t = test.temporal
    signal = t['u_y'] - t['u_ydark']
    ends = [test.index_sensitivity_min, test.index_sensitivity_max]
    ax.plot(t['u_p'], signal, label='Data', gid='%d:data' % test.id)
    ax.plot(t['u_p'], t['u_p'] * test.R, '--', label='Fit', gid='%d:fit' % test.id)
    ax.plot([t['u_p'][i] for i in ends], [signal[i] for i in ends], label='Fit range', linestyle='None',
            marker='o', gid='%d:marker' % test.id)
    self.set_legend(ax)
''')])
F('plot-snr', PLT, 'C30', [('PlotSNR.plot', '''
def plot(self, test):
    ax = self.ax
    lo, hi = test.u_p_min, test.u_p_sat
    X = np.arange(lo, hi, (hi - lo) / 100.0)
    t = test.temporal
    noisy = t['s2_y'] != 0
    signal = t['u_y'] - t['u_ydark']
    ax.plot(t['u_p'][noisy], signal[noisy] / np.sqrt(t['s2_y'][noisy]), marker='.', ls=' ', label='Data',
            gid='%d:data' % test.id)
    e = (test.QE / 100) * X
    noise = test.sigma_d ** 2 + test.s2q / test.K ** 2 + e
    ax.plot(X, e / np.sqrt(noise), linestyle=':', label='Theoretical', gid='%d:fit' % test.id)
    ideal = np.sqrt(X)
    self.max_ideal.append(ideal[-1])
    ax.plot(X, ideal, linestyle='-.', label='Ideal', gid='%d:fit' % test.id)
    for name, value in (('min', lo), ('sat', hi)):
        ax.axvline(value, label=r'$\\mu_{p.%s} = %.1f[p]$' % (name, value), gid='%d:marker' % test.id)
    spatial = test.DSNU1288 ** 2 + (test.PRNU1288 / 100 * e) ** 2
    ax.plot(X, e / np.sqrt(noise + spatial), linestyle='--', label='Total SNR', gid='%d:fit' % test.id)
    ax.set_ylim(1, max(self.max_ideal))
    self.set_legend(ax)
''')])
F('report-add', REP, 'C31', [('Report1288.add', '''
def add(self, op, data, results=None):
    """add"""
    number = len(self.ops) + 1
    op_id = 'OP{}'.format(number)
    op['id'] = op_id
    op['name'] = op['name'] or op_id
    results = results or self._results(data)
    results.id = number
    op.update(results=results.results_by_section)
    op['plots'] = self._plots(results, op_id)
    self.ops += [op]
''')])
F('report-plots', REP, 'C31', [('Report1288._plots', '''
def _plots(self, results, id_):
    """plots"""
    savedir = os.path.join(self._outdir, id_)
    os.makedirs(savedir, exist_ok=True)
    return {cls.__name__: self._one_plot(cls, results, savedir, id_) for cls in EVMA1288plots}

def _one_plot(self, cls, results, savedir, id_):
    figure = Figure()
    FigureCanvas(figure)
    plot = cls(figure)
    plot.plot(results)
    plot.rearrange()
    fname = '%s.pdf' % cls.__name__
    figure.savefig(os.path.join(savedir, fname))
    return posixpath.join(id_, fname)
''')])
F('report-write', REP, 'C31', [('Report1288.latex', '''
def latex(self):
    """files"""
    for name, render in (('emvadatasheet.sty', self._stylesheet), ('report.tex', self._report)):
        self._write_file(name, render())
''')])
F('report-missing', REP, 'C31', edits=[('''            t = '{:.%df}' % precision
            return t.format(value)''', '''            return '%.*f' % (precision, value)''')])
F('xml-write', ROU, 'C27', [('dict_to_xml', '''
def dict_to_xml(d, root='results', filename=None):
    """xml"""
    def fill(d, parent):
        for key, value in d.items():
            e = etree.SubElement(parent, key)
            if isinstance(value, dict):
                fill(value, e)
            elif isinstance(value, np.ndarray):
                e.text = ' '.join(str(x) for x in value)
            else:
                e.text = str(value)

    tree = etree.Element(root)
    fill(d, tree)
    text = etree.tostring(tree, pretty_print=True)
    if filename is None:
        return text
    with open(filename, 'w') as f:
        f.write(text.decode('utf-8'))
''')])
F('xml-read', ROU, 'C27 C28', edits=[('''                for data in value['data']:
                    v = value['data'][data] or ''
                    v = v.strip()
                    v = v.split()
                    d[section][methodname]['data'][data] = np.asarray(v, dtype=np.float64)
            else:
                v = value['value']
                if v in ('None', None, 'none'):
                    v = None
                else:
                    # sometimes the decimal point is written with , instead of.
                    v = v.replace(',', '.')
                    v = float(v)
                d[section][methodname]['value'] = v
    return d''', '''                value['data'] = {k: _floats(v) for k, v in value['data'].items()}
            else:
                value['value'] = _number(value['value'])
    return d


def _floats(text):
    return np.asarray((text or '').split(), dtype=np.float64)


def _number(text):
    if text is None or text.lower() == 'none' and text in ('None', 'none'):
        return None
    return float(text.replace(',', '.'))''')])
F('sections', ROU, 'C29', [('_sections_first', '''
def _sections_first(dct):
    """sections"""
    d = OrderedDict()
    for section in sorted(set(v['section'] for v in dct.values())):
        d[section] = OrderedDict((k, v) for k, v in dct.items() if v['section'] == section)
    return d
'''), ('obj_to_dict', '''
def obj_to_dict(obj):
    """values"""
    d = cls_1288_info(type(obj))
    for name, entry in d.items():
        val = getattr(obj, name)
        if callable(val):
            val = val()
        entry['data' if isinstance(val, dict) else 'value'] = val
    return d
''')])
F('info-parse', ROU, 'C29', [('cls_1288_info', '''
def cls_1288_info(cls):
    """info"""
    d = OrderedDict()
    for attribute_name in sorted(cls.__dict__):
        doc = getattr(cls, attribute_name).__doc__
        if not doc:
            continue
        info = _directive(doc)
        if info is None:
            continue
        if 'section' not in info:
            info['section'] = 'other'
        d[attribute_name] = info
    return d


def _directive(doc):
    inside, lines = False, []
    for line in doc.splitlines():
        line = line.strip()
        if line.startswith('.. emva1288::'):
            inside = True
        elif not line:
            inside = False
        elif inside:
            lines.append(line)
    if not lines:
        return None
    info = {}
    for line in lines:
        tags = [x.strip() for x in line.split(':', 2) if x.strip()]
        if len(tags) == 2:
            info[tags[0].lower()] = tags[1]
    return info
''')])
F('compress-zip', ROU, 'C19', [('_row_wise_compress', '''
def _row_wise_compress(img):
    """compress"""
    img = img.copy()
    data = np.ma.getdata(img)
    counts = [row.count() for row in img]
    kept = 0
    for row in img:
        values = row.compressed()
        if values.size:
            data[kept, :values.size] = values
            kept += 1
    cols = min([data.shape[1]] + [n for n in counts if n])
    return data[:kept, :cols]
''')])
F('blackoffset', DSG, 'C26', [('_get_emva_blackoffset', '''
def _get_emva_blackoffset(cam):
    """black offset"""
    before = cam.blackoffset
    needed = cam.width * cam.height * .995
    for found in cam.blackoffsets:
        cam.blackoffset = found
        if np.count_nonzero(cam.grab(0)) > needed:
            break
    cam.blackoffset = before
    return found
''')])
