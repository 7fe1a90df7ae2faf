"""D01: displays requested by Displays.tla, what the pictures show is recorded and judged by TLC."""
import os
import pathlib
import shutil
import tempfile
import warnings
import numpy as np
import lib
from lib import NAN
from topo import encgrid, enc

SIZES = (700, 12000)
COLOURS = ['black', 'red', '#00ff80', (0.0, 0.0, 1.0)]
LAYERS = {'intensity': lambda: np.arange(20, dtype=np.uint8).reshape(4, 5) * 9, 'colour': lambda: np.arange(36, dtype=np.uint8).reshape(3, 4, 3) * 5}


def enc5(v):
    return int(round(float(v) * 1e5))


def flat(a):
    a = np.ma.filled(np.ma.asarray(a).astype(float), np.nan)
    return encgrid(a.reshape(a.shape[0], -1))


class FakePlotter:
    """Records what would be rendered. There is no display to render on."""
    made = []

    def __init__(self, *a, **k):
        FakePlotter.made.append(self)
        self.meshes = []

    def add_mesh(self, mesh, scalars=None, **k):
        self.meshes.append((mesh, scalars))

    def screenshot(self, target, *a, **k):
        from PIL import Image
        im = Image.new('RGB', (60, 40), (255, 255, 255))
        im.paste((10, 20, 30), (10, 5, 50, 30))
        im.save(target, 'PNG')

    def __getattr__(self, name):
        return lambda *a, **k: None


def build(c):
    from surfalize import Surface, Profile
    from surfalize.image import Image
    d = np.array([[np.nan if v == NAN else v / 1000 for v in row] for row in c['g']], dtype=float)
    if c['k'] == 'S':
        return Surface(d, c['sx'] / 1000, c['sy'] / 1000, image_layers={n: Image(f()) for n, f in LAYERS.items()})
    return Profile(d.ravel(), c['sx'] / 1000)


def line_is_curve(xy, fresh, letter):
    x, y = xy[:, 0], xy[:, 1]
    if len(x) < 100 or abs(x[0]) > 1e-9 or abs(x[-1] - 100) > 1e-9 or np.any(np.diff(x) <= 0):
        return False
    mc = getattr(fresh, letter + 'mc')
    return all(abs(float(mc(float(x[i]))) - y[i]) < 1e-6 for i in range(0, len(x), max(1, len(x) // 23)))


def remember(pictures, look):
    pictures.append((look, [np.array(x, float, copy=True) for x in look()]))


def as_drawn(pictures):
    return all(len(was) == len(now) and all(np.array_equal(np.asarray(a, float), b, equal_nan=True) for a, b in zip(now, was)) for look, was in pictures for now in [look()])


def where(ax):
    spec = ax.get_subplotspec()
    return [round(v, 6) for v in ax.get_position(original=True).bounds] if spec is None else spec.get_geometry()


def draw(c, st, o, wd, pictures):
    """Executes one request; returns the recorded event."""
    import matplotlib.pyplot as plt
    from surfalize import Surface, Profile
    s = c['k'] == 'S'
    op = st['op']
    e = {'k': c['k'], 'sx': c['sx'], 'sy': c['sy'], 'err': '', 'unchanged': True, 'earlier': True, 'others': True, 'figs': 0, 'place': True, 'saved': False, **st}
    if op == 'edit':
        d = o.data
        m = np.zeros((1, d.size) if not s else d.shape, bool)
        i, j = (st['i'] - 1) % m.shape[0], (st['j'] - 1) % m.shape[1]
        if st['how'] == 'whole':
            m[:] = True
            np.fill_diagonal(m, False)
        elif st['how'] == 'row':
            m[i] = True
        else:
            m[i, j] = True
        o[m if s else m[0]] = st['v'] / 1000
        e['earlier'] = as_drawn(pictures)
        return e
    kw, given = {}, None
    if not st.get('own', True):
        # one of several axes of a figure
        form = (c['sx'] // 100 + len(pictures)) % 5
        if form < 3:
            fig0, axs = plt.subplots(*[(1, 1), (1, 2), (2, 3)][form], squeeze=False)
            axs = list(axs.ravel())
        elif form == 3:
            fig0, axs = plt.subplot_mosaic([['a', 'a', 'b'], ['c', 'd', 'd']])
            axs = list(axs.values())
        else:
            fig0 = plt.figure()
            axs = [fig0.add_axes([0.1, 0.15, 0.3, 0.7]), fig0.add_axes([0.55, 0.2, 0.4, 0.6])]
        kw['ax'] = given = axs.pop((c['sy'] // 100 + len(pictures)) % len(axs))
        place, beside = where(given), [len(a.findobj()) for a in axs]
    other, oax = plt.subplots()
    oax.plot([1, 2], [3, 4])
    count = len(other.findobj())
    file = wd / f'{len(list(wd.iterdir()))}.png'
    if st.get('save') and not (op == 'plot2d' and not s) and (op not in ('curve', 'study') or given is None):
        kw['save_to'] = str(file) if c['sx'] % 2 == 0 and st.get('own') else file
    else:
        e['save'] = False
    if st.get('cbar') and s:
        kw['show_cbar'] = st['cbar'] == 'yes'
    before, figs = np.array(o.data), set(plt.get_fignums())
    fresh = Surface(before.copy(), o.step_x, o.step_y) if s else Profile(before.copy(), o.step)
    letter = 'S' if s else 'R'
    num = lambda q: enc(getattr(fresh, q)())
    try:
        fig = ax = None
        if op == 'plot2d' and s:
            e['wanted'] = 'viridis' if st['colour'] % 2 else 'jet'
            e['layers'] = [flat(f()) for f in LAYERS.values()]
            e['rgb'] = st['layer'] == 2
            lim = {n: st[k] / 1000 for n, k in (('vmin', 'lo'), ('vmax', 'hi')) if st[k] != NAN}
            fig, ax = o.plot_2d(cmap=e['wanted'], maskcolor=COLOURS[st['colour'] - 1], layer=['Topography', *LAYERS, 'nothing'][st['layer']], **lim, **kw)
        elif op == 'plot2d':
            fig, ax = o.plot_2d(**kw)
        elif op == 'curve':
            # the curve itself is drawn into given axes
            fig, (ax, ax2) = o.plot_abbott_curve(nbars=st['bars'], **kw) if given is None else o.get_abbott_firestone_curve().plot(st['bars'], **kw)
        elif op == 'study':
            fig, ax = o.plot_functional_parameter_study(**kw) if given is None else o.get_abbott_firestone_curve().visual_parameter_study(**kw)
        elif op == 'acf':
            fig, ax = o.plot_autocorrelation(**kw)
        elif op == 'fourier':
            fr = {n: (st[k] + st['jit'] / 10) / w for n, k, w in (('fxmax', 'fx', o.width_um), ('fymax', 'fy', o.height_um)) if st[k]}
            fig, ax = o.plot_fourier_transform(log=st['log'], subtract_mean=st['sub'], hanning=st['han'], adjust_colormap=st['adj'], **fr, **kw)
        elif op == 'angular':
            fig, ax = o.plot_angular_power_spectrum(angle_step=st['step'], **kw)
        elif op == 'solid':
            import pyvista as pv
            real, pv.Plotter = pv.Plotter, FakePlotter
            FakePlotter.made.clear()
            kw.pop('show_cbar', None)
            try:
                image = o.plot_3d(colorbar=st['cbar'] == 'yes', level_of_detail=st['lod'], **kw)
            finally:
                pv.Plotter = real
            (mesh, scalars), = FakePlotter.made[0].meshes
            points = np.asarray(mesh.points, float)
            e['points'] = [[enc(v) for v in p] for p in points]
            values = np.asarray(mesh[scalars], float)
            e['scalars'] = bool(values.shape == (len(points),) and np.allclose(values, points[:, 2], equal_nan=True) and image is not None)
        if ax is not None:
            e['place'] = bool(fig is ax.figure and (fig is fig0 if given is not None else fig.number not in figs) and (given is None or op == 'angular' or ax is given) and
                              (given is None or (where(ax) == place and beside == [len(a.findobj()) for a in axs] and all(a in fig0.axes for a in (ax, *axs)))))
            e['xl'], e['yl'] = ax.get_xlabel(), ax.get_ylabel()
        if ax is not None and ax.images:
            im, = ax.images
            e['img'] = flat(im.get_array())
            e['origin'] = im.origin
            e['ext'] = [(enc5 if op == 'fourier' else enc)(v) for v in im.get_extent()]
            e['clim'] = [enc(v) for v in im.get_clim()]
            e['cmap'] = im.cmap.name
            import matplotlib.colors as mc
            bad = im.cmap.get_bad()
            e['bad'] = next((i + 1 for i, x in enumerate(COLOURS) if np.allclose(mc.to_rgba(x), bad)), 0)
            e['legend'] = ax.get_legend() is not None
            e['bar'] = 'none' if im.colorbar is None else im.colorbar.ax.get_ylabel()
            remember(pictures, lambda: [np.ma.filled(np.ma.asarray(im.get_array()).astype(float), np.nan), im.get_extent(), im.get_clim(), im.cmap.get_bad(), im.cmap(0.3), ax.get_xlim(), ax.get_ylim(), len(ax.findobj())])
        elif op == 'plot2d':
            ln, = ax.lines
            x, y = ln.get_data()
            e.update(xs=[enc(v) for v in x], ys=[enc(v) for v in y], xlim=[enc(v) for v in ax.get_xlim()])
            remember(pictures, lambda: [ln.get_xydata(), ax.get_xlim(), ax.get_ylim(), len(ax.findobj())])
        elif op == 'curve':
            e['barsat'] = [[enc(p.get_y()), enc(p.get_height()), enc(p.get_width())] for p in ax.patches]
            # the unit of the curve is drawn by the second axes, the heights are shared
            ln = ax2.lines[0]
            e['xl2'] = ax2.get_xlabel()
            e['curve'] = line_is_curve(ln.get_xydata(), fresh, letter)
            e['lims'] = [enc(v) for v in (*ax2.get_xlim(), *ax2.get_ylim())]
            remember(pictures, lambda: [ln.get_xydata(), ax2.get_xlim(), ax2.get_ylim(), len(ax.findobj())])
        elif op == 'study':
            e.update(pk=num(letter + 'pk'), vk=num(letter + 'vk'), mr1=num(letter + 'mr1'), mr2=num(letter + 'mr2'), pkx=num(letter + 'pkx'), vkx=num(letter + 'vkx'))
            e['poly'] = [[[enc(v) for v in p] for p in q.get_xy()] for q in ax.patches]
            lines = [ln.get_xydata() for ln in ax.lines]
            e['lines'] = [[[enc(v) for v in x[0]], [enc(v) for v in x[-1]]] for x in lines if 2 < len(x) < 10000]
            marks = [[[enc(v) for v in p] for p in x] for x in lines if len(x) == 2]
            e['upright'] = [m for m in marks if m[0][0] == m[1][0]]
            e['levels'] = [m[0][1] for m in marks if m[0][0] != m[1][0] and m[0][1] == m[1][1]]
            e['curve'] = any(line_is_curve(x, fresh, letter) for x in lines if len(x) > 99)
            e['lims'] = [enc(v) for v in (*ax.get_xlim(), *ax.get_ylim())]
            remember(pictures, lambda: [*(q.get_xy() for q in ax.patches), *(x.get_xydata() for x in ax.lines), ax.get_xlim(), ax.get_ylim(), len(ax.findobj())])
        elif op == 'angular':
            x, y = ax.lines[0].get_data()
            angles, spectrum = fresh.get_fourier_transform().angular_power_spectrum(st['step'])
            e['curve'] = bool(np.allclose(x, np.deg2rad(angles)) and np.allclose(y, spectrum) and ax.name == 'polar' and abs(np.rad2deg(ax.get_xlim()[0])) < 1e-9 and
                              abs(np.rad2deg(ax.get_xlim()[1]) - 180) < 1e-9 and ax.get_theta_direction() == 1 and abs(np.sin(ax.get_theta_offset() / 2)) < 1e-9)
    except lib.MachineryError:
        raise
    except Exception as x:
        e['err'] = type(x).__name__
        e['message'] = repr(x)[:300]
    e['figs'] = len(set(plt.get_fignums()) - figs)
    e['others'] = len(other.findobj()) == count
    e['saved'] = file.exists() and file.stat().st_size > 100 and file.read_bytes()[:4] == b'\x89PNG'
    e['unchanged'] = bool(np.array_equal(before, o.data, equal_nan=True) and (o.step_x, o.step_y) == (fresh.step_x, fresh.step_y) if s else np.array_equal(before, o.data, equal_nan=True))
    e['earlier'] = as_drawn(pictures)
    return e


def run(c):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    wd = pathlib.Path(tempfile.mkdtemp(prefix='disp_'))
    try:
        o = build(c)
        events, pictures = [{'op': 'new', 'g': c['g'], 'wave': c['wave'], 'k': c['k']}], []
        for st in c['prog']:
            events.append(draw(c, dict(st), o, wd, pictures))
        return events
    finally:
        plt.close('all')
        shutil.rmtree(wd, ignore_errors=True)


def check(pid):
    rep = lib.Report(pid)
    n = SIZES[lib.THOROUGH]
    with lib.Scratch() as wd:
        r = lib.tlc('Displays', 'SPECIFICATION GenSpec\nCHECK_DEADLOCK FALSE\n', wd, workers=1, args=('-simulate', f'num={n}', '-depth', 3, '-seed', lib.SEED))
        rep.tlc(r)
        cases = r['emitted']
        if len(cases) < 0.8 * n:
            raise lib.MachineryError('too few cases generated')
        traces = lib.pool_map(run, cases, chunksize=4)
        for i in range(0, len(traces), 3000):
            rejects, st, tr = lib.validate_traces('Displays', traces[i:i + 3000], wd, workers=8)
            rep.add(states=st, transitions=tr)
            for j in rejects:
                tr_ = traces[i + j['t'] - 1]
                e = tr_[j['l'] - 1]
                for b in j['bad']:
                    rep.violation(b, {'request': {k: v for k, v in e.items() if k not in ('img', 'points', 'layers', 'xs', 'ys', 'barsat')}, 'topography': tr_[0]['g'], 'wave': tr_[0]['wave'],
                                      'picture': e.get('img') or e.get('ys') or e.get('barsat') or ''})
    ops = [e['op'] for t in traces for e in t[1:]]
    for x in ('plot2d', 'curve', 'study', 'edit', 'acf', 'fourier', 'angular', 'solid'):
        k = sum(y == x for y in ops)
        rep.add(**{f'displays_{x}': k})
        if not k:
            raise lib.MachineryError(f'no display of the kind {x}')
    rep.add(traces_validated_against_impl=len(traces), displays=len(ops), saved=sum(bool(e.get('saved')) for t in traces for e in t[1:]), refused=sum(e.get('err') == 'ValueError' for t in traces for e in t[1:]))
    rep.sample({k: cases[0][k] for k in ('k', 'g', 'prog')})
    rep.assumptions = ['pictures are observed as the artists of matplotlib and as the mesh given to the renderer, not as pixels', 'the image of the renderer is a stand-in, since there is no display here',
                       'a class boundary of the bars may be rounded either way']
    return rep
