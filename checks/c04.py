"""C04: process-wide settings are the caller's; no call leaves them changed."""
import builtins
import decimal
import gc
import hashlib
import io
import json
import locale
import logging
import os
import random
import signal
import sys
import warnings

import numpy as np

from checks import c08, c11
from sim import build, core, corpus, refs, sched


# ------------------------------------------------------------------ the settings
def h(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]


def settings():
    import mpmath
    import scipy.special
    st = np.random.get_state()
    um = os.umask(0)
    os.umask(um)
    out = {
        'working directory': os.getcwd(),
        'numpy print options': repr(sorted(np.get_printoptions().items(), key=str)),
        'numpy error settings': repr(sorted(np.geterr().items())) + repr(np.geterrcall()),
        'numpy buffer size': np.getbufsize(),
        'numpy array formatting': str(np.arange(2.0)) + repr(np.arange(2.0)) +
        str(np.array([[1, 2], [3, 4]])),
        'scipy.special error settings': repr(sorted(scipy.special.geterr().items())),
        'numpy random generator': h([st[0], st[1].tolist()] + list(st[2:])),
        'random generator': h(random.getstate()),
        'warning filters': repr([f for f in warnings.filters]),
        'warning display': repr([id(warnings.showwarning), id(warnings.formatwarning)]),
        'logging level': repr([logging.getLogger().level, logging.root.manager.disable,
                               logging.raiseExceptions]),
        'recursion limit': sys.getrecursionlimit(),
        'thread switch interval': sys.getswitchinterval(),
        'locale': repr([locale.setlocale(c, None) for c in (
            locale.LC_CTYPE, locale.LC_NUMERIC, locale.LC_TIME, locale.LC_COLLATE)]),
        'multiprecision settings': repr([mpmath.mp.dps, mpmath.mp.prec, mpmath.mp.pretty,
                                         mpmath.iv.prec]),
        'decimal context': repr(decimal.getcontext()),
        'standard streams': repr([id(sys.stdout), id(sys.stderr), id(sys.stdin)]),
        'command line': repr(sys.argv),
        'import path': repr(sys.path),
        'hooks': repr([id(sys.excepthook), id(sys.displayhook), id(sys.settrace)]),
        'environment': repr(sorted(os.environ.items())),
        'signal handlers': repr([signal.getsignal(s) for s in (
            signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGHUP, signal.SIGUSR1)]),
        'garbage collector': repr([gc.isenabled(), gc.get_threshold()]),
        'file mode mask': um,
        'builtin open': repr(id(builtins.open)),
    }
    if 'pandas' in sys.modules:
        import pandas
        out['pandas options'] = repr([pandas.get_option(o) for o in (
            'display.precision', 'display.max_rows', 'display.max_columns', 'display.width',
            'display.float_format', 'mode.chained_assignment')])
    return out


NPERR = ('ignore', 'warn', 'raise')


def profile(rng):
    """Settings the caller may have made."""
    p = {'seed': rng.randrange(1000)}
    if rng.random() < 0.6:
        p['seterr'] = [rng.choice(NPERR) for _ in range(4)]
    if rng.random() < 0.6:
        p['print'] = {'precision': rng.choice([2, 5, 12]), 'threshold': rng.choice([3, 2000]),
                      'linewidth': rng.choice([40, 120]), 'suppress': rng.random() < 0.5,
                      'edgeitems': rng.choice([1, 3])}
    if rng.random() < 0.5:
        p['warn'] = rng.choice(['ignore', 'error', 'always', 'once'])
    if rng.random() < 0.6:
        p['log'] = rng.choice([5, 10, 35, 50])
    if rng.random() < 0.4:
        p['disable'] = rng.choice([10, 20])
    if rng.random() < 0.5:
        p['recursion'] = rng.choice([1777, 4321])
    if rng.random() < 0.5:
        p['dps'] = rng.choice([12, 22])
    if rng.random() < 0.3:
        p['decimal'] = rng.choice([9, 40])
    if rng.random() < 0.3:
        p['special'] = rng.choice(['raise', 'warn'])
    if rng.random() < 0.3:
        p['buf'] = 4096
    if rng.random() < 0.3:
        p['locale'] = 'C.UTF-8'
    return p


def on_signal(*a):
    pass


def apply(p, where):
    import mpmath
    import scipy.special
    os.chdir(where)
    random.seed(p['seed'])
    np.random.seed(p['seed'])
    signal.signal(signal.SIGALRM, on_signal)
    os.environ['GEOTECHA_SIM'] = str(p['seed'])
    if 'seterr' in p:
        np.seterr(**dict(zip(('divide', 'over', 'under', 'invalid'), p['seterr'])))
    if 'print' in p:
        np.set_printoptions(**p['print'])
    if 'warn' in p:
        warnings.simplefilter(p['warn'])
        warnings.filterwarnings('ignore', message='simulated caller')
    if 'log' in p:
        logging.getLogger().setLevel(p['log'])
    if 'disable' in p:
        logging.disable(p['disable'])
    if 'recursion' in p:
        sys.setrecursionlimit(p['recursion'])
    if 'dps' in p:
        mpmath.mp.dps = p['dps']
    if 'decimal' in p:
        decimal.getcontext().prec = p['decimal']
    if 'special' in p:
        scipy.special.seterr(singular=p['special'])
    if 'buf' in p:
        np.setbufsize(p['buf'])
    if 'locale' in p:
        try:
            locale.setlocale(locale.LC_ALL, p['locale'])
        except locale.Error:
            pass


# ------------------------------------------------------------------ failing system calls
class FS:
    """Counts the file-system calls and fails the chosen one (and those after it)."""
    NAMES = ('mkdir', 'makedirs', 'listdir', 'rename', 'replace', 'remove', 'rmdir', 'scandir')

    def __init__(self):
        self.n = 0
        self.at = None
        self.only = True
        self.fired = 0
        self.exc = None
        self.open = builtins.open
        fs = self

        class File(io.TextIOWrapper):
            def write(self, s):
                fs.point('write')
                return super().write(s)
        self.File = File

    def point(self, what):
        self.n += 1
        if self.at is not None and (self.n == self.at or (not self.only and self.n > self.at)):
            self.fired += 1
            raise self.exc()

    def install(self, top):
        real = self.open

        def opened(file, mode='r', *a, **k):
            p = file if isinstance(file, str) else os.fspath(file) \
                if hasattr(file, '__fspath__') else ''
            if not p or os.path.isabs(p) and not p.startswith(top):
                return real(file, mode, *a, **k)
            self.point('open')
            if 'b' not in mode and any(c in mode for c in 'wax+'):
                raw = real(file, mode.replace('t', '') + 'b')
                k.pop('buffering', None)
                return self.File(raw, encoding=k.get('encoding') or 'utf-8',
                                 newline=k.get('newline'))
            return real(file, mode, *a, **k)
        builtins.open = opened
        io.open = opened
        for n in self.NAMES:
            f = getattr(os, n)

            def call(*a, _f=f, _n=n, **k):
                if a and isinstance(a[0], str) and os.path.isabs(a[0]) and \
                        not a[0].startswith(top):
                    return _f(*a, **k)
                self.point(_n)
                return _f(*a, **k)
            setattr(os, n, call)


FSEXC = {'ENOSPC': lambda: OSError(28, 'No space left on device'),
         'EACCES': lambda: PermissionError(13, 'Permission denied'),
         'EIO': lambda: OSError(5, 'Input/output error'),
         'KeyboardInterrupt': lambda: KeyboardInterrupt('user'),
         'MemoryError': lambda: MemoryError()}


# ------------------------------------------------------------------ scenarios
class Broken:
    """A value of the user's that cannot be used."""

    def __init__(self, how, st):
        self.how = how
        self.st = st

    def fail(self, *a, **k):
        self.st['fired'] = self.st.get('fired', 0) + 1
        raise c11.EXCS[self.how]()
    __repr__ = __str__ = __format__ = __array__ = __float__ = __len__ = __getitem__ = fail
    __iter__ = __call__ = __add__ = __mul__ = __lt__ = __gt__ = __eq__ = __bool__ = fail
    __hash__ = object.__hash__


def pl(x, y):
    return corpus.dec({'P': [x, y]})


def fig_close():
    import matplotlib.pyplot as plt
    plt.close('all')


def p_vs_time(env, a):
    from geotecha.plotting import one_d
    t = np.linspace(0.1, 10, 7)
    y = np.cumsum(np.ones((7, 3)), axis=0) * [1, 2, 3]
    one_d.plot_vs_time(t, y, line_labels=['a', 'b', 'c'],
                       prop_dict=env.props({'legend_prop': {'fontsize': 7}, 'has_legend': True,
                                            'xlabel': 'days', 'ylabel': env.user('y')}, a))


def p_vs_depth(env, a):
    from geotecha.plotting import one_d
    z = np.linspace(0, 1, 6)
    x = np.outer(z, [1.0, 2, 3, 4])
    one_d.plot_vs_depth(x, z, line_labels=['a', 'b', 'c', 'd'], H=2.0,
                        RLzero=3.0 if a % 2 else None,
                        prop_dict=env.props({'has_legend': bool(a % 3), 'time_units': 'd',
                                             'xlabel': env.user('u')}, a))


def p_loads(env, a):
    from geotecha.plotting import one_d
    tr = [[(pl([0, 0, 10], [0, 100, 100]), pl([0, 1], [1, 1]), None)],
          [(pl([0, 2, 10], [0, 50, 20]), pl([0, 0.4, 1], [1, 1, 0.5]), (0.3, 0.4)),
           (pl([0, 3, 10], [0, 5, 2]), ([0, 1.0], [2, 3.0]), None)]]
    one_d.plot_generic_loads(tr, load_names=['surch', 'vac'], ylabels=[env.user('q'), 'w'],
                             trange=[None, (0, 20)][a % 2],
                             prop_dict=env.props({'has_legend': True}, a))


def p_material(env, a):
    from geotecha.plotting import one_d
    one_d.plot_single_material_vs_depth(
        (pl([0, 1], [1, 2]), pl([0, 0.5, 1], [4, 2, 3])), [env.user('kv'), 'mv'], H=3.0,
        RLzero=[None, 2.0][a % 2], prop_dict=env.props({}, a))


def p_markevery(env, a):
    from geotecha.plotting import one_d
    import matplotlib.pyplot as plt
    f = plt.figure()
    ax = f.add_subplot(111)
    lines = ax.plot(np.arange(30).reshape(10, 3))
    one_d.apply_markevery_to_sequence_of_lines(
        list(lines) + ([Broken(env.exc, env.st)] if env.fail else []),
        markevery=[None, 3, 0.2, 2][a % 4],
        random_start=a % 5 != 4, seed=[1, 77][a % 2])


def p_grid(env, a):
    from geotecha.plotting import one_d
    import matplotlib
    import matplotlib.pyplot as plt
    f = plt.figure()
    gs = matplotlib.gridspec.GridSpec(2, 2)
    d = [[([1, 2, 3], [3, 4, env.user(5)])], [([1, 2], [3, 1], {'plot_type': 'scatter'})],
         [([2, 3], [4, 5])]]
    one_d.plot_data_in_grid(f, d, gs, sharex=[None, 0, None])
    one_d.xylabel_subplots(f, ['a', 'b', 'c'], ['x', env.user('y'), 'z'])


def p_styles(env, a):
    from geotecha.plotting import one_d
    m = one_d.MarkersDashesColors(color=(0.5, 0, 0), markersize=5)
    m.color = (0.3, 0.2, 0)
    m.default_marker = {'markersize': 5, 'markeredgecolor': (0.1, 0.2, 0.3)}
    m.construct_styles(markers=[0, 3, 5], marker_colors=[0, 1], dashes=[0, 2],
                       line_colors=[0, 1])
    m(markers=[1, 2], dashes=[0, env.user(1)])
    m.demo_styles()
    if a % 3 == 0:
        m.demo_options()


def p_save(env, a):
    from geotecha.plotting import one_d
    import matplotlib.pyplot as plt
    f = one_d.figure_from_source_code([corpus.cb_poly, p_vs_time][a % 2])
    one_d.save_figure(f, fname=env.user('fig%d' % a), ext=[['png'], ['pdf'], ['png', 'svg']][a % 3],
                      dpi=40)
    plt.close(f)


def p_shades(env, a):
    from geotecha.plotting import one_d
    one_d.rgb_shade((0.3, 0.2, env.user(0.1)), factor=0.7)
    one_d.rgb_tint((30, 20, 10), factor=0.2, scaled=False)
    one_d.copy_dict({'a': 1, 'b': {'c': 2}}, {'b': env.user(4)})
    one_d.row_major_order_reverse_map((3, 4), index_steps=(1, -1), transpose=bool(a % 2))


def io_strings(env, a):
    from geotecha.inputoutput import inputoutput as m
    o = c11_obj(a=np.linspace(0, 1, 4), b=pl([0, 1], [2, 3]), c='text', d=None, e=[1, 2, 3],
                f=env.user(np.ones((2, 2))), g=np.arange(2000))
    m.string_of_object_attributes(o, 'a b c d e f g h'.split(), none_at_bottom=bool(a % 2),
                                  numpy_array_prefix=['np.', 'numpy.', None][a % 3])


def c11_obj(**k):
    o = type('Obj', (), {})()
    o.__dict__.update(k)
    return o


def io_array_prefix(env, a):
    from geotecha.inputoutput import inputoutput as m
    q = m.PrefixNumpyArrayString('np.')
    q.turn_on()
    str(np.arange(3))
    q.turn_off()


def io_module(env, a):
    from geotecha.inputoutput import inputoutput as m
    texts = ['a = np.linspace(0, 1, 4)\nb = np.array([1, 2]) * 2\nc = sum([1, 2])\n',
             'a = 4\nb = a +\n', 'import os\nos.chdir("/")\n', 'a = 1 / 0\n',
             'a = "np.seterr"\n', 'a = [i for i in range(4)]\n',
             'a = [np.ones(2), None]\n', 'a = np.log(np.array([0.0, -1]))\n']
    s = m.SyntaxChecker(['ast', 'builtin', 'numpy', 'PolyLine'])
    m.make_module_from_text(texts[a % len(texts)], syntax_checker=s)


def io_copy(env, a):
    from geotecha.inputoutput import inputoutput as m
    o = c11_obj()
    f = env.file('a = 3\nb = 4\nc = np.array([1, 2.0])\n')
    m.copy_attributes_from_text_to_object(
        f, ['a', 'b', 'c', 'd'], ['a', 'c'], defaults={'d': 5}, not_found_value=None,
        syntax_checker=m.SyntaxChecker(['ast', 'builtin', 'numpy']))
    m.initialize_objects_attributes(o, ['a', 'b'], defaults={'a': 1}, not_found_value=None)
    m.code_for_explicit_attribute_initialization('a b'.split(), {'a': env.user(3)})
    m.fcode_one_large_expr(env.sym(), prepend='a[0] = ')
    m.object_members(np, 'function')


def io_checks(env, a):
    from geotecha.inputoutput import inputoutput as m
    o = c11_obj(a=[pl([0, 1], [1, 2]), pl([0, 2], [1, 2])], b=[1, 2], c=4, d=None, e=[1])
    for f in (lambda: m.check_attribute_is_list(o, ['b', 'c'], force_list=bool(a % 2)),
              lambda: m.check_attribute_pairs_have_equal_length(o, [['a', 'b'], ['b', 'e']]),
              lambda: m.check_attribute_combinations(o, zero_or_all=[['a', 'd']]),
              lambda: m.check_attribute_PolyLines_have_same_x_limits(o, [['a']]),
              lambda: m.force_attribute_same_len_if_none(o, [['b', 'd']], value=env.user(None))):
        try:
            f()
        except (ValueError, TypeError):
            pass


def io_grid(env, a):
    from geotecha.inputoutput import inputoutput as m
    d = [{'data': np.arange(6.0).reshape(2, 3), 'name': 'one', 'header': 'head',
          'row_labels': [1, 2], 'row_labels_label': 'r', 'column_labels': ['a', 'b', 'c'],
          'df_kwargs': {}}, {'data': env.user(np.ones((2, 2))), 'name': 'two'}]
    m.save_grid_data_to_file(d, directory=env.where, file_stem='out_%03d' % a,
                             create_directory=bool(a % 2), ext='.csv')


def io_stem(env, a):
    from geotecha.inputoutput import inputoutput as m
    m.next_output_stem('out_', path=env.where, overwrite=bool(a % 2))
    m.make_array_into_dataframe(np.arange(6).reshape(2, 3), column_labels=['a', env.user('b'), 'c'])
    m.hms_string(3661.2)
    m.modules_in_package('geotecha')
    t = m.SimpleTimer()
    t.start(0, 'timed')
    t.finish(0)


def io_wd(env, a):
    from geotecha.inputoutput import inputoutput as m
    os.makedirs('sub/deep', exist_ok=True)
    with m.working_directory('sub'):
        env.call('in')
        if a % 2:
            with m.working_directory('deep'):
                env.call('deeper')
        elif a % 3 == 0:
            with m.working_directory('nowhere'):
                pass


def io_main(env, a):
    from geotecha.inputoutput import inputoutput as m
    os.makedirs('in', exist_ok=True)
    names = []
    for i in range(1 + a % 3):
        names.append(os.path.join('in', 'f%d.py' % i))
        with env.fs.open(names[-1], 'w') as f:
            f.write(['a = 1\n', 'a = (\n', 'a = np.ones(3)\n'][(a + i) % 3])

    def process(f):
        env.call('process')
        if a % 4 == 1:
            os.chdir('/')
        if a % 4 == 3 and not env.st.get('nested'):
            env.st['nested'] = 1
            run(['-f', os.path.abspath('f0.py')])
        return c11_obj(go=lambda *x: env.call('method'))

    def run(argv):
        m.GenericInputFileArgParser(process, pass_open_file=bool(a % 2),
                                    methods=[('go', [], {})]).main(argv=argv)
    if a % 5 == 0:
        run(['-d', 'in', '-p', '*.py'])
    elif a % 5 == 4:
        run(['-f', 'in/nothing.py'] + names)
    elif a % 7 == 6:
        run(['-d', 'in', '-f', 'x'])
    else:
        run(['-f'] + names)


def l_find(env, a):
    """Loading and checking an analysis from a file object that fails part way."""
    prog = sorted(c08.PROGS)[a % len(c08.PROGS)]
    k = c08.klass(prog)
    k(env.file(c08.deck_text(prog, 0)))


def deck_run(env, a):
    prog, i = c04_decks()[a % len(c04_decks())]
    o = c08.make(prog, i)
    o.save_data_to_file = True
    o.save_figures_to_file = bool(a % 2)
    o.overwrite = bool(a % 3)
    o.create_directory = bool(a % 5)
    o.directory = env.where
    o.show_figures = False
    if env.fail and hasattr(o, '_attributes'):
        o.author = env.user('a')
        if a % 7 < 3:
            o.title = env.user('t')
    o.check_all() if a % 11 == 0 and hasattr(o, 'check_all') else None
    o.make_all()
    fig_close()


_decks = []


def c04_decks():
    if not _decks:
        for prog in sorted(c08.PROGS):
            n = 0
            for i in range(len(c08.texts(prog))):
                if i not in c08.LONG.get(prog, ()):
                    _decks.append((prog, i))
                    n += 1
                    if n >= 6:
                        break
    return _decks


SCENES = {f.__name__: f for f in (
    p_vs_time, p_vs_depth, p_loads, p_material, p_markevery, p_grid, p_styles, p_save, p_shades,
    io_strings, io_array_prefix, io_module, io_copy, io_checks, io_grid, io_stem, io_wd, io_main,
    l_find, deck_run)}
# symbolic integration draws random numbers inside sympy
SYMBOLIC = ('integrate_f_over_polygon_code', 'generate_code', 'io_copy')
CHDIR = ('io_wd', 'io_main')                 # the working directory is one for all threads


class Env:
    """What a scenario's user functions, values and files do in this run."""

    def __init__(self, op, where, fs):
        self.where = where
        self.fs = fs
        self.fail = op.get('fail')
        self.exc = op.get('exc') or 'Boom'
        self.st = {}
        self.n = 0

    def hit(self):
        self.n += 1
        return self.fail is not None and self.n == self.fail

    def user(self, v):
        return Broken(self.exc, self.st) if self.hit() else v

    def props(self, d, a):
        if self.hit():
            d['styles'] = [{'marker': 'o'}, Broken(self.exc, self.st)]
        if a % 3 == 1:
            d['fig_prop'] = {'figsize': (3, 2)}
        return d

    def call(self, what):
        if self.hit():
            self.st['fired'] = 1
            raise c11.EXCS[self.exc]()

    def sym(self):
        import sympy
        x, y = sympy.symbols('x y')
        return sympy.sin(x) ** 2 + y * sympy.cos(x)

    def file(self, text):
        env = self

        class F(io.StringIO):
            def read(self, *a):
                env.call('read')
                return super().read(*a)

            def __iter__(self):
                return iter(self.readlines())

            def readline(self, *a):
                env.call('readline')
                return super().readline(*a)

            def readlines(self, *a):
                env.call('readlines')
                return super().readlines(*a)
        return F(text)


BASE = ('Halt', 'KeyboardInterrupt', 'SystemExit')


def exc(rng):
    return rng.choice(BASE if rng.random() < 0.4 else sorted(c11.EXCS))


class CHECK(core.Check):
    prop = 'C04'
    need_ext = True
    run_timeout = 60
    quick = (2600, 60)
    thorough = (150000, 1200)
    rule = ('event logs (calls, faults that fired, outcomes, preemptions) that differ from one '
            'another; a state is a (routine or scenario, kind of failure)')
    real = ['every public calculation in sim/calls.json and sim/corpus.py', 'all plotting helpers',
            'loading, checking, running, plotting and saving of the six staged programs',
            'the file runner', 'numpy, scipy, matplotlib, pandas, logging, warnings, random']
    stub = ['user functions and values that fail', 'file-system calls that fail',
            'thread scheduling']
    assumptions = ['the caller\'s settings are made before and compared after calls; what other '
                   'threads see in between is not judged',
                   'Talbot with dps= sets the multiprecision digits on purpose and is left out, '
                   'so are the plot styles (rcParams), which producing plots sets on purpose']

    def prepare(self, tier, seed):
        core.drop_scratch()
        core.scratch()
        sched.install_locks(build.REPO)
        corpus.preload()
        import pandas                                                  # noqa: F401
        import matplotlib.backends.backend_pdf                         # noqa: F401
        import matplotlib.backends.backend_svg                         # noqa: F401
        import scipy.integrate, scipy.optimize, scipy.interpolate      # noqa: F401,E401
        self.cases = [c for c in corpus.cases() if 'dps' not in json.dumps(c)]
        self.cb = [c for c in c11.hand() + self.cases if c11.has_cb(c)]
        names = {}
        for c in self.cases:
            names.setdefault(corpus.name_of(c), []).append(c)
        self.names = names
        self.order = sorted(names)
        self.warm(SCENES)
        self.scenes = sorted(SCENES) + ['io_main', 'io_wd', 'io_main', 'deck_run', 'io_strings']

    def warm(self, scenes):
        """First use of matplotlib's fonts, pandas and the like, outside the runs."""
        d = os.path.join(core.SHARED, 'warm')
        os.makedirs(d, exist_ok=True)
        here = os.getcwd()
        saved = [sys.stdout, sys.stderr]
        keep = settings()
        try:
            os.chdir(d)
            refs.quiet()
            sys.stderr = sys.stdout

            def go():
                bad = {}
                fs = FS()
                for n in sorted(scenes):
                    try:
                        SCENES[n](Env({}, d, fs), 0)
                    except Exception as e:
                        bad[n] = repr(e)
                return bad
            self.warmed = core.forked(go, 120)
            import matplotlib.pyplot as plt
            f = plt.figure()
            f.text(0.1, 0.1, 'x')
            f.savefig(os.path.join(d, 'w.png'))
            f.savefig(os.path.join(d, 'w.pdf'))
            f.savefig(os.path.join(d, 'w.svg'))
            plt.close('all')
            pandas = sys.modules['pandas']
            pandas.DataFrame(np.ones((2, 2))).to_csv(os.path.join(d, 'w.csv'))
        finally:
            sys.stdout, sys.stderr = saved
            os.chdir(here)
            del keep

    # ---------------------------------------------------------------- plans
    def op(self, rng, index, threads):
        r = rng.random()
        if r < 0.45:
            n = self.scenes[index % len(self.scenes)] if index >= 0 and rng.random() < 0.8 \
                else rng.choice(self.scenes)
            if threads and n in CHDIR:
                n = 'io_strings'
            op = {'k': 'scene', 'n': n, 'a': rng.randrange(60)}
            if rng.random() < 0.55:
                op.update(fail=rng.randint(1, 4), exc=exc(rng))
            if rng.random() < 0.5 and not threads:
                op.update(fs=rng.choice([1, 2, 3, rng.randint(1, 40)]),
                          fsexc=rng.choice(sorted(FSEXC)), only=rng.random() < 0.6)
            return op
        if r < 0.62:
            return {'k': 'cb', 'c': rng.choice(self.cb), 'at': rng.choice([1, 2, 3, rng.randint(
                1, 60)]), 'exc': exc(rng)}
        n = self.order[(index * 7919) % len(self.order)] if index >= 0 and rng.random() < 0.7 \
            else rng.choice(self.order)
        c = rng.choice(self.names[n])
        if rng.random() < 0.35:
            c = corpus.neighbour(rng, c) or c
        op = {'k': 'call', 'c': c}
        if rng.random() < 0.5:
            op['bad'] = [round(rng.random(), 6), exc(rng)]
        return op

    def generate(self, rng, index, tier):
        threads = rng.random() < 0.15
        nt = 2 if threads else 1
        tasks = [[self.op(rng, index if i == t == 0 else -1, threads)
                  for i in range(rng.randint(1, 3))] for t in range(nt)]
        sw = []
        if threads:
            sw = sorted([round(rng.random(), 6), rng.randrange(4)]
                        for _ in range(rng.choice([1, 2, 3, 5, 9])))
        return {'p': profile(rng), 'tasks': tasks, 'sw': sw,
                '_shrink': ['tasks', 'tasks.0', 'tasks.1', 'sw']}

    # ---------------------------------------------------------------- execution
    def execute(self, plan):
        run = core.Run()
        sys.stdout = sys.stderr = open(os.devnull, 'w')
        where = os.path.join(core.SCRATCH, 'c04-%d' % os.getpid())
        os.makedirs(where)
        logging.getLogger().handlers[:] = [logging.NullHandler()]
        log = run.log
        many = len(plan['tasks']) > 1
        fs = FS()
        fs.install(where)
        apply(plan['p'], where)
        start = settings()

        def compare(what):
            now = settings()
            for k in sorted(start):
                if k in now and now[k] != start[k]:
                    if k == 'random generator' and any(q in what for q in SYMBOLIC):
                        start[k] = now[k]
                        continue
                    run.bad('setting changed: ' + k, '%s is %s after %s, it was %s' % (
                        k, str(now[k])[:200], what, str(start[k])[:200]))
            return now

        def one(op):
            st = {'n': 0}
            if op['k'] == 'scene':
                what = op['n']
                env = Env(op, where, fs)
                env.st = st
                if 'fs' in op:
                    fs.n, fs.at, fs.only, fs.fired = 0, op['fs'], op['only'], 0
                    fs.exc = FSEXC[op['fsexc']]
                try:
                    SCENES[op['n']](env, op['a'])
                    out = 'ok'
                except core_errors():
                    raise
                except BaseException as e:
                    out = type(e).__name__
                finally:
                    fs.at = None
                if fs.fired:
                    run.fault('file-system call fails with ' + op.get('fsexc', ''))
                    what += ' with a file-system call that failed'
                    fs.fired = 0
                if st.get('fired'):
                    run.fault('user value or function fails')
                    what += ' with a user value that raises %s' % env.exc
            else:
                c = op['c']
                what = corpus.name_of(c)
                if op['k'] == 'cb':
                    def wrap(f):
                        def user(*a, **k):
                            st['n'] += 1
                            if st['n'] == op['at']:
                                run.fault('user function raises ' + op['exc'])
                                st['fired'] = 1
                                raise c11.EXCS[op['exc']]()
                            return f(*a, **k)
                        return user
                    what += ' with a user function that raises'
                else:
                    wrap = None
                try:
                    f, a, k = corpus.prepare(c, wrap=wrap)
                    if 'bad' in op and (a or k):
                        slots = [(a, i) for i in range(len(a))] + [(k, q) for q in sorted(k)]
                        s, i = slots[int(op['bad'][0] * len(slots))]
                        s[i] = Broken(op['bad'][1], st)
                        what += ' with an argument that fails'
                    f(*a, **k)
                    out = 'ok'
                except core_errors():
                    raise
                except BaseException as e:
                    out = type(e).__name__
                if st.get('fired') and 'bad' in op:
                    run.fault('argument raises')
            run.ops += 1
            run.states.append('%s/%s' % (what[:80], out == 'ok'))
            log.append('%s %s' % (what, out))
            return '%s (%s)' % (what, out)

        if many:
            done = []

            def body(ops):
                def go():
                    for op in ops:
                        done.append(one(op))
                return go
            total = 3000 * sum(len(t) for t in plan['tasks'])
            s = sched.Sched([[1 + int(f * total), x] for f, x in plan['sw']],
                            max_steps=6000000, trace_files=refs.TRACE)
            for i, ops in enumerate(plan['tasks']):
                s.spawn('t%d' % i, body(ops), trace=True)
            try:
                s.run()
            except sched.SimBudget:
                return run
            run.steps += s.step
            for t in s.tasks:
                if t.exc is not None:
                    raise t.exc
            for a, b, c in s.preemptions:
                run.fault('thread switch')
                log.append('switch %d %d %d' % (a, b, c))
            compare('%s in two threads' % ', '.join(done))
        else:
            for op in plan['tasks'][0] if plan['tasks'] else []:
                compare(one(op))
                if run.violation:
                    break
        import shutil
        os.chdir('/')
        shutil.rmtree(where, ignore_errors=True)
        return run

    def sample(self, plan):
        return {'caller': plan['p'], 'switches': plan['sw'], 'tasks': [
            [{k: (corpus.name_of(v) if k == 'c' else v) for k, v in op.items()} for op in t]
            for t in plan['tasks']]}


def core_errors():
    return (sched.SimDeadlock, sched.SimBudget, sched.SimAbort, sched.SimCrash)
