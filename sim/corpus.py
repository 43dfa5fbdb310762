"""Calls of the public API used by the checks: recorded from the repository's own tests
(calls.json, decks.json) and written by hand (HAND), as plain JSON that is decoded into
fresh arguments each time; neighbours of a call (one value changed); and results in a
form that can be stored and compared.
"""
import copy
import importlib
import inspect
import json
import math
import os

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))


# ------------------------------------------------------------------ user functions
def cb_poly(x, *a):
    return x * x - 2.0 * x + 0.5 + sum(a)


def cb_sin(x, *a):
    return np.sin(x)


def cb_decay(x, *a):
    return np.exp(-(a[0] if a else 1.0) * np.asarray(x, dtype=float))


def cb_gauss(x, *a):
    return np.exp(-np.asarray(x, dtype=float) ** 2)


def cb_gauss2(x, y, *a):
    return np.exp(-np.asarray(x, dtype=float) ** 2 - np.asarray(y, dtype=float) ** 2)


def cb_lap(s, *a):
    return 1.0 / (s + (a[0] if a else 1.0))


def cb_lap_cplx(s, *a):
    return complex(1.0 / (s + (a[0] if a else 1.0)))


def cb_fixed(x, *a):
    return math.sqrt((a[0] if a else 10.0) / (x + (a[1] if len(a) > 1 else 3.0)))


def cb_hankel(s, *a):
    s = np.asarray(s, dtype=float)
    return np.exp(-0.5 * s * s)


def cb_osc(x, *a):
    return np.cos(5 * np.asarray(x, dtype=float)) + np.asarray(x, dtype=float) ** 3


def cb_efs(s, b=2):
    return s * b


def cb_sfe(e, b=2):
    return e / b


def cb_afs(s, b=2):
    return 5.0 * s


def cb_mu(n, s, kap):
    return np.log(n / s) + kap * np.log(s) - 0.75


def cb_char(x, *a):
    return np.tan(x) * x - 2.5 if abs(np.cos(x)) > 1e-12 else 1e9


def cb_two(x, y, a, b):
    return np.exp(-(x * a) ** 2 - (y * b) ** 2)


def cb_lf(s, x, a, c):
    return np.exp(-(x * a) ** 2) / (s + c)


CALLBACKS = {k[3:]: v for k, v in list(globals().items()) if k.startswith('cb_')}


# ------------------------------------------------------------------ scripts (several steps)
def script_beam(nterms, v, nx, BC='SS', loads=1, stationary=0):
    from geotecha.beam_on_foundation.specbeam import SpecBeam
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    kw = dict(BC=BC, nterms=nterms, E=6.998e9, I=1e-5, rho=2373, L=8.0, A=1e-3, k1=5e5, mu=64.0,
              tvals=np.linspace(0.01, 0.2, 4), xvals=np.linspace(0.5, 7.5, nx), force_calc=True)
    if loads:
        kw['moving_loads_x_norm'] = [[0.0, -0.2][:loads]]
        kw['moving_loads_Fz_norm'] = [[1.0e-4, 2e-4][:loads]]
        kw['moving_loads_v_norm'] = [v]
        kw['moving_loads_L_norm'] = [1.0]
        kw['moving_loads_t0_norm'] = [0.0]
        kw['moving_loads_x0_norm'] = [0.0]
        kw['moving_loads_offset_norm'] = [0.0]
    kw['k1bar'] = PolyLine([0, 0.5, 1], [1, 1, 2.0])
    if stationary:
        kw['stationary_loads_x'] = [2.0]
        kw['stationary_loads_vs_t'] = [PolyLine([0, 0, 10], [0, 5.0, 5.0])]
        kw['stationary_loads_omega_phase'] = [(0.0, 0.0)]
    b = SpecBeam(**kw)
    b.runme()
    return b.defl


def script_ding(nterms, v, BC):
    from geotecha.beam_on_foundation.dingetal2012 import DingEtAl2012
    b = DingEtAl2012(BC=BC, nterms=nterms, k3_norm=2.5, v_norm=v, kf=0.02, Fz_norm=1e-4,
                     mu_norm=3.9, k1_norm=9.7, E=6.9e9, I=1e-5, rho=2373, L=8.0, A=1e-3, nquad=6)
    b.calulate_qk(t_norm=np.linspace(0, 4, 5))
    return b.wofx(x_norm=0.5)


def script_yg(lam, kap, psi, e0, strain):
    from geotecha.constitutive_models.void_ratio_stress import YinAndGrahamSoilModel
    a = YinAndGrahamSoilModel(lam=lam, kap=kap, psi=psi, siga=20, ea=1, ta=1.0, e0=e0,
                              estress0=18.0)
    t = np.array([1e-4, 0.01, 1.0, 10.0, 100.0])
    one = a.CRSS(t, np.full(5, 0.3), dx=20.0, min_segments=3)
    two = a.e_from_stress(30.0, dt=2.0)
    three = a.e_from_stress(31.0, dt=1.0)
    return one, two, three


def script_epus(impl, npoint, numsr, npp, vl, assumption):
    from geotecha.constitutive_models.epus import EPUS, StressPath, CurveFittingSWCC
    w = CurveFittingSWCC(wsat=0.262, a=3.1e6, b=3.377, wr=0.128, sl=0.115)
    stp = StressPath([dict(ist=True, vl=vl, npp=npp), dict(ist=False, vl=1e6, npp=npp),
                      dict(ist=True, vl=2.5 * vl, npp=npp), dict(ist=False, vl=30, npp=npp)])
    EPUS(SimpleSWCC=w, stp=stp, logDS=0.6, logRS=2, Css=0.019, beta=0.1, Npoint=npoint,
         NumSr=numsr, Assumption=assumption, implementation=impl).Calresults()
    return [[p.ss, p.st, p.e, p.w, p.Sr, p.vw] for p in stp.datapoints]


def script_epus_profile(zw, q0, nz):
    from geotecha.constitutive_models.epus import (EPUS, StressPath, CurveFittingSWCC,
                                                   EpusProfile)
    w = CurveFittingSWCC(wsat=0.262, a=3.1e6, b=3.377, wr=0.128, sl=0.115)
    e = EPUS(SimpleSWCC=w, stp=StressPath([dict(vl=20, npp=5)]), logDS=0.6, logRS=2, Css=0.019,
             beta=0.1, NumSr=30)
    p = EpusProfile(e, H=10, zw=zw, q0=q0, nz=nz, Npoint=30, npp=5, max_iter=4, atol=0.1)
    p.calc()
    p.compression_indexes(20, 20)
    return [getattr(p.profile, v) for v in p.profile._attr]


def script_mvpl(v, L, x0):
    from geotecha.beam_on_foundation.specbeam import MovingPointLoads
    m = MovingPointLoads([0, -1.5, -4.0], [10.0, 12.0, 9.0], offset=0.2, v=v, L=L, t0=0.5, x0=x0)
    a, b = m.convert_to_specbeam()
    return a, b, m.point_loads_on_beam(1.2), m.axle_positions(0.7, v0=v)


def script_swcc(a, n, m):
    from geotecha.constitutive_models.swcc import SWCC_FredlundAndXing1994
    s = SWCC_FredlundAndXing1994(a, n, m, 0.6, 3000.0, 1)
    p = np.logspace(0, 4, 6)
    return s.w_from_psi(p), s.dw_dpsi(p), s.k_from_psi(np.array([1.0, 50.0]))


def script_pham(ws, a, b):
    from geotecha.constitutive_models.swcc import SWCC_PhamAndFredlund2008
    s = SWCC_PhamAndFredlund2008(ws, a, b, 0.1, 0.01, 3000.0, 1)
    p = np.logspace(0, 4, 6)
    return s.w_from_psi(p), s.dw_dpsi(p)


def script_pwise_soil(xlog, ylog, n):
    from geotecha.constitutive_models.void_ratio_stress import PwiseLinearSoilModel
    m = PwiseLinearSoilModel(np.array([1.0, 10.0, 50.0]), np.array([4.0, 3.0, 2.0]), Cr=0.2,
                             xlog=xlog, ylog=ylog)
    s = np.linspace(2, 45, n)
    return (m.e_from_stress(s, pstress=np.maximum(s, 20.0)),
            m.stress_from_e(np.linspace(2.2, 3.5, n), pstress=30.0),
            m.av_from_stress(s, pstress=np.maximum(s, 20.0)))


def script_polyline(a, b, c):
    from geotecha.piecewise.piecewise_linear_1d import PolyLine, polyline_make_x_common
    p = PolyLine([0, 1, 1, 2], [a, b, c, a])
    q = PolyLine([0, 0.5, 2], [1.0, a, b])
    r = PolyLine([0.0, 1.0], [1.0, 2.0], [a, b], [b, c])
    s = p + q
    return s, p - 2.0, 3.0 - p, p * 2, q / 4.0, r.xy.copy(), polyline_make_x_common(p, q, r), \
        p == q, [v.copy() for v in s.x1_x2_y1_y2]


def script_hbn(kstar, n, i0):
    from geotecha.constitutive_models.velocity_hydraulic_gradient import HansboNonDarcianFlowModel
    h = HansboNonDarcianFlowModel(kstar=kstar, n=n, i0=i0)
    g = np.linspace(0, 20, 5)
    return h.v_from_i(g), h.i_from_v(g * 0.1), h.dv_di(g + 0.1), h.klinear, h.iL


def script_function_models(b, s):
    from geotecha.constitutive_models.void_ratio_stress import FunctionSoilModel
    from geotecha.constitutive_models.void_ratio_permeability import FunctionPermeabilityModel
    m = FunctionSoilModel(cb_efs, cb_sfe, cb_afs, b=b)
    k = FunctionPermeabilityModel(cb_sfe, cb_efs, b=b)
    return m.e_from_stress(s), m.stress_from_e(s), m.av_from_stress(s), k.e_from_k(s), k.k_from_e(s)


def script_xie(qp, H, drn):
    from geotecha.consolidation.xieandleo2004 import XieAndLeo2004
    x = XieAndLeo2004(qu=100.0, qp=qp, H=H, Hw=1.0, kv0=1e-9, mvl=4e-4, e00=3.0, Gs=2.75,
                      gamw=10.0, drn=drn, nterms=20)
    a = np.linspace(0, H, 4)
    t = np.array([1e6, 1e8])
    f = 'PTIB' if drn else 'PTPB'
    return tuple(getattr(x, n + '_' + f)(a, t) for n in (
        'u', 'settlement')) + (
        getattr(x, 'Us_' + f)(t),)


def script_talbot(n, t, a):
    from geotecha.mathematics.laplace import Talbot
    f = Talbot(cb_lap, n=n)
    return f(np.array([t, 2 * t]), args=(a,)), f(t, args=(a + 1,))


def script_mptalbot(n, t, a):
    from geotecha.mathematics.mp_laplace import Talbot
    f = Talbot(cb_lap, n=n)
    return [float(v) for v in f(np.array([t, 2 * t]), args=(a,))]


def script_fourier(b, s1, s2):
    from geotecha.mathematics.fourier import FourierTransform
    f = FourierTransform(cb_gauss, func_is_real=True, real_part_even=True, b=b)
    return f(s1), f(s2)


def script_hankel(m, r1, r2, order):
    from geotecha.mathematics.hankel import HankelTransform
    h = HankelTransform(cb_hankel, order=order, m=m, points=[0.0, 0.5], ng=10, ng0=20)
    return h(r1), h(r2)


SCRIPTS = {k[7:]: v for k, v in list(globals().items()) if k.startswith('script_')}


# ------------------------------------------------------------------ encoding
class CB:
    def __init__(self, name):
        self.name = name


class FN:
    def __init__(self, name):
        self.name = name


class NEW:
    def __init__(self, cls, *args, **kw):
        self.cls, self.args, self.kw = cls, args, kw


def enc(x):
    if x is None or isinstance(x, (bool, str, int)):
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else {'f': repr(x)}
    if isinstance(x, np.ndarray):
        return {'a': x.tolist(), 'd': str(x.dtype), 's': list(x.shape)}
    if isinstance(x, list):
        return {'l': [enc(v) for v in x]}
    if isinstance(x, tuple):
        return {'t': [enc(v) for v in x]}
    if isinstance(x, dict):
        return {'m': [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, CB):
        return {'cb': x.name}
    if isinstance(x, FN):
        return {'fn': 'geotecha.' + x.name}
    if isinstance(x, NEW):
        return {'new': {'cls': 'geotecha.' + x.cls, 'args': [enc(v) for v in x.args],
                        'kw': {k: enc(v) for k, v in x.kw.items()}}}
    raise TypeError(x)


def C(call, *args, **kw):
    return {'call': call if call.startswith('script:') else 'geotecha.' + call,
            'args': [enc(v) for v in args], 'kw': {k: enc(v) for k, v in kw.items()}}


def PL(x, y):
    return NEW('piecewise.piecewise_linear_1d:PolyLine', list(x), list(y))


def hand():
    A = np.array
    z3 = A([0.0, 0.4, 1.0])
    t3 = A([0.01, 0.1, 0.7])
    pw = 'piecewise.piecewise_linear_1d:'
    return [
        C('consolidation.terzahi:terzaghi_1d', z3, t3, 1, 1, 0.1, 10, 1, 20),
        C('consolidation.terzahi:terzaghi_1d', A([0.1, 0.5]), A([0.05]), 2.0, 1.5, 0.2, 10, 2, 30),
        C('consolidation.terzahi:terzaghi_1d_flowrate', z3, t3, nterms=20),
        C('consolidation.cosenzaandkorosak2014:cosenzaandkorosak2014', z3, t3, 0.5, 0.8,
          nterms=12),
        C('consolidation.cosenzaandkorosak2014:cosenzaandkorosak2014', z3, t3, 0.3, 0.6, A([0.2]),
          nterms=12),
        C('consolidation.dengetal2013and2014:dengetal2014', z3, t3, 0.05, 0.6, 0.1, 1.0, 0.1, 0.5,
          20.0, nterms=10),
        C('consolidation.luetal2010:luetal2010', z3, t3, 0.05, 0.6, 1.0, 0.1, 0.5, kvc=20.0, khc=15.0, nterms=10),
        C('consolidation.luetal2010:luetal2010', z3, A([0.2, 0.3]), 0.05, 0.6, 2.0, 0.1, 0.5,
          kvc=9.0, nterms=10),
        C('consolidation.shanetal2012:shanetal2012', A([0.0, 2.0, 5.0]), A([0.1, 10.0, 100.0]), 10,
          -0.75, -5e-8, -0.0775134, -6.44e-6, 1, 0.25, 0.155026, (40.0, 40.0), (20.0, 20.0), 10),
        C('consolidation.zhuandyin2012:zhuandyin2012', z3, t3, 1, 2, 0.5, 0, nterms=6),
        C('consolidation.zhuandyin2012:zhuandyin2012', z3, t3, 0.5, 1.0, 1.2, 1, nterms=6),
        C('consolidation.tangandonitsuka2000:tangandonitsuka2000', z3, t3, 10, 10, 10, 1, 1, 10,
          0.5, 5.0, 20.0, 1, 0, ((0, 0.15, 0.3), (0, 50.0, 50.0)), nterms=6),
        C('consolidation.smear_zones:drain_eta', 0.6, CB('mu'), 20.0, 2.0, 3.0),
        C('consolidation.smear_zones:drain_eta', 0.6, FN('consolidation.smear_zones:mu_ideal'),
          20.0),
        C('consolidation.smear_zones:back_calc_drain_spacing_from_eta', 5.0, 't',
          FN('consolidation.smear_zones:mu_constant'), 0.05, 2.0, 3.0),
        C('consolidation.smear_zones:back_calc_drain_spacing_from_eta', 5.0, 's', CB('mu'), 0.05,
          2.0, 3.0),
        C('consolidation.smear_zones:non_darcy_drain_eta', 1.0, 10.0, 10.0,
          FN('consolidation.smear_zones:non_darcy_beta_ideal'), 20.0, nflow=1.3),
        C('mathematics.root_finding:find_n_roots', CB('sin'), (), 3, 0.5, 0.3),
        C('mathematics.root_finding:find_n_roots', CB('char'), (), 2, 0.01, 0.05, max_iter=500),
        C('mathematics.root_finding:fixed_point_no_accel', CB('fixed'), 1.2, (10.0, 3.0)),
        C('mathematics.root_finding:fixed_point_no_accel', CB('fixed'), 1.5, (4.0, 2.0), 1e-6),
        C('mathematics.quadrature:gk_quad', CB('osc'), 0.0, 2.0, n=10),
        C('mathematics.quadrature:gk_quad', CB('poly'), A([0.0, 1.0]), A([1.0, 3.0]), (0.5,), n=7,
          sum_intervals=True),
        C('mathematics.quadrature:gl_quad', CB('osc'), 0.0, 2.0, n=12),
        C('mathematics.quadrature:gl_quad', CB('decay'), A([0.0, 1.0, 2.0, 3.0]),
          A([1.0, 2.0, 3.0, 4.0]), (0.7,), n=5, shanks_ind=1, sum_intervals=True),
        C('mathematics.quadrature:gauss_legendre_abscissae_and_weights', 4),
        C('mathematics.quadrature:gauss_legendre_abscissae_and_weights', 8),
        C('mathematics.quadrature:gauss_legendre_abscissae_and_weights', 32),
        C('mathematics.quadrature:shanks_table', A([1.0, 1.5, 1.75, 1.875, 1.93])),
        C('mathematics.fourier:cosine_transform', CB('decay'), 1.5, (0.5,)),
        C('mathematics.fourier:sine_transform', CB('gauss'), 0.7),
        C('mathematics.fourier:sine_transform', CB('decay'), 0.7, (2.0,), 0.0, 3.0),
        C('mathematics.fourier:vcosine_transform', CB('gauss'), A([0.5, 1.5]), m=6, ng=5),
        C('mathematics.fourier:v2dcosine_transform', CB('gauss2'), A([0.5, 1.5]), A([0.3, 0.4]),
          m=4, ng=4),
        C('mathematics.hankel:vhankel_transform', CB('hankel'), A([0.5, 1.5]), m=6, ng=6),
        C('mathematics.hankel:vhankel_transform', CB('hankel'), A([0.5, 1.5]), (), 1, 6, 6, -3),
        C('mathematics.multi_transform:ntransform', CB('two'), ['Fourier', 'Fourier'], (1.1, 1.2),
          (1.8, 2.2), [{'func_is_real': True, 'real_part_even': True, 'b': 4}] * 2),
        C('mathematics.multi_transform:ntransform', CB('lf'), ['Laplace_inverse', 'Fourier'],
          (1.1, 1.2), (1.8, 0.5), [{'n': 12}, {'func_is_real': True, 'real_part_even': True,
                                               'b': 4}]),
        C('constitutive_models.swcc:karel_air_from_saturation', A([0.2, 0.5, 0.9]), 0.5),
        C('beam_on_foundation.specbeam:DAFinfinite', 0.4, 0.1, 2.0),
        C('beam_on_foundation.specbeam:DAFinfinite', 0.9, 0.2),
        C('beam_on_foundation.specbeam:DAFrelative', 0.3, 0.2, 4.0),
        C('beam_on_foundation.specbeam:point_load_static_defl_shape_function',
          A([-1.0, 0.0, 2.0]), 1.5, 0.5),
        C('beam_on_foundation.specbeam:multi_static', A([0.0, 1.0]), A([1.0, 2.0]), 1, (-5, 5), 40,
          1.5),
        C('beam_on_foundation.specbeam:moving_load_on_beam_on_elastic_foundation', 0.5, 0.2,
          (-4, 4), 31),
        C('beam_on_foundation.specbeam:tanhtran', A([0.0, 1.0, 2.0]), 1.0, 2.0),
        C('beam_on_foundation.specbeam:tanhtrani', A([0.3, 0.6]), 1.0, 2.0),
        C('beam_on_foundation.specbeam:tanhtranib', 1.3, 0.7, 1.0),
        C('beam_on_foundation.specbeam:static_point_load_shape', A([0.0, 1.0, 2.0]), 1.5),
        C('beam_on_foundation.specbeam:reverse_curve_transition', A([0.0, 0.3, 1.0, 2.0]), 0.2,
          1.0, 1.5, 3.0),
        C(pw + 'pavg_x1_x2_y1_y2_between_xi_xj', PL([0, 1, 2], [1, 3, 2]), A([0.1, 0.5]),
          A([0.9, 1.7])),
        C(pw + 'polyline_make_x_common', PL([0, 1, 2], [1, 3, 2]), PL([0, 0.4, 2], [5, 1, 2]),
          PL([2, 1, 1, 0], [1, 2, 4, 2])),
        C(pw + 'PolyLine.__add__', PL([0, 1, 1, 2], [1, 3, 4, 2]), PL([0, 0.4, 2], [5, 1, 2])),
        C(pw + 'PolyLine.__add__', PL([0, 1, 1, 2], [1, 3, 4, 2]), 2.5),
        C(pw + 'PolyLine.__sub__', PL([0, 1, 1, 2], [1, 3, 4, 2]), PL([0, 0.4, 2], [5, 1, 2])),
        C(pw + 'PolyLine.__rsub__', PL([0, 1, 1, 2], [1, 3, 4, 2]), 1.5),
        C(pw + 'PolyLine.__mul__', PL([0, 1, 1, 2], [1, 3, 4, 2]), 1.5),
        C(pw + 'PolyLine.__rmul__', PL([0, 1, 1, 2], [1, 3, 4, 2]), -2.0),
        C(pw + 'PolyLine.__truediv__', PL([0, 1, 1, 2], [1, 3, 4, 2]), 1.5),
        C(pw + 'PolyLine.__rtruediv__', PL([0, 1, 1, 2], [1, 3, 4, 2]), 1.5),
        C(pw + 'PolyLine.__eq__', PL([0, 1, 1, 2], [1, 3, 4, 2]), PL([0, 1, 1, 2], [1, 3, 4, 2])),
        C(pw + 'PolyLine.__repr__', PL([0, 1, 1, 2], [1, 3, 4, 2])),
        C(pw + 'PolyLine.__str__', NEW(pw + 'PolyLine', A([[0.0, 1.0], [2.0, 3.0]]))),
        C(pw + 'PolyLine.__add__', NEW(pw + 'PolyLine', A([0.0, 1.0]), A([1.0, 2.0]),
                                       A([3.0, 4.0]), A([4.0, 6.0])), 1.5),
        C('script:beam', 6, 0.5, 3),
        C('script:beam', 5, 0.8, 3, 'SS', 2),
        C('script:beam', 6, 0.5, 3, 'SS', 0, 1),
        C('script:ding', 3, 0.01, 'SS'),
        C('script:yg', 0.2, 0.04, 0.01, 0.95, 1.0),
        C('script:mvpl', 3.0, 10.0, 0.0),
        C('script:mvpl', -3.0, 10.0, 1.0),
        C('script:swcc', 100.0, 2.0, 1.0),
        C('script:pham', 0.6, 1.5, 0.7),
        C('script:pwise_soil', True, False, 5),
        C('script:pwise_soil', False, True, 4),
        C('script:pwise_soil', True, True, 4),
        C('script:polyline', 1.0, 2.0, 4.0),
        C('script:hbn', 2.0, 1.3, 6.0),
        C('script:function_models', 3.0, 1.5),
        C('script:xie', 10.0, 8.0, 1),
        C('script:xie', 10.0, 8.0, 0),
        C('script:talbot', 18, 0.7, 1.5),
        C('script:mptalbot', 10, 0.7, 1.5),
        C('script:fourier', 4.0, 0.5, 1.5),
        C('script:epus', 'fortran', 40, 30, 6, 20.0, 1),
        C('script:epus', 'fortran', 60, 25, 5, 800.0, 1),
        C('script:epus', 'fortran', 60, 400, 5, 2000.0, 1),
        C('script:epus', 'scalar', 20, 12, 5, 200.0, 0),
        C('script:epus_profile', 5.0, 10.0, 4),
        C('script:hankel', 5, 0.5, 1.5, 0),
        C('script:hankel', 5, 0.5, 1.5, 1),
    ]


_loaded = {}


def cases():
    """[{'call', 'args', 'kw'}, ...]; constructors have call 'new'."""
    if 'cases' not in _loaded:
        rec = json.load(open(os.path.join(HERE, 'calls.json')))
        _loaded['cases'] = hand() + rec
    return _loaded['cases']


def decks():
    if 'decks' not in _loaded:
        _loaded['decks'] = json.load(open(os.path.join(HERE, 'decks.json')))
    return _loaded['decks']


def name_of(case):
    return case['call'] if case['call'] != 'new' else 'new ' + case['cls']


# ------------------------------------------------------------------ decoding
def resolve(name):
    mod, _, q = name.partition(':')
    x = importlib.import_module(mod)
    for p in q.split('.'):
        x = getattr(x, p)
    return x


def dec(e, shared=None, wrap=None):
    if not isinstance(e, dict):
        return e
    if 'f' in e:
        return float(e['f'])
    if 'a' in e:
        if 's' not in e:
            re, im = e['a']
            return (np.array(re) + 1j * np.array(im)).astype(e['d'])
        return np.array([float(v) if isinstance(v, str) else v for v in e['a']]
                        if e['a'] and isinstance(e['a'][0], str) else e['a'],
                        dtype=e['d']).reshape(e['s'])
    if 'n' in e:
        return np.dtype(e['d']).type(e['n'])
    if 'l' in e:
        return [dec(v, shared, wrap) for v in e['l']]
    if 't' in e:
        return tuple(dec(v, shared, wrap) for v in e['t'])
    if 'm' in e:
        return {dec(k): dec(v, shared, wrap) for k, v in e['m']}
    if 'P' in e:
        return resolve('geotecha.piecewise.piecewise_linear_1d:PolyLine')(*e['P'])
    if 'sl' in e:
        return slice(*[dec(v) for v in e['sl']])
    if 'c' in e:
        return complex(*e['c'])
    if 'fn' in e:
        return resolve(e['fn'])
    if 'cb' in e:
        f = CALLBACKS[e['cb']]
        return wrap(f) if wrap else f
    if 'new' in e:
        c = e['new']
        return resolve(c['cls'])(*[dec(v, shared, wrap) for v in c['args']],
                                 **{k: dec(v, shared, wrap) for k, v in c['kw'].items()})
    if 'sh' in e:
        return shared[e['sh']]
    raise ValueError(e)


def target(case):
    n = name_of(case)
    if n.startswith('new '):
        return resolve(n[4:])
    if n.startswith('script:'):
        return SCRIPTS[n[7:]]
    return resolve(n)


def prepare(case, shared=None, wrap=None):
    """(function, args, kwargs) with fresh arguments."""
    return (target(case), [dec(v, shared, wrap) for v in case['args']],
            {k: dec(v, shared, wrap) for k, v in case['kw'].items()})


# ------------------------------------------------------------------ results
def canon(x, d=0):
    """JSON form of a result or argument; arrays and numbers by value."""
    if d > 7:
        return ['deep']
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, (int, np.integer)):
        return ['#i', int(x)] if abs(int(x)) < 2 ** 53 else ['#I', str(x)]
    if isinstance(x, (float, np.floating)):
        return ['#f', _num(float(x))]
    if isinstance(x, (complex, np.complexfloating)):
        return ['#c', _num(x.real), _num(x.imag)]
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'fiub':
            return ['#a', list(x.shape), [_num(float(v)) for v in x.ravel()]]
        if x.dtype.kind == 'c':
            return ['#a', list(x.shape) + ['c'], [_num(float(v)) for v in x.ravel().real] +
                    [_num(float(v)) for v in x.ravel().imag]]
        return ['#A', list(x.shape), [canon(v, d + 1) for v in x.ravel().tolist()]]
    if isinstance(x, (list, tuple)):
        return ['l', [canon(v, d + 1) for v in x]]
    if isinstance(x, dict):
        return ['m', sorted(([str(k), canon(v, d + 1)] for k, v in x.items()),
                            key=lambda p: p[0])]
    cls = type(x).__name__
    mod = type(x).__module__
    if cls == 'PolyLine':
        return ['P', canon(np.asarray(x.x)), canon(np.asarray(x.y))]
    if cls in ('mpf', 'mpc'):
        return ['#c', _num(float(x.real)), _num(float(x.imag))]
    if mod.startswith('geotecha.'):
        if callable(x) and not hasattr(x, '__dict__'):
            return ['fn', cls]
        return ['o', cls, sorted(([k, canon(v, d + 1)] for k, v in vars(x).items()
                                  if not k.startswith('_') and plain(v)), key=lambda p: p[0])]
    if inspect.isfunction(x) or inspect.isbuiltin(x) or inspect.isclass(x):
        return ['fn', getattr(x, '__qualname__', '?')]
    if isinstance(x, slice):
        return ['s', repr(x)]
    if mod.startswith('matplotlib'):
        return ['mpl', cls]
    return ['x', cls]


def plain(v):
    return not (callable(v) and type(v).__module__ == 'functools')


def _num(v):
    return v if math.isfinite(v) else repr(v)


def same(a, b, rtol=1e-8, scale=None):
    """None when equal up to rounding, else where and how they differ."""
    if type(a) is not type(b):
        return 'type %r / %r' % (short(a), short(b))
    if isinstance(a, list):
        if a and b and a[0] in ('#f', '#i', '#c') and b[0] in ('#f', '#i', '#c') and len(a) == len(b):
            if a[0] != b[0]:
                return '%s / %s' % (a, b)
            for p, q in zip(a[1:], b[1:]):
                if not close(p, q, rtol, scale):
                    return '%r / %r' % (p, q)
            return None
        if a and b and a[0] == '#a' and b[0] == '#a':
            if a[1] != b[1]:
                return 'shape %s / %s' % (a[1], b[1])
            s = max([abs(v) for v in b[2] if not isinstance(v, str)] or [0.0])
            for i, (p, q) in enumerate(zip(a[2], b[2])):
                if not close(p, q, rtol, s):
                    return 'element %d: %r / %r' % (i, p, q)
            return None
        if len(a) != len(b):
            return 'length %d / %d' % (len(a), len(b))
        for i, (p, q) in enumerate(zip(a, b)):
            w = same(p, q, rtol, scale)
            if w:
                return '[%d] %s' % (i, w)
        return None
    if isinstance(a, float):
        return None if close(a, b, rtol, scale) else '%r / %r' % (a, b)
    return None if a == b else '%r / %r' % (short(a), short(b))


def close(p, q, rtol, scale):
    if isinstance(p, str) or isinstance(q, str):
        return p == q
    return abs(p - q) <= rtol * max(abs(p), abs(q)) + 1e-11 * (scale or 0.0) + 1e-300


def short(x):
    s = repr(x)
    return s if len(s) < 120 else s[:117] + '...'


def outcome(fn, args, kw):
    """['ok', canonical result, raw] or ['exc', type name, raw]"""
    try:
        with np.errstate(all='ignore'):
            r = fn(*args, **kw)
        return ['ok', canon(r), r]
    except (Exception, SystemExit) as e:
        return ['exc', type(e).__name__, e]


def agree(got, want):
    if got[0] != want[0]:
        return '%s / %s' % (brief(got), brief(want))
    if got[0] == 'exc':
        return None if got[1] == want[1] else 'raised %s / %s' % (got[1], want[1])
    return same(got[1], want[1])


def brief(o):
    if o[0] == 'exc':
        return 'raised %s (%s)' % (o[1], str(o[2])[:200] if len(o) > 2 else '')
    return 'returned ' + short(o[1])


# ------------------------------------------------------------------ neighbours
def leaves(e, path=()):
    """Paths of numbers, strings and bools inside an encoded value."""
    if isinstance(e, bool) or isinstance(e, (int, float)):
        yield path, e
    elif isinstance(e, dict):
        if 'a' in e and 's' in e:
            for p, v in _walk(e['a'], path + ('a',)):
                yield p, v
        elif 'n' in e:
            yield path + ('n',), e['n']
        elif 'l' in e or 't' in e:
            k = 'l' if 'l' in e else 't'
            for i, v in enumerate(e[k]):
                yield from leaves(v, path + (k, i))
        elif 'm' in e:
            for i, (_, v) in enumerate(e['m']):
                yield from leaves(v, path + ('m', i, 1))
        elif 'P' in e:
            for p, v in _walk(e['P'], path + ('P',)):
                yield p, v
        elif 'new' in e:
            for i, v in enumerate(e['new']['args']):
                yield from leaves(v, path + ('new', 'args', i))
            for k in sorted(e['new']['kw']):
                yield from leaves(e['new']['kw'][k], path + ('new', 'kw', k))


def _walk(x, path):
    if isinstance(x, list):
        for i, v in enumerate(x):
            yield from _walk(v, path + (i,))
    elif isinstance(x, (int, float)):
        yield path, x


def case_leaves(case):
    out = []
    for i, v in enumerate(case['args']):
        out += [(('args', i) + p, x) for p, x in leaves(v)]
    for k in sorted(case['kw']):
        out += [(('kw', k) + p, x) for p, x in leaves(case['kw'][k])]
    return out


def put(case, path, v):
    c = copy.deepcopy(case)
    x = c
    for p in path[:-1]:
        x = x[p]
    x[path[-1]] = v
    return c


def neighbour(rng, case, fact=(0.5, 0.9, 0.97, 1.03, 1.1, 1.5)):
    """The same call with one number changed a little (ints stay small)."""
    ls = [(p, x) for p, x in case_leaves(case) if not isinstance(x, bool)]
    if not ls:
        return None
    # one argument at a time: choose the argument first, then the number in it
    groups = {}
    for p, x in ls:
        groups.setdefault(p[:2], []).append((p, x))
    p, x = rng.choice(groups[rng.choice(sorted(groups, key=str))])
    if isinstance(x, int):
        if abs(x) > 60:
            v = x - 1
        else:
            v = x + rng.choice([1, 1, 2]) if x >= 0 else x - 1
    else:
        v = x * rng.choice(fact) if x else rng.choice([0.01, 0.1])
    return put(case, p, v)


def groups(case):
    """The arguments of a call: [('args', i) | ('kw', name), ...]"""
    return [('args', i) for i in range(len(case['args']))] + \
        [('kw', k) for k in sorted(case['kw'])]


def change(rng, case, group, others=()):
    """The same call with something changed in one argument, or None."""
    e = case[group[0]][group[1]]
    if isinstance(e, bool):
        return put(case, group, not e)
    ls = [(p, x) for p, x in leaves(e)]
    nums = [(p, x) for p, x in ls if not isinstance(x, bool)]
    if nums and rng.random() < 0.9:
        p, x = rng.choice(nums)
        if isinstance(x, int):
            v = x - 1 if abs(x) > 60 or x < 0 else x + rng.choice([1, 1, 2])
        else:
            v = x * rng.choice((0.5, 0.9, 0.97, 1.03, 1.1, 1.5)) if x else \
                rng.choice([0.01, 0.1])
        return put(case, group + p, v)
    alt = []
    for c in others:
        try:
            v = c[group[0]][group[1]]
        except (KeyError, IndexError):
            continue
        if v != e and v not in alt:
            alt.append(v)
    if alt:
        return put(case, group, rng.choice(alt))
    if ls:
        p, x = rng.choice(ls)
        if isinstance(x, bool):
            return put(case, group + p, not x)
    return None


def arrays_in(e):
    """Does the encoded value hold an array or list that can be edited in place?"""
    if isinstance(e, dict):
        if 'a' in e and 's' in e and e['d'].startswith('float') and e['a']:
            return True
        if 'l' in e and any(isinstance(v, float) for v in e['l']):
            return True
    return False


def assign(old, new):
    """Copy the content of `new` into the arrays and lists of `old`, in place."""
    if isinstance(old, np.ndarray) and isinstance(new, np.ndarray) and old.shape == new.shape:
        old[...] = new
        return True
    if isinstance(old, list) and isinstance(new, list) and len(old) == len(new):
        old[:] = new
        return True
    return False


def scribble(x, d=0):
    """Overwrite every writable float array (and list of numbers) inside a result."""
    n = 0
    if d > 4:
        return 0
    if isinstance(x, np.ndarray):
        try:
            if x.dtype.kind in 'fc' and x.size:
                x[...] = -7777.25
                n += 1
            elif x.dtype.kind in 'iu' and x.size:
                x[...] = 77
                n += 1
        except ValueError:
            pass
    elif isinstance(x, list):
        for v in x:
            n += scribble(v, d + 1)
        if x and all(isinstance(v, (int, float)) for v in x):
            x[:] = [-7777.25] * len(x)
            n += 1
    elif isinstance(x, tuple):
        for v in x:
            n += scribble(v, d + 1)
    elif isinstance(x, dict):
        for v in x.values():
            n += scribble(v, d + 1)
    return n


def preload():
    import warnings
    warnings.simplefilter('ignore')
    for c in cases():
        n = name_of(c)
        n = n[4:] if n.startswith('new ') else n
        if not n.startswith('script:'):
            importlib.import_module(n.partition(':')[0])
    for m in ('piecewise.piecewise_linear_1d', 'mathematics.laplace', 'mathematics.mp_laplace',
              'mathematics.fourier', 'mathematics.hankel', 'mathematics.multi_transform',
              'mathematics.quadrature', 'constitutive_models.swcc', 'speccon.speccon1d_vr',
              'speccon.speccon1d_vrw', 'speccon.speccon1d_vrc', 'speccon.speccon1d_unsat',
              'consolidation.schiffmanandstein1970', 'consolidation.nogamiandli2003',
              'beam_on_foundation.specbeam', 'beam_on_foundation.dingetal2012',
              'constitutive_models.epus', 'plotting.one_d', 'inputoutput.inputoutput'):
        importlib.import_module('geotecha.' + m)
    import scipy.integrate, scipy.optimize, scipy.special, scipy.interpolate, mpmath  # noqa
