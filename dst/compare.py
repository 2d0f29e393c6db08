"""Observations of a background solution and their comparison."""
import numpy as np

BASE = ['_N_beg', '_N_end', 'H_beg', 'H_end', 'phi_end', 'V_end', '_logaH_beg', '_logaH_end', 'N_tot', 'K', '_N', 'phi',
        'H', '_logaH', 'Omega_K', 'w', 'x', 't', 'eta', 'dphidt', 'dphidN', 'y', 'status', 'success', 'message',
        'independent_variable']
CALIB = ['a0', 'N0', 'Omega_K0', 'N_star', '_N_cross', '_logaH_star', 'H_star', 'delta_N_calib', 'DeltaN_minus1',
         'rho_reh_GeV', 'rho_reh_mp4', '_N_reh', 'w_reh', 'DeltaN_reh', 'N_reh', 'N_end', 'N_beg', 'N_cross', 'N_dagg',
         'N', 'a0_Mpc', 'logk', 'k_iMpc', '_k', 'cHH_Mpc', 'cHH_end_Mpc', 'inflation_mask']
SPEC = ['A_s', 'n_s', 'n_run', 'n_runrun', 'A_t', 'n_t', 'r', 'P_scalar_approx', 'P_tensor_approx']
# quantities that are logarithms or differences of logarithms: absolute rounding noise is meaningless there
LOGLIKE = {'_N_beg', '_N_end', '_logaH_beg', '_logaH_end', 'N_tot', 'N0', 'N_star', '_N_cross', '_logaH_star',
           'delta_N_calib', 'DeltaN_minus1', '_N_reh', 'DeltaN_reh', 'N_reh', 'N_end', 'N_beg', 'N_cross', 'N_dagg', 'N',
           'logk', '_logaH', '_N', 'w', 'w_reh', 'n_s', 'n_run', 'n_runrun', 'n_t', 'phi', 'phi_end', 'eta', 'dphidt',
           'dphidN', 'y', 'lnP'}
METHODS = [('CGS', 0), ('CGS', 1), ('CGS', 2), ('CGS', 3), ('LLMS', None), ('STE', None), ('ARBDS', 1), ('ARBDS', 2),
           ('ARBDS', 3)]
KGRID = np.array([1e-6, 1e-4, 2e-3, 0.05, 0.3, 4., 1e3])


def val(v):
    if v is None or isinstance(v, (str, bool)):
        return v
    try:
        return np.array(v, copy=True)
    except Exception as e:
        return 'unreadable:' + type(e).__name__


def attrs(sol, names=None):
    out = {}
    for n in (BASE + CALIB + SPEC if names is None else names):
        if n in sol:
            out[n] = val(sol[n])
    return out


def selected(sol):
    """The spectrum that amplitudes and tilts are quoted for."""
    out = {}
    for n in ('logk2logP_s', 'logk2logP_t'):
        f = sol.get(n)
        if f is not None:
            try:
                out[n] = np.array(f(np.log(KGRID)))
            except Exception as e:
                out[n] = 'exc:' + type(e).__name__
    return out


def lookup(sol, ps, method, order, k=None, held=None, **kw):
    f = sol.P_s_approx if ps == 's' else sol.P_t_approx
    if method is not None:
        kw['method'] = method
    if order is not None:
        kw['order'] = order
    return keep(held, f(KGRID.copy() if k is None else np.asarray(k, dtype=float), **kw))


def keep(held, P):
    """A copy of the result of a look-up; the result itself is kept by the caller until the end of the history."""
    out = np.array(P)
    if held is not None:
        held.append((P, out))
    return out


def altered(held):
    """Indices of results which are no longer what they were when they were handed out."""
    return [i for i, (P, was) in enumerate(held) if not np.array_equal(np.asarray(P), was, equal_nan=True)]


def lookup_buffer(sol, ps, method, order, k, bufs, held=None, **kw):
    """A look-up with an array that the caller refills for every look-up, and of which it scribbles over the result."""
    buf = bufs.setdefault(len(k), np.empty(len(k)))
    buf[:] = k
    f = sol.P_s_approx if ps == 's' else sol.P_t_approx
    if method is not None:
        kw['method'] = method
    if order is not None:
        kw['order'] = order
    P = f(buf, **kw)
    out = np.array(P)
    if not np.array_equal(buf, k):
        out = np.full(len(k), -1.)
    if isinstance(P, np.ndarray) and P.flags.writeable and P is not buf:
        P *= 0.5
    keep(held, P)
    return out


def lookups(sol, methods=METHODS):
    out = {}
    for m, o in methods:
        for ps in 'st':
            try:
                out['P_%s(%s,%s)' % (ps, m, o)] = lookup(sol, ps, m, o)
            except Exception as e:
                out['P_%s(%s,%s)' % (ps, m, o)] = 'exc:' + type(e).__name__
    return out


def full(sol):
    """Everything a user can read off the solution.  May derive spectra lazily: call it in a throw-away child."""
    out = attrs(sol)
    out.update(selected(sol))
    out.update(lookups(sol))
    return out


def same(name, a, b, rtol):
    if isinstance(a, (str, bool)) or isinstance(b, (str, bool)) or a is None or b is None:
        if isinstance(a, (str, bool)) and isinstance(b, (str, bool)) or (a is None and b is None):
            return a == b
        if isinstance(a, bool) or isinstance(b, bool):
            return bool(np.all(a == b))
        return False
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype == object or b.dtype == object:
        return repr(a) == repr(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'US' or b.dtype.kind in 'US':
        return bool(np.all(a == b))
    if a.dtype.kind == 'b' or b.dtype.kind == 'b':
        return bool(np.all(a == b))
    with np.errstate(all='ignore'):
        na, nb = np.isnan(a), np.isnan(b)
        if not np.array_equal(na, nb):
            return False
        scale = np.maximum(np.abs(a), np.abs(b))
        tol = rtol * scale
        if name.split('#')[0] in LOGLIKE:
            tol = tol + rtol
        ok = (np.abs(a - b) <= tol) | (a == b) | na
    return bool(np.all(ok))


def show(v):
    if isinstance(v, np.ndarray):
        if v.ndim == 0:
            return repr(v.item())
        if v.size > 4:
            return 'array%s[%s ... %s]' % (v.shape, v.flat[0], v.flat[v.size - 1])
        return repr(v.tolist())
    return repr(v)


def diff(ref, got, rtol=1e-9, names=None, skip=()):
    """Differences in the names that the reference has."""
    out = []
    for n in (ref if names is None else [x for x in names if x in ref]):
        if n in skip:
            continue
        if n not in got:
            out.append('%s: missing (expected %s)' % (n, show(ref[n])))
        elif not same(n, ref[n], got[n], rtol):
            out.append('%s: expected %s, got %s' % (n, show(ref[n]), show(got[n])))
    return out


def events(sol):
    """The recorded events, flattened."""
    out = {}
    for n in sorted(sol.keys()):
        if n.endswith('_events') and isinstance(sol[n], dict):
            for k in sol[n]:
                out['%s#%s' % (n, k)] = val(sol[n][k])
    return out


def background(sol):
    out = attrs(sol)
    out.update(events(sol))
    out.update(selected(sol))
    return out
