"""Offline helper: prints the table of models used by dst/models.py (numbers are then constants there)."""
import time, warnings, numpy as np
import primpy.potentials as pp
from primpy.time.inflation import InflationEquationsT as T
from primpy.efolds.inflation import InflationEquationsN as N
from primpy.initialconditions import *
from primpy.events import *
from primpy.solver import solve
M=[('MonomialPotential',dict(p=2/3)),('MonomialPotential',dict(p=4/3)),('LinearPotential',{}),('QuadraticPotential',{}),('CubicPotential',{}),('QuarticPotential',{}),
('StarobinskyPotential',{}),('NaturalPotential',dict(phi0=10)),('NaturalPotential',dict(phi0=25)),('DoubleWell2Potential',dict(phi0=15)),('DoubleWell4Potential',dict(phi0=25)),
('TmodelPotential',dict(p=1,alpha=1)),('TmodelPotential',dict(p=2,alpha=5)),('RadionGaugePotential',dict(p=2,alpha=1.)),('RadionGaugePotential',dict(p=3,alpha=10.)),('RadionGauge2Potential',dict(alpha=10.)),
('StarobinskyGaussianDipPotential',dict(phi_feature=5.3,a_feature=1e-4,b_feature=0.02)),('StarobinskyTanhStepPotential',dict(phi_feature=5.3,a_feature=1e-4,b_feature=0.02))]
for name,kw in M:
    C=getattr(pp,name)
    try:
        Lam=C.sr_As2Lambda(A_s=2.1e-9,N_star=55,phi_star=None,**kw)[0]
    except Exception as e:
        try: Lam=C(**kw).sr_As2Lambda(A_s=2.1e-9,N_star=55,phi_star=None,**kw)[0]
        except Exception as e: print('#',name,kw,'Lam',repr(e)); Lam=3.3e-3
    pot=C(Lambda=Lam,**kw)
    try:
        phis=[float(pot.sr_N2phi(N=n)) for n in (58,70,90)]
    except Exception as e: print('#',name,'N2phi',repr(e)); phis=[6.]
    out=[]
    for E in (T,N):
        for meth in ('RK45','DOP853'):
            eq=E(K=0,potential=pot)
            ic=SlowRollIC(eq,phi_i=phis[-1],N_i=10,t_i=1e4)
            t0=time.time()
            s=solve(ic,events=[InflationEvent(eq,+1,terminal=False),InflationEvent(eq,-1,terminal=True)],method=meth)
            dt=time.time()-t0
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    s.calibrate_scale_factor(calibration_method='reheating'); r=(s.N_star,s.n_s,s.A_s)
            except Exception as e: r=repr(e)[:60]
            out.append((E.__name__[-1],meth,round(dt,3),s.t.size if E is T else s._N.size,round(float(s.N_tot),2),r))
    print(repr((name,dict(kw,Lambda=float('%.6g'%Lam)),[float('%.8g'%p) for p in phis])),',')
    for o in out: print('   #',o)
