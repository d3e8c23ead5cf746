"""Independent numpy model of the discretised equations (fields as [z,y,x] arrays in unfolded order)."""
import numpy as np
from dataclasses import dataclass, replace

QCD0, QCD1, QCDV, QCD2, QCDL, QCDC = 1, 2, 4, 8, 16, 32
PQ1, PQ2, PQ3 = 1024, 2048, 512
EVOL_THETA, EVOL_RHO, DAMP_RHO, DAMP_ALL = 4096, 8192, 16384, 32768
SAXION, AXION, AXION_MOD, WKB, NAXION, PAXION = 1, 2, 130, 6, 512, 1024
DOUBLE, SINGLE = 8, 4
PROP_RKN4, PROP_SPEC, PROP_FSPEC, PROP_BASE = 128, 2, 4, 1

# central second-derivative weights (nearest neighbour first), the standard 2n-th order formulae
CO = {1: [1.], 2: [4/3., -1/12.], 3: [3/2., -3/20., 1/90.], 4: [8/5., -1/5., 8/315., -1/560.],
      5: [5/3., -5/21., 5/126., -5/1008., 1/3150.]}

# Runge-Kutta-Nystroem coefficients of the 4th order 4 stage method (c: kick, d: drift)
RKN4C = [0.1344961992774310892, -0.2248198030794208058, 0.7563200005156682911, 0.3340036032863214255]
RKN4D = [0.5153528374311229364, -0.085782019412973646, 0.4415830236164665242, 0.1288461583653841854]

@dataclass
class Cosmo:
    L: float = 4.; lam: float = 25000.; lz2e: float = 0.; indi3: float = 1.; gamma: float = 0.; dectime: float = -1.
    nqcd: float = 7.; nqcdr: float = 7.; pot: int = QCD1 | PQ1; frw: float = 1.; zth: float = 1e30; zre: float = 0.
    grav: float = 0.; beta: float = -1.
    def R(s, z):
        if s.frw == 1 and s.grav > 0: return z*(1+0.25*z*s.grav)
        return z**s.frw
    def Rp(s, z):                              # R'/R
        if s.frw == 1 and s.grav > 0: return (1+0.5*z*s.grav)/s.R(z)
        return s.frw/z
    def Rpp(s, z):                             # R''/R
        if s.frw == 1 and s.grav > 0: return 0.5*s.grav/s.R(z)
        return s.frw*(s.frw-1)/z**2
    def nloc(s, z):                            # local exponent of mA^2 in R
        R = s.R(z)
        if R < s.zth: return s.nqcd
        return s.nqcdr if s.zth <= s.zre and R > s.zre else 0.
    def mS2(s, z):
        f = 2. if s.pot & (PQ1 | PQ3) else 8. if s.pot & PQ2 else 0.
        return f*s.lamP(z)
    def lamP(s, z): return s.lam/s.R(z)**s.lz2e
    def mA2(s, z):
        R = s.R(z); i = s.indi3**2
        if R < s.zth: return i*R**s.nqcd
        m = i*s.zth**s.nqcd
        if s.zth <= s.zre and R > s.zre: m *= (R/s.zre)**s.nqcdr
        return m
    def cmds(s):
        return [("set", "L", s.L), ("set", "lambda", s.lam), ("set", "lz2e", s.lz2e), ("set", "indi3", s.indi3), ("set", "gamma", s.gamma),
                ("set", "dectime", s.dectime), ("set", "nqcd", s.nqcd), ("set", "nqcdr", s.nqcdr), ("set", "pot", s.pot), ("set", "frw", s.frw),
                ("set", "zth", s.zth), ("set", "zre", s.zre), ("set", "grav", s.grav), ("set", "icbeta", s.beta)]

def nb_sum(m, n):
    return sum(np.roll(m, s, a) for a in (0, 1, 2) for s in (n, -n))

def lap_fd(m, Ng, delta):
    r = np.zeros_like(m)
    for n, c in enumerate(CO[Ng], 1): r += c*(nb_sum(m, n) - 6*m)
    return r/delta**2

def wrap(d, P):
    return d - P*np.rint(d/P)

def lap_mod(m, Ng, delta, R):
    r = np.zeros_like(m); P = 2*np.pi*R
    for n, c in enumerate(CO[Ng], 1):
        for a in (0, 1, 2):
            for s in (n, -n): r += c*wrap(np.roll(m, s, a)-m, P)
    return r/delta**2

def kvec(shape, L):
    """wave vectors (physical) on a [z,y,x] lattice; x and y have N sites over L, z uses the same spacing."""
    nz, ny, nx = shape
    d = L/nx
    kz = 2*np.pi*np.fft.fftfreq(nz, d); ky = 2*np.pi*np.fft.fftfreq(ny, d); kx = 2*np.pi*np.fft.fftfreq(nx, d)
    return kz[:, None, None], ky[None, :, None], kx[None, None, :]

def lap_exact(m, L):
    kz, ky, kx = kvec(m.shape, L)
    r = np.fft.ifftn(-(kz**2+ky**2+kx**2)*np.fft.fftn(m))
    return r if np.iscomplexobj(m) else r.real

def dotc(a, b): return a.real*b.real + a.imag*b.imag

def saxion_stage(m, v, z, c, d, dz, co, lap):
    """one kick (c) + drift (d); returns new m, v. lap: Laplacian of m."""
    R, Rp, Rpp, LL, mA2 = co.R(z), co.Rp(z), co.Rpp(z), co.lamP(z), co.mA2(z)
    pot = co.pot; r2 = np.abs(m)**2
    if pot & EVOL_THETA: a = lap.copy()
    elif pot & PQ1: a = lap - m*(LL*(r2-R*R) - Rpp)
    else: raise ValueError
    if not pot & EVOL_RHO:
        q = pot & 0x3f
        if q == QCD1: a = a + mA2*R**3
        elif q == QCD2: a = a + 0.5*mA2*R*R*np.conj(m)
        elif q == QCDC: a = a + mA2*R**4*(m.imag**2 - 1j*m.real*m.imag)/np.abs(m)**3
        elif q == QCDL: a = a + mA2*R**4*np.angle(m)*(m.imag - 1j*m.real)/r2
    if pot & EVOL_THETA:
        t = 1j*m
        a = t*dotc(a, t)/r2 + Rpp*m
        v = t*dotc(v, t)/r2 + Rp*m
    dzc, dzd = dz*c, dz*d
    G = co.gamma/R
    if co.dectime > 0: G *= R*R/co.dectime
    mola = G*dzc/2
    if pot & DAMP_RHO:
        epsi = mola/(1+mola)
        v = v + a*dzc - epsi*(m/r2)*(2*(dotc(m, v) - r2*Rp) + dotc(m, a)*dzc)
    elif pot & DAMP_ALL:
        v = ((1-mola)*v + dzc*a)/(1+mola)
    else:
        v = v + a*dzc
    if pot & EVOL_RHO: v = m*dotc(m, v)/r2
    return m + dzd*v, v

def axion_acc(m, z, co, lap):
    R = co.R(z); mA2 = co.mA2(z); q = co.pot & 0x3f
    a = lap + co.Rpp(z)*m
    if q in (QCD1, QCDV, QCDC): a = a - mA2*R**3*np.sin(m/R)
    elif q == QCDL: a = a - mA2*R*R*m
    elif q == QCD2: a = a - 0.5*mA2*R**3*np.sin(2*m/R)
    return a

def step(m, v, z, dz, co, field, lapf, n=1, order=(RKN4C, RKN4D)):
    for _ in range(n):
        for c, d in zip(*order):
            if field == SAXION: m, v = saxion_stage(m, v, z, c, d, dz, co, lapf(m, z))
            else:
                v = v + c*dz*axion_acc(m, z, co, lapf(m, z)); m = m + d*dz*v
            z = z + d*dz
    return m, v, z
