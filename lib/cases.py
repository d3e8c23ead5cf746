"""Workload generators shared by the evolution monitors."""
import numpy as np
import ref
from fw import rng

def dtypes(prec, field):
    if field in (ref.SAXION, ref.NAXION):
        return (np.complex128 if prec == 8 else np.complex64)
    return np.float64 if prec == 8 else np.float32

def shift(prec, field):
    """sites per vector along y in the folded layout"""
    es = np.dtype(dtypes(prec, field)).itemsize
    return 32//es

def smooth(g, shape, kmax):
    f = np.zeros(shape); z, y, x = np.meshgrid(*[2*np.pi*np.arange(s)/s for s in shape], indexing="ij")
    for _ in range(6):
        k = g.integers(-kmax, kmax+1, 3); f += g.normal()*np.cos(k[0]*z+k[1]*y+k[2]*x+g.uniform(0, 7))
    return f/np.sqrt(3.)

def saxion_field(g, shape, R, kind):
    """kind rough: independent sites; smooth: low modes with strings; vacuum: near |m|=R; ring: modulus bounded away from zero"""
    if kind == "rough": return R*(g.normal(size=shape)+1j*g.normal(size=shape))
    if kind == "ring": return R*g.uniform(0.6, 1.4, shape)*np.exp(1j*g.uniform(-np.pi, np.pi, shape))
    if kind == "smooth":
        f = smooth(g, shape, 2)+1j*smooth(g, shape, 2)
        return R*(f+0.01*(g.normal(size=shape)+1j*g.normal(size=shape)))
    if kind == "vacuum": return R*(1+0.05*g.normal(size=shape))*np.exp(1j*3*smooth(g, shape, 2))
    raise ValueError(kind)

def axion_field(g, shape, R, kind):
    if kind == "rough": return R*g.uniform(-np.pi, np.pi, shape)
    if kind == "large": return R*g.uniform(-30, 30, shape)
    if kind == "smooth": return R*(2*smooth(g, shape, 2)+0.01*g.normal(size=shape))
    if kind == "cluster": return R*(2*np.pi/3*g.integers(-1, 2, shape)+g.uniform(-.1, .1, shape))
    if kind == "tiny": return R*1e-3*g.normal(size=shape)
    raise ValueError(kind)

def blocks(g, N, Lz, sh, n=3):
    """block shapes: the default single block, and random ones incl. sizes that do not divide the lattice"""
    XC, YC = N*sh, N//sh
    return [(XC, int(g.integers(1, YC+1)), int(g.integers(1, Lz+1))) for _ in range(n)]
