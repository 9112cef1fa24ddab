"""Spectral data builders shared by the harnesses."""
from harness.common import *

N_MODELS = ['Sellmeier', 'Sellmeier2', 'Polynomial', 'RefractiveIndexInfo', 'Cauchy', 'Gases', 'Herzberger', 'Retro',
            'Exotic']
E_MODELS = ['Drude', 'DrudeLorentz', 'TaucLorentz']
MODELS = N_MODELS + E_MODELS
# coefficients for which the model is defined for wavelengths 0.2 .. 2 um / energies 0.5 .. 6 eV
COEF = {'Sellmeier': [0.1, 1.2, 0.05, 0.5, 10.0], 'Sellmeier2': [0.1, 1.2, 0.01, 0.5, 100.0],
        'Polynomial': [2.0, 0.1, 2.0, 0.01, -2.0], 'RefractiveIndexInfo': [2.0, 0.5, 2.0, 0.1, 2.0],
        'Cauchy': [1.5, 0.01, -2.0], 'Gases': [0.0, 0.05, 238.0, 0.002, 57.0],
        'Herzberger': [1.5, 0.01, 0.0001, -0.001, 0.0001, 0.00001], 'Retro': [0.2, 0.1, 0.01, 0.001],
        'Exotic': [2.0, 0.1, 0.01, 0.1, 0.5, 0.1], 'Drude': [8.0, 0.1], 'DrudeLorentz': [8.0, 0.5, 3.0, 0.1],
        'TaucLorentz': [20.0, 3.0, 2.0, 1.0, 1.0]}
UM = ('wavelength', 'um')
EV = ('energy', 'ev')


def own_tu(model):
    return UM if model in N_MODELS else EV


def cls(cx, name):
    return getattr(cx.mod('dispersion.spectral_data'), name)


def band(x, src, dst):
    """slack of the comparison of a point given in src with a limit x in dst"""
    return 0.0 if src == dst else REL * x + ABS[dst]
