"""A small catalogue on disk for the catalogue harnesses."""
import os

NM = ('wavelength', 'nm')


def config(path, modules=None, ref=(500.0, 'wavelength', 'nm'), file='catalogue.csv'):
    return {'Path': path, 'File': file, 'Interactive': False, 'WarnMissingPackages': False,
            'Modules': dict(modules if modules is not None else {'UserData': True}),
            'ReferenceSpectrum': {'Value': ref[0], 'SpectrumType': ref[1], 'Unit': ref[2]}}


def text_file(path, rows, head='# UNIT: nm\n', sep='\t'):
    with open(path, 'w', encoding='utf8') as f:
        f.write(head)
        for r in rows:
            f.write(sep.join(str(v) for v in r) + '\n')


def user_files(base, ns, module='UserData'):
    """files Mat0.txt, Mat1.txt, ... with constant index ns[i]"""
    d = os.path.join(base, module)
    if not os.path.isdir(d):
        os.mkdir(d)
    for i, n in enumerate(ns):
        text_file(os.path.join(d, 'Mat%d.txt' % i), [[400.0, n, 0.0], [600.0, n, 0.0]])


def catalogue(cx, ns=(1.25, 1.5, 1.75), **kw):
    base = cx.tmp()
    user_files(base, ns)
    conf = config(base, **kw)
    return cx.ok('rebuild', cx.D.Catalogue, config=conf, rebuild='All'), conf


def index_of(cx, mat):
    return cx.flat(mat.get_nk_data(cx.D.Spectrum(500.0, *NM)))[0]
