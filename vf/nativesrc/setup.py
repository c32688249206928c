import numpy
from setuptools import setup, Extension
from Cython.Build import cythonize
setup(name='vfmon', ext_modules=cythonize([Extension('vfmon', ['vfmon.pyx'], include_dirs=[numpy.get_include()],
                  define_macros=[('NPY_NO_DEPRECATED_API', 'NPY_1_7_API_VERSION'),
                                 ('NPY_TARGET_VERSION', 'NPY_1_22_API_VERSION')])], language_level=3))
