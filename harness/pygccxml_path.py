"""makes pybindgen.castxmlparser importable: pygccxml and cxxfilt from the repository's environment"""
import collections
import collections.abc
import sys

sys.path.append('/opt/venv/lib/python3.12/site-packages')
if not hasattr(collections, 'Callable'):
    collections.Callable = collections.abc.Callable
