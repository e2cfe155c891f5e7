"""corpus module 14: virtual methods with class instances, lifecycle of instances of Python subclasses; with the wrapper registry"""
import gen_vobj
import sc_vobj
from vobjset import HOSTS, OBJS


def header():
    return gen_vobj.header(OBJS, HOSTS)


def source():
    return gen_vobj.source(OBJS, HOSTS)


def generate(outfile):
    from pybindgen import settings, wrapper_registry
    settings.wrapper_registry = wrapper_registry.StdMapWrapperRegistry
    gen_vobj.generate('m14', OBJS, HOSTS, outfile)


SCENARIOS = sc_vobj.scenarios(HOSTS, True, ('P10', 'P15', 'P19'))
