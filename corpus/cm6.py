"""corpus module 6: virtual methods with class instances, lifecycle of instances of Python subclasses; no wrapper registry"""
import gen_vobj
import sc_vobj
from vobjset import HOSTS, OBJS


def header():
    return gen_vobj.header(OBJS, HOSTS)


def source():
    return gen_vobj.source(OBJS, HOSTS)


def generate(outfile):
    gen_vobj.generate('m6', OBJS, HOSTS, outfile)


SCENARIOS = sc_vobj.scenarios(HOSTS)
