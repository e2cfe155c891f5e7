"""corpus module 11: custodians and wards"""
import gen_ward
import sc_ward


def header():
    return gen_ward.header()


def source():
    return gen_ward.source()


def generate(outfile):
    gen_ward.generate('m11', outfile)


SCENARIOS = sc_ward.scenarios()
