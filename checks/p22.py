"""Strings of the authenticated modes"""
import ai
def check(rep):
    ai.check(rep, "P22", "SANE and SANSE compress exactly the prescribed strings and derive output from the prescribed history", "Abstract interpretation of the library code, linked with contract models of the layer below and driven by a most-general client (any call sequence, any arguments); every assertion of the models and every memory access is an obligation that must be established in all abstract states.", 4, mem=False)
