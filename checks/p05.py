"""out-of-phase calls refused without effect"""
import ai
def check(rep):
    ai.check(rep, "P05", "in a phase where a call is not allowed it returns an error and has written neither the instance nor an output", "Abstract interpretation of the library code, linked with contract models of the layer below and driven by a most-general client (any call sequence, any arguments); every assertion of the models and every memory access is an obligation that must be established in all abstract states.", 4, mem=False)
