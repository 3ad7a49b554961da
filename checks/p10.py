"""mandated number of rounds"""
import ai
def check(rep):
    ai.check(rep, "P10", "every permutation call requests the mode's number of rounds", "Abstract interpretation of the library code, linked with contract models of the layer below and driven by a most-general client (any call sequence, any arguments); every assertion of the models and every memory access is an obligation that must be established in all abstract states.", 6, mem=False)
