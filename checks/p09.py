"""fixed parameters of the named functions"""
import ai
def check(rep):
    ai.check(rep, "P09", "every named function hands its own rate, capacity, suffix and framing constants to the layer below", "Abstract interpretation of the library code, linked with contract models of the layer below and driven by a most-general client (any call sequence, any arguments); every assertion of the models and every memory access is an obligation that must be established in all abstract states.", 8, mem=False)
