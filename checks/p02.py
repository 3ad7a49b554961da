"""high-level code stays in bounds"""
import ai
def check(rep):
    ai.check(rep, "P02", "every load, store and buffer handed to the layer below lies inside its object", "Abstract interpretation of the library code, linked with contract models of the layer below and driven by a most-general client (any call sequence, any arguments); every assertion of the models and every memory access is an obligation that must be established in all abstract states.", 60, mem=True)
