"""tree hashing leaves"""
import ai
def check(rep):
    ai.check(rep, "P17", "each block of the input becomes one leaf, whose chaining value reaches the final node in order", "Abstract interpretation of the library code, linked with contract models of the layer below and driven by a most-general client (any call sequence, any arguments); every assertion of the models and every memory access is an obligation that must be established in all abstract states.", 4, mem=False)
