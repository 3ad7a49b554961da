"""Farfalle blocks"""
import ai
def check(rep):
    ai.check(rep, "P15", "every input block is masked, permuted and accumulated once in order, and every output block is derived once in order from the rolled accumulator", "Abstract interpretation of the library code, linked with contract models of the layer below and driven by a most-general client (any call sequence, any arguments); every assertion of the models and every memory access is an obligation that must be established in all abstract states.", 4, mem=False)
