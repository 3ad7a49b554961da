"""invalid parameters refused exactly"""
import ai
def check(rep):
    ai.check(rep, "P06", "success implies valid parameters, valid parameters imply success, refusal implies no write", "Abstract interpretation of the library code, linked with contract models of the layer below and driven by a most-general client (any call sequence, any arguments); every assertion of the models and every memory access is an obligation that must be established in all abstract states.", 15, mem=False)
