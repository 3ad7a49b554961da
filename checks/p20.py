"""unused bits of bit strings"""
import ai
def check(rep):
    ai.check(rep, "P20", "the unused bits of the last input byte do not reach the state, those of the last output byte are zero", "Abstract interpretation of the library code, linked with contract models of the layer below and driven by a most-general client (any call sequence, any arguments); every assertion of the models and every memory access is an obligation that must be established in all abstract states.", 4, mem=False)
