"""framing follows the prescribed encodings"""
import ai
def check(rep):
    ai.check(rep, "P14", "at each call of the sponge the bytes absorbed are the next ones of the prescribed encoding, and at finalization none is missing", "Abstract interpretation of the library code, linked with contract models of the layer below and driven by a most-general client (any call sequence, any arguments); every assertion of the models and every memory access is an obligation that must be established in all abstract states.", 4, mem=False)
