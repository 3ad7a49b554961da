"""bytes are absorbed and squeezed once, in order"""
import ai
def check(rep):
    ai.check(rep, "P01", "at every call into the layer below, the byte range is the next one of the caller's input or output and the block position is respected", "Abstract interpretation of the library code, linked with contract models of the layer below and driven by a most-general client (any call sequence, any arguments); every assertion of the models and every memory access is an obligation that must be established in all abstract states.", 60, mem=False)
