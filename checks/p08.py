"""inner failures are reported"""
import ai
def check(rep):
    ai.check(rep, "P08", "when any call into the layer below may report failure, the public function that made it returns failure", "Abstract interpretation of the library code, linked with contract models of the layer below and driven by a most-general client (any call sequence, any arguments); every assertion of the models and every memory access is an obligation that must be established in all abstract states.", 8, mem=False)
