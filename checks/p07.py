"""Unverified plaintext"""
import ai
def check(rep):
    ai.check(rep, "P07", "authenticated decryption succeeds only if the whole tag (or redundancy) was compared equal, and otherwise leaves a cleared plaintext buffer", "Abstract interpretation of the library code, linked with contract models of the layer below and driven by a most-general client (any call sequence, any arguments); every assertion of the models and every memory access is an obligation that must be established in all abstract states.", 4, mem=False)
