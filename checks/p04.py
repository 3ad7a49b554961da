"""capacity never exposed or overwritten"""
import ai
def check(rep):
    ai.check(rep, "P04", "every state access of the sponge and duplex layers stays inside the outer part", "Abstract interpretation of the library code, linked with contract models of the layer below and driven by a most-general client (any call sequence, any arguments); every assertion of the models and every memory access is an obligation that must be established in all abstract states.", 20, mem=False)
