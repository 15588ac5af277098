COMMON = ("Every obligation of the contracts is regenerated from the current source and discharged by z3, for all inputs and "
          "iterations; functions that drift out of the verifier's reach fall back to bounded random runs of the real code, "
          "reported as bounded. Assumed: the contracts of system calls and of threading primitives (stubs), the verifier "
          "itself, partial correctness.")
NOT_APPLICABLE = {}
