"""pyvc: a contract-based deductive verifier for (a subset of) Python, over the real source."""
