"""scenarios of known-bad mission products (C22)"""
