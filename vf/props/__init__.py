"""One module per property; MODULES maps property ids to module names."""
MODULES = {"C%02d" % i: "c%02d" % i for i in list(range(1, 25)) + [26, 27]}
