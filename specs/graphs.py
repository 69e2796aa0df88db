"""C03, C12: bounded checks (random structured inputs against independent oracles); see DESIGN.md for what is out of the verifier's reach."""
from .common import *
prop("C12", rt=[("p_brep.c", "poly"), ("p_brep.c", "brep")], bounded=[("p_brep.c", "poly"), ("p_brep.c", "brep")], level="exploration")
