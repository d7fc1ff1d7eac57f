SPECIFICATION Spec
CONSTANT Aspects = {"layout", "data"}
