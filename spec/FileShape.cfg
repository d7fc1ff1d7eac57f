SPECIFICATION Spec
CONSTANT Aspects = {"layout", "stats"}
