SPECIFICATION Spec
CONSTANT Aspects = {"layout"}
