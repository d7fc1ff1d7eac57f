SPECIFICATION Spec
CONSTANT Aspects = {"data"}
