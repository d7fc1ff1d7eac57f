SPECIFICATION Spec
CONSTANT Aspects = {"data", "index"}
