SPECIFICATION Spec
CONSTANT Aspects = {"index"}
