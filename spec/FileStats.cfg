SPECIFICATION Spec
CONSTANT Aspects = {"stats"}
