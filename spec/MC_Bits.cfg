SPECIFICATION Spec
CONSTANT W = 3
