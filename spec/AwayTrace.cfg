
SPECIFICATION Spec
