CONSTANTS NONE = "-"
SPECIFICATION Spec
