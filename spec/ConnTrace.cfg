CONSTANTS NONE = "-"  NET = "netA"
SPECIFICATION Spec
