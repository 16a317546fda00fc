CONSTANTS Depth = 4
          Gen = FALSE
SPECIFICATION Spec
VIEW Vw
CHECK_DEADLOCK FALSE
INVARIANTS OneToOne Names_ok RefusedIsNothing OthersAlone AskingOnly SettingsOnly RenameKeeps SavedIsKept
