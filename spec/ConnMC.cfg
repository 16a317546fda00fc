CONSTANTS Which = "P09"  Depth = 5  Gen = FALSE  NONE = "-"  NET = "netA"
SPECIFICATION Spec
VIEW Vw
INVARIANTS OneConnection OneLogin LoggedInIfLive SilentIsDropped LoginNick NickKnown
PROPERTIES StaysOff LossWaits Attempted Disconnects Rejoins RejoinsAll NeverWhileTalking
