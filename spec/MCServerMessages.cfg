CONSTANTS
  Keys = {1, 2, 3, 4}
  Channels = {1, 2}
  Clients = {1, 2}
  Self = 3
  Other = 4
  Ops <- Messages
  MaxStored = 3
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Edge
PROPERTIES OnlySigned
CHECK_DEADLOCK FALSE
