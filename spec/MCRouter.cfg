CONSTANTS
  Keys = {1, 2}
  Clients <- TwoClients
  Servers <- TwoServers
  Only <- Everything
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Edge
PROPERTIES Newest Accepted
CHECK_DEADLOCK FALSE
