CONSTANTS
  Keys = {1, 2}
  Clients <- DatedClients
  Servers <- TwoServers
  Only <- Remote
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Edge
PROPERTIES Newest Accepted
CHECK_DEADLOCK FALSE
