SPECIFICATION Spec
CONSTANTS
  Cap = 2
  Lens = {0, 1, 2, 3, 5}
  MaxApp = 8
  MaxFaults = 2
  MaxOps = 4
  Manifest = {TRUE, FALSE}
  DirFirst = TRUE
  Resend = FALSE
  FullLast = TRUE
INVARIANTS IsPrefixOfStream Complete NothingLost Durable ManifestAfterDir DirBeforeData
CHECK_DEADLOCK FALSE
VIEW View
