CONSTANTS
  Configs <- MyConfigs
  Packets <- MyPackets
  Raw <- MyRaw
  Reasons <- MyReasons
  Data <- MyData
  Errs <- MyErrs
  MaxDepth <- MyDepth
  CountTo <- MyCount
SPECIFICATION Spec
VIEW View
PROPERTY StepProps
PROPERTY MyProps
CHECK_DEADLOCK FALSE
