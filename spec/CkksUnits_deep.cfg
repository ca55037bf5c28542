SPECIFICATION Spec
CONSTANTS
 MaxM = 160
 Chains <- ChainsD
 Convs <- ConvsD
 NttCases <- NttD
INVARIANTS BarrettInv RescaleInv BconvInv DownInv NttInv
CHECK_DEADLOCK FALSE
