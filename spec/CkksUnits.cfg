SPECIFICATION Spec
CONSTANTS
 MaxM = 24
 Chains <- ChainsQ
 Convs <- ConvsQ
 NttCases <- NttQ
INVARIANTS BarrettInv RescaleInv BconvInv DownInv NttInv
CHECK_DEADLOCK FALSE
