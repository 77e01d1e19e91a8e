------------------------------- MODULE T_C09H -------------------------------
EXTENDS C09, ConfH
=============================================================================
