------------------------------- MODULE T_C23H -------------------------------
EXTENDS C23, ConfH
=============================================================================
