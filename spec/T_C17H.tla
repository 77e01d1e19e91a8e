------------------------------- MODULE T_C17H -------------------------------
EXTENDS C17, ConfH
=============================================================================
