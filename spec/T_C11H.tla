------------------------------- MODULE T_C11H -------------------------------
EXTENDS C11, ConfH
=============================================================================
