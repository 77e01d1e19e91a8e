------------------------------- MODULE T_C16H -------------------------------
EXTENDS C16, ConfH
=============================================================================
